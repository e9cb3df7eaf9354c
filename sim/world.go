package main

import (
	"aaa"
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"cosmossdk.io/log"
	"cosmossdk.io/math"
	"cosmossdk.io/store"
	pruningtypes "cosmossdk.io/store/pruning/types"
	abci "github.com/cometbft/cometbft/abci/types"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	cmttypes "github.com/cometbft/cometbft/types"
	"github.com/cosmos/cosmos-sdk/baseapp"
	"github.com/cosmos/cosmos-sdk/client"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/module"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsign "github.com/cosmos/cosmos-sdk/x/auth/signing"
	authtx "github.com/cosmos/cosmos-sdk/x/auth/tx"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	vestingtypes "github.com/cosmos/cosmos-sdk/x/auth/vesting/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	slashingtypes "github.com/cosmos/cosmos-sdk/x/slashing/types"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"

	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"

	"defund/app"
	dexmodule "defund/x/dex/module"
	dextypes "defund/x/dex/types"
)

const chainID = "defund-sim-1"

var genesisTime = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

type Acc struct {
	Idx  int
	Priv *secp256k1.PrivKey
	Addr sdk.AccAddress
	S    string
	Num  uint64
}

type Block struct {
	Height int64
	Time   time.Time
	Txs    [][]byte
	// reference outcome, from node 0
	AppHash []byte
	Results []*abci.ExecTxResult
	Digest  string   // digest of the tx results and block events
	Snap    *Snap    // state after EndBlock
	Parts   []string // digests per transaction, then of the block events
	Events  []abci.Event
	// with validators of their own
	Proposer []byte
	Votes    []abci.VoteInfo
	Evid     []abci.Misbehavior
}

type TxRec struct {
	ID      int
	Bytes   []byte
	Step    Step
	Seqs    []uint64
	Nums    []uint64
	Created int64 // height
	Valid   bool  // signed by the right keys for the right chain
	Done    int   // times executed successfully past the ante handler
	Heights []int64
}

type World struct {
	Cfg      Config
	Accs     []*Acc
	ByAdr    map[string]*Acc
	Nodes    []*Node
	Chain    []*Block
	Txs      map[int]*TxRec
	ByRaw    map[string]*TxRec
	Stats    *Stats
	Viols    []Violation
	seen     map[string]bool
	failedBy map[string]bool // accounts whose transactions failed
	step     int
	Time     time.Time
	Halt     bool // node 0 could not produce a block
	valKey   *ed25519.PrivKey
	genesis  []byte
	genVals  []abci.ValidatorUpdate
	obs      *Observer
	pend     map[int]int // signer -> txs created since the last block
	states   map[uint64]struct{}
	verbose  bool
	txc      client.TxConfig
	forks    []*Fork
	pkts     map[string]*ibcPkt // interchain packets seen
	traced   map[string]bool    // vouchers of other chains' coins
	stk      *stakeMem
}

type Node struct {
	w      *World
	id     int
	cfg    NodeCfg
	db     *SimDB
	app    *app.App
	up     bool
	height int64 // height of the last block whose Commit returned
	inFly  int64 // height being committed when it died
	runs   uint64
	skew   int64

	traceOps int
	ints     []Int
	killTr   int
	inFinal  bool
	busy     bool
	dead     bool // gave up (a violation has been reported)
	lostRoot bool // met the storage library's trouble with small stores
	diverged bool
	dirty    bool // died in its first commit and started again
	crashes  int
	reads    int // reads, checks and simulations served
}

func (w *World) viol(props []string, key, f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	if w.Cfg.InitH > 1 && len(w.Nodes) > 1 {
		switch key {
		case "apphash-differs", "node-fails", "restart-hash", "restart-fails":
			// the storage library's trouble with such chains, told apart
			key = "initial-height:" + key
		}
	}
	for _, n := range w.Nodes {
		if n.lostRoot && key != "pruned-lone-record" && strings.Contains(msg, fmt.Sprint("node ", n.id)) {
			return
		}
	}
	if strings.Contains(msg, "ibc record ") {
		props = uniq(append(append([]string{}, props...), "C26"))
	}
	if strings.Contains(msg, "stake record ") {
		props = uniq(append(append([]string{}, props...), "C27"))
	}
	for _, p := range props {
		w.Stats.Inc("viol_"+p, 1)
	}
	k := key + "|" + strings.Join(props, ",")
	if w.seen[k] {
		return
	}
	w.seen[k] = true
	w.Viols = append(w.Viols, Violation{props, key, msg, w.step, w.height()})
	if w.verbose {
		fmt.Printf("  !! %v %s: %s (step %d, height %d)\n", props, key, msg, w.step, w.height())
	}
}

func (w *World) height() int64 { return int64(len(w.Chain)) + w.initH() - 1 }
func (w *World) initH() int64 {
	if w.Cfg.InitH > 0 {
		return w.Cfg.InitH
	}
	return 1
}
func (w *World) block(h int64) *Block { return w.Chain[h-w.initH()] }

func P(ids ...string) []string { return ids }

// ---------- construction ----------

func bigS(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 10)
	assert(ok, "bad integer %q", s)
	return v
}

func mkCoins(cs []C) sdk.Coins {
	var out sdk.Coins
	for _, c := range cs {
		out = append(out, sdk.Coin{Denom: c.D, Amount: math.NewIntFromBigInt(bigS(c.A))})
	}
	return out
}

func (pj *PJ) apply(p dextypes.Params) dextypes.Params {
	if pj == nil {
		return p
	}
	if pj.Batch != nil {
		p.BatchSize = *pj.Batch
	}
	if pj.Tick != nil {
		p.TickPrecision = *pj.Tick
	}
	if pj.FeeCol != nil {
		p.FeeCollectorAddress = *pj.FeeCol
	}
	if pj.DustCol != nil {
		p.DustCollectorAddress = *pj.DustCol
	}
	if pj.MinSupply != nil {
		p.MinInitialPoolCoinSupply = math.NewIntFromBigInt(bigS(*pj.MinSupply))
	}
	if pj.PairFee != nil {
		p.PairCreationFee = mkCoins(*pj.PairFee)
	}
	if pj.PoolFee != nil {
		p.PoolCreationFee = mkCoins(*pj.PoolFee)
	}
	if pj.MinDep != nil {
		p.MinInitialDepositAmount = math.NewIntFromBigInt(bigS(*pj.MinDep))
	}
	if pj.Ratio != nil {
		p.MaxPriceLimitRatio = math.LegacyMustNewDecFromStr(*pj.Ratio)
	}
	if pj.MMTicks != nil {
		p.MaxNumMarketMakingOrderTicks = *pj.MMTicks
	}
	if pj.MMMax != nil {
		p.MaxNumMarketMakingOrdersPerPair = *pj.MMMax
	}
	if pj.Lifespan != nil {
		p.MaxOrderLifespan = time.Duration(*pj.Lifespan)
	}
	if pj.SwapFee != nil {
		p.SwapFeeRate = math.LegacyMustNewDecFromStr(*pj.SwapFee)
	}
	if pj.WdFee != nil {
		p.WithdrawFeeRate = math.LegacyMustNewDecFromStr(*pj.WdFee)
	}
	if pj.DepGas != nil {
		p.DepositExtraGas = *pj.DepGas
	}
	if pj.WdGas != nil {
		p.WithdrawExtraGas = *pj.WdGas
	}
	if pj.OrderGas != nil {
		p.OrderExtraGas = *pj.OrderGas
	}
	if pj.MaxPools != nil {
		p.MaxNumActivePoolsPerPair = *pj.MaxPools
	}
	return p
}

// accounts are the same in every run
var accCache = map[int]*Acc{}

func account(i int) *Acc {
	if a, ok := accCache[i]; ok {
		return a
	}
	priv := secp256k1.GenPrivKeyFromSecret([]byte(fmt.Sprintf("sim-account-%d", i)))
	ad := sdk.AccAddress(priv.PubKey().Address())
	a := &Acc{Idx: i, Priv: priv, Addr: ad, S: ad.String(), Num: uint64(i)}
	accCache[i] = a
	return a
}

var valPriv = ed25519.GenPrivKeyFromSecret([]byte("sim-validator"))

func NewWorld(cfg Config) *World {
	w := &World{Cfg: cfg, Stats: NewStats(), Txs: map[int]*TxRec{}, ByRaw: map[string]*TxRec{}, seen: map[string]bool{},
		ByAdr: map[string]*Acc{}, Time: genesisTime, pend: map[int]int{}, states: map[uint64]struct{}{}, valKey: valPriv}
	for i := 0; i < cfg.NAcc; i++ {
		a := account(i)
		w.Accs = append(w.Accs, a)
		w.ByAdr[a.S] = a
	}
	SetClock(genesisTime.UnixNano())
	Reseed(mix(cfg.Seed, 0xabc))
	for i, nc := range cfg.Nodes {
		n := &Node{w: w, id: i, cfg: nc, db: NewSimDB(w.Stats), skew: nc.Skew}
		w.Nodes = append(w.Nodes, n)
	}
	w.obs = newObserver(w)
	for i, n := range w.Nodes {
		if err := n.start(); err != nil {
			panic(err)
		}
		if i == 0 {
			w.genesis = w.buildGenesis(n.app)
		}
		n.initChain()
	}
	return w
}

type appOpts map[string]interface{}

func (m appOpts) Get(k string) interface{} { return m[k] }

func (w *World) buildGenesis(a *app.App) []byte {
	cfg := w.Cfg
	gs := a.DefaultGenesis()
	cdc := a.AppCodec()

	bond := sdk.DefaultPowerReduction
	val := sdk.ValAddress(w.valKey.PubKey().Address())
	pkAny, err := codectypes.NewAnyWithValue(w.valKey.PubKey())
	must(err)

	var accs []authtypes.GenesisAccount
	var bals []banktypes.Balance
	sup := sdk.NewCoins()
	for i, ac := range w.Accs {
		base := authtypes.NewBaseAccount(ac.Addr, nil, uint64(i), 0)
		var coins sdk.Coins
		for _, d := range cfg.Denoms {
			am := math.NewIntFromBigInt(bigS(cfg.Bal[i]))
			if am.IsPositive() {
				coins = append(coins, sdk.NewCoin(d, am))
			}
		}
		coins = coins.Sort()
		var ga authtypes.GenesisAccount = base
		for vi, v := range cfg.Vest {
			if v != i || coins.Empty() {
				continue
			}
			var orig sdk.Coins
			for _, c := range coins {
				x := intB(floorQ(mul(bi(c.Amount), bigI(int64(cfg.VestPct))), bigI(100)))
				if x.IsPositive() {
					orig = append(orig, sdk.NewCoin(c.Denom, x))
				}
			}
			end := genesisTime.Add(2 * time.Hour).Unix()
			switch vi % 3 {
			case 0:
				ga, err = vestingtypes.NewDelayedVestingAccount(base, orig, end)
			case 1:
				ga, err = vestingtypes.NewContinuousVestingAccount(base, orig, genesisTime.Unix(), end)
			case 2:
				ga, err = vestingtypes.NewPermanentLockedAccount(base, orig)
			}
			must(err)
		}
		accs = append(accs, ga)
		if len(coins) > 0 {
			bals = append(bals, banktypes.Balance{Address: ac.S, Coins: coins})
			sup = sup.Add(coins...)
		}
	}
	gs["auth"] = cdc.MustMarshalJSON(authtypes.NewGenesisState(authtypes.DefaultParams(), accs))

	sp := stakingtypes.DefaultParams()
	v := stakingtypes.Validator{
		OperatorAddress: val.String(), ConsensusPubkey: pkAny, Status: stakingtypes.Bonded, Tokens: bond,
		DelegatorShares: math.LegacyNewDecFromInt(bond), UnbondingTime: time.Unix(0, 0).UTC(),
		Commission: stakingtypes.NewCommission(math.LegacyZeroDec(), math.LegacyZeroDec(), math.LegacyZeroDec()), MinSelfDelegation: math.ZeroInt(),
	}
	del := stakingtypes.NewDelegation(w.Accs[0].S, val.String(), math.LegacyNewDecFromInt(bond))
	vs, ds, pool := []stakingtypes.Validator{v}, []stakingtypes.Delegation{del}, stakingtypes.BondedPoolName
	sl := slashingtypes.DefaultGenesisState()
	if w.usesStake() {
		sp, sl.Params = w.stakeParams()
		var tot *big.Int
		vs, ds, tot = w.genesisVals()
		pool, bond = stakingtypes.NotBondedPoolName, intB(tot)
	}
	gs["staking"] = cdc.MustMarshalJSON(stakingtypes.NewGenesisState(sp, vs, ds))
	bc := sdk.NewCoin(sdk.DefaultBondDenom, bond)
	bals = append(bals, banktypes.Balance{Address: authtypes.NewModuleAddress(pool).String(), Coins: sdk.NewCoins(bc)})
	sup = sup.Add(bc)
	gs["bank"] = cdc.MustMarshalJSON(banktypes.NewGenesisState(banktypes.DefaultParams(), bals, sup, nil, nil))

	ca := sdk.ConsAddress(w.valKey.PubKey().Address())
	if !w.usesStake() {
		sl.SigningInfos = []slashingtypes.SigningInfo{{Address: ca.String(),
			ValidatorSigningInfo: slashingtypes.NewValidatorSigningInfo(ca, w.initH(), 0, time.Unix(0, 0).UTC(), false, 0)}}
	}
	gs["slashing"] = cdc.MustMarshalJSON(sl)

	var gg govv1.GenesisState
	cdc.MustUnmarshalJSON(gs["gov"], &gg)
	vp := cfg.Votes
	if vp == 0 {
		vp = 20
	}
	d1, d2, d3 := time.Duration(vp)*time.Second, time.Duration(vp)*time.Second/2, 10*time.Duration(vp)*time.Second
	gg.Params.VotingPeriod, gg.Params.ExpeditedVotingPeriod, gg.Params.MaxDepositPeriod = &d1, &d2, &d3
	gg.Params.MinDeposit = sdk.NewCoins(sdk.NewInt64Coin(sdk.DefaultBondDenom, 1000))
	gg.Params.ExpeditedMinDeposit = sdk.NewCoins(sdk.NewInt64Coin(sdk.DefaultBondDenom, 2000))
	gs["gov"] = cdc.MustMarshalJSON(&gg)

	dg := dextypes.DefaultGenesis()
	dg.Params = cfg.Params.apply(dextypes.DefaultParams())
	dg.LastPairId, dg.LastPoolId = cfg.LastPair, cfg.LastPool
	gs["dex"] = cdc.MustMarshalJSON(dg)

	bz, err := json.Marshal(gs)
	must(err)
	return bz
}

// ---------- node life ----------

func (n *Node) now() int64 {
	return n.w.Time.UnixNano() + n.skew + int64(n.runs)*1000003
}

// call runs f as one uninterrupted activity of the node's process: its own
// clock, its own runtime randomness. died reports that the process was killed
// inside; pan is the value of an uncaught panic.
func (n *Node) call(f func()) (died bool, pan interface{}) {
	n.runs++
	done := make(chan struct{})
	died = true
	SetClock(n.now())
	seed := mix(n.w.Cfg.Seed, n.cfg.MapSeed, uint64(n.id), n.runs)
	go func() {
		runtime.LockOSThread()
		defer close(done)
		defer runtime.UnlockOSThread()
		defer func() {
			if r := recover(); r != nil {
				pan = r
				died = false
				if n.w.verbose {
					fmt.Printf("panic: %v\n%s\n", r, debug.Stack())
				}
			}
		}()
		Reseed(seed)
		if dbgF != nil {
			dbg("call node %d run %d step %d", n.id, n.runs, n.w.step)
			dbg("rand %x", aaa.Rand())
		}
		f()
		if dbgF != nil {
			dbg("rand after %x", aaa.Rand())
		}
		died = false
	}()
	<-done
	n.db.moved(nil)
	if *n.db.lost && !n.lostRoot {
		n.lostRoot = true
		n.w.viol(P("C15", "C16", "C21", "C26"), "pruned-lone-record", "node %d, which prunes, lost a store with a single record: the storage library moved its root and does not find it", n.id)
		n.dead, n.up = true, false
	}
	SetClock(n.w.Time.UnixNano())
	Reseed(mix(n.w.Cfg.Seed, uint64(n.w.step), 77))
	return
}

type traceWriter struct{ n *Node }

func (t traceWriter) Write(p []byte) (int, error) { t.n.traced(); return len(p), nil }

func (n *Node) start() error {
	opts := appOpts{"home": "/nonexistent/defund-sim"}
	if n.cfg.InvCheck > 0 {
		opts["inv-check-period"] = n.cfg.InvCheck
	}
	po := pruningtypes.NewPruningOptions(pruningtypes.PruningNothing)
	switch n.cfg.Pruning {
	case "", "nothing":
	case "everything":
		po = pruningtypes.NewPruningOptions(pruningtypes.PruningEverything)
	default:
		xs := strings.Split(n.cfg.Pruning, ",")
		k, _ := strconv.Atoi(xs[0])
		i, _ := strconv.Atoi(xs[1])
		po = pruningtypes.NewCustomPruningOptions(uint64(k), uint64(i))
	}
	bo := []func(*baseapp.BaseApp){baseapp.SetPruning(po), baseapp.SetChainID(chainID), baseapp.SetMinGasPrices(n.cfg.MinGas)}
	if n.cfg.Cache > 0 {
		bo = append(bo, baseapp.SetIAVLCacheSize(n.cfg.Cache))
	}
	if n.cfg.NoFast {
		bo = append(bo, baseapp.SetIAVLDisableFastNode(true))
	}
	if n.cfg.Inter {
		bo = append(bo, baseapp.SetInterBlockCache(store.NewCommitKVStoreCacheManager()))
	}
	if n.cfg.Debug {
		bo = append(bo, baseapp.SetTrace(true))
	}
	var err error
	died, pan := n.call(func() {
		var a *app.App
		if n.cfg.Trace {
			a = app.New(log.NewNopLogger(), n.db, traceWriter{n}, false, opts, bo...)
		} else {
			a = app.New(log.NewNopLogger(), n.db, nil, false, opts, bo...)
		}
		if n.id == 0 && n.w.obs != nil {
			n.w.obs.attach(n, a)
		}
		err = a.LoadLatestVersion()
		n.app = a
	})
	if pan != nil {
		return fmt.Errorf("panic while starting: %v", pan)
	}
	if died {
		return fmt.Errorf("killed while starting")
	}
	if err != nil {
		return err
	}
	n.up = true
	n.w.Stats.Inc("node_starts", 1)
	return nil
}

func defaultConsensusParams(gas int64) *cmtproto.ConsensusParams {
	if gas == 0 {
		gas = -1
	}
	return &cmtproto.ConsensusParams{
		Block:     &cmtproto.BlockParams{MaxBytes: 2000000, MaxGas: gas},
		Evidence:  &cmtproto.EvidenceParams{MaxAgeNumBlocks: 302400, MaxAgeDuration: 504 * time.Hour, MaxBytes: 10000},
		Validator: &cmtproto.ValidatorParams{PubKeyTypes: []string{cmttypes.ABCIPubKeyTypeEd25519}},
	}
}

func (n *Node) initChain() {
	if err := n.tryInitChain(); err != nil {
		panic(err)
	}
}

func (n *Node) tryInitChain() error {
	_, pan := n.call(func() {
		res, err := n.app.InitChain(&abci.RequestInitChain{
			ChainId: chainID, Time: genesisTime, InitialHeight: n.w.initH(),
			ConsensusParams: defaultConsensusParams(n.w.Cfg.BlockGas), AppStateBytes: n.w.genesis,
		})
		must(err)
		if n.id == 0 && n.w.usesStake() {
			n.w.initStake(res.Validators)
		}
	})
	if pan != nil {
		return fmt.Errorf("InitChain: %v", pan)
	}
	n.height = n.w.initH() - 1
	return nil
}

func (w *World) finalizeReq(b *Block) *abci.RequestFinalizeBlock {
	cons := w.valKey.PubKey().Address().Bytes()
	hash := make([]byte, 32)
	for i := range hash {
		hash[i] = byte(b.Height>>(uint(i%8)*8)) ^ byte(i)
	}
	req := &abci.RequestFinalizeBlock{
		Height: b.Height, Time: b.Time, Txs: b.Txs, Hash: hash, ProposerAddress: cons, NextValidatorsHash: make([]byte, 32),
	}
	if b.Height > w.initH() {
		req.DecidedLastCommit = abci.CommitInfo{Votes: []abci.VoteInfo{{Validator: abci.Validator{Address: cons, Power: 1}, BlockIdFlag: cmtproto.BlockIDFlagCommit}}}
	}
	if w.usesStake() {
		req.ProposerAddress, req.Misbehavior = b.Proposer, b.Evid
		req.DecidedLastCommit = abci.CommitInfo{Votes: b.Votes}
	}
	return req
}

// ---------- transactions ----------

func (w *World) accS(i int) string {
	if i == -1 {
		return govAddr
	}
	if i < 0 || i >= len(w.Accs) {
		return w.Accs[0].S
	}
	return w.Accs[i].S
}

func (w *World) toAddr(s string) sdk.AccAddress {
	if strings.HasPrefix(s, "addr:") {
		a, err := sdk.AccAddressFromBech32(s[5:])
		if err == nil {
			return a
		}
		return w.Accs[0].Addr
	}
	i, _ := strconv.Atoi(s)
	if i < 0 || i >= len(w.Accs) {
		i = 0
	}
	return w.Accs[i].Addr
}

func dec(s string) math.LegacyDec {
	if s == "" {
		return math.LegacyZeroDec()
	}
	return math.LegacyMustNewDecFromStr(s)
}

func intOf(s string) math.Int {
	if s == "" {
		return math.ZeroInt()
	}
	return math.NewIntFromBigInt(bigS(s))
}

func one(cs []C) sdk.Coin {
	if len(cs) == 0 {
		return sdk.Coin{Denom: "stake", Amount: math.ZeroInt()}
	}
	return mkCoins(cs[:1])[0]
}

var kindURL = map[string]string{
	"pair": sdk.MsgTypeURL(&dextypes.MsgCreatePair{}), "pool": sdk.MsgTypeURL(&dextypes.MsgCreatePool{}), "rpool": sdk.MsgTypeURL(&dextypes.MsgCreateRangedPool{}),
	"dep": sdk.MsgTypeURL(&dextypes.MsgDeposit{}), "wd": sdk.MsgTypeURL(&dextypes.MsgWithdraw{}), "limit": sdk.MsgTypeURL(&dextypes.MsgLimitOrder{}),
	"market": sdk.MsgTypeURL(&dextypes.MsgMarketOrder{}), "mm": sdk.MsgTypeURL(&dextypes.MsgMMOrder{}), "cancel": sdk.MsgTypeURL(&dextypes.MsgCancelOrder{}),
	"cancelall": sdk.MsgTypeURL(&dextypes.MsgCancelAllOrders{}), "send": sdk.MsgTypeURL(&banktypes.MsgSend{}), "params": sdk.MsgTypeURL(&dextypes.MsgUpdateParams{}), "xfer": sdk.MsgTypeURL(&transfertypes.MsgTransfer{}),
}

func (w *World) sdkMsg(m Msg) sdk.Msg {
	s := w.accS(m.S)
	dir := dextypes.OrderDirection(m.Dir)
	life := time.Duration(m.Life)
	switch m.T {
	case "pair":
		return &dextypes.MsgCreatePair{Creator: s, BaseCoinDenom: m.Base, QuoteCoinDenom: m.Quote}
	case "pool":
		return &dextypes.MsgCreatePool{Creator: s, PairId: m.Pair, DepositCoins: mkCoins(m.Coins)}
	case "rpool":
		return &dextypes.MsgCreateRangedPool{Creator: s, PairId: m.Pair, DepositCoins: mkCoins(m.Coins), MinPrice: dec(m.Min), MaxPrice: dec(m.Max), InitialPrice: dec(m.Price)}
	case "dep":
		return &dextypes.MsgDeposit{Depositor: s, PoolId: m.Pool, DepositCoins: mkCoins(m.Coins)}
	case "wd":
		return &dextypes.MsgWithdraw{Withdrawer: s, PoolId: m.Pool, PoolCoin: one(m.Coins)}
	case "limit":
		return &dextypes.MsgLimitOrder{Orderer: s, PairId: m.Pair, Direction: dir, OfferCoin: one(m.Coins), DemandCoinDenom: m.Demand, Price: dec(m.Price), Amount: intOf(m.Amt), OrderLifespan: life}
	case "market":
		return &dextypes.MsgMarketOrder{Orderer: s, PairId: m.Pair, Direction: dir, OfferCoin: one(m.Coins), DemandCoinDenom: m.Demand, Amount: intOf(m.Amt), OrderLifespan: life}
	case "mm":
		return &dextypes.MsgMMOrder{Orderer: s, PairId: m.Pair, Direction: dir, OfferCoin: one(m.Coins), DemandCoinDenom: m.Demand, Price: dec(m.Price), Amount: intOf(m.Amt), OrderLifespan: life}
	case "cancel":
		return &dextypes.MsgCancelOrder{Orderer: s, PairId: m.Pair, OrderId: m.Order}
	case "cancelall":
		return &dextypes.MsgCancelAllOrders{Orderer: s, PairIds: m.Pairs}
	case "send":
		return &banktypes.MsgSend{FromAddress: s, ToAddress: w.toAddr(m.To).String(), Amount: mkCoins(m.Coins)}
	case "grant":
		exp := genesisTime.Add(1000 * time.Hour)
		g, err := authz.NewMsgGrant(w.toAddr(fmt.Sprint(m.S)), w.toAddr(m.To), authz.NewGenericAuthorization(kindURL[m.Kind]), &exp)
		must(err)
		return g
	case "revoke":
		g := authz.NewMsgRevoke(w.toAddr(fmt.Sprint(m.S)), w.toAddr(m.To), kindURL[m.Kind])
		return &g
	case "exec":
		var inner []sdk.Msg
		for _, x := range m.Msgs {
			inner = append(inner, w.sdkMsg(x))
		}
		e := authz.NewMsgExec(w.toAddr(fmt.Sprint(m.S)), inner)
		return &e
	case "params":
		cur := w.obs.curParams()
		return &dextypes.MsgUpdateParams{Authority: s, Params: m.Params.apply(cur)}
	case "prop":
		var inner []sdk.Msg
		for _, x := range m.Msgs {
			inner = append(inner, w.sdkMsg(x))
		}
		p, err := govv1.NewMsgSubmitProposal(inner, mkCoins(m.Coins), s, "", "t", "s", m.Opt == 1)
		must(err)
		return p
	case "govdep":
		return govv1.NewMsgDeposit(w.toAddr(fmt.Sprint(m.S)), m.Prop, mkCoins(m.Coins))
	case "vote":
		v := govv1.NewMsgVote(w.toAddr(fmt.Sprint(m.S)), m.Prop, govv1.VoteOption(m.Opt), "")
		return v
	}
	if ibcKind(m.T) {
		return w.ibcMsg(m)
	}
	if stakeKind(m.T) {
		return w.stakeMsg(m)
	}
	panic("unknown msg " + m.T)
}

// buildTx signs a transaction. The sequence is the committed one plus the
// signer's other transactions created since the last block, plus st.Seq.
func (w *World) buildTx(st Step) (rec *TxRec) {
	n0 := w.Nodes[0]
	if w.txc == nil {
		w.txc = authtx.NewTxConfig(n0.app.AppCodec(), authtx.DefaultSignModes)
	}
	txc := w.txc
	var msgs []sdk.Msg
	for _, m := range st.Msgs {
		msgs = append(msgs, w.sdkMsg(m))
	}
	b := txc.NewTxBuilder()
	if err := b.SetMsgs(msgs...); err != nil {
		return nil
	}
	b.SetFeeAmount(mkCoins(st.Fee))
	b.SetGasLimit(st.Gas)
	b.SetMemo(fmt.Sprintf("%d", st.ID))
	rec = &TxRec{ID: st.ID, Step: st, Created: w.height(), Valid: st.Corrupt == "" && st.Seq == 0}
	cid := chainID
	if st.Corrupt == "chain" {
		cid = "other-chain"
	}
	var sigs []signing.SignatureV2
	var privs []*secp256k1.PrivKey
	mode := signing.SignMode_SIGN_MODE_DIRECT
	for _, si := range st.Signers {
		if si < 0 || si >= len(w.Accs) {
			si = 0
		}
		ac := w.Accs[si]
		priv := ac.Priv
		if st.Corrupt == "signer" {
			priv = w.Accs[(si+1)%len(w.Accs)].Priv
		}
		seq := w.obs.seqOf(ac) + uint64(w.pend[si])
		if st.Seq < 0 && uint64(-st.Seq) > seq {
			rec.Valid = true
		} else {
			seq += uint64(int64(st.Seq))
		}
		num := ac.Num
		if st.Corrupt == "accnum" {
			num += 1
		}
		rec.Seqs = append(rec.Seqs, seq)
		rec.Nums = append(rec.Nums, num)
		privs = append(privs, priv)
		sigs = append(sigs, signing.SignatureV2{PubKey: priv.PubKey(), Data: &signing.SingleSignatureData{SignMode: mode}, Sequence: seq})
	}
	must(b.SetSignatures(sigs...))
	if st.Corrupt != "none" {
		for i, priv := range privs {
			sd := authsign.SignerData{Address: sdk.AccAddress(priv.PubKey().Address()).String(), ChainID: cid, AccountNumber: rec.Nums[i], Sequence: rec.Seqs[i], PubKey: priv.PubKey()}
			bz, err := authsign.GetSignBytesAdapter(context.Background(), txc.SignModeHandler(), mode, sd, b.GetTx())
			if err != nil {
				return nil
			}
			sig, err := priv.Sign(bz)
			must(err)
			if st.Corrupt == "sig" {
				sig[10] ^= 0x40
			}
			sigs[i].Data.(*signing.SingleSignatureData).Signature = sig
		}
		must(b.SetSignatures(sigs...))
	}
	bz, err := txc.TxEncoder()(b.GetTx())
	if err != nil {
		return nil
	}
	rec.Bytes = bz
	if rec.Valid {
		for _, si := range st.Signers {
			w.pend[si]++
		}
	}
	return rec
}

var (
	govAddr    = authtypes.NewModuleAddress("gov").String()
	dexModAddr = authtypes.NewModuleAddress(dextypes.ModuleName)
)

var _ module.AppModule = dexmodule.AppModule{}
