package main

import (
	"context"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"math/big"
	"sort"
	"time"

	"cosmossdk.io/log"
	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/module"
	"github.com/cosmos/cosmos-sdk/x/crisis"

	"defund/app"
	dexmodule "defund/x/dex/module"
	dextypes "defund/x/dex/types"
)

// ---- snapshot of everything the oracles look at ----

type K2 struct{ A, B uint64 } // (pair or pool, id)

func (k K2) less(o K2) bool { return k.A < o.A || (k.A == o.A && k.B < o.B) }

type MMK struct {
	Addr string
	Pair uint64
}

type Pair struct {
	ID          uint64
	Base, Quote string
	Escrow      string
	LastOrder   uint64
	Last        *big.Int // raw 1e-18, nil if none
	Batch       uint64
}

type Pool struct {
	Type             int
	ID, Pair         uint64
	Creator, Reserve string
	Denom            string
	Min, Max         *big.Int
	LastDep, LastWd  uint64
	Disabled         bool
}

type Dep struct {
	ID, Pool uint64
	Height   int64
	Owner    string
	Coins    []Coin
	Accepted []Coin
	Minted   Coin
	Status   int
}

type Wd struct {
	ID, Pool uint64
	Height   int64
	Owner    string
	Coin     Coin
	Out      []Coin
	Status   int
}

type Order struct {
	Type       int
	ID, Pair   uint64
	Height     int64
	Owner      string
	Dir        int
	Offer, Rem Coin
	Recv       Coin
	Price      *big.Int
	Amt, Open  *big.Int
	Batch      uint64
	Expire     time.Time
	Status     int
}

const (
	stNotExecuted = 1
	stNotMatched  = 2
	stPartial     = 3
	stCompleted   = 4
	stCanceled    = 5
	stExpired     = 6
	rqPending     = 1
	rqOK          = 2
	rqFailed      = 3
	buy           = 1
	sell          = 2
	tLimit        = 1
	tMarket       = 2
	tMM           = 3
	poolBasic     = 1
	poolRanged    = 2
)

func (o *Order) live() bool {
	return o.Status == stNotExecuted || o.Status == stNotMatched || o.Status == stPartial
}

type Coin struct {
	D string
	A *big.Int
}

type Bals map[string]map[string]*big.Int

type Snap struct {
	Height             int64
	Time               time.Time
	Pairs              map[uint64]*Pair
	Pools              map[uint64]*Pool
	Orders             map[K2]*Order
	Deps               map[K2]*Dep
	Wds                map[K2]*Wd
	MM                 map[MMK]uint32
	LastPair, LastPool uint64
	P                  *dextypes.Params
	ParamsRaw          string
	DexSum             string // digest of the raw dex store
	Bal                Bals
	Sup                map[string]*big.Int
	Seq                []uint64
	Lock               []map[string]*big.Int // locked coins per account (vesting)
	Grants             map[string]bool       // granter|grantee|url
	IBC                map[string]string     // interchain stores, when they are used
	Stk                *Stk
}

var zero = big.NewInt(0)

func (s *Snap) bal(addr, d string) *big.Int {
	if m, ok := s.Bal[addr]; ok {
		if v, ok := m[d]; ok {
			return v
		}
	}
	return zero
}
func (s *Snap) sup(d string) *big.Int {
	if v, ok := s.Sup[d]; ok {
		return v
	}
	return zero
}

func bi(i math.Int) *big.Int {
	if i.IsNil() {
		return big.NewInt(0)
	}
	return i.BigInt()
}
func bd(d math.LegacyDec) *big.Int {
	if d.IsNil() {
		return nil
	}
	return d.BigInt()
}
func bdp(d *math.LegacyDec) *big.Int {
	if d == nil || d.IsNil() {
		return nil
	}
	return d.BigInt()
}
func coin(c sdk.Coin) Coin { return Coin{c.Denom, bi(c.Amount)} }
func coins(cs sdk.Coins) []Coin {
	var o []Coin
	for _, c := range cs {
		o = append(o, coin(c))
	}
	return o
}

// decode cache: record bytes -> decoded record (records are immutable once decoded)
var decCache = map[string]interface{}{}

func cached(prefix byte, v []byte, f func() interface{}) interface{} {
	k := string(prefix) + string(v)
	if x, ok := decCache[k]; ok {
		return x
	}
	if len(decCache) > 200000 {
		decCache = map[string]interface{}{}
	}
	x := f()
	decCache[k] = x
	return x
}

func convPair(p *dextypes.Pair) *Pair {
	return &Pair{p.Id, p.BaseCoinDenom, p.QuoteCoinDenom, p.EscrowAddress, p.LastOrderId, bdp(p.LastPrice), p.CurrentBatchId}
}
func convPool(p *dextypes.Pool) *Pool {
	return &Pool{int(p.Type), p.Id, p.PairId, p.Creator, p.ReserveAddress, p.PoolCoinDenom, bdp(p.MinPrice), bdp(p.MaxPrice), p.LastDepositRequestId, p.LastWithdrawRequestId, p.Disabled}
}
func convDep(r *dextypes.DepositRequest) *Dep {
	return &Dep{r.Id, r.PoolId, r.MsgHeight, r.Depositor, coins(r.DepositCoins), coins(r.AcceptedCoins), coin(r.MintedPoolCoin), int(r.Status)}
}
func convWd(r *dextypes.WithdrawRequest) *Wd {
	return &Wd{r.Id, r.PoolId, r.MsgHeight, r.Withdrawer, coin(r.PoolCoin), coins(r.WithdrawnCoins), int(r.Status)}
}
func convOrder(o *dextypes.Order) *Order {
	return &Order{int(o.Type), o.Id, o.PairId, o.MsgHeight, o.Orderer, int(o.Direction), coin(o.OfferCoin), coin(o.RemainingOfferCoin), coin(o.ReceivedCoin), bd(o.Price), bi(o.Amount), bi(o.OpenAmount), o.BatchId, o.ExpireAt, int(o.Status)}
}

// ReadSnap reads a snapshot through ctx's multistore without touching its gas meter.
func ReadSnap(w *World, a *app.App, ctx sdk.Context) *Snap {
	s := &Snap{Height: ctx.BlockHeight(), Time: ctx.BlockTime(), Pairs: map[uint64]*Pair{}, Pools: map[uint64]*Pool{}, Orders: map[K2]*Order{},
		Deps: map[K2]*Dep{}, Wds: map[K2]*Wd{}, MM: map[MMK]uint32{}, Bal: Bals{}, Sup: map[string]*big.Int{}}
	ms := ctx.MultiStore()
	ctx = sdk.NewContext(ms, ctx.BlockHeader(), false, log.NewNopLogger()).WithGasMeter(storetypes.NewInfiniteGasMeter())

	// dex store
	h := sha256.New()
	var lb [8]byte
	it := ms.GetKVStore(a.GetKey(dextypes.StoreKey)).Iterator(nil, nil)
	for ; it.Valid(); it.Next() {
		k, v := it.Key(), it.Value()
		binary.BigEndian.PutUint32(lb[:4], uint32(len(k)))
		binary.BigEndian.PutUint32(lb[4:], uint32(len(v)))
		h.Write(lb[:])
		h.Write(k)
		h.Write(v)
		switch k[0] {
		case 0xa0:
			s.LastPair = decU64(v)
		case 0xa1:
			s.LastPool = decU64(v)
		case 0xa5:
			p := cached(k[0], v, func() interface{} { var x dextypes.Pair; must(x.Unmarshal(v)); return convPair(&x) }).(*Pair)
			s.Pairs[p.ID] = p
		case 0xab:
			p := cached(k[0], v, func() interface{} { var x dextypes.Pool; must(x.Unmarshal(v)); return convPool(&x) }).(*Pool)
			s.Pools[p.ID] = p
		case 0xb0:
			p := cached(k[0], v, func() interface{} { var x dextypes.DepositRequest; must(x.Unmarshal(v)); return convDep(&x) }).(*Dep)
			s.Deps[K2{p.Pool, p.ID}] = p
		case 0xb1:
			p := cached(k[0], v, func() interface{} { var x dextypes.WithdrawRequest; must(x.Unmarshal(v)); return convWd(&x) }).(*Wd)
			s.Wds[K2{p.Pool, p.ID}] = p
		case 0xb2:
			p := cached(k[0], v, func() interface{} { var x dextypes.Order; must(x.Unmarshal(v)); return convOrder(&x) }).(*Order)
			s.Orders[K2{p.Pair, p.ID}] = p
		case 0xb7:
			n := int(k[1])
			if len(k) == 2+n+8 {
				s.MM[MMK{sdk.AccAddress(k[2 : 2+n]).String(), binary.BigEndian.Uint64(k[2+n:])}] = decU32(v)
			}
		}
	}
	it.Close()
	s.DexSum = hex.EncodeToString(h.Sum(nil))

	// params (legacy subspace)
	pit := storetypes.KVStorePrefixIterator(ms.GetKVStore(a.GetKey("params")), []byte("dex/"))
	var raw []byte
	for ; pit.Valid(); pit.Next() {
		raw = append(raw, pit.Key()...)
		raw = append(raw, '=')
		raw = append(raw, pit.Value()...)
		raw = append(raw, '\n')
	}
	pit.Close()
	s.ParamsRaw = string(raw)
	s.P = cached(0, raw, func() interface{} { return decodeParams(a, raw) }).(*dextypes.Params)

	a.BankKeeper.IterateAllBalances(ctx, func(ad sdk.AccAddress, c sdk.Coin) bool {
		k := ad.String()
		m := s.Bal[k]
		if m == nil {
			m = map[string]*big.Int{}
			s.Bal[k] = m
		}
		m[c.Denom] = bi(c.Amount)
		return false
	})
	a.BankKeeper.IterateTotalSupply(ctx, func(c sdk.Coin) bool {
		s.Sup[c.Denom] = bi(c.Amount)
		return false
	})
	for _, ac := range w.Accs {
		acc := a.AccountKeeper.GetAccount(ctx, ac.Addr)
		seq := uint64(0)
		if acc != nil {
			seq = acc.GetSequence()
		}
		s.Seq = append(s.Seq, seq)
	}
	s.Lock = make([]map[string]*big.Int, len(w.Accs))
	for _, v := range w.Cfg.Vest {
		if v < len(w.Accs) {
			m := map[string]*big.Int{}
			for _, c := range a.BankKeeper.LockedCoins(ctx, w.Accs[v].Addr) {
				m[c.Denom] = bi(c.Amount)
			}
			s.Lock[v] = m
		}
	}
	if w.obs != nil && w.obs.usesIBC {
		s.IBC = readIBC(a, ms)
	}
	if w.usesStake() {
		s.Stk = readStk(w, a, ctx)
	}
	s.Grants = map[string]bool{}
	if w.obs != nil && w.obs.usesGrants {
		for _, g := range w.Accs {
			for _, e := range w.Accs {
				gs, err := a.AuthzKeeper.GetAuthorizations(ctx, e.Addr, g.Addr)
				if err != nil {
					continue
				}
				for _, au := range gs {
					s.Grants[g.S+"|"+e.S+"|"+au.MsgTypeURL()] = true
				}
			}
		}
	}
	return s
}

func decU64(v []byte) uint64 {
	// gogoproto UInt64Value{1: varint}
	if len(v) == 0 {
		return 0
	}
	if len(v) == 8 {
		return binary.BigEndian.Uint64(v)
	}
	if v[0] == 0x08 {
		x, _ := binary.Uvarint(v[1:])
		return x
	}
	return 0
}
func decU32(v []byte) uint32 { return uint32(decU64(v)) }

func decodeParams(a *app.App, raw []byte) *dextypes.Params {
	p := dextypes.Params{}
	vals := map[string][]byte{}
	for _, line := range splitLines(raw) {
		for i := range line {
			if line[i] == '=' {
				vals[string(line[4:i])] = line[i+1:]
				break
			}
		}
	}
	for _, pr := range p.ParamSetPairs() {
		v, ok := vals[string(pr.Key)]
		if !ok {
			continue
		}
		if err := a.LegacyAmino().UnmarshalJSON(v, pr.Value); err != nil {
			panic(err)
		}
	}
	return &p
}

func splitLines(b []byte) [][]byte {
	var out [][]byte
	st := 0
	for i := range b {
		if b[i] == '\n' {
			out = append(out, b[st:i])
			st = i + 1
		}
	}
	return out
}

// ---- observer: taps node 0's execution ----

type Observer struct {
	w          *World
	a          *app.App
	cur        *BlockObs
	last       *Snap // committed state
	usesGrants bool
	usesGov    bool
	usesIBC    bool
	gov        govState
	batchPar   string            // parameters since the last batch, "" if they changed
	ids        map[string]string // identity data of everything ever seen
	lastP      uint64
	lastQ      uint64
	ctr        map[string]uint64
	ended      map[K2]int64
	born       map[K2]uint64          // batch of every order when first seen
	leftCross  map[uint64]map[K2]bool // orders left crossing, too small for the batch's price
	gifts      map[string]*big.Int    // sent to an account directly: "addr|denom"
	sup0       map[string]*big.Int
}

type TxObs struct {
	Bytes  []byte
	Before *Snap
}

// BlockObs is what was seen while node 0 executed one block.
type BlockObs struct {
	Prev               *Snap // state committed by the previous block
	PreBegin           *Snap // before dex BeginBlock
	PostBegin          *Snap
	Txs                []TxObs // per ante handler call
	PostTxs            *Snap   // before the first end blocker
	PreEnd             *Snap   // before dex EndBlock
	PostEnd            *Snap   // after dex EndBlock
	Inv                map[string]string
	Gov0, Gov1, GovPre govState // proposals: after the previous block, now, before gov's EndBlock
}

func (o *Observer) bornIn(k K2, batch uint64) uint64 {
	if b, ok := o.born[k]; ok {
		return b
	}
	if o.born == nil {
		o.born = map[K2]uint64{}
	}
	o.born[k] = batch
	return batch
}

func newObserver(w *World) *Observer {
	return &Observer{w: w, leftCross: map[uint64]map[K2]bool{}, usesGrants: w.Cfg.Profile == "auth" || w.Cfg.Profile == "ibc", usesGov: w.Cfg.Profile == "gov", usesIBC: w.Cfg.Profile == "ibc"}
}

type dexWrap struct {
	dexmodule.AppModule
	o *Observer
}

func (d dexWrap) BeginBlock(ctx context.Context) error {
	o := d.o
	if o.cur != nil {
		o.cur.PreBegin = o.snap(ctx)
	}
	err := d.AppModule.BeginBlock(ctx)
	if o.cur != nil {
		o.cur.PostBegin = o.snap(ctx)
	}
	return err
}

func (d dexWrap) EndBlock(ctx context.Context) error {
	o := d.o
	if o.cur != nil {
		o.cur.PreEnd = o.snap(ctx)
	}
	err := d.AppModule.EndBlock(ctx)
	if o.cur != nil {
		o.cur.PostEnd = o.snap(ctx)
		o.cur.Gov1 = o.w.readGov(sdk.UnwrapSDKContext(ctx))
		o.checkInvariants(sdk.UnwrapSDKContext(ctx))
	}
	return err
}

type crisisWrap struct {
	crisis.AppModule
	o *Observer
}

func (c crisisWrap) EndBlock(ctx context.Context) error {
	if c.o.cur != nil {
		c.o.cur.PostTxs = c.o.snap(ctx)
		c.o.cur.GovPre = c.o.w.readGov(sdk.UnwrapSDKContext(ctx))
	}
	return c.AppModule.EndBlock(ctx)
}

func (o *Observer) snap(ctx context.Context) *Snap {
	return ReadSnap(o.w, o.a, sdk.UnwrapSDKContext(ctx))
}

func (o *Observer) attach(n *Node, a *app.App) {
	o.a = a
	mods := a.ModuleManager.Modules
	if m, ok := mods[dextypes.ModuleName].(dexmodule.AppModule); ok {
		mods[dextypes.ModuleName] = dexWrap{m, o}
	} else {
		panic("dex module has an unexpected type")
	}
	if m, ok := mods["crisis"].(crisis.AppModule); ok {
		mods["crisis"] = crisisWrap{m, o}
	} else {
		panic("crisis module has an unexpected type")
	}
	ah := a.AnteHandler()
	a.SetAnteHandler(func(ctx sdk.Context, tx sdk.Tx, sim bool) (sdk.Context, error) {
		if o.cur != nil && !sim && ctx.ExecMode() == sdk.ExecModeFinalize && o.cur.PostTxs == nil {
			o.cur.Txs = append(o.cur.Txs, TxObs{ctx.TxBytes(), ReadSnap(o.w, a, ctx)})
		}
		return ah(ctx, tx, sim)
	})
}

func (o *Observer) curParams() dextypes.Params {
	if o.last != nil {
		return *o.last.P
	}
	return o.w.Cfg.Params.apply(dextypes.DefaultParams())
}

func (o *Observer) seqOf(a *Acc) uint64 {
	if o.last == nil || a.Idx >= len(o.last.Seq) {
		return 0
	}
	return o.last.Seq[a.Idx]
}

// committed reads the committed state at height h (0 = latest) of a node.
func (n *Node) committed(h int64) (*Snap, error) {
	ctx, err := n.app.CreateQueryContext(h, false)
	if err != nil {
		return nil, err
	}
	return ReadSnap(n.w, n.app, ctx), nil
}

func (s *Snap) pairIDs() []uint64 {
	var x []uint64
	for k := range s.Pairs {
		x = append(x, k)
	}
	sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	return x
}
func (s *Snap) poolIDs() []uint64 {
	var x []uint64
	for k := range s.Pools {
		x = append(x, k)
	}
	sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	return x
}
func (s *Snap) orderKeys() []K2 { return sortedK2(s.Orders) }
func sortedK2[V any](m map[K2]V) []K2 {
	var x []K2
	for k := range m {
		x = append(x, k)
	}
	sort.Slice(x, func(i, j int) bool { return x[i].less(x[j]) })
	return x
}
func sortedStr[V any](m map[string]V) []string {
	var x []string
	for k := range m {
		x = append(x, k)
	}
	sort.Strings(x)
	return x
}

func (s *Snap) poolsOf(pair uint64) []*Pool {
	var out []*Pool
	for _, id := range s.poolIDs() {
		if s.Pools[id].Pair == pair {
			out = append(out, s.Pools[id])
		}
	}
	return out
}

func jsonStr(x interface{}) string { b, _ := json.Marshal(x); return string(b) }

var _ module.AppModule = dexWrap{}
var _ = cmtproto.Header{}
