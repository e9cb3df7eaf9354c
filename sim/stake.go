package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
	slashingtypes "github.com/cosmos/cosmos-sdk/x/slashing/types"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"

	"defund/app"
)

// Validators, delegations, rewards and penalties: reference model and oracle.
// Validators are named by their operator's account address.

type SVal struct {
	Op, Cons string
	Tok, Sh  *big.Int // coins; shares (1e-18)
	St       int      // 1 unbonded 2 unbonding 3 bonded
	Jailed   bool
	UnbT     int64 // end of unbonding, ns
	Rate     *big.Int
	Min      *big.Int
	Out, Acc map[string]*big.Int // outstanding rewards, commission (1e-18)
}

type UEnt struct {
	H, T      int64
	Init, Bal *big.Int
}

type SInfo struct {
	Start, Idx, Missed, Until int64
	Tomb                      bool
}

type Stk struct {
	Vals map[string]*SVal
	Dels map[string]*big.Int // del|val
	UBD  map[string][]UEnt   // del|val
	Red  map[string][]UEnt   // del|src|dst
	Info map[string]*SInfo   // by consensus address
	Wd   map[string]string
	Pool map[string]*big.Int
}

const (
	valUnbonded  = 1
	valUnbonding = 2
	valBonded    = 3
)

var (
	bondedPool    = modA("bonded_tokens_pool")
	notBondedPool = modA("not_bonded_tokens_pool")
	powerRed      = bigI(1000000)
)

func valOf(acc string) string {
	a, err := sdk.AccAddressFromBech32(acc)
	must(err)
	return sdk.ValAddress(a).String()
}

func accOfVal(v string) string {
	a, err := sdk.ValAddressFromBech32(v)
	if err != nil {
		return v
	}
	return sdk.AccAddress(a).String()
}

func consKey(i int) *ed25519.PrivKey {
	if i == 0 {
		return valPriv
	}
	return ed25519.GenPrivKeyFromSecret([]byte(fmt.Sprint("sim-validator-", i)))
}

func consAddr(i int) string { return hex.EncodeToString(consKey(i).PubKey().Address()) }

func decCoins(cs sdk.DecCoins) map[string]*big.Int {
	m := map[string]*big.Int{}
	for _, c := range cs {
		m[c.Denom] = c.Amount.BigInt()
	}
	return m
}

func readStk(w *World, a *app.App, ctx sdk.Context) *Stk {
	s := &Stk{Vals: map[string]*SVal{}, Dels: map[string]*big.Int{}, UBD: map[string][]UEnt{}, Red: map[string][]UEnt{}, Info: map[string]*SInfo{}, Wd: map[string]string{}}
	vs, err := a.StakingKeeper.GetAllValidators(ctx)
	must(err)
	for _, v := range vs {
		cb, err := v.GetConsAddr()
		must(err)
		ob, err := sdk.ValAddressFromBech32(v.OperatorAddress)
		must(err)
		x := &SVal{Op: accOfVal(v.OperatorAddress), Cons: hex.EncodeToString(cb), Tok: bi(v.Tokens), Sh: bd(v.DelegatorShares), St: int(v.Status), Jailed: v.Jailed,
			UnbT: v.UnbondingTime.UnixNano(), Rate: bd(v.Commission.Rate), Min: bi(v.MinSelfDelegation)}
		o, err := a.DistrKeeper.GetValidatorOutstandingRewards(ctx, ob)
		must(err)
		x.Out = decCoins(o.Rewards)
		c, err := a.DistrKeeper.GetValidatorAccumulatedCommission(ctx, ob)
		must(err)
		x.Acc = decCoins(c.Commission)
		s.Vals[x.Op] = x
	}
	ds, err := a.StakingKeeper.GetAllDelegations(ctx)
	must(err)
	for _, d := range ds {
		s.Dels[d.DelegatorAddress+"|"+accOfVal(d.ValidatorAddress)] = bd(d.Shares)
	}
	must(a.StakingKeeper.IterateUnbondingDelegations(ctx, func(_ int64, u stakingtypes.UnbondingDelegation) bool {
		k := u.DelegatorAddress + "|" + accOfVal(u.ValidatorAddress)
		for _, e := range u.Entries {
			s.UBD[k] = append(s.UBD[k], UEnt{e.CreationHeight, e.CompletionTime.UnixNano(), bi(e.InitialBalance), bi(e.Balance)})
		}
		return false
	}))
	must(a.StakingKeeper.IterateRedelegations(ctx, func(_ int64, u stakingtypes.Redelegation) bool {
		k := u.DelegatorAddress + "|" + accOfVal(u.ValidatorSrcAddress) + "|" + accOfVal(u.ValidatorDstAddress)
		for _, e := range u.Entries {
			s.Red[k] = append(s.Red[k], UEnt{e.CreationHeight, e.CompletionTime.UnixNano(), bi(e.InitialBalance), bd(e.SharesDst)})
		}
		return false
	}))
	must(a.SlashingKeeper.IterateValidatorSigningInfos(ctx, func(c sdk.ConsAddress, i slashingtypes.ValidatorSigningInfo) bool {
		s.Info[hex.EncodeToString(c)] = &SInfo{i.StartHeight, i.IndexOffset, i.MissedBlocksCounter, i.JailedUntil.UnixNano(), i.Tombstoned}
		return false
	}))
	for _, ac := range w.Accs {
		d, err := a.DistrKeeper.GetDelegatorWithdrawAddr(ctx, ac.Addr)
		must(err)
		s.Wd[ac.S] = d.String()
	}
	fp, err := a.DistrKeeper.FeePool.Get(ctx)
	must(err)
	s.Pool = decCoins(fp.CommunityPool)
	return s
}

func (s *Stk) clone() *Stk {
	c := *s
	c.Vals = map[string]*SVal{}
	for k, v := range s.Vals {
		x := *v
		x.Out, x.Acc = cloneMap(v.Out), cloneMap(v.Acc)
		c.Vals[k] = &x
	}
	c.Dels, c.Wd, c.Pool = cloneMap(s.Dels), cloneMap(s.Wd), cloneMap(s.Pool)
	c.UBD, c.Red = map[string][]UEnt{}, map[string][]UEnt{}
	for k, v := range s.UBD {
		c.UBD[k] = append([]UEnt{}, v...)
	}
	for k, v := range s.Red {
		c.Red[k] = append([]UEnt{}, v...)
	}
	c.Info = map[string]*SInfo{}
	for k, v := range s.Info {
		x := *v
		c.Info[k] = &x
	}
	return &c
}

func (s *Stk) byCons(c string) *SVal {
	for _, k := range sortedStr(s.Vals) {
		if s.Vals[k].Cons == c {
			return s.Vals[k]
		}
	}
	return nil
}

func (v *SVal) power() int64 { return quo(v.Tok, powerRed).Int64() }

// lines: everything but the rewards, one line per record.
func (s *Stk) lines() map[string]string {
	m := map[string]string{}
	for k, v := range s.Vals {
		t := int64(0)
		if v.St == valUnbonding {
			t = v.UnbT
		}
		m["validator "+k] = fmt.Sprintf("%s coins, %s shares, status %d, jailed %v, until %d, commission %s, minimum %s", v.Tok, v.Sh, v.St, v.Jailed, t, v.Rate, v.Min)
	}
	for k, v := range s.Dels {
		m["delegation "+k] = v.String()
	}
	for k, v := range s.UBD {
		m["unbonding "+k] = entS(v, true)
	}
	for k, v := range s.Red {
		m["redelegation "+k] = entS(v, true)
	}
	for k, v := range s.Info {
		m["signing "+k] = fmt.Sprintf("jailed until %d, removed for ever %v, missed %d", v.Until, v.Tomb, v.Missed)
	}
	for k, v := range s.Wd {
		m["paid to "+k] = v
	}
	return m
}

// entS: entries of one block with one end count as one.
func entS(e []UEnt, heights bool) string {
	var t []string
	for _, x := range e {
		h := x.H
		if !heights {
			h = 0
		}
		t = append(t, fmt.Sprintf("[since %d until %d: %s of %s]", h, x.T, x.Bal, x.Init))
	}
	sort.Strings(t)
	return strings.Join(t, " ")
}

func diffLines(exp, got map[string]string) []string {
	var d []string
	for _, k := range unionS(exp, got) {
		if e, g := exp[k], got[k]; e != g {
			d = append(d, fmt.Sprintf("stake record %s: expected %q, is %q", k, e, g))
		}
	}
	return d
}

// rewards lines: exact.
func (s *Stk) rewardLines() map[string]string {
	m := map[string]string{}
	put := func(k string, x map[string]*big.Int) {
		for d, v := range x {
			if v.Sign() != 0 {
				m[k+" "+d] = v.String()
			}
		}
	}
	for k, v := range s.Vals {
		put("rewards "+k, v.Out)
		put("commission "+k, v.Acc)
	}
	put("community pool", s.Pool)
	return m
}

func mget(m map[string]*big.Int, k string) *big.Int {
	if v, ok := m[k]; ok {
		return v
	}
	return zero
}

// ---- the model's memory ----

type stakeMem struct {
	sets  map[int64]map[string]int64 // height -> consensus address -> power
	last  map[string]int64           // what the application told so far
	ring  map[string][]bool          // signed or missed, the last ones
	due   map[string]map[string]*big.Int
	prev  *Snap               // committed
	least map[string]*big.Int // the fewest coins a validator ever had
}

func (w *World) usesStake() bool { return w.Cfg.Vals > 0 }

func (w *World) initStake(ups []abci.ValidatorUpdate) {
	m := &stakeMem{sets: map[int64]map[string]int64{}, last: map[string]int64{}, ring: map[string][]bool{}, due: map[string]map[string]*big.Int{}, least: map[string]*big.Int{}}
	for _, u := range ups {
		m.last[updCons(u)] = u.Power
	}
	m.sets[w.initH()] = cloneMap(m.last)
	m.sets[w.initH()+1] = cloneMap(m.last)
	w.stk = m
}

func updCons(u abci.ValidatorUpdate) string {
	pk := ed25519.PubKey{Key: u.PubKey.GetEd25519()}
	return hex.EncodeToString(pk.Address())
}

func (m *stakeMem) set(h int64) []string {
	x := sortedStr(m.sets[h])
	sort.SliceStable(x, func(i, j int) bool { return m.sets[h][x[i]] > m.sets[h][x[j]] })
	return x
}

// stakeBlock fills in what the consensus engine tells with a block.
func (w *World) stakeBlock(b *Block, st Step) bool {
	if !w.usesStake() {
		return true
	}
	m := w.stk
	set := m.set(b.Height)
	if len(set) == 0 {
		w.Stats.Inc("no_validators_left", 1)
		w.Halt = true
		return false
	}
	b.Proposer, _ = hex.DecodeString(set[st.Arg%len(set)])
	if b.Height > w.initH() {
		absent := map[string]bool{}
		for _, i := range st.Absent {
			absent[consAddr(i)] = true
		}
		for _, c := range m.set(b.Height - 1) {
			ad, _ := hex.DecodeString(c)
			f := cmtproto.BlockIDFlagCommit
			if absent[c] {
				f = cmtproto.BlockIDFlagAbsent
				w.Stats.Inc("fault_validator_absent", 1)
			}
			b.Votes = append(b.Votes, abci.VoteInfo{Validator: abci.Validator{Address: ad, Power: m.sets[b.Height-1][c]}, BlockIdFlag: f})
		}
	}
	for _, e := range st.Evid {
		h := b.Height - e.Back
		if h < w.initH() || h >= b.Height {
			continue
		}
		c := consAddr(e.Val)
		p, ok := m.sets[h][c]
		if !ok {
			continue
		}
		ad, _ := hex.DecodeString(c)
		tot := int64(0)
		for _, x := range m.sets[h] {
			tot += x
		}
		b.Evid = append(b.Evid, abci.Misbehavior{Type: abci.MisbehaviorType_DUPLICATE_VOTE, Validator: abci.Validator{Address: ad, Power: p}, Height: h, Time: w.block(h).Time, TotalVotingPower: tot})
		w.Stats.Inc("fault_double_sign", 1)
	}
	return true
}

func (w *World) noteUpdates(b *Block, ups []abci.ValidatorUpdate) {
	m := w.stk
	for _, u := range ups {
		if u.Power == 0 {
			delete(m.last, updCons(u))
		} else {
			m.last[updCons(u)] = u.Power
		}
	}
	m.sets[b.Height+2] = cloneMap(m.last)
}

// ---- genesis ----

func (w *World) stakeParams() (stakingtypes.Params, slashingtypes.Params) {
	c := w.Cfg.Stake
	sp := stakingtypes.DefaultParams()
	sp.UnbondingTime = time.Duration(c.Unbonding) * time.Second
	sp.MaxValidators, sp.MaxEntries, sp.HistoricalEntries = c.MaxVals, c.MaxEntries, 5
	sl := slashingtypes.DefaultParams()
	sl.SignedBlocksWindow = c.Window
	sl.MinSignedPerWindow = dec(c.MinSigned)
	sl.DowntimeJailDuration = time.Duration(c.JailTime) * time.Second
	sl.SlashFractionDowntime, sl.SlashFractionDoubleSign = dec(c.SlashDown), dec(c.SlashSign)
	return sp, sl
}

func (w *World) genesisVals() (vs []stakingtypes.Validator, ds []stakingtypes.Delegation, tot *big.Int) {
	tot = new(big.Int)
	for i := 0; i < w.Cfg.Vals; i++ {
		bond := bigS(w.Cfg.Stake.Bonds[i])
		tot.Add(tot, bond)
		pk, err := codectypes.NewAnyWithValue(consKey(i).PubKey())
		must(err)
		op := sdk.ValAddress(w.Accs[i].Addr).String()
		cm := stakingtypes.NewCommission(dec(w.Cfg.Stake.Comm[i]), math.LegacyOneDec(), math.LegacyOneDec())
		vs = append(vs, stakingtypes.Validator{OperatorAddress: op, ConsensusPubkey: pk, Status: stakingtypes.Unbonded, Tokens: intB(bond), DelegatorShares: math.LegacyNewDecFromInt(intB(bond)),
			UnbondingTime: time.Unix(0, 0).UTC(), Commission: cm, MinSelfDelegation: math.OneInt()})
		ds = append(ds, stakingtypes.NewDelegation(w.Accs[i].S, op, math.LegacyNewDecFromInt(intB(bond))))
	}
	return
}

// ---- messages ----

func stakeKind(k string) bool {
	switch k {
	case "delegate", "undelegate", "redelegate", "cancelunb", "reward", "commission", "setwd", "unjail", "createval", "fundpool":
		return true
	}
	return false
}

func (w *World) stakeMsg(m Msg) sdk.Msg {
	s := w.accS(m.S)
	val, dst := valOf(w.accS(m.Val)), valOf(w.accS(m.Dst))
	var c sdk.Coin
	if len(m.Coins) > 0 {
		c = one(m.Coins)
	}
	switch m.T {
	case "delegate":
		return &stakingtypes.MsgDelegate{DelegatorAddress: s, ValidatorAddress: val, Amount: c}
	case "undelegate":
		return &stakingtypes.MsgUndelegate{DelegatorAddress: s, ValidatorAddress: val, Amount: c}
	case "redelegate":
		return &stakingtypes.MsgBeginRedelegate{DelegatorAddress: s, ValidatorSrcAddress: val, ValidatorDstAddress: dst, Amount: c}
	case "cancelunb":
		return &stakingtypes.MsgCancelUnbondingDelegation{DelegatorAddress: s, ValidatorAddress: val, Amount: c, CreationHeight: int64(m.Seq)}
	case "reward":
		return &distrtypes.MsgWithdrawDelegatorReward{DelegatorAddress: s, ValidatorAddress: val}
	case "commission":
		return &distrtypes.MsgWithdrawValidatorCommission{ValidatorAddress: valOf(s)}
	case "setwd":
		return &distrtypes.MsgSetWithdrawAddress{DelegatorAddress: s, WithdrawAddress: w.toAddr(m.To).String()}
	case "fundpool":
		return &distrtypes.MsgFundCommunityPool{Amount: mkCoins(m.Coins), Depositor: s}
	case "unjail":
		return &slashingtypes.MsgUnjail{ValidatorAddr: valOf(s)}
	case "createval":
		x, err := stakingtypes.NewMsgCreateValidator(valOf(s), consKey(m.Val).PubKey(), c, stakingtypes.Description{Moniker: "m"},
			stakingtypes.NewCommissionRates(dec(m.Price), math.LegacyOneDec(), math.LegacyOneDec()), intOf(m.Amt))
		must(err)
		return x
	}
	panic("unknown stake message " + m.T)
}

func stakeSigner(m sdk.Msg) string {
	switch m := m.(type) {
	case *stakingtypes.MsgDelegate:
		return m.DelegatorAddress
	case *stakingtypes.MsgUndelegate:
		return m.DelegatorAddress
	case *stakingtypes.MsgBeginRedelegate:
		return m.DelegatorAddress
	case *stakingtypes.MsgCancelUnbondingDelegation:
		return m.DelegatorAddress
	case *distrtypes.MsgWithdrawDelegatorReward:
		return m.DelegatorAddress
	case *distrtypes.MsgWithdrawValidatorCommission:
		return accOfVal(m.ValidatorAddress)
	case *distrtypes.MsgSetWithdrawAddress:
		return m.DelegatorAddress
	case *distrtypes.MsgFundCommunityPool:
		return m.Depositor
	case *slashingtypes.MsgUnjail:
		return accOfVal(m.ValidatorAddr)
	case *stakingtypes.MsgCreateValidator:
		return accOfVal(m.ValidatorAddress)
	}
	return ""
}

// touched: the delegations whose rewards a message pays out first.
func stakeTouch(m sdk.Msg) (keys []string) {
	k := func(d, v string) string { return d + "|" + accOfVal(v) }
	switch m := m.(type) {
	case *stakingtypes.MsgDelegate:
		return []string{k(m.DelegatorAddress, m.ValidatorAddress)}
	case *stakingtypes.MsgUndelegate:
		return []string{k(m.DelegatorAddress, m.ValidatorAddress)}
	case *stakingtypes.MsgBeginRedelegate:
		return []string{k(m.DelegatorAddress, m.ValidatorSrcAddress), k(m.DelegatorAddress, m.ValidatorDstAddress)}
	case *stakingtypes.MsgCancelUnbondingDelegation:
		return []string{k(m.DelegatorAddress, m.ValidatorAddress)}
	case *distrtypes.MsgWithdrawDelegatorReward:
		return []string{k(m.DelegatorAddress, m.ValidatorAddress)}
	}
	return nil
}

func (s *Snap) move(from, to, d string, x *big.Int) {
	if x.Sign() != 0 {
		s.addBal(from, d, neg(x))
		s.addBal(to, d, x)
	}
}

func poolOf(v *SVal) string {
	if v.St == valBonded {
		return bondedPool
	}
	return notBondedPool
}

// applyStake predicts one message; obs is the state after the transaction,
// from which only the rewards' size and roundings are taken.
func (w *World) applyStake(s, obs *Snap, m sdk.Msg, o *mOut) (string, bool) {
	if stakeSigner(m) == "" || s.Stk == nil || obs.Stk == nil {
		return "", false
	}
	o.stk++
	if o.stk > 1 {
		o.opaque, o.soft = true, true
		return "", true
	}
	k, z := s.Stk.clone(), obs.Stk
	s.Stk = k
	fl := func(why string, a ...interface{}) (string, bool) { return fail(why, a...), true }
	pay := func(key string) {
		if _, ok := s.Stk.Dels[key]; !ok {
			return
		}
		p := strings.Split(key, "|")
		v := k.Vals[p[1]]
		zv := z.Vals[p[1]]
		if v == nil {
			return
		}
		if zv == nil { // the validator is gone: its last rewards went various ways
			o.gone = true
			return
		}
		for _, d := range sortedStr(v.Out) {
			x := sub(v.Out[d], mget(zv.Out, d))
			if x.Sign() < 0 {
				continue // reported by the conservation check
			}
			s.move(distrAcc, k.Wd[p[0]], d, quo(x, e18))
			k.Pool[d] = add(mget(k.Pool, d), sub(x, mul(quo(x, e18), e18)))
			v.Out[d] = mget(zv.Out, d)
		}
	}
	bondDenom := func(c sdk.Coin) bool {
		return c.Denom == stake && !c.Amount.IsNil() && c.Amount.IsPositive()
	}
	addShares := func(key string, v *SVal, amt *big.Int) {
		sh := mul(amt, e18)
		if v.Sh.Sign() > 0 {
			sh = quo(mul(v.Sh, amt), v.Tok)
		} else if zv := z.Vals[v.Op]; zv != nil { // what it earned without any stake is nobody's
			for _, d := range sortedStr(v.Out) {
				if x := sub(v.Out[d], mget(zv.Out, d)); x.Sign() > 0 {
					k.Pool[d] = add(mget(k.Pool, d), x)
					v.Out[d] = mget(zv.Out, d)
				}
			}
		}
		v.Tok, v.Sh = add(v.Tok, amt), add(v.Sh, sh)
		k.Dels[key] = add(mget(k.Dels, key), sh)
	}
	// unbond takes the shares worth amt away and returns the coins set free.
	unbond := func(key string, v *SVal, amt *big.Int) (x *big.Int, why string) {
		have, ok := k.Dels[key]
		if !ok {
			return nil, "no such delegation"
		}
		if v.Tok.Sign() == 0 {
			return nil, "the validator has nothing left"
		}
		sh := quo(mul(v.Sh, amt), v.Tok)
		if sh.Cmp(have) > 0 {
			return nil, "more than delegated"
		}
		pay(key)
		p := strings.Split(key, "|")
		left := sub(have, sh)
		if p[0] == p[1] && !v.Jailed {
			worth := new(big.Int)
			if v.Sh.Sign() > 0 {
				worth = quo(mul(left, v.Tok), mul(v.Sh, bigI(1)))
			}
			if worth.Cmp(v.Min) < 0 {
				v.Jailed = true
			}
		}
		x = v.Tok
		if v.Sh.Cmp(sh) != 0 {
			x = quo(mul(sh, v.Tok), v.Sh)
			if zv := z.Vals[v.Op]; zv != nil && p[0] != "" {
				if y := sub(v.Tok, zv.Tok); y.Cmp(add(x, bigI(1))) == 0 && y.Cmp(amt) <= 0 {
					x = y // rounded to the nearest
				}
			}
		}
		v.Tok, v.Sh = sub(v.Tok, x), sub(v.Sh, sh)
		if left.Sign() == 0 {
			delete(k.Dels, key)
		} else {
			k.Dels[key] = left
		}
		if v.Sh.Sign() == 0 && v.St == valUnbonded {
			delete(k.Vals, v.Op)
			o.gone = true
		}
		return x, ""
	}
	now := s.Time.UnixNano()
	H := s.Height
	sp, _ := w.stakeParams()
	find := func(v string) *SVal { return k.Vals[accOfVal(v)] }
	switch m := m.(type) {
	case *stakingtypes.MsgDelegate:
		o.seen = append(o.seen, "delegate")
		v := find(m.ValidatorAddress)
		if v == nil || !bondDenom(m.Amount) {
			return fl("no such validator or coin")
		}
		if v.Tok.Sign() == 0 && v.Sh.Sign() > 0 {
			return fl("the validator has nothing left")
		}
		amt := bi(m.Amount.Amount)
		key := m.DelegatorAddress + "|" + v.Op
		pay(key) // the rewards come first and may be what is delegated
		if s.bal(m.DelegatorAddress, stake).Cmp(amt) < 0 {
			return fl("not enough coins")
		}
		s.move(m.DelegatorAddress, poolOf(v), stake, amt)
		addShares(key, v, amt)
	case *stakingtypes.MsgUndelegate:
		o.seen = append(o.seen, "undelegate")
		v := find(m.ValidatorAddress)
		if v == nil || !bondDenom(m.Amount) {
			return fl("no such validator or coin")
		}
		key := m.DelegatorAddress + "|" + v.Op
		if _, ok := k.Dels[key]; ok && len(k.UBD[key]) >= int(sp.MaxEntries) {
			return fl("too many unbondings at once")
		}
		if k.Dels[key] != nil && k.Dels[key].Cmp(mul(e18, bigI(10))) < 0 || bi(m.Amount.Amount).Cmp(bigI(10)) < 0 {
			o.soft = true
		}
		x, why := unbond(key, v, bi(m.Amount.Amount))
		if why != "" {
			return fl(why)
		}
		if v.St == valBonded {
			s.move(bondedPool, notBondedPool, stake, x)
		}
		t := s.Time.Add(sp.UnbondingTime).UnixNano()
		es := k.UBD[key]
		merged := false
		for i := range es {
			if es[i].H == H && es[i].T == t {
				es[i].Init, es[i].Bal = add(es[i].Init, x), add(es[i].Bal, x)
				merged = true
			}
		}
		if !merged {
			es = append(es, UEnt{H, t, x, x})
		}
		k.UBD[key] = es
	case *stakingtypes.MsgBeginRedelegate:
		o.seen = append(o.seen, "redelegate")
		v, dst := find(m.ValidatorSrcAddress), find(m.ValidatorDstAddress)
		if v == nil || dst == nil || !bondDenom(m.Amount) || v == dst {
			return fl("no such validators or coin")
		}
		if dst.Tok.Sign() == 0 {
			o.soft = true
			if dst.Sh.Sign() > 0 {
				return fl("the validator has nothing left")
			}
		}
		key, dk := m.DelegatorAddress+"|"+v.Op, m.DelegatorAddress+"|"+dst.Op
		if bi(m.Amount.Amount).Cmp(bigI(10)) < 0 {
			o.soft = true
		}
		if _, ok := k.Dels[key]; ok {
			for r := range k.Red {
				if p := strings.Split(r, "|"); p[0] == m.DelegatorAddress && p[2] == v.Op {
					return fl("redelegated again too early")
				}
			}
			if len(k.Red[key+"|"+dst.Op]) >= int(sp.MaxEntries) {
				return fl("too many redelegations at once")
			}
		}
		vst, vunb, vpool := v.St, v.UnbT, poolOf(v)
		x, why := unbond(key, v, bi(m.Amount.Amount))
		if why != "" {
			return fl(why)
		}
		if k.Vals[v.Op] == nil {
			o.soft = true // the last stake of a validator without a part in the set
		}
		pay(dk)
		s.move(vpool, poolOf(dst), stake, x)
		before := mget(k.Dels, dk)
		addShares(dk, dst, x)
		if vst != valUnbonded {
			t, h := s.Time.Add(sp.UnbondingTime).UnixNano(), H
			if vst == valUnbonding {
				t, h = vunb, -1
			}
			rk := key + "|" + dst.Op
			es := k.Red[rk]
			e := UEnt{h, t, x, sub(k.Dels[dk], before)}
			if zs := z.Red[rk]; h < 0 && len(zs) > 0 {
				e.H = zs[len(zs)-1].H
			}
			k.Red[rk] = append(es, e)
		}
	case *stakingtypes.MsgCancelUnbondingDelegation:
		o.seen = append(o.seen, "cancelunb")
		v := find(m.ValidatorAddress)
		if v == nil || !bondDenom(m.Amount) {
			return fl("no such validator or coin")
		}
		if v.Jailed {
			return fl("the validator is jailed")
		}
		if v.Tok.Sign() == 0 {
			o.soft = true
			if v.Sh.Sign() > 0 {
				return fl("the validator has nothing left")
			}
		}
		key := m.DelegatorAddress + "|" + v.Op
		amt := bi(m.Amount.Amount)
		es := k.UBD[key]
		at := -1
		for i := range es {
			if es[i].H == m.CreationHeight {
				at = i
				break
			}
		}
		if at < 0 {
			return fl("no such unbonding")
		}
		if es[at].Bal.Cmp(amt) < 0 {
			return fl("more than is unbonding")
		}
		if es[at].T < now {
			return fl("already over")
		}
		pay(key)
		s.move(notBondedPool, poolOf(v), stake, amt)
		addShares(key, v, amt)
		es = append([]UEnt{}, es...)
		if es[at].Bal.Cmp(amt) == 0 {
			es = append(es[:at], es[at+1:]...)
		} else {
			es[at].Bal, es[at].Init = sub(es[at].Bal, amt), sub(es[at].Init, amt)
		}
		if k.UBD[key] = es; len(es) == 0 {
			delete(k.UBD, key)
		}
	case *distrtypes.MsgWithdrawDelegatorReward:
		o.seen = append(o.seen, "reward")
		key := m.DelegatorAddress + "|" + accOfVal(m.ValidatorAddress)
		if _, ok := k.Dels[key]; !ok {
			return fl("no such delegation")
		}
		pay(key)
	case *distrtypes.MsgWithdrawValidatorCommission:
		o.seen = append(o.seen, "commission")
		v := find(m.ValidatorAddress)
		n := 0
		if v != nil {
			for _, d := range sortedStr(v.Acc) {
				x := quo(v.Acc[d], e18)
				if v.Acc[d].Sign() > 0 {
					n++
				}
				if x.Sign() > 0 {
					s.move(distrAcc, k.Wd[v.Op], d, x)
					v.Acc[d] = sub(v.Acc[d], mul(x, e18))
					v.Out[d] = sub(mget(v.Out, d), mul(x, e18))
				}
			}
		}
		if n == 0 {
			return fl("no commission earned")
		}
	case *distrtypes.MsgSetWithdrawAddress:
		o.seen = append(o.seen, "setwd")
		if blockedAddr[m.WithdrawAddress] {
			return fl("may not receive coins")
		}
		k.Wd[m.DelegatorAddress] = m.WithdrawAddress
	case *distrtypes.MsgFundCommunityPool:
		o.seen = append(o.seen, "fundpool")
		if !coinsValid(m.Amount) || !w.send(s, m.Depositor, distrAcc, coins(m.Amount)) {
			return fl("not enough coins")
		}
		for _, c := range coins(m.Amount) {
			k.Pool[c.D] = add(mget(k.Pool, c.D), mul(c.A, e18))
		}
	case *slashingtypes.MsgUnjail:
		o.seen = append(o.seen, "unjail")
		v := find(m.ValidatorAddr)
		if v == nil {
			return fl("no such validator")
		}
		self, ok := k.Dels[v.Op+"|"+v.Op]
		if !ok || v.Sh.Sign() == 0 || quo(mul(self, v.Tok), v.Sh).Cmp(v.Min) < 0 {
			return fl("too little of its own")
		}
		if !v.Jailed {
			return fl("not jailed")
		}
		if i := k.Info[v.Cons]; i != nil && (i.Tomb || now < i.Until) {
			return fl("jailed still, or for ever")
		}
		v.Jailed = false
	case *stakingtypes.MsgCreateValidator:
		o.seen = append(o.seen, "createval")
		op := accOfVal(m.ValidatorAddress)
		pk, _ := m.Pubkey.GetCachedValue().(*ed25519.PubKey)
		cons := hex.EncodeToString(pk.Address())
		if k.Vals[op] != nil || k.byCons(cons) != nil {
			return fl("a validator already")
		}
		amt := bi(m.Value.Amount)
		if !bondDenom(m.Value) || amt.Cmp(bi(m.MinSelfDelegation)) < 0 || bi(m.MinSelfDelegation).Sign() <= 0 || bd(m.Commission.Rate).Cmp(e18) > 0 {
			return fl("not valid")
		}
		if s.bal(op, stake).Cmp(amt) < 0 {
			return fl("not enough coins")
		}
		v := &SVal{Op: op, Cons: cons, Tok: new(big.Int), Sh: new(big.Int), St: valUnbonded, Rate: bd(m.Commission.Rate), Min: bi(m.MinSelfDelegation), Out: map[string]*big.Int{}, Acc: map[string]*big.Int{}}
		k.Vals[op] = v
		s.move(op, notBondedPool, stake, amt)
		addShares(op+"|"+op, v, amt)
	}
	return "", true
}

// ---- oracle ----

var c27 = []string{"C27"}

func (o *BlockObs) firstTx() *Snap {
	if len(o.Txs) > 0 {
		return o.Txs[0].Before
	}
	return o.PostTxs
}

// checkStakeStart judges the begin of a block; it comes before its transactions are judged.
func (w *World) checkStakeStart(b *Block, o *BlockObs) {
	if w.usesStake() && w.stk.prev != nil {
		w.checkStakeBegin(b, w.stk.prev, o.firstTx())
		for _, x := range o.Txs {
			w.checkStakeState(b.Height, x.Before)
		}
	}
}

// checkStake judges one block of a run with validators of its own.
func (w *World) checkStake(b *Block, o *BlockObs, ups []abci.ValidatorUpdate) {
	if !w.usesStake() {
		return
	}
	n0 := w.Nodes[0]
	Z, err := n0.committed(b.Height)
	if err != nil {
		w.viol(P("C27"), "stake-unreadable", "block %d: %v", b.Height, err)
		return
	}
	w.checkStakeEnd(b, o, o.PostTxs, Z, ups)
	for _, s := range []*Snap{o.PostTxs, Z} {
		w.checkStakeState(b.Height, s)
	}
	w.stk.prev = Z
	w.noteUpdates(b, ups)
}

func (w *World) checkStakeState(H int64, s *Snap) {
	k := s.Stk
	bonded, not := new(big.Int), new(big.Int)
	shares := map[string]*big.Int{}
	for d, x := range k.Dels {
		v := strings.Split(d, "|")[1]
		shares[v] = add(mget(shares, v), x)
		if x.Sign() <= 0 {
			w.viol(c27, "empty-delegation", "block %d: delegation %s of %s shares", H, d, x)
		}
	}
	out := cloneMap(k.Pool)
	for op, v := range k.Vals {
		if l := w.stk.least[op]; l == nil || v.Tok.Cmp(l) < 0 {
			w.stk.least[op] = maxB(v.Tok, big1)
		}
		if v.St == valBonded {
			bonded.Add(bonded, v.Tok)
		} else {
			not.Add(not, v.Tok)
		}
		if mget(shares, op).Cmp(v.Sh) != 0 {
			w.viol(c27, "shares-add-up", "block %d: validator %s has %s shares, its delegations %s", H, op, v.Sh, mget(shares, op))
		}
		for d, x := range v.Out {
			out[d] = add(mget(out, d), x)
			if x.Cmp(mget(v.Acc, d)) < 0 {
				w.viol(c27, "commission-backed", "block %d: validator %s: commission %s exceeds all its unpaid rewards %s", H, op, mget(v.Acc, d), x)
			}
		}
	}
	for v := range shares {
		if k.Vals[v] == nil {
			w.viol(c27, "delegation-to-nobody", "block %d: delegation to validator %s, which does not exist", H, v)
		}
	}
	for _, es := range k.UBD {
		for _, e := range es {
			not.Add(not, e.Bal)
		}
	}
	if x := s.bal(bondedPool, stake); x.Cmp(bonded) != 0 {
		w.viol(c27, "bonded-pool", "block %d: the bonded pool holds %s, bonded validators have %s", H, x, bonded)
	}
	if x := s.bal(notBondedPool, stake); x.Cmp(not) != 0 {
		w.viol(c27, "not-bonded-pool", "block %d: the pool of unbonded coins holds %s, validators and unbondings %s", H, x, not)
	}
	for _, d := range unionS(out, s.Bal[distrAcc]) {
		if x := quo(mget(out, d), e18); s.bal(distrAcc, d).Cmp(x) != 0 {
			w.viol(c27, "distribution-account", "block %d: unpaid rewards and the community pool are %s%s, the account holds %s", H, x, d, s.bal(distrAcc, d))
		}
	}
}

func eventAttr(evs []abci.Event, typ, key string) (out []string) {
	for _, e := range evs {
		if e.Type == typ {
			for _, a := range e.Attributes {
				if a.Key == key {
					out = append(out, a.Value)
				}
			}
		}
	}
	return
}

func near(a, b, tol *big.Int) bool { return new(big.Int).Abs(sub(a, b)).Cmp(tol) <= 0 }

// checkStakeBegin: new coins and yesterday's fees reach validators and their
// delegators, the absent and the dishonest are punished.
func (w *World) checkStakeBegin(b *Block, A, F *Snap) {
	H, m := b.Height, w.stk
	exp := A.Stk.clone()
	_, sl := w.stakeParams()
	// penalties
	now := b.Time.UnixNano()
	fuzzy := false
	redDst, redDel := map[string]bool{}, map[string]bool{}
	ceiling := new(big.Int)
	slash := func(v *SVal, power int64, frac math.LegacyDec, since int64) {
		amt := floorQ(mul(mul(bigI(power), powerRed), bd(frac)), e18)
		ceiling.Add(ceiling, amt)
		rest := amt
		for _, k := range sortedStr(exp.UBD) {
			if !strings.HasSuffix(k, "|"+v.Op) {
				continue
			}
			es := exp.UBD[k]
			for i := range es {
				if es[i].H >= since && es[i].T > now {
					x := floorQ(mul(es[i].Init, bd(frac)), e18)
					ceiling.Add(ceiling, x)
					rest = sub(rest, x)
					es[i].Bal = sub(es[i].Bal, minB(x, es[i].Bal))
				}
			}
		}
		for k, es := range exp.Red {
			if strings.Split(k, "|")[1] == v.Op {
				for _, e := range es {
					if e.H >= since && e.T > now {
						ceiling.Add(ceiling, floorQ(mul(e.Init, bd(frac)), e18))
						fuzzy = true // taking redelegated coins pays their rewards out
						p := strings.Split(k, "|")
						redDst[p[2]], redDel[p[0]+"|"+p[2]] = true, true
					}
				}
			}
		}
		rest = maxB(minB(rest, v.Tok), zero)
		v.Tok = sub(v.Tok, rest)
		w.Stats.Inc("slashes", 1)
	}
	win := sl.SignedBlocksWindow
	maxMiss := win - sl.MinSignedPerWindow.MulInt64(win).RoundInt64()
	for _, x := range b.Votes {
		c := hex.EncodeToString(x.Validator.Address)
		v, info := exp.byCons(c), exp.Info[c]
		if v == nil || v.Jailed || info == nil {
			continue
		}
		r := append(m.ring[c], x.BlockIdFlag == cmtproto.BlockIDFlagAbsent)
		if int64(len(r)) > win {
			r = r[int64(len(r))-win:]
		}
		n := int64(0)
		for _, y := range r {
			if y {
				n++
			}
		}
		m.ring[c] = r
		info.Missed = n
		if H > info.Start+win && n > maxMiss {
			slash(v, x.Validator.Power, sl.SlashFractionDowntime, H-2)
			v.Jailed = true
			info.Until = b.Time.Add(sl.DowntimeJailDuration).UnixNano()
			info.Missed = 0
			m.ring[c] = nil
			w.Stats.Inc("jailed_for_downtime", 1)
		}
	}
	for _, e := range b.Evid {
		c := hex.EncodeToString(e.Validator.Address)
		v, info := exp.byCons(c), exp.Info[c]
		if v == nil || v.St == valUnbonded || info == nil || info.Tomb {
			w.Stats.Inc("evidence_too_late", 1)
			continue
		}
		slash(v, e.Validator.Power, sl.SlashFractionDoubleSign, e.Height-1)
		v.Jailed = true
		info.Until = time.Unix(253402300799, 0).UnixNano()
		info.Tomb = true
		w.Stats.Inc("removed_for_double_signing", 1)
	}
	// new coins
	minted := new(big.Int)
	for _, x := range eventAttr(b.Events, "mint", "amount") {
		if v, ok := new(big.Int).SetString(x, 10); ok {
			minted.Add(minted, v)
		}
	}
	year := bigI(6311520)
	lo := sub(quo(mul(A.sup(stake), bigI(69)), mul(year, bigI(1000))), bigI(1))
	hi := add(quo(mul(A.sup(stake), bigI(201)), mul(year, bigI(1000))), bigI(1))
	if minted.Cmp(lo) < 0 || minted.Cmp(hi) > 0 {
		w.viol(c27, "minted", "block %d: %s new coins with a supply of %s", H, minted, A.sup(stake))
	}
	// yesterday's fees and the new coins are handed out
	tot := new(big.Int)
	for _, v := range b.Votes {
		tot.Add(tot, bigI(v.Validator.Power))
	}
	fees := map[string]*big.Int{}
	for d, x := range A.Bal[feeColl] {
		fees[d] = x
	}
	fees[stake] = add(mget(fees, stake), minted)
	for _, d := range sortedStr(fees) {
		f := fees[d]
		if x := F.bal(feeColl, d); x.Sign() != 0 {
			w.viol(P("C27", "C24"), "fees-kept", "block %d: %s%s of %s%s in fees and new coins were not handed out", H, x, d, f, d)
		}
		left := mul(f, e18)
		tol := add(quo(mul(f, bigI(10)), bigI(1)), bigI(10))
		for _, v := range b.Votes {
			op := exp.byCons(hex.EncodeToString(v.Validator.Address))
			if op == nil {
				continue
			}
			share := quo(mul(mul(mul(f, e18), bigI(98)), bigI(v.Validator.Power)), mul(tot, bigI(100)))
			left = sub(left, share)
			op.Out[d] = add(mget(op.Out, d), share)
			op.Acc[d] = add(mget(op.Acc, d), quo(mul(share, op.Rate), e18))
			if fv := F.Stk.Vals[op.Op]; fv != nil {
				if !redDst[op.Op] && (!near(op.Out[d], mget(fv.Out, d), tol) || !near(op.Acc[d], mget(fv.Acc, d), tol)) {
					w.viol(c27, "rewards-handed-out", "block %d: of %s%s validator %s should get %s (commission %s), got %s (%s)", H, f, d, op.Op, op.Out[d], op.Acc[d], mget(fv.Out, d), mget(fv.Acc, d))
				}
				// what each delegator is due
				av := A.Stk.Vals[op.Op]
				gain := sub(sub(mget(fv.Out, d), mget(av.Out, d)), sub(mget(fv.Acc, d), mget(av.Acc, d)))
				if redDst[op.Op] {
					gain = sub(share, quo(mul(share, op.Rate), e18))
				}
				for _, k := range sortedStr(A.Stk.Dels) {
					if strings.HasSuffix(k, "|"+op.Op) && av.Sh.Sign() > 0 {
						if m.due[k] == nil {
							m.due[k] = map[string]*big.Int{}
						}
						m.due[k][d] = add(mget(m.due[k], d), quo(mul(mul(gain, e18), A.Stk.Dels[k]), av.Sh))
					}
				}
			}
		}
		exp.Pool[d] = add(mget(exp.Pool, d), left)
		if !fuzzy && !near(exp.Pool[d], mget(F.Stk.Pool, d), mul(tol, bigI(int64(len(b.Votes)+1)))) {
			w.viol(c27, "community-share", "block %d: of %s%s the community pool should have %s, has %s", H, f, d, exp.Pool[d], mget(F.Stk.Pool, d))
		}
	}
	for k := range redDel {
		if x := F.Stk.Dels[k]; x == nil || x.Cmp(A.Stk.Dels[k]) != 0 {
			delete(m.due, k)
		}
	}
	// coins burned are exactly those taken from stakes
	burned := new(big.Int)
	held := func(s *Stk) *big.Int {
		t := new(big.Int)
		for _, v := range s.Vals {
			t.Add(t, v.Tok)
		}
		for _, es := range s.UBD {
			for _, e := range es {
				t.Add(t, e.Bal)
			}
		}
		return t
	}
	burned = sub(held(A.Stk), held(F.Stk))
	if x := sub(F.sup(stake), A.sup(stake)); x.Cmp(sub(minted, burned)) != 0 {
		w.viol(P("C27", "C01"), "stake-supply", "block %d: %s coins were minted and %s taken from stakes, but the supply changed by %s", H, minted, burned, x)
	}
	if burned.Sign() < 0 || burned.Cmp(ceiling) > 0 {
		w.viol(c27, "slashed-too-much", "block %d: %s coins were taken from stakes, at most %s may be", H, burned, ceiling)
	}
	e, g := exp.lines(), F.Stk.lines()
	if fuzzy { // redelegated coins are punished, too; only who is punished is compared
		w.Stats.Inc("slashed_redelegations", 1)
		for _, x := range []map[string]string{e, g} {
			for k := range x {
				if !strings.HasPrefix(k, "signing ") {
					delete(x, k)
				}
			}
		}
		for _, op := range sortedStr(exp.Vals) {
			if f := F.Stk.Vals[op]; f == nil || f.Jailed != exp.Vals[op].Jailed {
				w.viol(c27, "penalty", "block %d: validator %s should be jailed: %v", H, op, exp.Vals[op].Jailed)
			}
		}
	}
	if d := diffLines(e, g); len(d) > 0 {
		w.viol(c27, "penalty:"+lineKinds(d), "block %d, before its transactions: %s", H, short(d))
	}
}

func lineKinds(d []string) string {
	m := map[string]bool{}
	for _, x := range d {
		if p := strings.Split(x, " "); len(p) > 2 {
			m[p[2]] = true
		}
	}
	return strings.Join(sortedStr(m), "+")
}

// checkStakeTx: one transaction's effect on stakes and rewards.
func (w *World) checkStakeTx(b *Block, i int, msgs []sdk.Msg, s0, s1, exp *Snap, out *mOut, ok bool) {
	if !w.usesStake() {
		return
	}
	m := w.stk
	if !ok || out == nil || out.stk == 0 {
		d := append(diffLines(s0.Stk.lines(), s1.Stk.lines()), diffLines(s0.Stk.rewardLines(), s1.Stk.rewardLines())...)
		if len(d) > 0 {
			w.viol(P("C27", "C17"), "stake-changed-by-others", "block %d tx %d: %s", b.Height, i, short(d))
		}
		return
	}
	// rewards paid are those earned
	var flat []sdk.Msg
	for _, x := range msgs {
		flat = append(flat, x)
		if e, ok := x.(*authz.MsgExec); ok {
			in, _ := e.GetMessages()
			flat = append(flat, in...)
		}
	}
	for _, x := range flat {
		for _, key := range stakeTouch(x) {
			op := strings.Split(key, "|")[1]
			v, z := s0.Stk.Vals[op], s1.Stk.Vals[op]
			if v == nil {
				continue
			}
			_, had := s0.Stk.Dels[key]
			if had && z != nil && out.stk == 1 {
				for _, d := range unionS(v.Out, m.due[key]) {
					paid := sub(mget(v.Out, d), mget(z.Out, d))
					due := quo(mget(m.due[key], d), e18)
					// a coin's rounding whenever somebody else's coins leave a punished validator
					tol := add(mul(e18, bigI(2)), quo(due, bigI(1000000000)))
					if l := m.least[op]; l != nil {
						tol = add(tol, quo(mul(due, bigI(30)), l))
					}
					if !near(paid, due, tol) {
						w.viol(c27, "reward", "block %d tx %d: %s was due %s (in 1e-18) %s, was paid %s", b.Height, i, key, due, d, paid)
					}
					w.Stats.Inc("rewards_checked", 1)
				}
			}
			delete(m.due, key)
		}
	}
	if out.stk > 1 {
		return
	}
	d := diffLines(exp.Stk.lines(), s1.Stk.lines())
	if !out.gone {
		d = append(d, diffLines(exp.Stk.rewardLines(), s1.Stk.rewardLines())...)
	}
	if len(d) > 0 {
		w.viol(c27, "stake-effect:"+strings.Join(uniq(out.seen), "+")+":"+lineKinds(d), "block %d tx %d (%v): %s", b.Height, i, out.seen, short(d))
	}
}

// elect: the validators (by consensus address) that are to be bonded.
func (s *Stk) elect(n int) (in []string) {
	var el []*SVal
	for _, k := range sortedStr(s.Vals) {
		if v := s.Vals[k]; !v.Jailed && v.power() > 0 {
			el = append(el, v)
		}
	}
	raw := func(v *SVal) string { a, _ := sdk.AccAddressFromBech32(v.Op); return string(a) }
	sort.SliceStable(el, func(i, j int) bool {
		if p, q := el[i].power(), el[j].power(); p != q {
			return p > q
		}
		return raw(el[i]) < raw(el[j])
	})
	for i, v := range el {
		if i < n {
			in = append(in, v.Cons)
		}
	}
	return
}

// checkStakeEnd: unbonded coins are paid back in time, the validator set follows the stakes.
func (w *World) checkStakeEnd(b *Block, o *BlockObs, T, Z *Snap, ups []abci.ValidatorUpdate) {
	H, m := b.Height, w.stk
	now := b.Time.UnixNano()
	sp, _ := w.stakeParams()
	exp := T.Stk.clone()
	in := map[string]int64{}
	for _, c := range exp.elect(int(sp.MaxValidators)) {
		v := exp.byCons(c)
		in[v.Cons] = v.power()
		if v.St != valBonded {
			w.Stats.Inc("validators_bonded", 1)
			if exp.Info[v.Cons] == nil {
				exp.Info[v.Cons] = &SInfo{Until: time.Unix(0, 0).UnixNano()}
				delete(m.ring, v.Cons)
			}
		}
		v.St = valBonded
	}
	gone := false
	for _, k := range sortedStr(exp.Vals) {
		v := exp.Vals[k]
		if _, ok := in[v.Cons]; !ok && v.St == valBonded {
			v.St, v.UnbT = valUnbonding, b.Time.Add(sp.UnbondingTime).UnixNano()
			w.Stats.Inc("validators_unbonding", 1)
		}
		if v.St == valUnbonding && v.UnbT <= now {
			v.St = valUnbonded
			w.Stats.Inc("validators_unbonded", 1)
			if v.Sh.Sign() == 0 {
				delete(exp.Vals, k)
				gone = true
			}
		}
	}
	pay := map[string]*big.Int{}
	mature := func(mm map[string][]UEnt, f func(k string, e UEnt)) {
		for _, k := range sortedStr(mm) {
			var rest []UEnt
			for _, e := range mm[k] {
				if e.T <= now {
					f(k, e)
				} else {
					rest = append(rest, e)
				}
			}
			if mm[k] = rest; len(rest) == 0 {
				delete(mm, k)
			}
		}
	}
	mature(exp.UBD, func(k string, e UEnt) {
		d := strings.Split(k, "|")[0]
		pay[d] = add(mget(pay, d), e.Bal)
		w.Stats.Inc("unbondings_paid", 1)
	})
	mature(exp.Red, func(string, UEnt) {})
	if d := diffLines(exp.lines(), Z.Stk.lines()); len(d) > 0 {
		w.viol(c27, "stake-end:"+lineKinds(d), "end of block %d: %s", H, short(d))
	}
	if !gone {
		if d := diffLines(T.Stk.rewardLines(), Z.Stk.rewardLines()); len(d) > 0 {
			w.viol(c27, "stake-end-rewards", "end of block %d: %s", H, short(d))
		}
		for _, ac := range w.Accs {
			// whatever the market's own end block pays is judged apart
			got := sub(sub(Z.bal(ac.S, stake), T.bal(ac.S, stake)), sub(o.PostEnd.bal(ac.S, stake), o.PreEnd.bal(ac.S, stake)))
			if got.Cmp(mget(pay, ac.S)) != 0 {
				w.viol(c27, "unbonded-coins", "end of block %d: %s of unbonded coins were due to %s, who got %s", H, mget(pay, ac.S), ac.S, got)
			}
		}
	}
	if Z.sup(stake).Cmp(T.sup(stake)) != 0 {
		w.viol(P("C27", "C01"), "stake-supply-end", "end of block %d: the supply changed from %s to %s", H, T.sup(stake), Z.sup(stake))
	}
	// what the consensus engine is told
	got := cloneMap(m.last)
	for _, u := range ups {
		if u.Power == 0 {
			delete(got, updCons(u))
		} else {
			got[updCons(u)] = u.Power
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(in) {
		w.viol(c27, "validator-set", "end of block %d: the consensus engine knows %v, but the stakes say %v", H, got, in)
	}
}

var _ = authtypes.NewModuleAddress
