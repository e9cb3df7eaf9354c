package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"cosmossdk.io/math"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"

	dextypes "defund/x/dex/types"
)

const stake = "stake"

// checkBlock judges everything node 0 did in one block.
func (w *World) checkBlock(b *Block, o *BlockObs) {
	H := b.Height
	// between blocks nothing happens to the markets
	if o.Prev != nil {
		if o.Prev.DexSum != o.PreBegin.DexSum || o.Prev.ParamsRaw != o.PreBegin.ParamsRaw {
			w.viol(P("C14", "C15", "C21"), "changed-between-blocks", "block %d: dex state changed between the blocks: %s", H, short(diff(o.Prev, o.PreBegin, diffOpt{skipDenom: stake})))
		}
		if d := diff(o.Prev, o.PreBegin, diffOpt{skipDenom: stake}); len(d) > 0 {
			w.viol(P("C01", "C14", "C15"), "changed-between-blocks-money", "block %d: state changed between the blocks: %s", H, short(d))
		}
	}
	// begin of block: finished records go, everything else stays
	exp := o.PreBegin.clone()
	for k, x := range exp.Orders {
		if !x.live() {
			delete(exp.Orders, k)
		}
	}
	for k, x := range exp.Deps {
		if x.Status != rqPending {
			delete(exp.Deps, k)
		}
	}
	for k, x := range exp.Wds {
		if x.Status != rqPending {
			delete(exp.Wds, k)
		}
	}
	exp.DexSum = ""
	if d := diff(exp, o.PostBegin, diffOpt{}); len(d) > 0 {
		w.viol(P("C14", "C05", "C01"), "begin-block:"+diffKinds(d), "block %d: after BeginBlock: %s", H, short(d))
	}
	w.checkTxs(b, o)
	w.checkDonations(b, o)
	w.checkGov(b, o)
	// end of block
	A, Z := o.PreEnd, o.PostEnd
	if d := diff(o.PostTxs, A, diffOpt{skipDenom: stake, skipPar: true}); len(d) > 0 {
		w.viol(P("C14", "C01"), "other-end-blockers", "block %d: the dex state changed before the batch: %s", H, short(d))
	}
	batch := A.P.BatchSize > 0 && H%int64(A.P.BatchSize) == 0
	if batch {
		stable := w.obs.batchPar != "" && w.obs.batchPar == A.ParamsRaw
		w.checkBatch(b, A, Z, stable)
		w.obs.batchPar = A.ParamsRaw
	} else {
		w.Stats.Inc("blocks_between_batches", 1)
		if d := diff(A, Z, diffOpt{}); len(d) > 0 {
			w.viol(P("C14"), "off-schedule", "block %d is not a batch block (batch size %d), but: %s", H, A.P.BatchSize, short(d))
		}
		if A.ParamsRaw != w.obs.batchPar {
			w.obs.batchPar = "" // parameters changed within the batch window
		}
	}
	w.checkIBC(H, Z)
	w.checkState(H, Z)
	// what is committed is what was computed
	if H%3 == 0 {
		if s, err := w.Nodes[0].committed(0); err != nil {
			w.viol(P("C16", "C20"), "committed-unreadable", "block %d: %v", H, err)
		} else if d := diff(Z, s, diffOpt{}); len(d) > 0 || s.DexSum != Z.DexSum {
			w.viol(P("C16", "C15", "C20"), "committed-differs", "block %d: the committed state is not the computed one: %s", H, short(d))
		}
	}
}

// checkState: invariants of any state at a block boundary.
func (w *World) checkState(H int64, Z *Snap) {
	o := w.obs
	// escrows
	need := map[string]map[string]*big.Int{}
	addN := func(a, d string, x *big.Int) {
		if need[a] == nil {
			need[a] = map[string]*big.Int{}
		}
		need[a][d] = add(orZero(need[a][d]), x)
	}
	watch := map[string][]string{}
	for _, id := range Z.pairIDs() {
		p := Z.Pairs[id]
		watch[p.Escrow] = []string{p.Base, p.Quote}
	}
	mm := map[MMK]uint32{}
	for _, k := range Z.orderKeys() {
		x := Z.Orders[k]
		if x.live() {
			addN(Z.Pairs[x.Pair].Escrow, x.Rem.D, x.Rem.A)
			if x.Type == tMM {
				mm[MMK{x.Owner, x.Pair}]++
			}
		}
		// the record adds up
		sum := add(x.Open, zero)
		bad := ""
		spent := sub(x.Offer.A, x.Rem.A)
		filled := sub(x.Amt, sum)
		if x.Rem.D != x.Offer.D || spent.Sign() < 0 || filled.Sign() < 0 {
			bad = "spent or filled is negative"
		}
		if x.Dir == buy && x.Recv.A.Cmp(filled) != 0 {
			bad = "received differs from filled"
		}
		if x.Dir == sell && spent.Cmp(filled) != 0 {
			bad = "paid differs from filled"
		}
		if bad != "" {
			w.viol(P("C02"), "record-adds-up", "block %d: %s: %s", H, bad, x.str())
		}
	}
	gd := map[string]bool{}
	for _, k := range Z.depKeys() {
		if x := Z.Deps[k]; x.Status == rqPending {
			for _, c := range x.Coins {
				addN(globalEscrow, c.D, c.A)
			}
		}
	}
	for _, k := range Z.wdKeys() {
		if x := Z.Wds[k]; x.Status == rqPending {
			addN(globalEscrow, x.Coin.D, x.Coin.A)
		}
	}
	for d := range Z.Bal[globalEscrow] {
		gd[d] = true
	}
	for d := range need[globalEscrow] {
		gd[d] = true
	}
	watch[globalEscrow] = sortedStr(gd)
	for _, a := range sortedStr(watch) {
		for _, d := range watch[a] {
			want := add(orZero(need[a][d]), o.donated(a, d))
			if want.Cmp(Z.bal(a, d)) != 0 {
				p := P("C01")
				if a == globalEscrow {
					p = P("C01", "C09", "C10")
				} else {
					p = P("C01", "C05")
				}
				w.viol(p, "escrow-backing", "block %d: escrow %s holds %s%s; live orders, requests and gifts account for %s", H, a, Z.bal(a, d), d, want)
			}
		}
	}
	// market-making counters
	for k, v := range mm {
		if Z.MM[k] != v {
			w.viol(P("C08"), "mm-count", "block %d: %v has %d live market-making orders, counter says %d", H, k, v, Z.MM[k])
		}
	}
	for k, v := range Z.MM {
		if v != mm[k] {
			w.viol(P("C08"), "mm-count", "block %d: %v has %d live market-making orders, counter says %d", H, k, mm[k], v)
		}
	}
	// supply
	sum := map[string]*big.Int{}
	for _, m := range Z.Bal {
		for d, v := range m {
			sum[d] = add(orZero(sum[d]), v)
		}
	}
	for _, d := range unionS(sum, Z.Sup) {
		if orZero(sum[d]).Cmp(Z.sup(d)) != 0 {
			w.viol(P("C01"), "supply-sum", "block %d: balances of %s add up to %s, supply is %s", H, d, orZero(sum[d]), Z.sup(d))
		}
		if d != stake && !strings.HasPrefix(d, "pool") && !(w.traced[d] && o.genSup(w, d).Sign() == 0) {
			if g := o.genSup(w, d); g.Cmp(Z.sup(d)) != 0 {
				w.viol(P("C01"), "supply-changed", "block %d: supply of %s is %s, was %s", H, d, Z.sup(d), g)
			}
		}
	}
	// identities
	if o.ids == nil {
		o.ids = map[string]string{}
		o.lastP, o.lastQ = w.Cfg.LastPair, w.Cfg.LastPool
	}
	if Z.LastPair < o.lastP || Z.LastPool < o.lastQ {
		w.viol(P("C13"), "ids-back", "block %d: the last pair or pool id went back", H)
	}
	own := map[string]string{}
	coinPairs := map[string]uint64{}
	ident := func(k, v string) {
		if old, ok := o.ids[k]; ok && old != v {
			w.viol(P("C13"), "identity-changed:"+strings.SplitN(k, " ", 2)[0], "block %d: identity of %s changed from %s to %s", H, k, old, v)
		}
		o.ids[k] = v
	}
	claim := func(addr, who string) {
		if x, ok := own[addr]; ok && x != who {
			w.viol(P("C13"), "account-shared", "block %d: %s and %s share the account %s", H, x, who, addr)
		}
		own[addr] = who
	}
	claim(globalEscrow, "the global escrow")
	var lastQ uint64
	for _, id := range Z.pairIDs() {
		p := Z.Pairs[id]
		if p.ID != id || id > Z.LastPair || id <= w.Cfg.LastPair {
			w.viol(P("C13"), "pair-id", "block %d: pair id %d outside the ids handed out", H, id)
		}
		ident(fmt.Sprint("pair ", id), fmt.Sprint(p.Base, p.Quote, p.Escrow))
		claim(p.Escrow, fmt.Sprint("pair ", id))
		ck := p.Base + "|" + p.Quote
		if x, ok := coinPairs[ck]; ok {
			w.viol(P("C13"), "pair-twice", "block %d: pairs %d and %d are both %s", H, x, id, ck)
		}
		coinPairs[ck] = id
		k := fmt.Sprint("order counter ", id)
		if p.LastOrder < o.ctr[k] {
			w.viol(P("C13"), "order-counter", "block %d: last order id of pair %d went back", H, id)
		}
		o.setCtr(k, p.LastOrder)
	}
	if int(Z.LastPair-w.Cfg.LastPair) != len(Z.Pairs) {
		w.viol(P("C13"), "pair-count", "block %d: %d pairs exist, ids up to %d handed out", H, len(Z.Pairs), Z.LastPair)
	}
	if int(Z.LastPool-w.Cfg.LastPool) != len(Z.Pools) {
		w.viol(P("C13", "C12"), "pool-count", "block %d: %d pools exist, ids up to %d handed out", H, len(Z.Pools), Z.LastPool)
	}
	nb := map[uint64]int{}
	_ = lastQ
	for _, id := range Z.poolIDs() {
		p := Z.Pools[id]
		ident(fmt.Sprint("pool ", id), fmt.Sprint(p.Type, p.Pair, p.Creator, p.Reserve, p.Denom, decS(p.Min), decS(p.Max)))
		claim(p.Reserve, fmt.Sprint("pool ", id))
		if Z.Pairs[p.Pair] == nil {
			w.viol(P("C13"), "pool-without-pair", "block %d: pool %d belongs to no pair", H, id)
		}
		if p.Disabled {
			o.setCtr(fmt.Sprint("disabled ", id), 1)
		} else {
			if o.ctr[fmt.Sprint("disabled ", id)] == 1 {
				w.viol(P("C12"), "pool-reopened", "block %d: pool %d was closed and is open again", H, id)
			}
			if p.Type == poolBasic {
				nb[p.Pair]++
			}
		}
		for i, v := range []uint64{p.LastDep, p.LastWd} {
			k := fmt.Sprint("req ", i, " ", id)
			if v < o.ctr[k] {
				w.viol(P("C13"), "request-counter", "block %d: last request id of pool %d went back", H, id)
			}
			o.setCtr(k, v)
		}
	}
	for pid, n := range nb {
		if n > 1 {
			w.viol(P("C12"), "two-basic-pools", "block %d: pair %d has %d active basic pools", H, pid, n)
		}
	}
	for _, k := range Z.orderKeys() {
		x := Z.Orders[k]
		ident(fmt.Sprint("order ", k), fmt.Sprint(x.Type, x.Height, x.Owner, x.Dir, cs(x.Offer), decS(x.Price), x.Amt, x.Batch, x.Expire.UnixNano()))
		if p := Z.Pairs[x.Pair]; p == nil || x.ID > p.LastOrder {
			w.viol(P("C13"), "order-id", "block %d: order %v outside the ids handed out", H, k)
		}
		o.life(w, H, k, x)
	}
	o.lastP, o.lastQ = Z.LastPair, Z.LastPool
}

// life: once ended, an order never comes back; a record once gone stays gone.
func (o *Observer) life(w *World, H int64, k K2, x *Order) {
	if o.ended == nil {
		o.ended = map[K2]int64{}
	}
	if !x.live() {
		if _, ok := o.ended[k]; !ok {
			o.ended[k] = H
		}
		if o.ended[k] < H {
			w.viol(P("C05", "C14"), "order-lingers", "block %d: order %v ended at block %d and is still recorded", H, k, o.ended[k])
		}
		return
	}
	if e, ok := o.ended[k]; ok {
		w.viol(P("C05"), "order-revived", "block %d: order %v ended at block %d and is live again", H, k, e)
	}
}

func (o *Observer) setCtr(k string, v uint64) {
	if o.ctr == nil {
		o.ctr = map[string]uint64{}
	}
	o.ctr[k] = v
}

func orZero(x *big.Int) *big.Int {
	if x == nil {
		return zero
	}
	return x
}

func (o *Observer) donated(a, d string) *big.Int { return orZero(o.gifts[a+"|"+d]) }

func (o *Observer) genSup(w *World, d string) *big.Int {
	if o.sup0 == nil {
		o.sup0 = map[string]*big.Int{}
		for i := range w.Accs {
			for _, x := range w.Cfg.Denoms {
				o.sup0[x] = add(orZero(o.sup0[x]), bigS(w.Cfg.Bal[i]))
			}
		}
	}
	return orZero(o.sup0[d])
}

// checkDonations records what successful transactions sent to the escrow
// accounts directly.
func (w *World) checkDonations(b *Block, o *BlockObs) {
	for i, t := range b.Txs {
		if b.Results[i].Code != 0 {
			continue
		}
		tx, err := w.txc.TxDecoder()(t)
		if err != nil {
			continue
		}
		w.gift(tx.GetMsgs())
	}
}

func (w *World) gift(ms []sdk.Msg) {
	for _, m := range ms {
		switch m := m.(type) {
		case *banktypes.MsgSend:
			if w.obs.gifts == nil {
				w.obs.gifts = map[string]*big.Int{}
			}
			for _, c := range m.Amount {
				k := m.ToAddress + "|" + c.Denom
				w.obs.gifts[k] = add(orZero(w.obs.gifts[k]), bi(c.Amount))
			}
		case *authz.MsgExec:
			if x, err := m.GetMessages(); err == nil {
				w.gift(x)
			}
		}
	}
}

// ---- governance ----

func validParams(p dextypes.Params) bool {
	okAddr := func(s string) bool { _, err := sdk.AccAddressFromBech32(s); return err == nil }
	okCoins := func(c sdk.Coins) bool { return len(c) == 0 || coinsValid(c) }
	return p.BatchSize > 0 && okAddr(p.FeeCollectorAddress) && okAddr(p.DustCollectorAddress) &&
		!p.MinInitialPoolCoinSupply.IsNil() && p.MinInitialPoolCoinSupply.IsPositive() && okCoins(p.PairCreationFee) && okCoins(p.PoolCreationFee) &&
		!p.MinInitialDepositAmount.IsNil() && !p.MinInitialDepositAmount.IsNegative() && !p.MaxPriceLimitRatio.IsNil() && !p.MaxPriceLimitRatio.IsNegative() &&
		p.MaxNumMarketMakingOrderTicks > 0 && p.MaxNumMarketMakingOrdersPerPair > 0 && p.MaxOrderLifespan >= 0 &&
		!p.SwapFeeRate.IsNil() && !p.SwapFeeRate.IsNegative() && !p.WithdrawFeeRate.IsNil() && !p.WithdrawFeeRate.IsNegative() &&
		p.MaxPriceLimitRatio.LT(math.LegacyOneDec()) && p.WithdrawFeeRate.LTE(math.LegacyOneDec())
}

func (w *World) checkGov(b *Block, o *BlockObs) {
	H := b.Height
	var ids []uint64
	for id := range o.GovPre {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	want := paramsStr(o.PostTxs.P)
	cands := map[string]bool{want: true}
	changed := 0
	for _, id := range ids {
		pre, now := o.GovPre[id], o.Gov1[id]
		if now == nil || pre.Status == now.Status {
			continue
		}
		w.Stats.Inc("proposal_"+now.Status.String(), 1)
		if now.Status != govv1.StatusPassed && now.Status != govv1.StatusFailed {
			continue
		}
		ok := true
		var last *dextypes.Params
		dexOnly := true
		for _, m := range pre.Msgs {
			u, is := m.(*dextypes.MsgUpdateParams)
			if !is {
				dexOnly = false
				continue
			}
			if u.Authority != govAddr || !validParams(u.Params) {
				ok = false
			} else {
				q := u.Params
				last = &q
			}
		}
		if !dexOnly {
			continue
		}
		switch {
		case now.Status == govv1.StatusPassed && !ok:
			w.viol(P("C23"), "invalid-update-executed", "block %d: proposal %d with an invalid update was executed", H, id)
		case now.Status == govv1.StatusFailed && ok:
			w.viol(P("C23"), "valid-update-failed", "block %d: proposal %d with a valid update failed", H, id)
		case now.Status == govv1.StatusPassed && last != nil:
			want = paramsStr(last)
			cands[want] = true
			changed++
		}
	}
	w.checkGovMoney(b, o, ids)
	got := paramsStr(o.PreEnd.P)
	if changed <= 1 && got != want || changed > 1 && !cands[got] {
		w.viol(P("C23"), "params-wrong", "block %d: parameters are %s, expected %s", H, got, want)
	}
	if changed == 0 && o.PostTxs.ParamsRaw != o.PreEnd.ParamsRaw {
		w.viol(P("C23"), "params-changed", "block %d: parameters changed without a passed proposal", H)
	}
	if changed > 0 {
		w.Stats.Inc("param_updates", changed)
	}
}

// checkGovMoney: the stake's vote decides a proposal when its time is over; deposits
// go back, or are burned after a veto. (One validator holds all stake here.)
func (w *World) checkGovMoney(b *Block, o *BlockObs, ids []uint64) {
	if w.usesStake() {
		return
	}
	H, now := b.Height, b.Time.UnixNano()
	boss := w.Accs[0].S
	back, burned, held := map[string]*big.Int{}, new(big.Int), new(big.Int)
	for _, id := range ids {
		pre, z := o.GovPre[id], o.Gov1[id]
		opt := pre.Votes[boss]
		voting := pre.Status == govv1.StatusVotingPeriod
		over := voting && pre.VoteEnd <= now || pre.Status == govv1.StatusDepositPeriod && pre.DepEnd <= now
		if !over {
			if z == nil || z.Status != pre.Status {
				w.viol(P("C23"), "proposal-ended", "block %d: proposal %d ended before its time", H, id)
			}
			continue
		}
		st := govv1.ProposalStatus(-1)
		if z != nil {
			st = z.Status
		}
		switch {
		case !voting:
			if z != nil {
				w.viol(P("C23"), "proposal-kept", "block %d: proposal %d without enough deposit is still there", H, id)
			}
		case opt == int(govv1.OptionYes):
			if st != govv1.StatusPassed && st != govv1.StatusFailed {
				w.viol(P("C23"), "proposal-outcome", "block %d: all stake voted for proposal %d, which is now %s", H, id, st)
			}
		case pre.Expedited:
			if st != govv1.StatusVotingPeriod {
				w.viol(P("C23"), "proposal-outcome", "block %d: expedited proposal %d without the votes is now %s", H, id, st)
			}
			continue
		case st != govv1.StatusRejected:
			w.viol(P("C23"), "proposal-outcome", "block %d: proposal %d, for which no stake voted, is now %s", H, id, st)
		}
		for a, x := range pre.Deps {
			if voting && opt == int(govv1.OptionNoWithVeto) {
				burned.Add(burned, x)
			} else {
				back[a] = add(mget(back, a), x)
			}
		}
		w.Stats.Inc("proposals_ended", 1)
		if burned.Sign() > 0 {
			w.Stats.Inc("proposals_vetoed", 1)
		}
	}
	for _, x := range o.Gov1 {
		for _, d := range x.Deps {
			held.Add(held, d)
		}
	}
	for _, ac := range w.Accs {
		if x := sub(o.PreEnd.bal(ac.S, stake), o.PostTxs.bal(ac.S, stake)); x.Cmp(mget(back, ac.S)) != 0 {
			w.viol(P("C23", "C01"), "deposits-back", "block %d: %s of deposits were due to %s, who got %s", H, mget(back, ac.S), ac.S, x)
		}
	}
	if x := sub(o.PostTxs.sup(stake), o.PreEnd.sup(stake)); x.Cmp(burned) != 0 {
		w.viol(P("C23", "C01"), "deposits-burned", "block %d: %s of vetoed deposits were to be burned, %s were", H, burned, x)
	}
	if x := o.PreEnd.bal(govAddr, stake); x.Cmp(held) < 0 {
		w.viol(P("C23", "C01"), "deposits-held", "block %d: %s of deposits are promised, %s are held", H, held, x)
	}
}

func paramsStr(p *dextypes.Params) string {
	q := *p
	if len(q.PairCreationFee) == 0 {
		q.PairCreationFee = nil
	}
	if len(q.PoolCreationFee) == 0 {
		q.PoolCreationFee = nil
	}
	return jsonStr(q)
}

// ---- registered invariants ----

// checkInvariants runs every registered invariant on the state after EndBlock
// and on deliberately broken copies of it.
func (o *Observer) checkInvariants(ctx sdk.Context) {
	w := o.w
	rs := o.a.CrisisKeeper.Routes()
	n := 0
	for _, r := range rs {
		if r.ModuleName == dextypes.ModuleName {
			n++
		}
	}
	if n == 0 {
		w.viol(P("C25"), "not-registered", "no dex invariant is registered with the crisis module")
		return
	}
	full := ctx.BlockHeight()%5 == 0
	for _, r := range rs {
		if r.ModuleName != dextypes.ModuleName && !full {
			continue
		}
		cctx, _ := ctx.CacheContext()
		if msg, broken := r.Invar(cctx); broken {
			p := P("C25")
			if r.ModuleName == "bank" {
				p = append(p, "C01")
			}
			w.viol(p, "invariant-broken:"+r.FullRoute(), "block %d: invariant %s is broken: %s", ctx.BlockHeight(), r.FullRoute(), msg)
		}
		w.Stats.Inc("invariant_runs", 1)
	}
	o.perturb(ctx)
}

// perturb damages a discarded copy of the state in ways each of the dex
// invariants exists to notice; at least one must.
func (o *Observer) perturb(ctx sdk.Context) {
	w := o.w
	s := o.cur.PostEnd
	H := ctx.BlockHeight()
	notice := func(what string, c sdk.Context) {
		for _, r := range o.a.CrisisKeeper.Routes() {
			if r.ModuleName == dextypes.ModuleName {
				if _, broken := r.Invar(c); broken {
					w.Stats.Inc("perturbations_noticed", 1)
					return
				}
			}
		}
		w.viol(P("C25"), "unnoticed:"+what, "block %d: no registered invariant notices %s", H, what)
	}
	take := func(c sdk.Context, from, d string, amt *big.Int) bool {
		f, err := sdk.AccAddressFromBech32(from)
		if err != nil {
			return false
		}
		return o.a.BankKeeper.SendCoins(c, f, w.Accs[0].Addr, sdk.NewCoins(sdk.NewCoin(d, intB(amt)))) == nil
	}
	var live, mm *Order
	for _, k := range s.orderKeys() {
		if x := s.Orders[k]; x.live() && x.Rem.A.Sign() > 0 {
			live = x
			if x.Type == tMM {
				mm = x
			}
		}
	}
	if live != nil {
		p := s.Pairs[live.Pair]
		c, _ := ctx.CacheContext()
		need := new(big.Int)
		for _, x := range s.Orders {
			if x.live() && x.Pair == live.Pair && x.Rem.D == live.Rem.D {
				need.Add(need, x.Rem.A)
			}
		}
		if take(c, p.Escrow, live.Rem.D, add(sub(s.bal(p.Escrow, live.Rem.D), need), bn(1))) {
			notice("an order escrow short of one coin", c)
		}
	}
	if mm != nil {
		c, _ := ctx.CacheContext()
		st := c.MultiStore().GetKVStore(o.a.GetKey(dextypes.StoreKey))
		// find the counter record by its shape
		ad, _ := sdk.AccAddressFromBech32(mm.Owner)
		it := st.Iterator([]byte{0xb7}, []byte{0xb8})
		var key []byte
		for ; it.Valid(); it.Next() {
			if strings.Contains(string(it.Key()), string(ad)) {
				key = append([]byte{}, it.Key()...)
				break
			}
		}
		it.Close()
		if key != nil && len(st.Get(key)) > 0 {
			v := append([]byte{}, st.Get(key)...)
			v[len(v)-1]++
			st.Set(key, v)
			notice("a wrong market-making order count", c)
		}
	}
	// one coin more than the global escrow account can spare of a denom; a
	// deposit and a withdrawal of the same denom are checked apart
	surplus := func(d string) *big.Int {
		dep, wd := new(big.Int), new(big.Int)
		for _, x := range s.Deps {
			if x.Status == rqPending {
				dep.Add(dep, amtOf(x.Coins, d))
			}
		}
		for _, x := range s.Wds {
			if x.Status == rqPending && x.Coin.D == d {
				wd.Add(wd, x.Coin.A)
			}
		}
		if dep.Cmp(wd) < 0 {
			dep = wd
		}
		return add(sub(s.bal(globalEscrow, d), dep), bn(1))
	}
	for _, k := range s.depKeys() {
		if x := s.Deps[k]; x.Status == rqPending {
			c, _ := ctx.CacheContext()
			if take(c, globalEscrow, x.Coins[0].D, surplus(x.Coins[0].D)) {
				notice("a deposit escrow short of one coin", c)
			}
			break
		}
	}
	for _, k := range s.wdKeys() {
		if x := s.Wds[k]; x.Status == rqPending {
			c, _ := ctx.CacheContext()
			if take(c, globalEscrow, x.Coin.D, surplus(x.Coin.D)) {
				notice("a pool coin escrow short of one coin", c)
			}
			break
		}
	}
}
