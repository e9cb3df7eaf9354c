package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"time"
)

// The batch oracle: what one end-of-block batch may do, judged from the state
// before (A) and after (Z) it. It does not re-implement the matching
// algorithm; it states what any correct matching must satisfy.

type orderRes struct {
	k       K2
	a, z    *Order
	matched *big.Int
	paid    *big.Int
	recv    *big.Int
	born    uint64 // the batch it was placed in, as first recorded
}

type poolRes struct {
	p        *Pool
	x, y     *big.Int // reserves before (quote, base)
	dx, dy   *big.Int // change by trading
	levels   int64    // bound on the number of ladder levels that traded
	disabled bool     // takes no part in the batch
}

func bn(x int64) *big.Int      { return big.NewInt(x) }
func absB(x *big.Int) *big.Int { return new(big.Int).Abs(x) }

// sane amounts: beyond these only the exact rules are checked, not the ones
// with numerical tolerances.
var saneAmt = pow10(28)

func (w *World) checkBatch(b *Block, A, Z *Snap, stable bool) {
	T := b.Time
	exp := A.clone() // expected balances and supplies
	reqs := w.checkRequests(b, A, Z, exp)
	mmEnded := map[MMK]uint32{}
	w.Stats.Inc("batches", 1)

	for _, pid := range A.pairIDs() {
		pa, pz := A.Pairs[pid], Z.Pairs[pid]
		if pz == nil {
			w.viol(P("C13"), "pair-gone", "block %d: pair %d disappeared", b.Height, pid)
			continue
		}
		var rs []*orderRes
		for _, k := range A.orderKeys() {
			if k.A != pid {
				continue
			}
			a, z := A.Orders[k], Z.Orders[k]
			if z == nil {
				w.viol(P("C05", "C14"), "order-gone", "block %d: order %v disappeared in a batch", b.Height, k)
				continue
			}
			if !a.live() {
				if a.str() != z.str() {
					w.viol(P("C05", "C02"), "finished-order-changed", "block %d: finished order changed from %s to %s", b.Height, a.str(), z.str())
				}
				continue
			}
			r := &orderRes{k, a, z, sub(a.Open, z.Open), sub(a.Rem.A, z.Rem.A), sub(z.Recv.A, a.Recv.A), w.obs.bornIn(k, a.Batch)}
			w.checkOrder(b, T, r, mmEnded)
			rs = append(rs, r)
			// money
			exp.addBal(a.Owner, a.Recv.D, r.recv)
			exp.addBal(pa.Escrow, a.Rem.D, neg(r.paid))
			if !z.live() {
				exp.addBal(a.Owner, a.Rem.D, z.Rem.A)
				exp.addBal(pa.Escrow, a.Rem.D, neg(z.Rem.A))
			}
		}
		var ps []*poolRes
		for _, p := range A.poolsOf(pid) {
			x, y := A.bal(p.Reserve, pa.Quote), A.bal(p.Reserve, pa.Base)
			rq := reqs[p.ID]
			dx := sub(sub(Z.bal(p.Reserve, pa.Quote), x), rq.dx)
			dy := sub(sub(Z.bal(p.Reserve, pa.Base), y), rq.dy)
			ps = append(ps, &poolRes{p: p, x: x, y: y, dx: dx, dy: dy, disabled: rq.inactive})
			exp.addBal(p.Reserve, pa.Quote, add(dx, rq.dx))
			exp.addBal(p.Reserve, pa.Base, add(dy, rq.dy))
		}
		w.checkMarket(b, A, pa, pz, rs, ps, exp, stable)
		w.note(pa, pz, rs, ps)
	}
	for _, k := range Z.orderKeys() {
		if A.Orders[k] == nil {
			w.viol(P("C05", "C14", "C13"), "order-from-nowhere", "block %d: order %v appeared in a batch", b.Height, k)
		}
	}
	// market-making counters
	for k, v := range A.MM {
		want := int64(v) - int64(mmEnded[k])
		if int64(Z.MM[k]) != want {
			ps := P("C08")
			if w.failedBy[k.Addr] {
				ps = P("C08", "C17")
			}
			w.viol(ps, "mm-count-batch", "block %d: %d market-making orders of %v before the batch, %d ended, counter now %d", b.Height, v, k, mmEnded[k], Z.MM[k])
		}
	}
	// money, to the unit
	if d := diffBal(exp.Bal, Z.Bal, ""); len(d) > 0 {
		props := map[string]bool{"C01": true, "C05": true}
		dust := A.P.DustCollectorAddress
		for a := range exp.Bal {
			for _, dn := range unionS(exp.Bal[a], Z.Bal[a]) {
				if exp.bal(a, dn).Cmp(Z.bal(a, dn)) == 0 {
					continue
				}
				if a == dust {
					props["C04"], props["C24"] = true, true
				}
				if a == globalEscrow {
					props["C09"], props["C10"] = true, true
				}
				if _, ok := w.ByAdr[a]; ok {
					props["C02"] = true
					for _, q := range A.Deps {
						if q.Owner == a && q.Status == rqPending {
							props["C09"] = true
						}
					}
					for _, q := range A.Wds {
						if q.Owner == a && q.Status == rqPending {
							props["C10"] = true
						}
					}
				}
			}
		}
		w.viol(sortedStr(props), "batch-money", "block %d: after the batch: %s", b.Height, short(d))
	}
	for _, dn := range unionS(exp.Sup, Z.Sup) {
		if exp.sup(dn).Cmp(Z.sup(dn)) != 0 {
			w.viol(P("C01", "C09", "C10"), "batch-supply", "block %d: supply of %s is %s after the batch, expected %s", b.Height, dn, Z.sup(dn), exp.sup(dn))
		}
	}
	if A.LastPair != Z.LastPair || A.LastPool != Z.LastPool {
		w.viol(P("C13"), "batch-ids", "block %d: a batch changed the last pair or pool id", b.Height)
	}
	if A.ParamsRaw != Z.ParamsRaw {
		w.viol(P("C23"), "batch-params", "block %d: a batch changed the parameters", b.Height)
	}
}

// checkOrder: the record of one order that was live before the batch.
func (w *World) checkOrder(b *Block, T time.Time, r *orderRes, mm map[MMK]uint32) {
	a, z := r.a, r.z
	H := b.Height
	// identity never changes
	ia, iz := *a, *z
	ia.Open, ia.Rem, ia.Recv, ia.Status = nil, Coin{}, Coin{}, 0
	iz.Open, iz.Rem, iz.Recv, iz.Status = nil, Coin{}, Coin{}, 0
	if fmt.Sprint(ia) != fmt.Sprint(iz) && (a.ID != z.ID || a.Owner != z.Owner || a.Dir != z.Dir || a.Price.Cmp(z.Price) != 0 || a.Amt.Cmp(z.Amt) != 0 || cs(a.Offer) != cs(z.Offer) || a.Batch != z.Batch || a.Type != z.Type || a.Pair != z.Pair || a.Height != z.Height || !a.Expire.Equal(z.Expire)) {
		w.viol(P("C13", "C02"), "order-identity", "block %d: identity of an order changed: %s -> %s", H, a.str(), z.str())
	}
	if a.Rem.D != z.Rem.D || a.Recv.D != z.Recv.D {
		w.viol(P("C02"), "order-denom", "block %d: order coins changed: %s -> %s", H, a.str(), z.str())
		return
	}
	due := !a.Expire.After(T)
	early := due && a.Status != stNotExecuted // must not trade any more
	m := r.matched
	if m.Sign() < 0 || r.paid.Sign() < 0 || r.recv.Sign() < 0 || z.Open.Sign() < 0 || z.Rem.A.Sign() < 0 {
		w.viol(P("C02"), "order-negative", "block %d: order went backwards: %s -> %s", H, a.str(), z.str())
		return
	}
	if m.Sign() == 0 && (r.paid.Sign() != 0 || r.recv.Sign() != 0) {
		w.viol(P("C02"), "order-paid-unmatched", "block %d: order paid or received without matching: %s -> %s", H, a.str(), z.str())
	}
	if a.Dir == buy && r.recv.Cmp(m) != 0 {
		w.viol(P("C02"), "buy-received", "block %d: buy order matched %s but received %s: %s -> %s", H, m, r.recv, a.str(), z.str())
	}
	if a.Dir == sell && r.paid.Cmp(m) != 0 {
		w.viol(P("C02"), "sell-paid", "block %d: sell order matched %s but paid %s: %s -> %s", H, m, r.paid, a.str(), z.str())
	}
	if early && m.Sign() != 0 {
		w.viol(P("C05"), "expired-traded", "block %d: order %v traded after its lifetime had passed", H, r.k)
	}
	want := a.Status
	switch {
	case z.Open.Sign() == 0:
		want = stCompleted
	case due || tooSmall(z.Open, a.Price):
		want = stExpired
	case m.Sign() > 0:
		want = stPartial
	case a.Status == stNotExecuted:
		want = stNotMatched
	}
	if z.Status != want {
		w.viol(P("C05", "C14"), fmt.Sprintf("order-status:%d-%d", want, z.Status), "block %d: order %s must have status %d after the batch, is %s", H, a.str(), want, z.str())
	}
	if !z.live() {
		w.Stats.Inc(fmt.Sprintf("order_end_%d", z.Status), 1)
		if a.Type == tMM {
			mm[MMK{a.Owner, a.Pair}]++
		}
	}
	if m.Sign() > 0 {
		w.Stats.Inc("orders_matched", 1)
	}
}

type reqRes struct {
	dx, dy   *big.Int
	inactive bool // disabled or depleted at the start of the batch
}

func depleted(p *Pool, x, y, ps *big.Int) bool {
	if ps.Sign() == 0 {
		return true
	}
	if p.Type == poolBasic {
		return x.Sign() == 0 || y.Sign() == 0
	}
	return x.Sign() == 0 && y.Sign() == 0
}

// checkRequests replays deposits and withdrawals in their order of execution
// and judges each; exp gets their effect on balances and supplies.
func (w *World) checkRequests(b *Block, A, Z *Snap, exp *Snap) map[uint64]*reqRes {
	H := b.Height
	out := map[uint64]*reqRes{}
	type st struct {
		x, y, ps *big.Int
		off      bool
	}
	cur := map[uint64]*st{}
	for _, id := range A.poolIDs() {
		p := A.Pools[id]
		pz := Z.Pools[id]
		out[id] = &reqRes{dx: zero, dy: zero}
		if pz == nil {
			w.viol(P("C12", "C13"), "pool-gone", "block %d: pool %d disappeared", H, id)
			continue
		}
		pair := A.Pairs[p.Pair]
		x, y := A.bal(p.Reserve, pair.Quote), A.bal(p.Reserve, pair.Base)
		ps := A.sup(p.Denom)
		s := &st{ps: ps}
		s.off = p.Disabled || depleted(p, x, y, ps)
		out[id].inactive = s.off
		cur[id] = s
	}
	// total change by requests, from the records
	for _, k := range A.depKeys() {
		a, z := A.Deps[k], Z.Deps[k]
		if a.Status != rqPending || z == nil || out[k.A] == nil {
			continue
		}
		pair := A.Pairs[A.Pools[k.A].Pair]
		out[k.A].dx = add(out[k.A].dx, amtOf(z.Accepted, pair.Quote))
		out[k.A].dy = add(out[k.A].dy, amtOf(z.Accepted, pair.Base))
	}
	for _, k := range A.wdKeys() {
		a, z := A.Wds[k], Z.Wds[k]
		if a.Status != rqPending || z == nil || out[k.A] == nil {
			continue
		}
		pair := A.Pairs[A.Pools[k.A].Pair]
		out[k.A].dx = sub(out[k.A].dx, amtOf(z.Out, pair.Quote))
		out[k.A].dy = sub(out[k.A].dy, amtOf(z.Out, pair.Base))
	}
	// reserves when the requests start: after trading
	for id, s := range cur {
		p := A.Pools[id]
		pair := A.Pairs[p.Pair]
		s.x = sub(Z.bal(p.Reserve, pair.Quote), out[id].dx)
		s.y = sub(Z.bal(p.Reserve, pair.Base), out[id].dy)
	}
	for _, k := range A.depKeys() {
		a, z := A.Deps[k], Z.Deps[k]
		if a.Status != rqPending {
			continue
		}
		s := cur[k.A]
		if z == nil || s == nil {
			w.viol(P("C09", "C14"), "deposit-gone", "block %d: deposit %v disappeared unexecuted", H, k)
			continue
		}
		p := A.Pools[k.A]
		pair := A.Pairs[p.Pair]
		w.checkDep(b, p, pair, s.x, s.y, s.ps, &s.off, a, z, exp)
		s.x = add(s.x, amtOf(z.Accepted, pair.Quote))
		s.y = add(s.y, amtOf(z.Accepted, pair.Base))
		s.ps = add(s.ps, z.Minted.A)
	}
	for _, k := range A.wdKeys() {
		a, z := A.Wds[k], Z.Wds[k]
		if a.Status != rqPending {
			continue
		}
		s := cur[k.A]
		if z == nil || s == nil {
			w.viol(P("C10", "C14"), "withdrawal-gone", "block %d: withdrawal %v disappeared unexecuted", H, k)
			continue
		}
		p := A.Pools[k.A]
		pair := A.Pairs[p.Pair]
		whole := w.checkWd(b, A, p, pair, s.x, s.y, s.ps, &s.off, a, z, exp)
		s.x = sub(s.x, amtOf(z.Out, pair.Quote))
		s.y = sub(s.y, amtOf(z.Out, pair.Base))
		if z.Status == rqOK {
			s.ps = sub(s.ps, a.Coin.A)
		}
		if whole {
			s.off = true
		}
	}
	for _, k := range unionK(A.Deps, Z.Deps) {
		if a, z := A.Deps[k], Z.Deps[k]; a == nil || z == nil || (a.Status != rqPending && a.str() != z.str()) {
			w.viol(P("C09", "C14"), "deposit-record", "block %d: deposit record %v changed, appeared or vanished in a batch", H, k)
		}
	}
	for _, k := range unionK(A.Wds, Z.Wds) {
		if a, z := A.Wds[k], Z.Wds[k]; a == nil || z == nil || (a.Status != rqPending && a.str() != z.str()) {
			w.viol(P("C10", "C14"), "withdrawal-record", "block %d: withdrawal record %v changed, appeared or vanished in a batch", H, k)
		}
	}
	for _, id := range A.poolIDs() {
		p, pz, s := A.Pools[id], Z.Pools[id], cur[id]
		if pz == nil || s == nil {
			continue
		}
		q := *p
		q.Disabled = s.off
		if q.str() != pz.str() {
			w.viol(P("C12", "C13"), "pool-record", "block %d: pool after the batch: expected %s, is %s", H, q.str(), pz.str())
		}
		if s.off && !p.Disabled {
			w.Stats.Inc("pools_disabled", 1)
		}
	}
	for _, id := range Z.poolIDs() {
		if A.Pools[id] == nil {
			w.viol(P("C12", "C13"), "pool-from-nowhere", "block %d: pool %d appeared in a batch", H, id)
		}
	}
	return out
}

func (s *Snap) depKeys() []K2 { return sortedK2(s.Deps) }
func (s *Snap) wdKeys() []K2  { return sortedK2(s.Wds) }

func (w *World) checkDep(b *Block, p *Pool, pair *Pair, x, y, ps *big.Int, off *bool, a, z *Dep, exp *Snap) {
	H := b.Height
	for _, c := range a.Coins {
		exp.addBal(globalEscrow, c.D, neg(c.A))
		exp.addBal(a.Owner, c.D, sub(c.A, amtOf(z.Accepted, c.D)))
	}
	exp.addBal(a.Owner, p.Denom, z.Minted.A)
	exp.addSup(p.Denom, z.Minted.A)

	if a.ID != z.ID || a.Pool != z.Pool || a.Owner != z.Owner || a.Height != z.Height || coinsS(a.Coins) != coinsS(z.Coins) || (z.Minted.D != p.Denom) {
		w.viol(P("C13", "C09"), "deposit-identity", "block %d: %s -> %s", H, a.str(), z.str())
	}
	bad := func(key, f string, args ...interface{}) {
		w.viol(P("C09"), key, "block %d: deposit %s -> %s (pool reserves %s quote %s base, %s pool coins): %s", H, a.str(), z.str(), x, y, ps, fmt.Sprintf(f, args...))
	}
	switch z.Status {
	case rqFailed:
		if z.Minted.A.Sign() != 0 || len(z.Accepted) != 0 {
			bad("deposit-failed-charged", "failed but took coins or minted")
		}
		w.Stats.Inc("deposits_failed", 1)
	case rqOK:
		w.Stats.Inc("deposits_ok", 1)
	default:
		w.viol(P("C09", "C14", "C19"), "deposit-pending", "block %d: deposit still pending after a batch: %s", H, z.str())
		return
	}
	if !*off && depleted(p, x, y, ps) {
		*off = true
	}
	if *off {
		if z.Status != rqFailed {
			w.viol(P("C09", "C12"), "deposit-into-closed", "block %d: deposit into a closed pool executed: %s", H, z.str())
		}
		return
	}
	ox, oy := amtOf(a.Coins, pair.Quote), amtOf(a.Coins, pair.Base)
	// the fair amount: floor(ps * min(ox/x, oy/y))
	var num, den *big.Int
	switch {
	case x.Sign() == 0:
		num, den = oy, y
	case y.Sign() == 0:
		num, den = ox, x
	case mul(ox, y).Cmp(mul(oy, x)) <= 0:
		num, den = ox, x
	default:
		num, den = oy, y
	}
	fair := floorQ(mul(ps, num), den)
	slack := add(quo(ps, e18), bn(1))
	if ps.Cmp(pow10(41)) > 0 || fair.Cmp(pow10(41)) > 0 {
		return // beyond the decimals' range the code may refuse
	}
	pc := z.Minted.A
	if z.Status == rqFailed {
		if fair.Cmp(add(slack, bn(0))) > 0 {
			bad("deposit-refused", "it would mint %s pool coins", fair)
		}
		return
	}
	if pc.Sign() <= 0 {
		bad("deposit-mints-nothing", "succeeded without minting")
	}
	if pc.Cmp(fair) > 0 {
		bad("deposit-dilutes", "minted more than the fair %s", fair)
	}
	if pc.Cmp(sub(fair, slack)) < 0 {
		bad("deposit-short", "minted less than the fair %s", fair)
	}
	for _, q := range []struct {
		d      string
		off, r *big.Int
	}{{pair.Quote, ox, x}, {pair.Base, oy, y}} {
		ax := amtOf(z.Accepted, q.d)
		if ax.Cmp(q.off) > 0 {
			bad("deposit-takes-more", "takes %s%s of %s offered", ax, q.d, q.off)
		}
		sl := add(quo(q.r, e18), bn(1))
		lo := sub(floorQ(mul(pc, q.r), ps), sl) // at least the share
		hi := add(ceilQ(mul(pc, q.r), ps), sl)
		if q.r.Sign() == 0 {
			lo, hi = zero, zero
		}
		if ax.Cmp(lo) < 0 {
			bad("deposit-share-low", "takes %s%s, the share is %s", ax, q.d, lo)
		}
		if ax.Cmp(hi) > 0 {
			bad("deposit-share-high", "takes %s%s, the share is %s", ax, q.d, hi)
		}
		// never diluting existing holders: (r+ax)/(ps+pc) >= r/ps, up to decimal rounding
		l, rr := mul(add(q.r, ax), ps), mul(q.r, add(ps, pc))
		if add(l, mul(quo(q.r, e18), ps)).Cmp(rr) < 0 && sub(rr, l).Cmp(add(mul(quo(q.r, e18), ps), ps)) > 0 {
			bad("deposit-dilutes-reserve", "%s per pool coin falls", q.d)
		}
	}
	for _, c := range z.Accepted {
		if c.D != pair.Base && c.D != pair.Quote {
			bad("deposit-odd-coin", "accepted %s", cs(c))
		}
	}
}

func (w *World) checkWd(b *Block, A *Snap, p *Pool, pair *Pair, x, y, ps *big.Int, off *bool, a, z *Wd, exp *Snap) (whole bool) {
	H := b.Height
	exp.addBal(globalEscrow, a.Coin.D, neg(a.Coin.A))
	if a.ID != z.ID || a.Pool != z.Pool || a.Owner != z.Owner || a.Height != z.Height || cs(a.Coin) != cs(z.Coin) {
		w.viol(P("C13", "C10"), "withdrawal-identity", "block %d: %s -> %s", H, a.str(), z.str())
	}
	bad := func(key, f string, args ...interface{}) {
		w.viol(P("C10"), key, "block %d: withdrawal %s -> %s (pool reserves %s quote %s base, %s pool coins): %s", H, a.str(), z.str(), x, y, ps, fmt.Sprintf(f, args...))
	}
	switch z.Status {
	case rqFailed:
		exp.addBal(a.Owner, a.Coin.D, a.Coin.A)
		if len(z.Out) != 0 {
			bad("withdrawal-failed-paid", "failed but paid")
		}
		w.Stats.Inc("withdrawals_failed", 1)
	case rqOK:
		exp.addSup(a.Coin.D, neg(a.Coin.A))
		for _, c := range z.Out {
			exp.addBal(a.Owner, c.D, c.A)
		}
		w.Stats.Inc("withdrawals_ok", 1)
	default:
		w.viol(P("C10", "C14", "C19"), "withdrawal-pending", "block %d: withdrawal still pending after a batch: %s", H, z.str())
		return
	}
	if !*off && depleted(p, x, y, ps) {
		*off = true
	}
	if *off {
		if z.Status != rqFailed {
			w.viol(P("C10", "C12"), "withdrawal-from-closed", "block %d: withdrawal from a closed pool executed: %s", H, z.str())
		}
		return
	}
	ox, oy := amtOf(z.Out, pair.Quote), amtOf(z.Out, pair.Base)
	for _, c := range z.Out {
		if c.D != pair.Base && c.D != pair.Quote {
			bad("withdrawal-odd-coin", "paid %s", cs(c))
		}
	}
	pc := a.Coin.A
	if pc.Cmp(ps) == 0 {
		if z.Status != rqOK || ox.Cmp(x) != 0 || oy.Cmp(y) != 0 {
			w.viol(P("C10", "C12"), "withdraw-all", "block %d: redeeming the whole supply must pay out all reserves (%s, %s): %s", H, x, y, z.str())
		}
		return z.Status == rqOK
	}
	if pc.Cmp(ps) > 0 {
		bad("withdraw-too-much", "more pool coins than exist")
		return
	}
	fee := bd(A.P.WithdrawFeeRate)
	if fee == nil || fee.Cmp(e18) > 0 {
		return
	}
	keep := sub(e18, fee)
	lim := func(r *big.Int) (lo, hi *big.Int) {
		hi = floorQ(mul(mul(r, pc), keep), mul(ps, e18))
		lo = sub(hi, add(quo(mul(r, bn(2)), e18), bn(1)))
		if lo.Sign() < 0 {
			lo = zero
		}
		return
	}
	lx, hx := lim(x)
	ly, hy := lim(y)
	if z.Status == rqFailed {
		if lx.Sign() > 0 || ly.Sign() > 0 {
			bad("withdrawal-refused", "it would pay %s quote and %s base", lx, ly)
		}
		return
	}
	if ox.Cmp(hx) > 0 || oy.Cmp(hy) > 0 {
		bad("withdrawal-high", "fair is %s quote, %s base", hx, hy)
	}
	if ox.Cmp(lx) < 0 || oy.Cmp(ly) < 0 {
		bad("withdrawal-low", "fair is %s quote, %s base", hx, hy)
	}
	if ox.Sign() == 0 && oy.Sign() == 0 {
		bad("withdrawal-empty", "burned pool coins for nothing")
	}
	return
}

// ---- trading ----

func (w *World) checkMarket(b *Block, A *Snap, pa, pz *Pair, rs []*orderRes, ps []*poolRes, exp *Snap, stable bool) {
	H := b.Height
	prec := int(A.P.TickPrecision)
	if dumpAt == fmt.Sprintf("%d:%d", H, pa.ID) {
		fmt.Printf("DUMP block %d pair %d last %s -> %s, prec %d ratio %s\n", H, pa.ID, decS(pa.Last), decS(pz.Last), prec, A.P.MaxPriceLimitRatio)
		for _, r := range rs {
			fmt.Printf("  order %v dir %d type %d price %s amt %s open %s rem %s batch %d -> matched %s paid %s recv %s status %d\n", r.k, r.a.Dir, r.a.Type, decS(r.a.Price), r.a.Amt, r.a.Open, r.a.Rem.A, r.a.Batch, r.matched, r.paid, r.recv, r.z.Status)
		}
		for _, p := range ps {
			fmt.Printf("  pool %d type %d x %s y %s min %s max %s -> dx %s dy %s disabled %v\n", p.p.ID, p.p.Type, p.x, p.y, decS(p.p.Min), decS(p.p.Max), p.dx, p.dy, p.disabled)
		}
	}
	// pair record
	q := *pa
	q.Last = pz.Last
	q.Batch++
	if q.str() != pz.str() {
		w.viol(P("C13", "C14"), "pair-record", "block %d: pair after the batch: expected %s, is %s", H, q.str(), pz.str())
	}
	if (pa.Last != nil && pz.Last == nil) || (pz.Last != nil && pz.Last.Sign() <= 0) {
		w.viol(P("C04"), "last-price-lost", "block %d: last price of pair %d went from %s to %s", H, pa.ID, decS(pa.Last), decS(pz.Last))
		return
	}
	anyMatched := false
	big_ := false
	for _, r := range rs {
		if r.matched.Sign() > 0 {
			anyMatched = true
		}
		if r.a.Open.Cmp(saneAmt) > 0 || r.a.Rem.A.Cmp(saneAmt) > 0 {
			big_ = true
		}
	}
	for _, p := range ps {
		if p.dx.Sign() != 0 || p.dy.Sign() != 0 {
			anyMatched = true
			if p.disabled {
				w.viol(P("C12"), "closed-pool-trades", "block %d: closed pool %d traded %s quote, %s base", H, p.p.ID, p.dx, p.dy)
			}
			// a pool may give rounding dust (less than one quote unit's worth) for
			// nothing; how much is bounded by the invariant check below
			if p.dx.Sign()*p.dy.Sign() >= 0 && !(p.dx.Sign() == 0 && p.dy.Sign() < 0) {
				w.viol(P("C11", "C01"), "pool-one-way", "block %d: pool %d changed by %s quote and %s base in trading", H, p.p.ID, p.dx, p.dy)
			}
			w.Stats.Inc("pool_trades", 1)
		}
		if p.x.Cmp(saneAmt) > 0 || p.y.Cmp(saneAmt) > 0 {
			big_ = true
		}
	}
	// conservation
	base, quote := new(big.Int), new(big.Int)
	for _, r := range rs {
		if r.a.Dir == buy {
			base.Add(base, r.recv)
			quote.Add(quote, r.paid)
		} else {
			base.Sub(base, r.paid)
			quote.Sub(quote, r.recv)
		}
	}
	for _, p := range ps {
		base.Add(base, p.dy)
		quote.Sub(quote, p.dx)
	}
	if base.Sign() != 0 {
		w.viol(P("C01", "C02", "C04"), "base-not-conserved", "block %d pair %d: traders and pools received %s more base coins than were paid", H, pa.ID, base)
	}
	if quote.Sign() < 0 {
		w.viol(P("C04", "C01"), "negative-dust", "block %d pair %d: %s more quote coins paid out than paid in", H, pa.ID, neg(quote))
	}
	exp.addBal(pa.Escrow, pa.Quote, zero)
	if quote.Sign() > 0 {
		exp.addBal(A.P.DustCollectorAddress, pa.Quote, quote)
		w.Stats.Inc("dust_events", 1)
	}
	if !anyMatched {
		if decS(pa.Last) != decS(pz.Last) {
			w.viol(P("C04"), "last-price-without-trade", "block %d pair %d: last price changed from %s to %s without any trade", H, pa.ID, decS(pa.Last), decS(pz.Last))
		}
	} else if pz.Last == nil {
		w.viol(P("C04"), "no-last-price", "block %d pair %d: traded but has no last price", H, pa.ID)
		return
	} else if !onTick(pz.Last, prec) && stable && !tradedAt(rs, pz.Last) && (pa.Last == nil || pa.Last.Cmp(pz.Last) != 0 || onTick(pa.Last, prec)) {
		w.viol(P("C04"), "last-price-off-tick", "block %d pair %d: last price %s is not a tick", H, pa.ID, decS(pz.Last))
	}
	mkt := w.newMkt(pa, pz, rs, ps, prec)
	for _, p := range ps {
		w.checkPool(b, pa, pz, p, mkt, prec)
	}
	// orders that crossed each other before the batch already, having been too
	// small to trade at the price before
	leftover := ""
	for _, r := range rs {
		if r.matched.Sign() > 0 && w.obs.leftCross[pa.ID][r.k] {
			leftover = "-by-unexecutable-leftover"
		}
	}
	if !anyMatched {
		w.checkCross(b, A, pa, pz, rs, ps, mkt, prec, big_, stable)
		return
	}
	w.Stats.Inc("markets_traded", 1)
	if pa.Last == nil {
		w.Stats.Inc("first_trades", 1)
	}
	first := pa.Last == nil
	low, high := pz.Last, pz.Last
	if !first {
		low, high = minB(pa.Last, pz.Last), maxB(pa.Last, pz.Last)
	}
	var bl, bh *big.Int
	bandOK := false
	if !first && stable {
		bl, bh, bandOK = band(pa.Last, bd(A.P.MaxPriceLimitRatio), prec)
		if bandOK && (pz.Last.Cmp(bl) < 0 || pz.Last.Cmp(bh) > 0) {
			// every price in the band's interior; an empty band allows the last price only
			if pz.Last.Cmp(pa.Last) != 0 {
				w.viol(P("C04"), "last-price-outside-band"+leftover, "block %d pair %d: last price went from %s to %s, outside [%s, %s]", H, pa.ID, decS(pa.Last), decS(pz.Last), decS(bl), decS(bh))
			}
		}
	}
	// Orders worth less than a quote unit may be passed over at the last price
	// and trade afterwards, on its other side.
	straight := !first && (len(ps) == 0 || mul(pa.Last, bn(50)).Cmp(e18) >= 0)
	for _, r := range rs {
		if !first && mul(pa.Last, r.left0()).Cmp(mul(bn(2), e18)) < 0 {
			straight = false
		}
	}
	dustMax := new(big.Int)
	for _, r := range rs {
		if r.matched.Sign() == 0 {
			continue
		}
		nf := mkt.fills(r)
		dustMax.Add(dustMax, bn(nf))
		m := r.matched
		if first {
			if r.a.Dir == buy && r.paid.Cmp(quoteCeil(pz.Last, m)) != 0 {
				w.viol(P("C04", "C02"), "first-batch-paid", "block %d pair %d: order %v bought %s for %s, at the single price %s it must pay %s", H, pa.ID, r.k, m, r.paid, decS(pz.Last), quoteCeil(pz.Last, m))
			}
			if r.a.Dir == sell && r.recv.Cmp(quoteFloor(pz.Last, m)) != 0 {
				w.viol(P("C04", "C02"), "first-batch-received", "block %d pair %d: order %v sold %s for %s, at the single price %s it must receive %s", H, pa.ID, r.k, m, r.recv, decS(pz.Last), quoteFloor(pz.Last, m))
			}
			nf = 1
		}
		cash := r.paid
		if r.a.Dir == sell {
			cash = r.recv
		}
		tol := mul(bn(nf), e18)
		c18 := mul(cash, e18)
		// a buyer's payments are rounded up, a seller's receipts down, once per fill
		within := func(lo, hi *big.Int) bool {
			l, h := mul(lo, m), mul(hi, m)
			if r.a.Dir == buy {
				return c18.Cmp(l) >= 0 && c18.Cmp(add(h, tol)) < 0
			}
			return c18.Cmp(sub(l, tol)) > 0 && c18.Cmp(h) <= 0
		}
		if r.a.Dir == buy && c18.Cmp(add(mul(r.a.Price, m), tol)) >= 0 {
			w.viol(P("C02"), "buy-above-limit", "block %d pair %d: buy order %v at limit %s paid %s for %s (%d fills at most)", H, pa.ID, r.k, decS(r.a.Price), r.paid, m, nf)
		}
		if r.a.Dir == sell && c18.Cmp(sub(mul(r.a.Price, m), tol)) <= 0 {
			w.viol(P("C02"), "sell-below-limit", "block %d pair %d: sell order %v at limit %s received %s for %s (%d fills at most)", H, pa.ID, r.k, decS(r.a.Price), r.recv, m, nf)
		}
		if bandOK && bl.Cmp(bh) <= 0 && !within(minB(bl, pa.Last), maxB(bh, pa.Last)) {
			w.viol(P("C04"), "trade-outside-band"+leftover, "block %d pair %d: order %v traded %s for %s quote, outside [%s, %s]", H, pa.ID, r.k, m, cash, decS(bl), decS(bh))
		}
		if straight && !within(low, high) {
			w.viol(P("C04"), "trade-outside-range", "block %d pair %d: order %v traded %s for %s quote, but trades go from the old last price %s to the new %s", H, pa.ID, r.k, m, cash, decS(pa.Last), decS(pz.Last))
		}
	}
	for _, p := range ps {
		// What a pool receives is rounded down, what it pays is rounded up: the
		// remainder is not the pool's.
		if first || straight {
			c18 := mul(absB(p.dx), e18)
			if p.dy.Sign() < 0 && c18.Cmp(mul(high, neg(p.dy))) > 0 {
				w.viol(P("C04", "C24"), "pool-above-price", "block %d pair %d: pool %d sold %s for %s, more than the highest trade price %s", H, pa.ID, p.p.ID, neg(p.dy), p.dx, decS(high))
			}
			if p.dy.Sign() > 0 && c18.Cmp(mul(low, p.dy)) < 0 {
				w.viol(P("C04", "C24"), "pool-below-price", "block %d pair %d: pool %d bought %s for %s, less than the lowest trade price %s", H, pa.ID, p.p.ID, p.dy, neg(p.dx), decS(low))
			}
		}
		if p.dy.Sign() != 0 {
			dustMax.Add(dustMax, bn(2*p.levels+mkt.opp(p.dy.Sign() > 0, nil)+2))
		}
	}
	if quote.Cmp(dustMax) > 0 {
		w.viol(P("C04"), "dust-too-large", "block %d pair %d: %s quote coins left the traders, at most %s fills took place", H, pa.ID, quote, dustMax)
	}
	// the last price is one at which trades happened
	if !first && pz.Last.Cmp(pa.Last) != 0 {
		// a later trade is made at the limit of one of its two sides
		okS, okB, eq := false, false, false
		for _, r := range rs {
			if r.matched.Sign() == 0 {
				continue
			}
			c := r.a.Price.Cmp(pz.Last)
			if r.a.Dir == sell && c <= 0 {
				okS = true
			}
			if r.a.Dir == buy && c >= 0 {
				okB = true
			}
			eq = eq || c == 0
		}
		for _, p := range ps {
			if p.dy.Sign() < 0 {
				okS, eq = true, true
			}
			if p.dy.Sign() > 0 {
				okB, eq = true, true
			}
		}
		if !okS || !okB || !eq {
			w.viol(P("C04"), "last-price-no-trade-there", "block %d pair %d: last price went from %s to %s, but no trade can have happened at it", H, pa.ID, decS(pa.Last), decS(pz.Last))
		}
	}
	if !big_ {
		w.checkFair(b, pa, pz, rs, mkt, low)
	}
	w.checkCross(b, A, pa, pz, rs, ps, mkt, prec, big_, stable)
}

// mktInfo bounds how often an order can have been filled.
type mktInfo struct {
	buyP, sellP []*big.Int // distinct limit prices of matched user orders
	poolBuy     int64      // ladder levels of pools that bought
	poolSell    int64
	first       bool
}

func (w *World) newMkt(pa, pz *Pair, rs []*orderRes, ps []*poolRes, prec int) *mktInfo {
	m := &mktInfo{first: pa.Last == nil}
	seenB, seenS := map[string]bool{}, map[string]bool{}
	for _, r := range rs {
		if r.matched.Sign() == 0 {
			continue
		}
		s := r.a.Price.String()
		if r.a.Dir == buy && !seenB[s] {
			seenB[s] = true
			m.buyP = append(m.buyP, r.a.Price)
		}
		if r.a.Dir == sell && !seenS[s] {
			seenS[s] = true
			m.sellP = append(m.sellP, r.a.Price)
		}
	}
	for _, p := range ps {
		if p.dy.Sign() == 0 {
			continue
		}
		n := quo(absB(p.dy), hundred)
		p.levels = 1
		if !m.first {
			p.levels = 2000
			if n.IsInt64() && n.Int64() < p.levels {
				p.levels = n.Int64() + 1
			}
			if pz.Last != nil && pa.Last != nil && !p.disabled && p.x.Sign() > 0 && p.y.Sign() > 0 {
				// ladder levels lie between the pool price and the last trade
				f := poolPriceF(p.p, p.x, p.y)
				lo, hi := fd(minB(pa.Last, pz.Last)), fd(maxB(pa.Last, pz.Last))
				if f.Cmp(lo) < 0 {
					lo = f
				}
				if f.Cmp(hi) > 0 {
					hi = f
				}
				r := f64(fquo(hi, lo))
				// at most one level per tick
				g := int64(9e18)
				if r < 3 && prec < 12 {
					g = int64((r-1)*10*float64(pow10(prec).Int64())) + 3
				}
				if g < p.levels {
					p.levels = g
				}
			}
		}
		if p.dy.Sign() > 0 {
			m.poolBuy += p.levels
		} else {
			m.poolSell += p.levels
		}
	}
	return m
}

// opp counts the price levels an order on the given side can have met; limit
// nil means any.
func (m *mktInfo) opp(isBuy bool, limit *big.Int) int64 {
	var n int64
	if isBuy {
		for _, p := range m.sellP {
			if limit == nil || p.Cmp(limit) <= 0 {
				n++
			}
		}
		return n + m.poolSell
	}
	for _, p := range m.buyP {
		if limit == nil || p.Cmp(limit) >= 0 {
			n++
		}
	}
	return n + m.poolBuy
}

func (m *mktInfo) fills(r *orderRes) int64 {
	if m.first {
		return 1
	}
	return 1 + m.opp(r.a.Dir == buy, r.a.Price)
}

func poolPriceF(p *Pool, x, y *big.Int) *big.Float {
	if p.Type == poolBasic {
		return fquo(fl(x), fl(y))
	}
	return rangedPrice(x, y, p.Min, p.Max)
}

// checkPool: trading never lowers the pool's invariant.
func (w *World) checkPool(b *Block, pa, pz *Pair, p *poolRes, m *mktInfo, prec int) {
	if p.dy.Sign() == 0 && p.dx.Sign() == 0 {
		return
	}
	H := b.Height
	if p.x.Cmp(saneAmt) > 0 || p.y.Cmp(saneAmt) > 0 {
		return
	}
	F := bn(2*p.levels + m.opp(p.dy.Sign() > 0, nil) + 2)
	if m.first {
		F = bn(1)
	}
	x2, y2 := add(p.x, p.dx), add(p.y, p.dy)
	if x2.Sign() < 0 || y2.Sign() < 0 {
		w.viol(P("C11"), "pool-overspent", "block %d: pool %d spent more than it has", H, p.p.ID)
		return
	}
	if p.p.Type == poolBasic {
		before, after := mul(p.x, p.y), mul(add(x2, F), y2)
		if after.Cmp(before) < 0 {
			w.viol(P("C11"), "pool-invariant", "block %d: trading changed basic pool %d from (%s, %s) by (%s, %s): the product of its reserves fell (allowing %s units of rounding)", H, p.p.ID, p.x, p.y, p.dx, p.dy, F)
		}
		return
	}
	tv, tb := translation(p.x, p.y, p.p.Min, p.p.Max)
	vx, vy := fadd(fl(p.x), tv), fadd(fl(p.y), tb)
	wx, wy := fadd(fl(x2), tv), fadd(fl(y2), tb)
	// rounding: F quote units, plus the decimals' error on what was traded
	eps := w.rangedEps(p)
	slack := fadd(fl(F), fmulF(fl(absB(p.dx)), ff(eps)))
	if fmulF(fadd(wx, slack), wy).Cmp(fmulF(vx, vy)) < 0 {
		w.viol(P("C11"), "pool-invariant-ranged", "block %d: trading changed ranged pool %d [%s,%s] from (%s, %s) by (%s, %s): the product of its virtual reserves fell (allowing %s units of rounding)", H, p.p.ID, decS(p.p.Min), decS(p.p.Max), p.x, p.y, p.dx, p.dy, slack.Text('g', 10))
	}
	// price bounds
	c18 := mul(absB(p.dx), e18)
	f18 := mul(F, e18)
	if p.dy.Sign() < 0 && add(c18, f18).Cmp(mul(p.p.Min, neg(p.dy))) < 0 {
		w.viol(P("C11"), "ranged-sold-below-min", "block %d: ranged pool %d sold %s base for %s quote, below its minimum price %s", H, p.p.ID, neg(p.dy), p.dx, decS(p.p.Min))
	}
	if p.dy.Sign() > 0 && c18.Cmp(add(mul(p.p.Max, p.dy), f18)) > 0 {
		w.viol(P("C11"), "ranged-bought-above-max", "block %d: ranged pool %d bought %s base for %s quote, above its maximum price %s", H, p.p.ID, p.dy, neg(p.dx), decS(p.p.Max))
	}
}

// rangedEps bounds the relative error of the code's 18-digit decimals in a
// ranged pool's price.
func (w *World) rangedEps(p *poolRes) float64 {
	min, max := f64(fd(p.p.Min)), f64(fd(p.p.Max))
	pr := f64(rangedPrice(p.x, p.y, p.p.Min, p.p.Max))
	e := 1e-9
	// square roots, inverses and their differences in units of 1e-18
	for _, q := range []float64{min, max, pr} {
		if q < 1 {
			e += 1e-16 / q
		}
		if q > 1 {
			e += 1e-16 * q
		}
	}
	r := max/min - 1
	if r < 1 {
		e += 1e-13 / r / r
	}
	return e
}

// left is what an order still could have traded in the batch. A buy order takes
// part with what its remaining coins buy at its limit price, even if it then
// trades at a better price and has coins to spare.
// left0 is what the order can take part with before the batch.
func (r *orderRes) left0() *big.Int {
	if r.a.Dir == sell {
		return r.a.Open
	}
	return minB(r.a.Open, floorQ(mul(r.a.Rem.A, e18), r.a.Price))
}

func (r *orderRes) left() *big.Int {
	if r.a.Dir == sell {
		return r.z.Open
	}
	could := func(o *Order) *big.Int { return minB(o.Open, floorQ(mul(o.Rem.A, e18), o.Price)) }
	return minB(could(r.z), sub(could(r.a), r.matched))
}

// checkFair: price priority, batch priority and proportional sharing.
func (w *World) checkFair(b *Block, pa, pz *Pair, rs []*orderRes, m *mktInfo, low *big.Int) {
	H := b.Height
	T := b.Time
	for _, side := range []int{buy, sell} {
		var os []*orderRes
		for _, r := range rs {
			if r.a.Dir == side && !(r.a.Status != stNotExecuted && !r.a.Expire.After(T)) {
				os = append(os, r)
			}
		}
		left := func(r *orderRes) *big.Int { return r.left() }
		value := func(amt *big.Int) *big.Int { return quo(mul(low, amt), e18) }
		better := func(i, j *orderRes) bool {
			if side == buy {
				return i.a.Price.Cmp(j.a.Price) > 0
			}
			return i.a.Price.Cmp(j.a.Price) < 0
		}
		sort.SliceStable(os, func(i, j int) bool {
			if better(os[i], os[j]) {
				return true
			}
			if better(os[j], os[i]) {
				return false
			}
			return os[i].born < os[j].born
		})
		// worst matched rank
		worst := -1
		for i, r := range os {
			if r.matched.Sign() > 0 {
				worst = i
			}
		}
		for i := 0; i < worst; i++ {
			wr := os[worst]
			r := os[i]
			if !better(r, wr) && r.born == wr.born {
				continue
			}
			if l := left(r); value(l).Cmp(bn(3)) >= 0 && l.Cmp(bn(2)) > 0 {
				kind := "price-priority"
				if !better(r, wr) {
					kind = "batch-priority"
				}
				w.viol(P("C03"), kind, "block %d pair %d: order %v (price %s, batch %d) keeps %s unmatched although order %v (price %s, batch %d) traded %s", H, pa.ID, r.k, decS(r.a.Price), r.born, l, wr.k, decS(wr.a.Price), wr.born, wr.matched)
			}
		}
		// proportional sharing within (price, batch)
		for i := 0; i < len(os); {
			j := i
			for j < len(os) && os[j].a.Price.Cmp(os[i].a.Price) == 0 && os[j].born == os[i].born {
				j++
			}
			w.checkShares(b, pa, os[i:j], m, low)
			i = j
		}
	}
}

func (w *World) checkShares(b *Block, pa *Pair, g []*orderRes, m *mktInfo, low *big.Int) {
	if len(g) < 2 {
		return
	}
	any := false
	tot, totM := new(big.Int), new(big.Int)
	amts := make([]*big.Int, len(g))
	for i, r := range g {
		amts[i] = r.a.Open
		if r.a.Dir == buy {
			amts[i] = minB(amts[i], floorQ(mul(r.a.Rem.A, e18), r.a.Price))
		}
		tot.Add(tot, amts[i])
		totM.Add(totM, r.matched)
		if r.matched.Sign() > 0 {
			any = true
		}
	}
	if !any || tot.Sign() == 0 {
		return
	}
	w.Stats.Inc("shared_fills", 1)
	n := int64(len(g))
	calls := int64(1)
	if !m.first {
		calls += m.opp(g[0].a.Dir == buy, g[0].a.Price)
	}
	// per call: n units left over by truncation, and shares worth less than one quote unit
	unit := add(quo(e18, low), bn(1))
	tol := mul(bn((n+1)*calls), add(unit, bn(1)))
	for i, r := range g {
		// matched_i should be amts_i * totM / tot
		want := quo(mul(amts[i], totM), tot)
		t := add(tol, quo(totM, pow10(9)))
		if absB(sub(r.matched, want)).Cmp(t) > 0 {
			w.viol(P("C03"), "not-proportional", "block %d pair %d: order %v of %s among %s at price %s, batch %d got %s of %s matched; its share is %s (tolerance %s)", b.Height, pa.ID, r.k, amts[i], tot, decS(r.a.Price), r.born, r.matched, totM, want, t)
			return
		}
	}
}

// checkCross: nothing executable still crosses after the batch.
// tradedAt: some order with this limit traded (placed when the ticks were finer).
func tradedAt(rs []*orderRes, price *big.Int) bool {
	for _, r := range rs {
		if r.matched.Sign() > 0 && r.a.Price.Cmp(price) == 0 {
			return true
		}
	}
	return false
}

func (w *World) checkCross(b *Block, A *Snap, pa, pz *Pair, rs []*orderRes, ps []*poolRes, m *mktInfo, prec int, big_, stable bool) {
	H := b.Height
	type side struct {
		price, amt, open *big.Int
		k                K2
		who              string
	}
	left := map[K2]bool{}
	defer func() { w.obs.leftCross[pa.ID] = left }()
	var buys, sells []side
	for _, r := range rs {
		z := r.z
		if z.Status == stExpired && r.a.Status != stNotExecuted && !r.a.Expire.After(b.Time) {
			continue // ended before the batch
		}
		if z.Open.Sign() == 0 {
			continue
		}
		if z.Dir == buy {
			buys = append(buys, side{z.Price, r.left(), z.Open, r.k, fmt.Sprint("order ", r.k)})
		} else {
			sells = append(sells, side{z.Price, r.left(), z.Open, r.k, fmt.Sprint("order ", r.k)})
		}
	}
	// Passed over as worth less than one quote unit at the price the batch ran
	// at, an order can be left beyond the price the market ended at.
	if pz.Last != nil {
		for i, xs := range [][]side{buys, sells} {
			for _, x := range xs {
				if (i == 0) == (x.price.Cmp(pz.Last) > 0) && mul(pz.Last, x.open).Cmp(e18) < 0 {
					left[x.k] = true
				}
			}
		}
	}
	for _, x := range buys {
		for _, y := range sells {
			if x.price.Cmp(y.price) < 0 {
				continue
			}
			if pa.Last == nil && downTick(x.price, prec).Cmp(y.price) < 0 {
				continue // no tick between them since the precision changed: a first price is a tick
			}
			amt := minB(x.amt, y.amt)
			if mul(y.price, amt).Cmp(mul(bn(3), e18)) >= 0 && amt.Cmp(bn(2)) > 0 {
				key := "still-crossing"
				if pa.Last == nil && pz.Last == nil {
					// the orders of a pool nearly out of quote coins can set a first
					// price at which what would trade is worth less than one unit
					for _, p := range ps {
						if !p.disabled && (p.x.Cmp(bn(1000)) < 0 || mul(p.x, minB(x.open, y.open)).Cmp(p.y) < 0) {
							key = "first-price-blocked-by-nearly-empty-pool"
						}
					}
				} else if pz.Last != nil {
					// worth less than one quote unit at the price the batch ran at:
					// passed over there
					ref := pz.Last
					if pa.Last != nil {
						ref = minB(ref, pa.Last)
					}
					if mul(ref, x.open).Cmp(e18) < 0 || mul(ref, y.open).Cmp(e18) < 0 {
						key = "unexecutable-at-batch-price"
					}
				}
				w.viol(P("C03"), key, "block %d pair %d: after the batch buy %s at %s and sell %s at %s still cross (%s executable)", H, pa.ID, x.who, decS(x.price), y.who, decS(y.price), amt)
				if key != "unexecutable-at-batch-price" {
					return
				}
			}
		}
	}
	// In the first batch of a market a pool trades at one price up to the point
	// where its reserve product is as before, so that its price afterwards lies
	// beyond the trade price: only later batches leave pools uncrossed.
	if big_ || pa.Last == nil || !stable || prec > 8 {
		return
	}
	// pools against users and pools, with room for the pools' order ladder
	lo, hi := pow10(6), pow10(32)
	if pa.Last != nil {
		l, h, ok := band(pa.Last, bd(A.P.MaxPriceLimitRatio), prec)
		if !ok {
			return
		}
		lo, hi = l, h
	}
	gap := ff(1.02 + 20/float64(pow10(prec).Int64()))
	// A pool's orders lie along the curve of before the batch. How far the pool
	// came is measured in base coins: it may have traded at better prices than
	// its orders', which takes its reserves off that curve.
	type pl struct {
		p      *poolRes
		x, y   *big.Float // what is left along the curve, not below zero
		yb, k  *big.Float // virtual base reserve, product of the virtual reserves
		pr     *big.Float
		lo, hi *big.Float // its price range
	}
	var pls []pl
	for _, p := range ps {
		if p.disabled {
			continue
		}
		y := add(p.y, p.dy)
		a, bt := ff(0), ff(0)
		if p.p.Type == poolBasic {
			if add(p.x, p.dx).Cmp(bn(10000)) < 0 || y.Cmp(bn(10000)) < 0 || p.x.Cmp(bn(10000)) < 0 || p.y.Cmp(bn(10000)) < 0 {
				continue
			}
		} else {
			if add(p.x, p.y).Cmp(bn(10000)) < 0 {
				continue
			}
			a, bt = translation(p.x, p.y, p.p.Min, p.p.Max)
		}
		q := pl{p: p, y: fl(y), lo: ff(0), hi: ff(1e30)}
		if p.p.Type == poolRanged {
			q.lo, q.hi = fd(p.p.Min), fd(p.p.Max)
		}
		// a pool from beyond the price band starts with one large order at its
		// edge, off the curve
		if p0 := fquo(fadd(fl(p.x), a), fadd(fl(p.y), bt)); p0.Cmp(fd(lo)) < 0 || p0.Cmp(fd(hi)) > 0 {
			continue
		}
		q.k = fmulF(fadd(fl(p.x), a), fadd(fl(p.y), bt))
		q.yb = fadd(fl(y), bt)
		if q.yb.Sign() <= 0 {
			continue
		}
		q.pr = fquo(q.k, fmulF(q.yb, q.yb))
		q.x = fsub(fquo(q.k, q.yb), a)
		if pf := f64(q.pr); pf < 1e-9 || pf > 1e12 || q.x.Sign() < 0 {
			continue
		}
		pls = append(pls, q)
	}
	// whether a pool has orders left down (up) to price t worth mentioning
	can := func(q pl, t *big.Float, isBuy bool) bool {
		ye := fsqrt(fquo(q.k, t))
		if isBuy {
			if t.Cmp(fd(lo)) < 0 || t.Cmp(q.lo) < 0 {
				return false
			}
			dx := fsub(fquo(q.k, q.yb), fquo(q.k, ye))
			if dx.Cmp(q.x) > 0 {
				dx = q.x
			}
			return dx.Cmp(ff(1000)) > 0 && fquo(dx, q.pr).Cmp(ff(1000)) > 0
		}
		if t.Cmp(fd(hi)) > 0 || t.Cmp(q.hi) > 0 {
			return false
		}
		dy := fsub(q.yb, ye)
		if dy.Cmp(q.y) > 0 {
			dy = q.y
		}
		return dy.Cmp(ff(1000)) > 0 && fmulF(dy, q.pr).Cmp(ff(1000)) > 0
	}
	thousand := bn(1000)
	for _, q := range pls {
		for _, s := range sells { // pool buys from a user
			t := fd(s.price)
			if s.price.Cmp(lo) < 0 || s.price.Cmp(hi) > 0 || s.amt.Cmp(thousand) < 0 || mul(s.amt, s.price).Cmp(mul(thousand, e18)) < 0 {
				continue
			}
			t = fmulF(t, gap)
			if q.pr.Cmp(t) > 0 && can(q, t, true) {
				w.viol(P("C03"), "pool-crosses-user", "block %d pair %d: after the batch pool %d (price %s) could still buy from %s at %s", H, pa.ID, q.p.p.ID, q.pr.Text('g', 10), s.who, decS(s.price))
				return
			}
		}
		for _, s := range buys {
			t := fd(s.price)
			if s.price.Cmp(lo) < 0 || s.price.Cmp(hi) > 0 || s.amt.Cmp(thousand) < 0 || mul(s.amt, s.price).Cmp(mul(thousand, e18)) < 0 {
				continue
			}
			t = fquo(t, gap)
			if q.pr.Cmp(t) < 0 && can(q, t, false) {
				w.viol(P("C03"), "pool-crosses-user", "block %d pair %d: after the batch pool %d (price %s) could still sell to %s at %s", H, pa.ID, q.p.p.ID, q.pr.Text('g', 10), s.who, decS(s.price))
				return
			}
		}
		for _, o := range pls { // q buys from o
			if o.p == q.p {
				continue
			}
			if q.pr.Cmp(fmulF(o.pr, fmulF(gap, gap))) <= 0 {
				continue
			}
			t := fsqrt(fmulF(q.pr, o.pr))
			if t.Cmp(fd(lo)) < 0 || t.Cmp(fd(hi)) > 0 {
				continue
			}
			if can(q, t, true) && can(o, t, false) {
				w.viol(P("C03"), "pools-cross", "block %d pair %d: after the batch pool %d (price %s) could still buy from pool %d (price %s)", H, pa.ID, q.p.p.ID, q.pr.Text('g', 10), o.p.p.ID, o.pr.Text('g', 10))
				return
			}
		}
	}
}

// note records the abstract shape of what happened (coverage measure).
func (w *World) note(pa, pz *Pair, rs []*orderRes, ps []*poolRes) {
	var h []uint64
	if pa.Last == nil {
		h = append(h, 1)
	} else if pz.Last != nil {
		h = append(h, uint64(2+pz.Last.Cmp(pa.Last)))
	}
	cnt := map[uint64]uint64{}
	for _, r := range rs {
		m := uint64(0)
		switch {
		case r.matched.Sign() == 0:
		case r.z.Open.Sign() == 0:
			m = 2
		default:
			m = 1
		}
		pos := uint64(0)
		if pa.Last != nil {
			pos = uint64(1 + r.a.Price.Cmp(pa.Last))
		}
		k := uint64(r.a.Dir) | uint64(r.a.Status)<<2 | uint64(r.z.Status)<<5 | m<<8 | pos<<10 | uint64(r.a.Type)<<12
		cnt[k]++
	}
	var ks []uint64
	for k := range cnt {
		ks = append(ks, k)
	}
	sortU(ks)
	for _, k := range ks {
		c := cnt[k]
		if c > 3 {
			c = 3
		}
		h = append(h, k<<2|c)
	}
	for _, p := range ps {
		x := uint64(p.p.Type)
		if p.disabled {
			x |= 4
		}
		x |= uint64(1+p.dy.Sign()) << 3
		h = append(h, 1<<40|x)
	}
	if len(h) > 0 {
		w.states[mix(h...)] = struct{}{}
	}
}

var dumpAt = os.Getenv("SIM_DUMP") // "height:pair" to print that batch
