package main

import (
	"context"
	"fmt"
	"math/big"
	"sort"
	"strings"

	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	"github.com/cosmos/gogoproto/proto"

	dextypes "defund/x/dex/types"
)

// ---- queries: every answer is compared with the state observed when the block was executed ----

type asker struct {
	w    *World
	n    *Node
	h    int64 // height asked for
	abs  int64 // height field of the request (0 = latest)
	s    *Snap
	p    []string
	what string
}

func (a *asker) bad(key, f string, x ...interface{}) {
	if a.n.db.errHit { // the disk failed while the answer was being read
		return
	}
	a.w.viol(a.p, "query-"+a.what+":"+key, "node %d, height %d, %s: %s", a.n.id, a.h, a.what, fmt.Sprintf(f, x...))
}

// ask runs one query through ABCI; ok is false if it was answered with an error.
func (a *asker) ask(method string, req, resp proto.Message) (ok bool, log string) {
	bz, err := proto.Marshal(req)
	must(err)
	a.w.Stats.Inc("queries", 1)
	r, err := a.n.app.Query(context.Background(), &abci.RequestQuery{Path: "/defund.dex.Query/" + method, Data: bz, Height: a.abs})
	if err != nil {
		return false, err.Error()
	}
	if r.Codespace == "sdk" && r.Code == 111222 || strings.Contains(r.Log, "runtime error") {
		a.bad("panic", "panicked: %s", cut(r.Log))
		return false, r.Log
	}
	if r.Code != 0 {
		return false, r.Log
	}
	if err := proto.Unmarshal(r.Value, resp); err != nil {
		a.bad("garbage", "undecodable answer: %v", err)
		return false, ""
	}
	return true, ""
}

// list compares a listing, fetched page by page, with the expected records.
// get asks for one page and returns the records (as strings) and the page info.
func (a *asker) list(r *Rng, want []string, get func(p *query.PageRequest) ([]string, *query.PageResponse, bool)) {
	w := append([]string{}, want...)
	sort.Strings(w)
	check := func(how string, got []string) bool {
		g := append([]string{}, got...)
		sort.Strings(g)
		if strings.Join(w, "\n") != strings.Join(g, "\n") {
			a.bad("listing", "%s: %s", how, listDiff(w, g))
			return false
		}
		return true
	}
	mode := r.N(4)
	if mode == 0 {
		got, _, ok := get(&query.PageRequest{Limit: 100000, CountTotal: true})
		if !ok {
			return
		}
		check("in one page", got)
		return
	}
	lim := uint64(r.Range(1, 4))
	rev := r.P(30)
	var got []string
	var key []byte
	off := uint64(0)
	for i := 0; ; i++ {
		pr := &query.PageRequest{Limit: lim, Reverse: rev}
		if mode == 1 {
			pr.Offset = off
			pr.CountTotal = r.P(50)
		} else {
			pr.Key = key
		}
		xs, pg, ok := get(pr)
		if !ok {
			return
		}
		if uint64(len(xs)) > lim {
			a.bad("page-size", "a page of %d holds %d", lim, len(xs))
			return
		}
		if pr.CountTotal && pg != nil && pg.Total != uint64(len(w)) {
			a.bad("total", "total is %d, there are %d", pg.Total, len(w))
		}
		got = append(got, xs...)
		off += uint64(len(xs))
		if pg == nil || len(pg.NextKey) == 0 {
			break
		}
		key = pg.NextKey
		if i > len(w)+3 {
			a.bad("endless", "more pages than records")
			return
		}
	}
	check(fmt.Sprintf("in pages of %d (mode %d, reverse %v)", lim, mode, rev), got)
}

func listDiff(w, g []string) string {
	mw, mg := map[string]int{}, map[string]int{}
	for _, x := range w {
		mw[x]++
	}
	for _, x := range g {
		mg[x]++
	}
	var d []string
	for _, x := range unionS(mw, mg) {
		if mw[x] != mg[x] {
			d = append(d, fmt.Sprintf("%s is listed %d times, not %d", x, mg[x], mw[x]))
		}
	}
	return short(d)
}

func (w *World) queryStep(n *Node, st Step) {
	h := n.height - st.H
	if st.H > 0 && n.cfg.Pruning != "" && n.cfg.Pruning != "nothing" {
		h = n.height
	}
	if h < w.initH() || n.height > w.height() {
		return
	}
	if n.diverged {
		return
	}
	r := NewRng(mix(uint64(st.Arg), 0x9e))
	a := &asker{w: w, n: n, h: h, s: w.block(h).Snap, p: P("C20")}
	if st.At == 1 {
		a.p = P("C20", "C21")
	}
	if h != n.height || r.P(30) {
		a.abs = h
	}
	if h != n.height {
		w.Stats.Inc("queries_past_height", 1)
	}
	k := 3
	if st.Arg%7 == 0 {
		k = 20
	}
	for i := 0; i < k; i++ {
		a.one(r)
	}
}

func pickU(r *Rng, ids []uint64) uint64 {
	if len(ids) == 0 || r.P(8) {
		return uint64(r.N(40))
	}
	return ids[r.N(len(ids))]
}

func (a *asker) one(r *Rng) {
	w, s := a.w, a.s
	switch r.N(16) {
	case 0:
		a.what = "Params"
		var x dextypes.QueryParamsResponse
		if ok, l := a.ask("Params", &dextypes.QueryParamsRequest{}, &x); !ok {
			a.bad("error", "%s", l)
		} else if g, e := paramsStr(&x.Params), paramsStr(s.P); g != e {
			a.bad("differs", "%s instead of %s", g, e)
		}
	case 1:
		a.what = "Pair"
		id := pickU(r, s.pairIDs())
		var x dextypes.QueryPairResponse
		ok, l := a.ask("Pair", &dextypes.QueryPairRequest{PairId: id}, &x)
		if e := s.Pairs[id]; e == nil {
			if ok {
				a.bad("ghost", "pair %d does not exist, answered %s", id, convPair(&x.Pair).str())
			}
		} else if !ok {
			a.bad("missing", "pair %d: %s", id, l)
		} else if g := convPair(&x.Pair).str(); g != e.str() {
			a.bad("differs", "%s instead of %s", g, e.str())
		}
	case 2:
		a.what = "Pairs"
		var dn []string
		all := append(append([]string{}, w.Cfg.Denoms...), stake)
		for i := r.N(3); i > 0; i-- {
			dn = append(dn, all[r.N(len(all))])
		}
		var want []string
		for _, id := range s.pairIDs() {
			p := s.Pairs[id]
			in := func(d string) bool { return p.Base == d || p.Quote == d }
			switch len(dn) {
			case 0:
			case 1:
				if !in(dn[0]) {
					continue
				}
			case 2:
				if !(p.Base == dn[0] && p.Quote == dn[1] || p.Base == dn[1] && p.Quote == dn[0]) {
					continue
				}
			}
			want = append(want, p.str())
		}
		a.list(r, want, func(pr *query.PageRequest) ([]string, *query.PageResponse, bool) {
			var x dextypes.QueryPairsResponse
			ok, l := a.ask("Pairs", &dextypes.QueryPairsRequest{Denoms: dn, Pagination: pr}, &x)
			if !ok {
				a.bad("error", "denoms %v: %s", dn, l)
			}
			var o []string
			for i := range x.Pairs {
				o = append(o, convPair(&x.Pairs[i]).str())
			}
			return o, x.Pagination, ok
		})
	case 3, 4:
		a.what = "Pools"
		req := dextypes.QueryPoolsRequest{}
		if r.P(60) {
			req.PairId = pickU(r, s.pairIDs())
		}
		if r.P(50) {
			req.Disabled = []string{"true", "false"}[r.N(2)]
		}
		var want []string
		for _, id := range s.poolIDs() {
			p := s.Pools[id]
			if req.PairId != 0 && p.Pair != req.PairId || req.Disabled != "" && fmt.Sprint(p.Disabled) != req.Disabled {
				continue
			}
			want = append(want, a.poolStr(p))
		}
		a.list(r, want, func(pr *query.PageRequest) ([]string, *query.PageResponse, bool) {
			var x dextypes.QueryPoolsResponse
			q := req
			q.Pagination = pr
			ok, l := a.ask("Pools", &q, &x)
			if !ok {
				a.bad("error", "%s", l)
			}
			var o []string
			for i := range x.Pools {
				a.poolPrice(&x.Pools[i])
				o = append(o, respStr(&x.Pools[i]))
			}
			return o, x.Pagination, ok
		})
	case 5:
		a.what = "Pool"
		id := pickU(r, s.poolIDs())
		var x dextypes.QueryPoolResponse
		ok, l := a.ask("Pool", &dextypes.QueryPoolRequest{PoolId: id}, &x)
		a.onePool(s.Pools[id], id, &x, ok, l)
	case 6:
		a.what = "PoolByReserveAddress"
		id := pickU(r, s.poolIDs())
		var x dextypes.QueryPoolResponse
		ad := poolReserve(id)
		if p := s.Pools[id]; p != nil {
			ad = p.Reserve
		}
		ok, l := a.ask("PoolByReserveAddress", &dextypes.QueryPoolByReserveAddressRequest{ReserveAddress: ad}, &x)
		a.onePool(s.Pools[id], id, &x, ok, l)
	case 7:
		a.what = "PoolByPoolCoinDenom"
		id := pickU(r, s.poolIDs())
		var x dextypes.QueryPoolResponse
		dn := fmt.Sprintf("pool%d", id)
		if p := s.Pools[id]; p != nil {
			dn = p.Denom
		}
		ok, l := a.ask("PoolByPoolCoinDenom", &dextypes.QueryPoolByPoolCoinDenomRequest{PoolCoinDenom: dn}, &x)
		a.onePool(s.Pools[id], id, &x, ok, l)
	case 8:
		a.what = "DepositRequests"
		id := pickU(r, s.poolIDs())
		if id == 0 {
			return
		}
		var want []string
		for _, k := range s.depKeys() {
			if k.A == id {
				want = append(want, s.Deps[k].str())
			}
		}
		a.list(r, want, func(pr *query.PageRequest) ([]string, *query.PageResponse, bool) {
			var x dextypes.QueryDepositRequestsResponse
			ok, l := a.ask("DepositRequests", &dextypes.QueryDepositRequestsRequest{PoolId: id, Pagination: pr}, &x)
			if !ok {
				a.bad("error", "%s", l)
			}
			var o []string
			for i := range x.DepositRequests {
				o = append(o, convDep(&x.DepositRequests[i]).str())
			}
			return o, x.Pagination, ok
		})
	case 9:
		a.what = "WithdrawRequests"
		id := pickU(r, s.poolIDs())
		if id == 0 {
			return
		}
		var want []string
		for _, k := range s.wdKeys() {
			if k.A == id {
				want = append(want, s.Wds[k].str())
			}
		}
		a.list(r, want, func(pr *query.PageRequest) ([]string, *query.PageResponse, bool) {
			var x dextypes.QueryWithdrawRequestsResponse
			ok, l := a.ask("WithdrawRequests", &dextypes.QueryWithdrawRequestsRequest{PoolId: id, Pagination: pr}, &x)
			if !ok {
				a.bad("error", "%s", l)
			}
			var o []string
			for i := range x.WithdrawRequests {
				o = append(o, convWd(&x.WithdrawRequests[i]).str())
			}
			return o, x.Pagination, ok
		})
	case 10:
		a.what = "DepositRequest"
		k := K2{pickU(r, s.poolIDs()), uint64(r.Range(1, 6))}
		if ks := s.depKeys(); len(ks) > 0 && r.P(80) {
			k = ks[r.N(len(ks))]
		}
		var x dextypes.QueryDepositRequestResponse
		ok, l := a.ask("DepositRequest", &dextypes.QueryDepositRequestRequest{PoolId: k.A, Id: k.B}, &x)
		if e := s.Deps[k]; e == nil {
			if ok {
				a.bad("ghost", "%v does not exist, answered %s", k, convDep(&x.DepositRequest).str())
			}
		} else if !ok {
			a.bad("missing", "%v: %s", k, l)
		} else if g := convDep(&x.DepositRequest).str(); g != e.str() {
			a.bad("differs", "%s instead of %s", g, e.str())
		}
	case 11:
		a.what = "WithdrawRequest"
		k := K2{pickU(r, s.poolIDs()), uint64(r.Range(1, 6))}
		if ks := s.wdKeys(); len(ks) > 0 && r.P(80) {
			k = ks[r.N(len(ks))]
		}
		var x dextypes.QueryWithdrawRequestResponse
		ok, l := a.ask("WithdrawRequest", &dextypes.QueryWithdrawRequestRequest{PoolId: k.A, Id: k.B}, &x)
		if e := s.Wds[k]; e == nil {
			if ok {
				a.bad("ghost", "%v does not exist, answered %s", k, convWd(&x.WithdrawRequest).str())
			}
		} else if !ok {
			a.bad("missing", "%v: %s", k, l)
		} else if g := convWd(&x.WithdrawRequest).str(); g != e.str() {
			a.bad("differs", "%s instead of %s", g, e.str())
		}
	case 12:
		a.what = "Order"
		k := K2{pickU(r, s.pairIDs()), uint64(r.Range(1, 30))}
		if ks := s.orderKeys(); len(ks) > 0 && r.P(80) {
			k = ks[r.N(len(ks))]
		}
		var x dextypes.QueryOrderResponse
		ok, l := a.ask("Order", &dextypes.QueryOrderRequest{PairId: k.A, Id: k.B}, &x)
		if e := s.Orders[k]; e == nil {
			if ok {
				a.bad("ghost", "%v does not exist, answered %s", k, convOrder(&x.Order).str())
			}
		} else if !ok {
			a.bad("missing", "%v: %s", k, l)
		} else if g := convOrder(&x.Order).str(); g != e.str() {
			a.bad("differs", "%s instead of %s", g, e.str())
		}
	case 13:
		pid := pickU(r, s.pairIDs())
		owner := w.Accs[r.N(len(w.Accs))].S
		byOwner := r.P(60)
		a.what = "Orders"
		if byOwner {
			a.what = "OrdersByOrderer"
			if r.P(40) {
				pid = 0
			}
		} else if pid == 0 {
			return
		}
		var want []string
		for _, k := range s.orderKeys() {
			o := s.Orders[k]
			if pid != 0 && k.A != pid || byOwner && o.Owner != owner {
				continue
			}
			want = append(want, o.str())
		}
		a.list(r, want, func(pr *query.PageRequest) ([]string, *query.PageResponse, bool) {
			var x dextypes.QueryOrdersResponse
			var ok bool
			var l string
			if byOwner {
				ok, l = a.ask("OrdersByOrderer", &dextypes.QueryOrdersByOrdererRequest{Orderer: owner, PairId: pid, Pagination: pr}, &x)
			} else {
				ok, l = a.ask("Orders", &dextypes.QueryOrdersRequest{PairId: pid, Pagination: pr}, &x)
			}
			if !ok {
				a.bad("error", "%s", l)
			}
			var o []string
			for i := range x.Orders {
				o = append(o, convOrder(&x.Orders[i]).str())
			}
			return o, x.Pagination, ok
		})
	case 14:
		a.what = "NumMMOrders"
		pid := pickU(r, s.pairIDs())
		if pid == 0 {
			return
		}
		owner := w.Accs[r.N(len(w.Accs))].S
		if len(s.MM) > 0 && r.P(70) {
			var ks []MMK
			for k := range s.MM {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool {
				return ks[i].Addr < ks[j].Addr || ks[i].Addr == ks[j].Addr && ks[i].Pair < ks[j].Pair
			})
			k := ks[r.N(len(ks))]
			owner, pid = k.Addr, k.Pair
		}
		want := uint32(w.liveMM(s, owner, pid))
		var x dextypes.QueryNumMMOrdersResponse
		p := a.p
		a.p = append(append([]string{}, p...), "C08")
		if ok, l := a.ask("NumMMOrders", &dextypes.QueryNumMMOrdersRequest{Orderer: owner, PairId: pid}, &x); !ok {
			a.bad("error", "%s", l)
		} else if x.NumMarketMakingOrders != want {
			a.bad("differs", "%d instead of %d for %s in pair %d", x.NumMarketMakingOrders, want, owner, pid)
		}
		a.p = p
	case 15:
		a.orderBooks(r)
	}
}

func (a *asker) onePool(e *Pool, id uint64, x *dextypes.QueryPoolResponse, ok bool, l string) {
	if e == nil {
		if ok {
			a.bad("ghost", "pool %d does not exist, answered %s", id, respStr(&x.Pool))
		}
		return
	}
	if !ok {
		a.bad("missing", "pool %d: %s", id, l)
		return
	}
	a.poolPrice(&x.Pool)
	if g, w := respStr(&x.Pool), a.poolStr(e); g != w {
		a.bad("differs", "%s instead of %s", g, w)
	}
}

func (a *asker) poolStr(p *Pool) string {
	s := a.s
	pr := s.Pairs[p.Pair]
	if pr == nil {
		return p.str()
	}
	return fmt.Sprintf("%s supply %s base %s%s quote %s%s", p.str(), s.sup(p.Denom), s.bal(p.Reserve, pr.Base), pr.Base, s.bal(p.Reserve, pr.Quote), pr.Quote)
}

func respStr(p *dextypes.PoolResponse) string {
	q := Pool{int(p.Type), p.Id, p.PairId, p.Creator, p.ReserveAddress, p.PoolCoinDenom, bdp(p.MinPrice), bdp(p.MaxPrice), p.LastDepositRequestId, p.LastWithdrawRequestId, p.Disabled}
	return fmt.Sprintf("%s supply %s base %s quote %s", q.str(), bi(p.PoolCoinSupply), cs(coin(p.Balances.BaseCoin)), cs(coin(p.Balances.QuoteCoin)))
}

// poolPrice: the price shown for an open pool is the ratio of its (virtual) reserves.
func (a *asker) poolPrice(p *dextypes.PoolResponse) {
	if p.Disabled {
		return
	}
	if x, y := bi(p.Balances.QuoteCoin.Amount), bi(p.Balances.BaseCoin.Amount); bi(p.PoolCoinSupply).Sign() == 0 || x.Sign() == 0 && y.Sign() == 0 || int(p.Type) == poolBasic && (x.Sign() == 0 || y.Sign() == 0) {
		return // depleted: it is disabled in the next batch
	}
	if p.Price == nil || p.Price.IsNil() {
		a.bad("price", "no price for open pool %d", p.Id)
		return
	}
	x, y := bi(p.Balances.QuoteCoin.Amount), bi(p.Balances.BaseCoin.Amount)
	got := fd(p.Price.BigInt())
	var want *big.Float
	tol := 1e-6
	if int(p.Type) == poolBasic {
		if x.Sign() <= 0 || y.Sign() <= 0 {
			return
		}
		want = fquo(fl(x), fl(y))
	} else {
		if add(x, y).Cmp(bigI(1000000)) < 0 {
			return
		}
		want = rangedPrice(x, y, bdp(p.MinPrice), bdp(p.MaxPrice))
		tol = 1e-3
	}
	if want.Cmp(ff(1e-9)) < 0 {
		return
	}
	if !relClose(got, want, tol) {
		a.bad("price", "pool %d (%s, %s) shows price %s, should be %s", p.Id, x, y, p.Price, want.Text('g', 20))
	}
}

// ---- order book view ----

func (a *asker) orderBooks(r *Rng) {
	s := a.s
	a.what = "OrderBooks"
	id := pickU(r, s.pairIDs())
	req := &dextypes.QueryOrderBooksRequest{PairIds: []uint64{id}, NumTicks: []uint32{1, 3, 10, 100000}[r.N(4)]}
	if r.P(50) {
		req.PriceUnitPowers = []uint32{uint32(r.N(4))}
	}
	var x dextypes.QueryOrderBooksResponse
	p := s.Pairs[id]
	ok, l := a.ask("OrderBooks", req, &x)
	if p == nil || p.Last == nil {
		if ok {
			a.bad("ghost", "pair %d has no book, answered", id)
		}
		return
	}
	if !ok {
		a.bad("error", "pair %d: %s", id, l)
		return
	}
	if len(x.Pairs) != 1 || x.Pairs[0].PairId != id {
		a.bad("pairs", "asked for pair %d, got %d pairs", id, len(x.Pairs))
		return
	}
	pools, _ := activePools(s, id)
	lo, hi, sane := band(p.Last, raw(s.P.MaxPriceLimitRatio), int(s.P.TickPrecision))
	if pools > 0 || !sane {
		return
	}
	type lvl struct {
		price  *big.Int
		lo, hi *big.Int
	}
	var buys, sells []lvl
	var bb, bsl *big.Int
	for _, k := range s.orderKeys() {
		o := s.Orders[k]
		if k.A != id || !o.live() {
			continue
		}
		if o.Open.Cmp(saneAmt) > 0 || o.Rem.A.Cmp(saneAmt) > 0 {
			return
		}
		l := o.Open
		if o.Dir == buy {
			l = minB(l, floorQ(mul(o.Rem.A, e18), o.Price))
		} else {
			l = minB(l, o.Rem.A)
		}
		if l.Sign() <= 0 {
			return
		}
		if o.Dir == buy {
			buys = append(buys, lvl{o.Price, l, o.Open})
			if bb == nil || o.Price.Cmp(bb) > 0 {
				bb = o.Price
			}
		} else {
			sells = append(sells, lvl{o.Price, l, o.Open})
			if bsl == nil || o.Price.Cmp(bsl) < 0 {
				bsl = o.Price
			}
		}
	}
	if bb != nil && bsl != nil && bb.Cmp(bsl) >= 0 {
		return // will match in the coming batch
	}
	b := x.Pairs[0]
	if bb == nil && bsl == nil {
		if len(b.OrderBooks) != 0 {
			a.bad("phantom", "an empty book of pair %d shows levels", id)
		}
		return
	}
	a.w.Stats.Inc("books_checked", 1)
	base := bd(b.BasePrice)
	fine := func(x *big.Int) bool { return x != nil && !onTick(x, int(s.P.TickPrecision)) }
	if fine(bb) || fine(bsl) {
		// placed when the ticks were finer
	} else if base == nil || bb != nil && base.Cmp(bb) < 0 || bsl != nil && base.Cmp(bsl) > 0 {
		a.bad("base-price", "base price %s outside the best prices %s and %s", decS(base), decS(bb), decS(bsl))
	}
	nb := len(req.PriceUnitPowers)
	if nb == 0 {
		nb = 3
	}
	if len(b.OrderBooks) != nb {
		a.bad("units", "%d price units instead of %d", len(b.OrderBooks), nb)
		return
	}
	side := func(name string, ls []lvl, got []dextypes.OrderBookTickResponse, unit *big.Int, up bool) {
		m := map[string]*lvl{}
		var ord []*lvl
		for _, x := range ls {
			var g *big.Int
			if up {
				g = mul(ceilQ(x.price, unit), unit)
			} else {
				g = mul(floorQ(x.price, unit), unit)
			}
			if e := m[g.String()]; e != nil {
				e.lo, e.hi = add(e.lo, x.lo), add(e.hi, x.hi)
			} else {
				e := &lvl{g, x.lo, x.hi}
				m[g.String()] = e
				ord = append(ord, e)
			}
		}
		sort.Slice(ord, func(i, j int) bool {
			if up {
				return ord[i].price.Cmp(ord[j].price) < 0
			}
			return ord[i].price.Cmp(ord[j].price) > 0
		})
		var want []*lvl
		for _, e := range ord {
			if up && e.price.Cmp(hi) > 0 || !up && e.price.Cmp(lo) < 0 || uint32(len(want)) >= req.NumTicks {
				break
			}
			want = append(want, e)
		}
		g := append([]dextypes.OrderBookTickResponse{}, got...)
		if up { // shown from high to low
			for l, r := 0, len(g)-1; l < r; l, r = l+1, r-1 {
				g[l], g[r] = g[r], g[l]
			}
		}
		if len(g) != len(want) {
			a.bad("levels", "pair %d %s, unit %s: %d levels shown, %d expected", id, name, decS(unit), len(g), len(want))
			return
		}
		for i, e := range want {
			amt := bi(g[i].UserOrderAmount)
			if !g[i].PoolOrderAmount.IsNil() {
				amt = add(amt, bi(g[i].PoolOrderAmount))
			}
			if bd(g[i].Price).Cmp(e.price) != 0 || amt.Cmp(e.lo) < 0 || amt.Cmp(e.hi) > 0 {
				a.bad("levels", "pair %d %s, unit %s, level %d: shows %s at %s, expected %s to %s at %s", id, name, decS(unit), i, amt, g[i].Price, e.lo, e.hi, decS(e.price))
				return
			}
		}
	}
	for i, ob := range b.OrderBooks {
		u := bd(ob.PriceUnit)
		if u == nil || u.Sign() <= 0 {
			a.bad("units", "price unit %s", ob.PriceUnit)
			return
		}
		if i > 0 && len(req.PriceUnitPowers) == 0 && mul(bd(b.OrderBooks[i-1].PriceUnit), bigI(10)).Cmp(u) != 0 {
			a.bad("units", "price units %s and %s", b.OrderBooks[i-1].PriceUnit, ob.PriceUnit)
		}
		side("sells", sells, ob.Sells, u, true)
		side("buys", buys, ob.Buys, u, false)
	}
}
