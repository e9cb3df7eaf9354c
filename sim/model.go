package main

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/address"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"

	dextypes "defund/x/dex/types"
)

// The reference model of single transactions. It works on snapshots read from
// the outside and knows nothing of the code under test but its message types.

func derived(name string) string {
	return sdk.AccAddress(address.Module(dextypes.ModuleName, []byte(name))).String()
}

var (
	feeCollectorMod = authtypes.NewModuleAddress(authtypes.FeeCollectorName).String()
	globalEscrow    = derived("GlobalEscrow")
	addrCache       = map[string]string{}
)

func pairEscrow(id uint64) string  { return derivedC(fmt.Sprintf("PairEscrowAddress|%d", id)) }
func poolReserve(id uint64) string { return derivedC(fmt.Sprintf("PoolReserveAddress|%d", id)) }
func derivedC(n string) string {
	if a, ok := addrCache[n]; ok {
		return a
	}
	a := derived(n)
	addrCache[n] = a
	return a
}

// ---- canonical strings for comparing records ----

func (p *Pair) str() string {
	return fmt.Sprintf("pair{%d %s/%s escrow %s lastorder %d last %s batch %d}", p.ID, p.Base, p.Quote, p.Escrow, p.LastOrder, decS(p.Last), p.Batch)
}
func (p *Pool) str() string {
	return fmt.Sprintf("pool{type %d id %d pair %d creator %s reserve %s coin %s range %s-%s deps %d wds %d disabled %v}", p.Type, p.ID, p.Pair, p.Creator, p.Reserve, p.Denom, decS(p.Min), decS(p.Max), p.LastDep, p.LastWd, p.Disabled)
}
func (d *Dep) str() string {
	return fmt.Sprintf("deposit{%d pool %d height %d by %s coins %s accepted %s minted %s status %d}", d.ID, d.Pool, d.Height, d.Owner, coinsS(d.Coins), coinsS(d.Accepted), cs(d.Minted), d.Status)
}
func (d *Wd) str() string {
	return fmt.Sprintf("withdraw{%d pool %d height %d by %s coin %s out %s status %d}", d.ID, d.Pool, d.Height, d.Owner, cs(d.Coin), coinsS(d.Out), d.Status)
}
func (o *Order) str() string {
	return fmt.Sprintf("order{type %d id %d pair %d height %d by %s dir %d offer %s rem %s recv %s price %s amt %s open %s batch %d expire %s status %d}", o.Type, o.ID, o.Pair, o.Height, o.Owner, o.Dir, cs(o.Offer), cs(o.Rem), cs(o.Recv), decS(o.Price), bs(o.Amt), bs(o.Open), o.Batch, o.Expire.UTC().Format(time.RFC3339Nano), o.Status)
}

// clone is a copy whose maps may be changed; records are shared and replaced, never edited.
func (s *Snap) clone() *Snap {
	c := *s
	c.Pairs = cloneMap(s.Pairs)
	c.Pools = cloneMap(s.Pools)
	c.Orders = cloneMap(s.Orders)
	c.Deps = cloneMap(s.Deps)
	c.Wds = cloneMap(s.Wds)
	c.MM = cloneMap(s.MM)
	c.Sup = cloneMap(s.Sup)
	c.Grants = cloneMap(s.Grants)
	if s.IBC != nil {
		c.IBC = cloneMap(s.IBC)
	}
	c.Bal = Bals{}
	for k, v := range s.Bal {
		c.Bal[k] = v
	}
	c.Seq = append([]uint64{}, s.Seq...)
	return &c
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	c := make(map[K]V, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (s *Snap) addBal(a, d string, x *big.Int) {
	m := cloneMap(s.Bal[a])
	m[d] = add(s.bal(a, d), x)
	s.Bal[a] = m
}
func (s *Snap) addSup(d string, x *big.Int) { s.Sup[d] = add(s.sup(d), x) }

func (w *World) locked(s *Snap, addr, d string) *big.Int {
	if a, ok := w.ByAdr[addr]; ok && a.Idx < len(s.Lock) {
		if v, ok := s.Lock[a.Idx][d]; ok {
			return v
		}
	}
	return zero
}
func (w *World) spendable(s *Snap, addr, d string) *big.Int {
	return sub(s.bal(addr, d), w.locked(s, addr, d))
}

// send moves coins if the sender can spend them.
func (w *World) send(s *Snap, from, to string, cs []Coin) bool {
	for _, c := range cs {
		if w.spendable(s, from, c.D).Cmp(c.A) < 0 {
			return false
		}
	}
	for _, c := range cs {
		s.addBal(from, c.D, neg(c.A))
		s.addBal(to, c.D, c.A)
	}
	return true
}

type mOut struct {
	ok     bool
	soft   bool   // either outcome is acceptable
	opaque bool   // message of another module: only the dex state is predicted
	why    string // why it must fail, or what it is
	dex    int    // dex messages
	gas    uint64
	seen   []string // kinds of messages
	props  []string
	gone   bool // a validator was removed and its last rewards shared out
	stk    int  // messages to staking and its helpers
}

func fail(why string, a ...interface{}) string { return fmt.Sprintf(why, a...) }

func coinsValid(cs sdk.Coins) bool { // strictly sorted, positive, valid denoms
	prev := ""
	for i, c := range cs {
		if c.Amount.IsNil() || !c.Amount.IsPositive() || sdk.ValidateDenom(c.Denom) != nil {
			return false
		}
		if i > 0 && c.Denom <= prev {
			return false
		}
		prev = c.Denom
	}
	return true
}

var hundred = bigI(100)

func orderBasic(pair uint64, dir int, demand string, price *big.Int, offer sdk.Coin, amt *big.Int, life time.Duration) string {
	if pair == 0 {
		return "pair id 0"
	}
	if dir != buy && dir != sell {
		return "bad direction"
	}
	if sdk.ValidateDenom(demand) != nil || sdk.ValidateDenom(offer.Denom) != nil {
		return "bad denom"
	}
	if price != nil && price.Sign() <= 0 {
		return "price not positive"
	}
	oa := bi(offer.Amount)
	if oa.Cmp(hundred) < 0 || oa.Cmp(maxCoin) > 0 {
		return "offer amount out of range"
	}
	if amt.Cmp(hundred) < 0 || amt.Cmp(maxCoin) > 0 {
		return "amount out of range"
	}
	if price != nil {
		need := amt
		if dir == buy {
			need = quoteCeil(price, amt)
		}
		if oa.Cmp(need) < 0 {
			return "offer smaller than amount times price"
		}
	}
	if offer.Denom == demand {
		return "offer and demand denoms equal"
	}
	if life < 0 {
		return "negative lifespan"
	}
	return ""
}

func raw(d interface{ BigInt() *big.Int }) *big.Int { return d.BigInt() }

// basic is the stateless part of the rules.
func basic(m sdk.Msg) string {
	switch m := m.(type) {
	case *dextypes.MsgCreatePair:
		if sdk.ValidateDenom(m.BaseCoinDenom) != nil || sdk.ValidateDenom(m.QuoteCoinDenom) != nil || m.BaseCoinDenom == m.QuoteCoinDenom {
			return "bad denoms"
		}
	case *dextypes.MsgCreatePool:
		if m.PairId == 0 || !coinsValid(m.DepositCoins) || len(m.DepositCoins) != 2 {
			return "bad pool coins"
		}
		for _, c := range m.DepositCoins {
			if bi(c.Amount).Cmp(maxCoin) > 0 {
				return "deposit too large"
			}
		}
	case *dextypes.MsgCreateRangedPool:
		if m.PairId == 0 || !coinsValid(m.DepositCoins) || len(m.DepositCoins) < 1 || len(m.DepositCoins) > 2 {
			return "bad pool coins"
		}
		for _, c := range m.DepositCoins {
			if bi(c.Amount).Cmp(maxCoin) > 0 {
				return "deposit too large"
			}
		}
		lo, hi, p := raw(m.MinPrice), raw(m.MaxPrice), raw(m.InitialPrice)
		if lo.Cmp(pow10(3)) < 0 || hi.Cmp(pow10(38)) > 0 || hi.Cmp(lo) <= 0 || p.Cmp(lo) < 0 || p.Cmp(hi) > 0 {
			return "bad range"
		}
		// (hi-lo)/lo, as a rounded decimal, must reach 0.001
		g := mul(sub(hi, lo), e18)
		q, r := new(big.Int).QuoRem(g, lo, new(big.Int))
		if r2 := mul(r, bigI(2)); r2.Cmp(lo) > 0 || (r2.Cmp(lo) == 0 && q.Bit(0) == 1) {
			q = add(q, big1)
		}
		if q.Cmp(pow10(15)) < 0 {
			return "range too narrow"
		}
	case *dextypes.MsgDeposit:
		if m.PoolId == 0 || !coinsValid(m.DepositCoins) || len(m.DepositCoins) < 1 || len(m.DepositCoins) > 2 {
			return "bad deposit coins"
		}
	case *dextypes.MsgWithdraw:
		if m.PoolId == 0 || m.PoolCoin.Amount.IsNil() || !m.PoolCoin.Amount.IsPositive() || sdk.ValidateDenom(m.PoolCoin.Denom) != nil {
			return "bad pool coin"
		}
	case *dextypes.MsgLimitOrder:
		return orderBasic(m.PairId, int(m.Direction), m.DemandCoinDenom, raw(m.Price), m.OfferCoin, bi(m.Amount), m.OrderLifespan)
	case *dextypes.MsgMMOrder:
		return orderBasic(m.PairId, int(m.Direction), m.DemandCoinDenom, raw(m.Price), m.OfferCoin, bi(m.Amount), m.OrderLifespan)
	case *dextypes.MsgMarketOrder:
		return orderBasic(m.PairId, int(m.Direction), m.DemandCoinDenom, nil, m.OfferCoin, bi(m.Amount), m.OrderLifespan)
	case *dextypes.MsgCancelOrder:
		if m.PairId == 0 || m.OrderId == 0 {
			return "zero id"
		}
	case *dextypes.MsgCancelAllOrders:
		seen := map[uint64]bool{}
		for _, p := range m.PairIds {
			if p == 0 || seen[p] {
				return "bad pair ids"
			}
			seen[p] = true
		}
	case *banktypes.MsgSend:
		if len(m.Amount) == 0 || !coinsValid(m.Amount) {
			return "bad coins"
		}
	case *authz.MsgExec:
		ms, err := m.GetMessages()
		if err != nil || len(ms) == 0 {
			return "bad exec"
		}
		for _, x := range ms {
			if b := basic(x); b != "" {
				return b
			}
		}
	default:
		if v, ok := m.(sdk.HasValidateBasic); ok && ibcSigner(m) != "" {
			if err := v.ValidateBasic(); err != nil {
				return "not a valid message"
			}
		}
	}
	return ""
}

func fromSdk(cs sdk.Coins) []Coin { return coins(cs) }

func (w *World) curBand(s *Snap, p *Pair) (lo, hi *big.Int, sane bool) {
	prec := int(s.P.TickPrecision)
	if p.Last == nil {
		return lowestTick(prec), highestTick(prec), true
	}
	return band(p.Last, bd(s.P.MaxPriceLimitRatio), prec)
}

// placeOrder applies the published admission rules.
func (w *World) placeOrder(s *Snap, typ int, owner string, pairID uint64, dir int, offer sdk.Coin, demand string, price *big.Int, amt *big.Int, life time.Duration, o *mOut) string {
	off := coin(offer)
	if w.spendable(s, owner, off.D).Cmp(off.A) < 0 {
		return "offer exceeds the spendable balance"
	}
	if life > s.P.MaxOrderLifespan {
		return "lives too long"
	}
	pair := s.Pairs[pairID]
	if pair == nil {
		return "no such pair"
	}
	prec := int(s.P.TickPrecision)
	lo, hi, sane := w.curBand(s, pair)
	if !sane {
		o.soft = true
		return "price band undefined"
	}
	if price != nil && price.BitLen() > 300 {
		o.soft = true
	}
	if typ != tMarket {
		if price.Cmp(hi) > 0 || price.Cmp(lo) < 0 {
			return fail("price outside the band [%s,%s]", decS(lo), decS(hi))
		}
	} else if pair.Last == nil {
		return "market order without last price"
	}
	var res, need *big.Int
	if dir == buy {
		if off.D != pair.Quote || demand != pair.Base {
			return "wrong coins for the pair"
		}
		if typ == tMarket {
			res = hi
		} else {
			res = downTick(price, prec)
		}
		need = quoteCeil(res, amt)
	} else {
		if off.D != pair.Base || demand != pair.Quote {
			return "wrong coins for the pair"
		}
		if typ == tMarket {
			res = lo
		} else {
			res = upTick(price, prec)
		}
		need = amt
	}
	if mul(res, amt).BitLen() > 310 {
		o.soft = true
	}
	if off.A.Cmp(need) < 0 {
		return "offer does not cover the order"
	}
	if tooSmall(amt, res) {
		return "too small"
	}
	if !w.send(s, owner, pair.Escrow, []Coin{{off.D, need}}) {
		return "insufficient funds"
	}
	np := *pair
	np.LastOrder++
	s.Pairs[pairID] = &np
	s.Orders[K2{pairID, np.LastOrder}] = &Order{
		Type: typ, ID: np.LastOrder, Pair: pairID, Height: s.Height, Owner: owner, Dir: dir,
		Offer: Coin{off.D, need}, Rem: Coin{off.D, need}, Recv: Coin{demand, zero}, Price: res, Amt: amt, Open: amt,
		Batch: pair.Batch, Expire: s.Time.Add(life), Status: stNotExecuted,
	}
	return ""
}

func (w *World) finishOrder(s *Snap, o *Order, st int) {
	s.addBal(s.Pairs[o.Pair].Escrow, o.Rem.D, neg(o.Rem.A))
	s.addBal(o.Owner, o.Rem.D, o.Rem.A)
	no := *o
	no.Status = st
	s.Orders[K2{o.Pair, o.ID}] = &no
	if o.Type == tMM {
		k := MMK{o.Owner, o.Pair}
		if s.MM[k] <= 1 {
			delete(s.MM, k)
		} else {
			s.MM[k]--
		}
	}
}

func activePools(s *Snap, pair uint64) (n int, basic bool) {
	for _, p := range s.Pools {
		if p.Pair == pair && !p.Disabled {
			n++
			if p.Type == poolBasic {
				basic = true
			}
		}
	}
	return
}

func initialSupply(x, y *big.Int) *big.Int {
	cx, cy := ndig(x), ndig(y)
	return pow10((cx + cy + 1) / 2)
}

// applyMsg applies one message to s, or says why it must fail. obs is the
// observed state after the transaction (used only where the rules leave the
// code a choice).
func (w *World) applyMsg(s, obs *Snap, m sdk.Msg, o *mOut) string {
	switch m := m.(type) {
	case *dextypes.MsgCreatePair:
		o.dex++
		o.seen = append(o.seen, "pair")
		for _, p := range s.Pairs {
			if p.Base == m.BaseCoinDenom && p.Quote == m.QuoteCoinDenom {
				return "the pair exists"
			}
		}
		if !w.send(s, m.Creator, s.P.FeeCollectorAddress, fromSdk(s.P.PairCreationFee)) {
			return "cannot pay the creation fee"
		}
		s.LastPair++
		s.Pairs[s.LastPair] = &Pair{ID: s.LastPair, Base: m.BaseCoinDenom, Quote: m.QuoteCoinDenom, Escrow: pairEscrow(s.LastPair), Batch: 1}
		return ""

	case *dextypes.MsgCreatePool:
		o.dex++
		o.seen = append(o.seen, "pool")
		pair := s.Pairs[m.PairId]
		if pair == nil {
			return "no such pair"
		}
		min := bi(s.P.MinInitialDepositAmount)
		for _, c := range m.DepositCoins {
			if c.Denom != pair.Base && c.Denom != pair.Quote {
				return "wrong coins"
			}
			if bi(c.Amount).Cmp(min) < 0 {
				return "deposit below the minimum"
			}
		}
		n, bas := activePools(s, pair.ID)
		if bas {
			return "the pair has an active basic pool"
		}
		if n >= int(s.P.MaxNumActivePoolsPerPair) {
			return "too many pools"
		}
		x, y := bi(m.DepositCoins.AmountOf(pair.Quote)), bi(m.DepositCoins.AmountOf(pair.Base))
		// rx/ry within [1e-15, 1e20]
		if pr := mul(x, e18); quo(pr, y).Cmp(sub(pow10(3), big1)) <= 0 || quo(pr, y).Cmp(pow10(38)) >= 0 {
			// boundary values may round either way
			q := quo(pr, y)
			if q.Cmp(sub(pow10(3), big1)) == 0 || q.Cmp(pow10(38)) == 0 {
				o.soft = true
			} else {
				return "initial price out of range"
			}
		}
		return w.newPool(s, pair, m.Creator, poolBasic, fromSdk(m.DepositCoins), x, y, nil, nil)

	case *dextypes.MsgCreateRangedPool:
		o.dex++
		o.seen = append(o.seen, "rpool")
		prec := int(s.P.TickPrecision)
		lo, hi, p0 := raw(m.MinPrice), raw(m.MaxPrice), raw(m.InitialPrice)
		if !onTick(lo, prec) || !onTick(hi, prec) || !onTick(p0, prec) {
			return "prices not on ticks"
		}
		if lo.Cmp(lowestTick(prec)) < 0 {
			return "min price below the lowest tick"
		}
		pair := s.Pairs[m.PairId]
		if pair == nil {
			return "no such pair"
		}
		for _, c := range m.DepositCoins {
			if c.Denom != pair.Base && c.Denom != pair.Quote {
				return "wrong coins"
			}
		}
		if n, _ := activePools(s, pair.ID); n >= int(s.P.MaxNumActivePoolsPerPair) {
			return "too many pools"
		}
		x, y := bi(m.DepositCoins.AmountOf(pair.Quote)), bi(m.DepositCoins.AmountOf(pair.Base))
		var ax, ay *big.Int
		tol := zero
		switch {
		case p0.Cmp(lo) == 0:
			ax, ay = zero, y
		case p0.Cmp(hi) == 0:
			ax, ay = x, zero
		default:
			P, M, L := fsqrt(fd(p0)), fsqrt(fd(lo)), fsqrt(fd(hi))
			dx := fsub(P, M)
			dy := fsub(fquo(ff(1), P), fquo(ff(1), L))
			want := fquo(fmulF(fl(x), dy), dx)
			// roots are exact to about 1e-18, which their inverses amplify
			rel := 1e-9 + 1e-16/f64(dx) + 1e-16/f64(dy) + 1e-17/f64(P)/f64(P)/f64(dy)
			// which side binds; when within rounding either may
			ceil := func(f *big.Float) *big.Int {
				r, acc := f.Int(nil)
				if acc == big.Below {
					r.Add(r, big1)
				}
				return r
			}
			werr := fmulF(want, ff(rel))
			if x.Sign() > 0 {
				werr = fadd(werr, ff(1e-15))
			}
			wi, wlo, whi := ceil(want), ceil(fsub(want, werr)), ceil(fadd(want, werr))
			wx := fquo(fmulF(fl(y), dx), dy)
			t, _ := fadd(fmulF(want, ff(rel)), ff(2)).Int(nil)
			tx, _ := fadd(fmulF(wx, ff(rel)), ff(2)).Int(nil)
			xBinds := wi.Cmp(y) <= 0
			if (wlo.Cmp(y) <= 0) != (whi.Cmp(y) <= 0) {
				// either
				w.Stats.Inc("ranged_pool_split_ambiguous", 1)
				if obs == nil {
					o.soft = true
				} else if r := poolReserve(s.LastPool + 1); obs.Pools[s.LastPool+1] != nil {
					gx := sub(obs.bal(r, pair.Quote), s.bal(r, pair.Quote))
					gy := sub(obs.bal(r, pair.Base), s.bal(r, pair.Base))
					dX := add(new(big.Int).Abs(sub(gx, x)), new(big.Int).Abs(sub(gy, wi)))
					dY := add(new(big.Int).Abs(sub(gx, ceil(wx))), new(big.Int).Abs(sub(gy, y)))
					xBinds = dX.Cmp(dY) <= 0
				}
			}
			if xBinds {
				ax, ay, tol = x, wi, t
			} else {
				ax, ay, tol = ceil(wx), y, tx
			}
			// take the actual split from what happened, if it is near enough
			id := s.LastPool + 1
			if obs != nil && obs.Pools[id] != nil {
				r := poolReserve(id)
				gx, gy := sub(obs.bal(r, pair.Quote), s.bal(r, pair.Quote)), sub(obs.bal(r, pair.Base), s.bal(r, pair.Base))
				okX := new(big.Int).Abs(sub(gx, ax)).Cmp(add(tol, big1)) <= 0
				okY := new(big.Int).Abs(sub(gy, ay)).Cmp(add(tol, big1)) <= 0
				full := gx.Cmp(x) == 0 || gy.Cmp(y) == 0
				within := gx.Cmp(x) <= 0 && gy.Cmp(y) <= 0 && gx.Sign() >= 0 && gy.Sign() >= 0
				// when both sides bind within rounding, the code may choose
				if within && full && okX && okY {
					ax, ay = gx, gy
				}
			}
		}
		min := bi(s.P.MinInitialDepositAmount)
		if tol.Sign() > 0 {
			for _, a := range []*big.Int{ax, ay} {
				if new(big.Int).Abs(sub(a, min)).Cmp(add(tol, big1)) <= 0 && obs == nil {
					o.soft = true
				}
			}
		}
		if ax.Cmp(min) < 0 && ay.Cmp(min) < 0 {
			return "deposit below the minimum"
		}
		if ax.Sign() == 0 && ay.Sign() == 0 {
			return "nothing deposited"
		}
		var dep []Coin
		if ax.Sign() > 0 {
			dep = append(dep, Coin{pair.Quote, ax})
		}
		if ay.Sign() > 0 {
			dep = append(dep, Coin{pair.Base, ay})
		}
		return w.newPool(s, pair, m.Creator, poolRanged, dep, ax, ay, lo, hi)

	case *dextypes.MsgDeposit:
		o.dex++
		o.gas += s.P.DepositExtraGas
		o.seen = append(o.seen, "dep")
		pool := s.Pools[m.PoolId]
		if pool == nil {
			return "no such pool"
		}
		if pool.Disabled {
			return "pool disabled"
		}
		if pool.Type == poolBasic && len(m.DepositCoins) != 2 {
			return "a basic pool needs both coins"
		}
		pair := s.Pairs[pool.Pair]
		dep := fromSdk(m.DepositCoins)
		for _, c := range dep {
			if c.D != pair.Base && c.D != pair.Quote {
				return "wrong coins"
			}
		}
		for _, d := range []string{pair.Base, pair.Quote} {
			if add(s.bal(pool.Reserve, d), amtOf(dep, d)).Cmp(maxCoin) > 0 {
				return "pool too large"
			}
		}
		if !w.send(s, m.Depositor, globalEscrow, dep) {
			return "insufficient funds"
		}
		np := *pool
		np.LastDep++
		s.Pools[pool.ID] = &np
		s.Deps[K2{pool.ID, np.LastDep}] = &Dep{ID: np.LastDep, Pool: pool.ID, Height: s.Height, Owner: m.Depositor, Coins: dep, Minted: Coin{pool.Denom, zero}, Status: rqPending}
		return ""

	case *dextypes.MsgWithdraw:
		o.dex++
		o.gas += s.P.WithdrawExtraGas
		o.seen = append(o.seen, "wd")
		pool := s.Pools[m.PoolId]
		if pool == nil {
			return "no such pool"
		}
		if pool.Disabled {
			return "pool disabled"
		}
		if m.PoolCoin.Denom != pool.Denom {
			return "wrong pool coin"
		}
		pc := coin(m.PoolCoin)
		if !w.send(s, m.Withdrawer, globalEscrow, []Coin{pc}) {
			return "insufficient funds"
		}
		np := *pool
		np.LastWd++
		s.Pools[pool.ID] = &np
		s.Wds[K2{pool.ID, np.LastWd}] = &Wd{ID: np.LastWd, Pool: pool.ID, Height: s.Height, Owner: m.Withdrawer, Coin: pc, Status: rqPending}
		return ""

	case *dextypes.MsgLimitOrder:
		o.dex++
		o.gas += s.P.OrderExtraGas
		o.seen = append(o.seen, "limit")
		return w.placeOrder(s, tLimit, m.Orderer, m.PairId, int(m.Direction), m.OfferCoin, m.DemandCoinDenom, raw(m.Price), bi(m.Amount), m.OrderLifespan, o)
	case *dextypes.MsgMarketOrder:
		o.dex++
		o.gas += s.P.OrderExtraGas
		o.seen = append(o.seen, "market")
		return w.placeOrder(s, tMarket, m.Orderer, m.PairId, int(m.Direction), m.OfferCoin, m.DemandCoinDenom, nil, bi(m.Amount), m.OrderLifespan, o)
	case *dextypes.MsgMMOrder:
		o.dex++
		o.gas += s.P.OrderExtraGas
		o.seen = append(o.seen, "mm")
		k := MMK{m.Orderer, m.PairId}
		if w.liveMM(s, m.Orderer, m.PairId) >= int(s.P.MaxNumMarketMakingOrdersPerPair) {
			return "market-making order limit reached"
		}
		if e := w.placeOrder(s, tMM, m.Orderer, m.PairId, int(m.Direction), m.OfferCoin, m.DemandCoinDenom, raw(m.Price), bi(m.Amount), m.OrderLifespan, o); e != "" {
			return e
		}
		s.MM[k]++
		return ""

	case *dextypes.MsgCancelOrder:
		o.dex++
		o.seen = append(o.seen, "cancel")
		od := s.Orders[K2{m.PairId, m.OrderId}]
		if od == nil {
			return "no such order"
		}
		if od.Owner != m.Orderer {
			return "not the owner"
		}
		if od.Status == stCanceled {
			return "already cancelled"
		}
		if od.Batch == s.Pairs[m.PairId].Batch {
			return "placed in the current batch"
		}
		if od.live() {
			w.finishOrder(s, od, stCanceled)
		}
		return ""

	case *dextypes.MsgCancelAllOrders:
		o.dex++
		o.seen = append(o.seen, "cancelall")
		set := map[uint64]bool{}
		for _, p := range m.PairIds {
			if s.Pairs[p] == nil {
				return "no such pair"
			}
			set[p] = true
		}
		for _, k := range s.orderKeys() {
			od := s.Orders[k]
			if od.Owner == m.Orderer && (len(set) == 0 || set[od.Pair]) && od.live() && od.Batch < s.Pairs[od.Pair].Batch {
				w.finishOrder(s, od, stCanceled)
			}
		}
		return ""

	case *dextypes.MsgUpdateParams:
		o.dex++
		o.seen = append(o.seen, "params")
		return "only governance may change parameters"

	case *banktypes.MsgSend:
		o.seen = append(o.seen, "send")
		if blockedAddr[m.ToAddress] {
			return "blocked address"
		}
		if !w.send(s, m.FromAddress, m.ToAddress, fromSdk(m.Amount)) {
			return "insufficient funds"
		}
		return ""

	case *authz.MsgGrant:
		o.seen = append(o.seen, "grant")
		if m.Granter == m.Grantee {
			return "grant to oneself"
		}
		if m.Grant.Expiration != nil && !m.Grant.Expiration.After(s.Time) {
			return "grant already expired"
		}
		au, err := m.Grant.GetAuthorization()
		if err != nil {
			return "bad authorization"
		}
		s.Grants[m.Granter+"|"+m.Grantee+"|"+au.MsgTypeURL()] = true
		return ""
	case *authz.MsgRevoke:
		o.seen = append(o.seen, "revoke")
		k := m.Granter + "|" + m.Grantee + "|" + m.MsgTypeUrl
		if !s.Grants[k] {
			return "no such grant"
		}
		delete(s.Grants, k)
		return ""
	case *authz.MsgExec:
		o.seen = append(o.seen, "exec")
		ms, err := m.GetMessages()
		if err != nil {
			return "bad exec"
		}
		for _, x := range ms {
			g := msgSigner(x)
			if g != m.Grantee && !s.Grants[g+"|"+m.Grantee+"|"+sdk.MsgTypeURL(x)] {
				return "not authorised by " + g
			}
			if e := w.applyMsg(s, obs, x, o); e != "" {
				return e
			}
		}
		return ""
	case *govv1.MsgSubmitProposal, *govv1.MsgVote, *govv1.MsgDeposit:
		o.opaque, o.soft = true, true
		o.seen = append(o.seen, "gov")
		return ""
	}
	if e, ok := w.applyStake(s, obs, m, o); ok {
		return e
	}
	if e, ok := w.applyIBC(s, obs, m, o); ok {
		return e
	}
	o.opaque, o.soft = true, true
	o.seen = append(o.seen, "other")
	return ""
}

var blockedAddr = map[string]bool{}

func init() {
	for _, n := range []string{"fee_collector", "distribution", "mint", "bonded_tokens_pool", "not_bonded_tokens_pool", "nft"} {
		blockedAddr[authtypes.NewModuleAddress(n).String()] = true
	}
}

func (w *World) liveMM(s *Snap, owner string, pair uint64) int {
	n := 0
	for _, o := range s.Orders {
		if o.Pair == pair && o.Owner == owner && o.Type == tMM && o.live() {
			n++
		}
	}
	return n
}

func (w *World) newPool(s *Snap, pair *Pair, creator string, typ int, dep []Coin, ax, ay, lo, hi *big.Int) string {
	s.LastPool++
	id := s.LastPool
	reserve := poolReserve(id)
	denom := fmt.Sprintf("pool%d", id)
	if !w.send(s, creator, reserve, dep) {
		return "cannot pay the deposit"
	}
	if !w.send(s, creator, s.P.FeeCollectorAddress, fromSdk(s.P.PoolCreationFee)) {
		return "cannot pay the creation fee"
	}
	ps := maxB(initialSupply(ax, ay), bi(s.P.MinInitialPoolCoinSupply))
	s.addSup(denom, ps)
	s.addBal(creator, denom, ps)
	s.Pools[id] = &Pool{Type: typ, ID: id, Pair: pair.ID, Creator: creator, Reserve: reserve, Denom: denom, Min: lo, Max: hi}
	return ""
}

func msgSigner(m sdk.Msg) string {
	switch m := m.(type) {
	case *dextypes.MsgCreatePair:
		return m.Creator
	case *dextypes.MsgCreatePool:
		return m.Creator
	case *dextypes.MsgCreateRangedPool:
		return m.Creator
	case *dextypes.MsgDeposit:
		return m.Depositor
	case *dextypes.MsgWithdraw:
		return m.Withdrawer
	case *dextypes.MsgLimitOrder:
		return m.Orderer
	case *dextypes.MsgMarketOrder:
		return m.Orderer
	case *dextypes.MsgMMOrder:
		return m.Orderer
	case *dextypes.MsgCancelOrder:
		return m.Orderer
	case *dextypes.MsgCancelAllOrders:
		return m.Orderer
	case *dextypes.MsgUpdateParams:
		return m.Authority
	case *banktypes.MsgSend:
		return m.FromAddress
	case *authz.MsgGrant:
		return m.Granter
	case *authz.MsgRevoke:
		return m.Granter
	case *authz.MsgExec:
		return m.Grantee
	case *govv1.MsgSubmitProposal:
		return m.Proposer
	case *govv1.MsgVote:
		return m.Voter
	case *govv1.MsgDeposit:
		return m.Depositor
	}
	if x := stakeSigner(m); x != "" {
		return x
	}
	return ibcSigner(m)
}

// ---- comparing states ----

type diffOpt struct {
	skipDenom string // balances and supply of this denom are not compared
	skipBal   bool
	skipSeq   bool
	skipPar   bool
}

// diff lists the differences between an expected and an observed state.
func diff(exp, got *Snap, o diffOpt) []string {
	var d []string
	if exp.DexSum != "" && exp.DexSum == got.DexSum && o.skipBal {
		return nil
	}
	for _, id := range unionU(exp.Pairs, got.Pairs) {
		d = cmpRec(d, "pair", id, exp.Pairs[id], got.Pairs[id])
	}
	for _, id := range unionU(exp.Pools, got.Pools) {
		d = cmpRec(d, "pool", id, exp.Pools[id], got.Pools[id])
	}
	for _, k := range unionK(exp.Orders, got.Orders) {
		d = cmpRec(d, "order", k, exp.Orders[k], got.Orders[k])
	}
	for _, k := range unionK(exp.Deps, got.Deps) {
		d = cmpRec(d, "deposit", k, exp.Deps[k], got.Deps[k])
	}
	for _, k := range unionK(exp.Wds, got.Wds) {
		d = cmpRec(d, "withdraw", k, exp.Wds[k], got.Wds[k])
	}
	for k, v := range exp.MM {
		if got.MM[k] != v {
			d = append(d, fmt.Sprintf("mmcount %v: expected %d, is %d", k, v, got.MM[k]))
		}
	}
	for k, v := range got.MM {
		if exp.MM[k] == 0 && v != 0 {
			d = append(d, fmt.Sprintf("mmcount %v: expected 0, is %d", k, v))
		}
	}
	if exp.LastPair != got.LastPair {
		d = append(d, fmt.Sprintf("lastpair: expected %d, is %d", exp.LastPair, got.LastPair))
	}
	if exp.LastPool != got.LastPool {
		d = append(d, fmt.Sprintf("lastpool: expected %d, is %d", exp.LastPool, got.LastPool))
	}
	if !o.skipPar && exp.ParamsRaw != got.ParamsRaw {
		d = append(d, fmt.Sprintf("params: expected %q, is %q", exp.ParamsRaw, got.ParamsRaw))
	}
	d = append(d, diffIBC(exp.IBC, got.IBC)...)
	if !o.skipBal {
		d = append(d, diffBal(exp.Bal, got.Bal, o.skipDenom)...)
		for _, k := range unionS(exp.Sup, got.Sup) {
			if k != o.skipDenom && exp.sup(k).Cmp(got.sup(k)) != 0 {
				d = append(d, fmt.Sprintf("supply %s: expected %s, is %s", k, exp.sup(k), got.sup(k)))
			}
		}
	}
	if !o.skipSeq {
		for i := range exp.Seq {
			if exp.Seq[i] != got.Seq[i] {
				d = append(d, fmt.Sprintf("sequence of account %d: expected %d, is %d", i, exp.Seq[i], got.Seq[i]))
			}
		}
	}
	return d
}

func diffBal(exp, got Bals, skip string) []string {
	var d []string
	for _, a := range unionS(exp, got) {
		e, g := exp[a], got[a]
		for _, dn := range unionS(e, g) {
			if dn == skip {
				continue
			}
			x, y := e[dn], g[dn]
			if x == nil {
				x = zero
			}
			if y == nil {
				y = zero
			}
			if x.Cmp(y) != 0 {
				d = append(d, fmt.Sprintf("balance %s of %s: expected %s, is %s", dn, a, x, y))
			}
		}
	}
	return d
}

type strer interface {
	comparable
	str() string
}

func cmpRec[T strer](d []string, what string, id interface{}, a, b T) []string {
	var nilT T
	if a == b {
		return d
	}
	switch {
	case a == nilT:
		return append(d, fmt.Sprintf("%s %v: should not exist but is %s", what, id, b.str()))
	case b == nilT:
		return append(d, fmt.Sprintf("%s %v: missing, expected %s", what, id, a.str()))
	}
	if x, y := a.str(), b.str(); x != y {
		return append(d, fmt.Sprintf("%s %v: expected %s, is %s", what, id, x, y))
	}
	return d
}

func unionU[V any](a, b map[uint64]V) []uint64 {
	var out []uint64
	for k := range a {
		out = append(out, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, k)
		}
	}
	sortU(out)
	return out
}
func unionK[V any](a, b map[K2]V) []K2 {
	m := map[K2]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	return sortedK2(m)
}
func unionS[V, W any](a map[string]V, b map[string]W) []string {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	return sortedStr(m)
}
func sortU(x []uint64) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

func short(d []string) string {
	n := len(d)
	if n > 4 {
		d = d[:4]
	}
	return fmt.Sprintf("%d differences: %s", n, strings.Join(d, "; "))
}
