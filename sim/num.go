package main

import (
	"fmt"
	"math/big"
	"sort"

	"cosmossdk.io/math"
)

// ---- exact arithmetic on raw 1e-18 decimals, independent of the code under test ----

var (
	e18     = pow10(18)
	e18h    = new(big.Int).Quo(e18, big.NewInt(2))
	big1    = big.NewInt(1)
	maxCoin = pow10(40)
)

func pow10(n int) *big.Int       { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }
func intB(x *big.Int) math.Int   { return math.NewIntFromBigInt(x) }
func bigI(n int64) *big.Int      { return big.NewInt(n) }
func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func quo(a, b *big.Int) *big.Int { return new(big.Int).Quo(a, b) }
func neg(a *big.Int) *big.Int    { return new(big.Int).Neg(a) }
func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// ceilQ is ceil(a/b), b > 0
func ceilQ(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	if m.Sign() != 0 {
		q.Add(q, big1)
	}
	return q
}
func floorQ(a, b *big.Int) *big.Int { q, _ := new(big.Int).DivMod(a, b, new(big.Int)); return q }

// decMul multiplies two raw decimals with banker's rounding (non-negative).
func decMul(a, b *big.Int) *big.Int {
	q, r := new(big.Int).QuoRem(mul(a, b), e18, new(big.Int))
	switch r.Cmp(e18h) {
	case 1:
		q.Add(q, big1)
	case 0:
		if q.Bit(0) == 1 {
			q.Add(q, big1)
		}
	}
	return q
}

func quoteCeil(price, amt *big.Int) *big.Int  { return ceilQ(mul(price, amt), e18) }
func quoteFloor(price, amt *big.Int) *big.Int { return floorQ(mul(price, amt), e18) }

func ndig(p *big.Int) int { return len(p.String()) }

// downTick rounds a positive raw price down to a tick.
func downTick(p *big.Int, prec int) *big.Int {
	d := ndig(p) - 1 - prec
	if d <= 0 {
		return new(big.Int).Set(p)
	}
	s := pow10(d)
	return mul(quo(p, s), s)
}
func onTick(p *big.Int, prec int) bool { return downTick(p, prec).Cmp(p) == 0 }
func nextTick(t *big.Int, prec int) *big.Int {
	d := ndig(t) - 1 - prec
	if d < 0 {
		d = 0
	}
	return add(t, pow10(d))
}
func prevTick(t *big.Int, prec int) *big.Int {
	return downTick(sub(t, big1), prec)
}
func upTick(p *big.Int, prec int) *big.Int {
	t := downTick(p, prec)
	if t.Cmp(p) == 0 {
		return t
	}
	return nextTick(t, prec)
}
func lowestTick(prec int) *big.Int { return pow10(prec) }
func highestTick(prec int) *big.Int {
	m := new(big.Int).Lsh(big1, 300)
	return downTick(m.Sub(m, big1), prec)
}

// tickIdx numbers ticks consecutively.
func tickIdx(t *big.Int, prec int) int64 {
	c := ndig(t) - 1
	if c < prec {
		// below the lowest regular tick every raw unit is a "tick"
		return t.Int64() - pow10(prec).Int64()
	}
	lead := quo(t, pow10(c-prec)) // in [10^prec, 10^(prec+1))
	return int64(c-prec)*9*pow10(prec).Int64() + lead.Int64() - pow10(prec).Int64()
}

// band is the configured price band around the last price.
func band(last, ratio *big.Int, prec int) (lo, hi *big.Int, sane bool) {
	one := e18
	l := sub(one, ratio)
	if l.Sign() <= 0 {
		return nil, nil, false
	}
	lp := decMul(last, l)
	if lp.Sign() <= 0 {
		return nil, nil, false
	}
	hp := decMul(last, add(one, ratio))
	return upTick(lp, prec), downTick(hp, prec), true
}

func tooSmall(amt, price *big.Int) bool {
	h := bigI(100)
	return amt.Cmp(h) < 0 || mul(price, amt).Cmp(mul(h, e18)) < 0
}

func decS(p *big.Int) string {
	if p == nil {
		return "none"
	}
	if p.Sign() < 0 {
		return "-" + decS(neg(p))
	}
	s := p.String()
	for len(s) < 19 {
		s = "0" + s
	}
	return s[:len(s)-18] + "." + s[len(s)-18:]
}

func cs(c Coin) string { return fmt.Sprintf("%s%s", c.A, c.D) }
func coinsS(c []Coin) string {
	var o []string
	for _, x := range c {
		o = append(o, cs(x))
	}
	sort.Strings(o)
	return fmt.Sprint(o)
}
func amtOf(c []Coin, d string) *big.Int {
	for _, x := range c {
		if x.D == d {
			return x.A
		}
	}
	return zero
}
func bs(b *big.Int) string {
	if b == nil {
		return "nil"
	}
	return b.String()
}

// ---- high precision floats ----

const fprec = 400

func fl(x *big.Int) *big.Float         { return new(big.Float).SetPrec(fprec).SetInt(x) }
func fd(x *big.Int) *big.Float         { return fquo(fl(x), fl(e18)) } // raw decimal
func fnew() *big.Float                 { return new(big.Float).SetPrec(fprec) }
func fadd(a, b *big.Float) *big.Float  { return fnew().Add(a, b) }
func fsub(a, b *big.Float) *big.Float  { return fnew().Sub(a, b) }
func fmulF(a, b *big.Float) *big.Float { return fnew().Mul(a, b) }
func fquo(a, b *big.Float) *big.Float  { return fnew().Quo(a, b) }
func fsqrt(a *big.Float) *big.Float    { return fnew().Sqrt(a) }
func ff(x float64) *big.Float          { return fnew().SetFloat64(x) }
func f64(x *big.Float) float64         { v, _ := x.Float64(); return v }

// translation of a ranged pool with reserves x (quote), y (base) and square
// roots of its price bounds: virtual reserves are (x+a, y+b) with
// a = s*sqrtM, b = s/sqrtL and s the positive root of (x+a)(y+b) = s^2.
func translation(x, y, min, max *big.Int) (a, b *big.Float) {
	m, l := fsqrt(fd(min)), fsqrt(fd(max))
	X, Y := fl(x), fl(y)
	// s^2 (1 - m/l) - s (x/l + y m) - x y = 0
	A := fsub(ff(1), fquo(m, l))
	B := fadd(fquo(X, l), fmulF(Y, m))
	Cc := fmulF(X, Y)
	disc := fadd(fmulF(B, B), fmulF(ff(4), fmulF(A, Cc)))
	s := fquo(fadd(B, fsqrt(disc)), fmulF(ff(2), A))
	return fmulF(s, m), fquo(s, l)
}

// ratioPrice is the pool price as a float.
func rangedPrice(x, y, min, max *big.Int) *big.Float {
	a, b := translation(x, y, min, max)
	d := fadd(fl(y), b)
	if d.Sign() == 0 {
		return fd(max)
	}
	return fquo(fadd(fl(x), a), d)
}

func relClose(a, b *big.Float, tol float64) bool {
	d := fsub(a, b)
	d.Abs(d)
	m := fnew().Abs(a)
	bb := fnew().Abs(b)
	if bb.Cmp(m) > 0 {
		m = bb
	}
	return d.Cmp(fmulF(m, ff(tol))) <= 0
}
