package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---- generation of stakes, votes and misbehaviour ----

func genStake(r *Rng, c *Config) {
	if c.NAcc < 6 {
		c.NAcc = 6
	}
	for len(c.Bal) < c.NAcc {
		c.Bal = append(c.Bal, pow10(r.Range(9, 12)).String())
	}
	c.Vals = r.Range(3, 5)
	s := &StakeCfg{Unbonding: int64(r.Range(60, 200)), MaxVals: uint32(r.Range(2, 4)), MaxEntries: uint32(r.Range(1, 3)), Window: int64(2 * r.Range(2, 6)), MinSigned: "0.5",
		JailTime: int64(r.Range(5, 60)), SlashDown: []string{"0.01", "0.1", "0.000001", "0", "0.333333333333333333"}[r.N(5)], SlashSign: []string{"0.05", "0.3", "0.2", "0.123456789"}[r.N(4)]}
	for i := 0; i < c.Vals; i++ {
		b := add(mul(bigI(int64(r.Range(1, 60))), powerRed), bigI(int64(r.N(2000000))))
		if r.P(30) {
			b = mul(bigI(int64(r.Range(5, 9))), powerRed) // often the same as another's
		}
		if i == 0 {
			b = mul(bigI(int64(r.Range(20, 90))), powerRed)
		}
		s.Bonds = append(s.Bonds, b.String())
		s.Comm = append(s.Comm, []string{"0", "0.1", "1", "0.05", "0.333333333333333333"}[r.N(5)])
	}
	c.Stake = s
}

func (g *Gen) valIdx(op string) int {
	for i, a := range g.w.Accs {
		if a.S == op {
			return i
		}
	}
	return -1
}

func (g *Gen) aVal(k *Stk) int {
	v := sortedStr(k.Vals)
	if len(v) == 0 || g.r.P(3) {
		return g.acc()
	}
	return g.valIdx(v[g.r.N(len(v))])
}

func (g *Gen) stakeRound() {
	r, s := g.r, g.snap()
	if s == nil || s.Stk == nil {
		return
	}
	n := r.N(5)
	if g.done > g.blocks-3 {
		n = r.N(2)
	}
	for ; n > 0; n-- {
		m, ok := g.stakeTx(s)
		if !ok {
			continue
		}
		ms := []Msg{m}
		if r.P(12) && len(g.w.Cfg.Vest) == 0 {
			if x, ok := g.msg(s, m.S); ok && !stakeKind(x.T) {
				ms = append(ms, x)
				if r.P(50) {
					ms[0], ms[1] = ms[1], ms[0]
				}
			}
		}
		g.wrap(ms)
	}
}

func (g *Gen) stakeTx(s *Snap) (Msg, bool) {
	r, k := g.r, s.Stk
	m := Msg{S: g.acc()}
	amt := func(max *big.Int) []C {
		x := bigI(int64(r.Range(1, 50000000)))
		switch r.N(6) {
		case 0:
			x = mul(bigI(int64(r.Range(1, 20))), powerRed)
		case 1:
			x = bigI(int64(r.Range(1, 3000)))
		case 2:
			if max != nil {
				x = max
			}
		}
		if max != nil && x.Cmp(max) > 0 && r.P(92) {
			x = quo(mul(max, bigI(int64(r.Range(1, 100)))), bigI(100))
		}
		if x.Sign() <= 0 {
			x = big1
		}
		d := stake
		if r.P(1) {
			d = g.w.Cfg.Denoms[0]
		}
		return []C{{d, x.String()}}
	}
	// worth of a delegation
	worth := func(key string) *big.Int {
		p := strings.Split(key, "|")
		v := k.Vals[p[1]]
		if v == nil || v.Sh.Sign() == 0 {
			return zero
		}
		return quo(mul(k.Dels[key], v.Tok), v.Sh)
	}
	deleg := func() (key string, del, val int, ok bool) {
		ks := sortedStr(k.Dels)
		if len(ks) == 0 {
			return
		}
		key = ks[r.N(len(ks))]
		p := strings.Split(key, "|")
		del, val = g.valIdx(p[0]), g.valIdx(p[1])
		return key, del, val, del >= 0 && val >= 0
	}
	switch x := r.N(100); {
	case x < 26:
		m.T, m.Val = "delegate", g.aVal(k)
		m.Coins = amt(g.free(s, m.S, stake))
		if bigS(m.Coins[0].A).Cmp(mul(powerRed, bigI(200))) > 0 {
			m.Coins[0].A = fmt.Sprint(r.Range(1, 90000000))
		}
	case x < 48:
		key, d, v, ok := deleg()
		if !ok || d == 0 && v == 0 { // the first validator stays: somebody must make blocks
			return m, false
		}
		m.T, m.S, m.Val, m.Coins = "undelegate", d, v, amt(worth(key))
	case x < 60:
		key, d, v, ok := deleg()
		if !ok || d == 0 && v == 0 {
			return m, false
		}
		m.T, m.S, m.Val, m.Dst, m.Coins = "redelegate", d, v, g.aVal(k), amt(worth(key))
	case x < 69:
		ks := sortedStr(k.UBD)
		if len(ks) == 0 {
			return m, false
		}
		key := ks[r.N(len(ks))]
		p := strings.Split(key, "|")
		es := k.UBD[key]
		e := es[r.N(len(es))]
		m.T, m.S, m.Val, m.Coins, m.Seq = "cancelunb", g.valIdx(p[0]), g.valIdx(p[1]), amt(e.Bal), uint64(e.H)
		if r.P(5) {
			m.Seq++
		}
		if m.S < 0 || m.Val < 0 {
			return m, false
		}
	case x < 77:
		_, d, v, ok := deleg()
		if !ok {
			return m, false
		}
		m.T, m.S, m.Val = "reward", d, v
		if r.P(10) {
			m.Val = g.aVal(k)
		}
	case x < 82:
		m.T, m.S = "commission", g.aVal(k)
	case x < 86:
		m.T, m.To = "setwd", fmt.Sprint(g.acc())
		if r.P(15) {
			m.To = "addr:" + []string{feeColl, distrAcc, bondedPool, notBondedPool}[r.N(4)]
		}
	case x < 89:
		m.T = "fundpool"
		for _, d := range []string{g.w.Cfg.Denoms[0], stake} {
			if r.P(60) {
				if f := g.free(s, m.S, d); f.Sign() > 0 {
					m.Coins = append(m.Coins, C{d, fmt.Sprint(r.Range(1, 100000))})
				}
			}
		}
		sort.Slice(m.Coins, func(i, j int) bool { return m.Coins[i].D < m.Coins[j].D })
		if len(m.Coins) == 0 {
			return m, false
		}
	case x < 96:
		var js []int
		for _, op := range sortedStr(k.Vals) {
			if k.Vals[op].Jailed {
				js = append(js, g.valIdx(op))
			}
		}
		m.T = "unjail"
		if len(js) > 0 && r.P(90) {
			m.S = js[r.N(len(js))]
		}
	default:
		m.T = "createval"
		m.Val = m.S
		if r.P(10) {
			m.Val = g.acc()
		}
		m.Price = []string{"0", "0.1", "1", "0.5"}[r.N(4)]
		m.Amt = []string{"1", "1", "1000000", "5000000"}[r.N(4)]
		m.Coins = []C{{stake, fmt.Sprint(r.Range(900000, 40000000))}}
	}
	return m, m.S >= 0 && m.Val >= 0
}

// stakeFaults fills in who signs and who lies, and keeps leaps in time apart
// from changes of the validator set.
func (g *Gen) stakeFaults(st *Step) {
	r, w := g.r, g.w
	if g.down == nil {
		g.down = map[int]int{}
	}
	for i := 1; i < len(w.Accs); i++ {
		if g.down[i] == 0 && r.P(7) {
			g.down[i] = r.Range(1, int(w.Cfg.Stake.Window)+3)
		}
		if g.down[i] > 0 {
			g.down[i]--
			if r.P(90) {
				st.Absent = append(st.Absent, i)
			}
		}
	}
	if r.P(6) {
		st.Evid = append(st.Evid, Evid{Val: r.Range(1, len(w.Accs)-1), Back: int64(r.Range(1, 8))})
		if r.P(15) {
			st.Evid = append(st.Evid, st.Evid[0])
		}
	}
	st.Arg = r.N(8)
	st.DT = int64(r.Range(1, 10)) * 1e9
	if r.P(20) {
		st.DT = int64(r.Range(1, 10000)) * 1e6
	}
	h := w.height() + 1
	m := w.stk
	still := h-2 >= w.initH()
	for x := h - 2; still && x <= h; x++ {
		still = fmt.Sprint(m.sets[x]) == fmt.Sprint(m.sets[x+1])
	}
	if still && r.P(8) {
		u := w.Cfg.Stake.Unbonding
		st.DT = []int64{u / 2, u - 1, u, u + 1, w.Cfg.Stake.JailTime}[r.N(5)] * 1e9
		w.Stats.Inc("fault_time_leap", 1)
	} else if s := g.snap(); s != nil && r.P(15) { // the very moment an unbonding ends
		for _, k := range sortedStr(s.Stk.UBD) {
			e := s.Stk.UBD[k][0]
			if dt := e.T - w.Time.UnixNano(); dt > 1 && dt < 15e9 {
				st.DT = dt - int64(r.N(2))
			}
		}
	}
}
