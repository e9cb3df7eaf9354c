package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
)

// ---- seeded generation of configurations and steps ----

var profiles = []string{"core", "pools", "mm", "faults", "query", "export", "gov", "auth", "gas", "extreme", "ibc", "stake"}

func hasProf(p string, xs ...string) bool {
	for _, x := range xs {
		if p == x {
			return true
		}
	}
	return false
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func u32(x uint32) *uint32 { return &x }
func u64(x uint64) *uint64 { return &x }
func i64(x int64) *int64   { return &x }
func str(x string) *string { return &x }

func longDenom(c byte, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = c
	}
	return string(b)
}

var denomSets = [][]string{
	{"aaa", "bbb", "ccc"},
	{"uatom", "uatomx", "uatomxy", "u/a"},
	{"ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2", "uusd", "uus1"},
	{"abc", "abcd", "abcde", "zzz"},
	{"d" + longDenom('a', 127), "d" + longDenom('a', 126) + "b", "q" + longDenom('z', 40)},
}

func randParams(r *Rng, prof string) PJ {
	var p PJ
	pick := func(xs ...string) string { return xs[r.N(len(xs))] }
	b := 1
	if r.P(35) {
		b = r.Range(2, 5)
	}
	p.Batch = u32(uint32(b))
	switch r.N(8) {
	case 0:
		p.Tick = u32(uint32(r.Range(1, 3)))
	case 1:
		p.Tick = u32(5)
	default:
		p.Tick = u32(uint32(r.Range(3, 4)))
	}
	p.MinSupply = str(pick("1000000000000", "1", "1000000", "100000000"))
	p.MinDep = str(pick("1", "100", "1000", "1000000"))
	switch r.N(6) {
	case 0:
		p.Ratio = str("0.010000000000000000")
	case 1:
		p.Ratio = str("0.5")
	case 2:
		p.Ratio = str(pick("0.9", "0.003", "0.333333333333333333"))
	case 3:
		p.Ratio = str("0.05")
	default:
		p.Ratio = str("0.1")
	}
	// A depleted pool's ladder is walked tick by tick: bound the ticks of a band.
	if *p.Tick == 5 {
		p.Ratio = str(pick("0.01", "0.02"))
	}
	if *p.Tick == 4 && wideRatio(*p.Ratio) {
		p.Tick = u32(3)
	}
	if *p.Tick > 2 && *p.Ratio == "0.9" {
		p.Ratio = str("0.5")
	}
	if *p.Tick > 2 && *p.Ratio == "0.9" {
		p.Ratio = str("0.5")
	}
	switch r.N(4) {
	case 0:
		p.PairFee = &[]C{}
		p.PoolFee = &[]C{{stake, "5"}}
	case 1:
		p.PairFee = &[]C{{stake, "777"}}
		p.PoolFee = &[]C{}
	}
	if r.P(50) {
		p.MMMax = u32(uint32(r.Range(1, 4)))
		if prof == "mm" {
			p.MMMax = u32(uint32(r.Range(1, 3)))
		}
	}
	switch r.N(4) {
	case 0:
		p.Lifespan = i64(int64(r.Range(1, 30)) * int64(time.Second))
	case 1:
		p.Lifespan = i64(int64(time.Hour))
	}
	switch r.N(4) {
	case 0:
		p.WdFee = str(pick("0.003", "0.1", "0.000000000000000001"))
	case 1:
		p.WdFee = str(pick("1.0", "0.5", "0.999999999999999999"))
	}
	switch r.N(4) {
	case 0:
		p.DepGas, p.WdGas, p.OrderGas = u64(0), u64(0), u64(0)
	case 1:
		p.DepGas, p.WdGas, p.OrderGas = u64(uint64(r.N(500000))), u64(uint64(r.N(500000))), u64(uint64(r.N(500000)))
	}
	if r.P(60) {
		p.MaxPools = u32(uint32(r.Range(1, 4)))
	}
	if r.P(25) {
		p.SwapFee = str("0.003")
	}
	return p
}

func wideRatio(s string) bool { return s == "0.5" || s == "0.9" || strings.HasPrefix(s, "0.33") }

func genConfig(seed uint64, prof string) Config {
	r := NewRng(mix(seed, 0xc0f))
	c := Config{Seed: seed, Profile: prof, NAcc: r.Range(4, 7)}
	c.Denoms = append([]string{}, denomSets[r.N(len(denomSets))]...)
	c.Denoms = append(c.Denoms, stake)
	for i := 0; i < c.NAcc; i++ {
		k := r.Range(9, 15)
		if i > 1 && r.P(20) {
			k = r.Range(6, 8)
		}
		if i == 0 {
			k = 15
		}
		v := add(pow10(k), bigI(int64(r.N(1000000))))
		if prof == "extreme" && i%2 == 0 {
			top := 58
			if r.P(25) {
				top = 75
			}
			v = mul(pow10(r.Range(20, top)), bigI(int64(r.Range(1, 9))))
		}
		c.Bal = append(c.Bal, v.String())
	}
	if r.P(30) {
		for i := 1; i < c.NAcc && len(c.Vest) < 3; i++ {
			if r.P(40) {
				c.Vest = append(c.Vest, i)
			}
		}
		c.VestPct = r.Range(10, 100)
		if r.P(20) {
			c.VestPct = 100
		}
	}
	c.Params = randParams(r, prof)
	if r.P(50) { // collectors
		fc, dc := account(r.N(c.NAcc)).S, account(r.N(c.NAcc)).S
		c.Params.FeeCol = &fc
		if r.P(50) {
			dc = fc
		}
		c.Params.DustCol = &dc
	}
	switch r.N(5) {
	case 0:
		c.Params.PairFee = &[]C{{c.Denoms[0], "10"}, {stake, "100"}}
	case 1:
		c.Params.PoolFee = &[]C{{c.Denoms[1], "7"}}
	}
	for _, f := range []*[]C{c.Params.PairFee, c.Params.PoolFee} {
		if f != nil {
			sort.Slice(*f, func(i, j int) bool { return (*f)[i].D < (*f)[j].D })
		}
	}
	if r.P(30) {
		c.LastPair = uint64([]int{1, 250, 254, 65534, 9}[r.N(5)])
		c.LastPool = uint64([]int{1, 253, 255, 65534, 98}[r.N(5)])
	}
	nn := 0
	switch prof {
	case "faults":
		nn = r.Range(2, 3)
	case "query", "export":
		nn = 1
	case "auth", "gas":
		nn = r.N(2)
	case "gov":
		nn = 1 + r.N(2)
		if r.P(25) {
			nn = 0
		}
	case "core", "pools", "mm":
		if r.P(20) {
			nn = 1
		}
	case "extreme":
		nn = 0
	case "ibc":
		nn = r.N(3)
	case "stake":
		nn = r.N(3)
		genStake(r, &c)
	}
	c.Nodes = append(c.Nodes, NodeCfg{MapSeed: r.U64()})
	for i := 0; i < nn; i++ {
		nc := NodeCfg{MapSeed: r.U64()}
		switch r.N(4) {
		case 0:
			nc.Pruning = "everything"
		case 1:
			nc.Pruning = fmt.Sprintf("%d,%d", r.Range(2, 6), []int{10, 10, 11, 25}[r.N(4)])
		}
		if (prof == "gov" || prof == "ibc" || prof == "stake") && r.P(65) {
			nc.Pruning = ""
		}
		if r.P(30) {
			nc.Cache = []int{1, 10, 100}[r.N(3)]
		}
		nc.NoFast = r.P(25)
		nc.Inter = r.P(30)
		nc.Debug = r.P(20)
		if r.P(30) {
			nc.InvCheck = uint(r.Range(1, 5))
		}
		nc.Trace = prof == "faults" && r.P(55) || prof == "query" && r.P(50) || prof == "gov" && r.P(25) || prof == "ibc" && r.P(25)
		if r.P(40) {
			nc.Skew = int64(r.Range(-7200, 7200)) * 1e9
		}
		if r.P(20) {
			nc.MinGas = "0.001stake"
		}
		c.Nodes = append(c.Nodes, nc)
	}
	if prof == "gas" && r.P(40) {
		c.BlockGas = int64(r.Range(500000, 4000000))
	}
	if len(c.Nodes) == 1 && r.P(30) && prof != "stake" || prof == "faults" && r.P(3) {
		c.InitH = int64(r.Range(2, 1000))
	}
	c.Votes = int64(r.Range(5, 20))
	return c
}

type Gen struct {
	w       *World
	r       *Rng
	prof    string
	next    int
	blocks  int // blocks to produce
	done    int
	queue   []Step
	mem     []Ref // transactions waiting for a block
	old     []int
	center  map[uint64]*big.Int
	centers *big.Int
	plans   [][2]string // pairs to create
	dt      int64
	cur     map[string]*big.Int // spent in this round: account|denom
	hot     int                 // rounds left of a burst on one pair
	hotPair uint64
	hotPx   []*big.Int
	voted   map[uint64]bool
	props   int
	mode    string
	lastOps []int
	aim     K2    // the next block is timed by the end of this order's life
	aimDT   int64 // or 0
	wantCh  int   // channels to open
	down    map[int]int
	relay   int // how eager the relayers are
	crowdAt int // block of the crowd, 0 none
	crowdBy int
}

func NewGen(w *World, seed uint64, prof string) *Gen {
	r := NewRng(mix(seed, 0x9e4e))
	g := &Gen{w: w, r: r, prof: prof, next: 1, center: map[uint64]*big.Int{}}
	g.blocks = r.Range(18, 36)
	if prof == "extreme" {
		g.blocks = r.Range(10, 22)
	}
	if prof == "stake" {
		g.blocks = r.Range(25, 50)
	}
	ds := w.Cfg.Denoms
	n := r.Range(1, 3)
	for i := 0; i < n; i++ {
		a, b := r.N(len(ds)), r.N(len(ds))
		if r.P(90) && a == len(ds)-1 {
			a = 0
		}
		if r.P(90) && b == len(ds)-1 {
			b = 1
		}
		if a == b {
			b = (a + 1) % (len(ds) - 1)
		}
		if a != b {
			g.plans = append(g.plans, [2]string{ds[a], ds[b]})
		}
	}
	if r.P(30) && len(g.plans) > 0 { // the other way round is another market
		g.plans = append(g.plans, [2]string{g.plans[0][1], g.plans[0][0]})
	}
	cs := []string{"1000000000000000000", "1000000000000000000", "500000000000000000", "123450000000000000000", "98000000000000000", "1234500000000000", "3000000000000000000000", "99990000000000000000", "10000000000000000000"}
	g.centers = bigS(cs[r.N(len(cs))])
	if prof == "extreme" && r.P(60) {
		g.centers = mul(pow10(r.Range(3, 45)), bigI(int64(r.Range(1, 99))))
	}
	g.dt = []int64{1e9, 5e9, 5e9, 60e9, 1800e9, 1}[r.N(6)]
	g.mode = []string{"mixed", "burst", "thin", "duel"}[r.N(4)]
	if r.P(10) && !hasProf(prof, "ibc", "stake", "gas", "extreme") {
		g.crowdAt = r.Range(4, g.blocks-5)
	}
	return g
}

func (g *Gen) snap() *Snap { return g.w.obs.last }

func (g *Gen) params() *paramsView {
	p := g.w.obs.curParams()
	pv := &paramsView{prec: int(p.TickPrecision), ratio: raw(p.MaxPriceLimitRatio), life: int64(p.MaxOrderLifespan), batch: int64(p.BatchSize), minDep: bi(p.MinInitialDepositAmount), mmMax: int(p.MaxNumMarketMakingOrdersPerPair), gas: maxU(p.DepositExtraGas, p.WithdrawExtraGas, p.OrderExtraGas), maxPools: int(p.MaxNumActivePoolsPerPair)}
	pv.pairFee, pv.poolFee = coins(p.PairCreationFee), coins(p.PoolCreationFee)
	return pv
}

type paramsView struct {
	prec             int
	ratio, minDep    *big.Int
	life, batch      int64
	mmMax, maxPools  int
	gas              uint64
	pairFee, poolFee []Coin
}

func maxU(xs ...uint64) uint64 {
	m := uint64(0)
	for _, x := range xs {
		if x > m {
			m = x
		}
	}
	return m
}

// Next returns the next step, or false when the run is over.
func (g *Gen) Next() (Step, bool) {
	if len(g.queue) == 0 {
		if g.done >= g.blocks || g.w.Halt {
			return Step{}, false
		}
		g.round()
	}
	s := g.queue[0]
	g.queue = g.queue[1:]
	return s, true
}

func (g *Gen) emit(s Step) { g.queue = append(g.queue, s) }

// round plans what happens until the next block and that block.
func (g *Gen) round() {
	r := g.r
	g.cur = map[string]*big.Int{}
	g.done++
	n := 0
	switch {
	case g.done <= 2:
		n = r.Range(2, 4)
	case g.mode == "thin":
		n = r.N(4)
	case g.mode == "burst" && r.P(50):
		n = r.Range(4, 10)
	default:
		n = r.N(6)
	}
	if g.done > g.blocks-3 {
		n = r.N(2) // the end is quiet
	}
	if r.P(35) {
		g.hotPair = 0 // forget the hot market
	}
	g.aimDT = 0
	if s := g.snap(); s != nil && r.P(20+20*b2i(g.prof == "auth")) {
		var ks []K2
		for _, k := range s.orderKeys() {
			if o := s.Orders[k]; o.live() && o.Expire.After(g.w.Time) && o.Expire.Before(g.w.Time.Add(100*time.Hour)) {
				ks = append(ks, k)
			}
		}
		if len(ks) > 0 {
			g.aim = ks[r.N(len(ks))]
			g.aimDT = int64(s.Orders[g.aim].Expire.Sub(g.w.Time)) + []int64{-1, 0, 0, 1, 1e9}[r.N(5)]
			if n == 0 {
				n = 1
			}
		}
	}
	for i := 0; i < n; i++ {
		g.tx()
	}
	if r.P(3) && g.done <= g.blocks-3 {
		g.flood()
	}
	if g.crowdAt != 0 && g.done >= g.crowdAt {
		g.crowd()
	}
	if g.prof == "ibc" {
		g.ibcRound()
	}
	if g.prof == "stake" {
		g.stakeRound()
	}
	voting := false
	if g.prof == "gov" {
		voting = g.vote()
	}
	// what the nodes do between blocks
	for i := range g.w.Nodes {
		g.between(i)
	}
	// the block
	var refs []Ref
	var rest []Ref
	for _, m := range g.mem {
		if r.P(4) {
			rest = append(rest, m) // delayed
			continue
		}
		if r.P(2) {
			continue // lost
		}
		refs = append(refs, m)
		if r.P(3) {
			refs = append(refs, m) // duplicated
		}
	}
	g.mem = rest
	if r.P(10) && len(refs) > 1 {
		i, j := r.N(len(refs)), r.N(len(refs))
		refs[i], refs[j] = refs[j], refs[i]
	}
	dup := 3
	if g.prof == "auth" {
		dup = 40
	}
	if len(g.old) > 0 && r.P(dup) {
		refs = append(refs, Ref{ID: g.old[r.N(len(g.old))]})
	}
	if r.P(dup/2+1) && len(g.old)+len(refs) > 0 {
		id := 0
		if len(refs) > 0 && r.P(70) {
			id = refs[r.N(len(refs))].ID
		} else if len(g.old) > 0 {
			id = g.old[r.N(len(g.old))]
		}
		if id > 0 {
			k := r.N(len(refs) + 1)
			refs = append(refs[:k:k], append([]Ref{{ID: id, Mode: "flip", Arg: int(r.U64() >> 33)}}, refs[k:]...)...)
		}
	}
	if g.prof == "auth" && r.P(10) {
		refs = append(refs, Ref{Mode: "raw", Arg: int(r.U64() >> 33)})
	}
	for _, x := range refs {
		if x.Mode == "" {
			g.old = append(g.old, x.ID)
		}
	}
	dt := g.dt
	switch r.N(10) {
	case 0:
		dt = 1
	case 1:
		dt = int64(r.Range(1, 100)) * 1e8
	case 2:
		dt = g.params().life / int64(r.Range(1, 3))
		if dt > 48*3600*1e9 || dt < 1 {
			dt = 3600e9
		}
	}
	if g.prof == "gov" && r.P(50) {
		dt = int64(r.Range(1, 10)) * 1e9
	}
	if voting && r.P(85) {
		dt = int64(r.Range(1, 20)) * 2e8
	}
	if g.aimDT > 0 {
		dt = g.aimDT
	}
	blk := Step{K: "block", Txs: refs, DT: dt}
	if g.prof == "stake" {
		g.stakeFaults(&blk)
	}
	g.emit(blk)
	for i := 1; i < len(g.w.Nodes); i++ {
		g.nodeWork(i)
	}
	if g.prof == "export" && r.P(30) || hasProf(g.prof, "ibc", "stake") && r.P(12) || g.prof == "core" && r.P(1) {
		n := r.N(len(g.w.Nodes))
		h := int64(0)
		if r.P(25) {
			h = int64(r.Range(1, 5))
		}
		a := 0
		if r.P(15 + 25*b2i(g.prof == "stake")) {
			if a = 1; g.prof == "stake" && r.P(40) {
				a |= 4 | r.N(256)<<8
			}
		}
		if r.P(15) {
			a |= 2
		}
		g.emit(Step{K: "export", N: n, H: h, Arg: a})
	}
}

func (g *Gen) someTx() int {
	if len(g.mem) > 0 && g.r.P(60) {
		return g.mem[g.r.N(len(g.mem))].ID
	}
	if len(g.old) > 0 {
		return g.old[g.r.N(len(g.old))]
	}
	return 0
}

// beforeChange: how many blocks ago the parameters were still others, if lately.
func (g *Gen) beforeChange() int64 {
	w, r := g.w, g.r
	if h := w.height(); h > 1 && r.P(75) {
		cur := w.block(h).Snap
		for d := int64(1); d <= 12 && h-d >= w.initH(); d++ {
			if b := w.block(h - d); b.Snap != nil && cur != nil && paramsStr(b.Snap.P) != paramsStr(cur.P) {
				if d < 6 && r.P(40) && h-d-1 >= w.initH() {
					return d + 1
				}
				return d
			}
		}
	}
	return int64(r.Range(1, 8))
}

func (g *Gen) between(i int) {
	r := g.r
	if g.prof == "gov" && i > 0 && r.P(35) {
		// a node without anything in memory asked about an older state
		if r.P(60) {
			g.emit(Step{K: "restart", N: i})
		}
		g.emit(Step{K: "query", N: i, H: g.beforeChange(), Arg: 7 * int(r.U64()>>44)})
	}
	busy := hasProf(g.prof, "query", "faults", "auth")
	if !busy && !r.P(15) {
		return
	}
	if g.prof == "faults" && i == 0 && !r.P(20) {
		return
	}
	k := r.N(3)
	if g.prof == "query" {
		k = r.Range(1, 4)
	}
	for ; k > 0; k-- {
		switch r.N(8) {
		case 0, 1:
			if id := g.someTx(); id > 0 {
				g.emit(Step{K: "check", N: i, Arg: id, At: r.N(2)})
			}
		case 2:
			if id := g.someTx(); id > 0 {
				g.emit(Step{K: "sim", N: i, Arg: id})
			}
		case 3:
			if i > 0 && r.P(50) {
				var refs []Ref
				for _, m := range g.mem {
					refs = append(refs, m)
				}
				g.emit(Step{K: "propose", N: i, Txs: refs, Arg: r.N(3)})
			}
		default:
			h := int64(0)
			if r.P(25) {
				h = int64(r.Range(1, 8))
			}
			g.emit(Step{K: "query", N: i, H: h, Arg: int(r.U64() >> 40)})
		}
	}
}

func (g *Gen) ints(i int) []Int {
	r := g.r
	var out []Int
	if g.w.Cfg.Nodes[i].Trace && r.P(60) {
		for k := r.Range(1, 3); k > 0; k-- {
			x := Int{At: r.Range(1, 600), What: "query", Arg: int(r.U64() >> 40)}
			if r.P(30) {
				x.At = r.Range(1, 4000)
			}
			if id := g.someTx(); id > 0 && r.P(35) {
				x.What, x.Tx = "sim", id
			}
			out = append(out, x)
		}
	}
	if r.P(25) {
		x := Int{At: -1, What: []string{"query", "sim", "check"}[r.N(3)], Arg: int(r.U64() >> 40), Tx: g.someTx()}
		if x.What == "query" || x.Tx > 0 {
			out = append(out, x)
		}
	}
	return out
}

// nodeWork: one replica's reaction to a new block.
func (g *Gen) nodeWork(i int) {
	r := g.r
	flt := 0
	switch g.prof {
	case "faults":
		flt = 28
	case "ibc", "stake":
		flt = 12
	case "export", "query":
		flt = 6
	default:
		flt = 4
	}
	keep := []int{-1, 0, 0, 1, 3, 20}[r.N(6)]
	if r.P(flt / 3) {
		g.emit(Step{K: "clock", N: i, Ns: int64(r.Range(-100000, 100000)) * 1e9})
	}
	if g.prof == "faults" && r.P(20) {
		return // stalled or partitioned: falls behind
	}
	up := r.Range(1, 3) // a lagging node applies several blocks
	for k := 0; k < up; k++ {
		s := Step{K: "apply", N: i, Ints: g.ints(i)}
		if r.P(flt) {
			s.Keep = keep
			switch r.N(10) {
			case 0, 1, 2, 3:
				s.Kill, s.At = "write", r.Range(1, 60)
			case 4:
				s.Kill, s.At = "after", r.Range(1, 60)
			case 5:
				s.Kill, s.At = "err", r.Range(1, 50)
			case 6:
				s.Kill, s.At = "rerr", r.Range(1, 600)
			case 7:
				s.Kill = "precommit"
			default:
				if g.w.Cfg.Nodes[i].Trace {
					s.Kill, s.At = "trace", r.Range(1, 2500)
				} else {
					s.Kill = "precommit"
				}
			}
		}
		g.emit(s)
		if s.Kill != "" && r.P(75) {
			x := Step{K: "restart", N: i}
			if r.P(20) {
				x.Kill, x.At, x.Keep = []string{"write", "after"}[r.N(2)], r.Range(1, 30), keep
				g.emit(x)
				x = Step{K: "restart", N: i}
			}
			g.emit(x)
		}
	}
	if r.P(flt / 2) {
		g.emit(Step{K: "crash", N: i, Keep: keep})
		if r.P(70) {
			g.emit(Step{K: "restart", N: i})
		}
	} else if r.P(30) {
		g.emit(Step{K: "restart", N: i})
	}
	if r.P(flt / 4) {
		g.emit(Step{K: "rollback", N: i, H: int64(r.Range(1, 6))})
	}
}

// ---- transactions ----

func (g *Gen) free(s *Snap, a int, d string) *big.Int {
	if s == nil {
		return bigS(g.w.Cfg.Bal[a])
	}
	v := g.w.spendable(s, g.w.Accs[a].S, d)
	v = sub(v, orZero(g.cur[fmt.Sprint(a, "|", d)]))
	if v.Sign() < 0 {
		return zero
	}
	return v
}

func (g *Gen) use(a int, d string, x *big.Int) {
	k := fmt.Sprint(a, "|", d)
	g.cur[k] = add(orZero(g.cur[k]), x)
}

func (g *Gen) acc() int { return g.r.N(len(g.w.Accs)) }

func (g *Gen) tx() {
	r := g.r
	s := g.snap()
	var ms []Msg
	nm := 1
	if r.P(12) || g.prof == "gas" && r.P(40) {
		nm = r.Range(2, 4)
	}
	a := g.acc()
	if g.aimDT > 0 && r.P(25+25*b2i(g.prof == "auth")) {
		if m, ok := g.mCancel(s, a); ok {
			ms = append(ms, m)
			nm = 0
		}
	}
	for i := 0; i < nm; i++ {
		if i > 0 && r.P(15) {
			a = g.acc() // several signers
		}
		if m, ok := g.msg(s, a); ok {
			ms = append(ms, m)
		}
	}
	if len(ms) == 0 {
		return
	}
	g.wrap(ms)
}

// vote votes on open proposals; true while some are without a vote.
func (g *Gen) vote() bool {
	r := g.r
	var ids []uint64
	for id, p := range g.w.obs.gov {
		if p.Status == govv1.StatusVotingPeriod && !g.voted[id] {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		if r.P(75) {
			opt := 1
			if r.P(20) {
				opt = []int{2, 3, 4, 4, 4}[r.N(5)]
			}
			if g.voted == nil {
				g.voted = map[uint64]bool{}
			}
			g.voted[id] = true
			g.wrap([]Msg{{T: "vote", S: 0, Prop: id, Opt: opt}})
		}
	}
	return len(ids) > 0
}

// flood sends many messages of one kind into one batch.
func (g *Gen) flood() {
	r := g.r
	s := g.snap()
	if s == nil || len(s.Pairs) == 0 {
		return
	}
	k := []string{"limit", "limit", "mm", "cancel", "dep", "dep", "wd", "wd"}[r.N(8)]
	if len(s.Pools) == 0 {
		k = "limit"
	}
	n := r.Range(8, 30)
	g.hot, g.hotPair = 0, 0
	for n > 0 {
		a := g.acc()
		var ms []Msg
		for i := r.Range(1, n); i > 0; i-- {
			n--
			if m, ok := g.mk(s, a, k); ok && (len(ms) == 0 || ms[0].S == m.S) {
				ms = append(ms, m)
			}
		}
		if len(ms) > 0 {
			g.wrap(ms)
		}
	}
}

// crowd makes far more orders or requests than usual, and has them end together.
func (g *Gen) crowd() {
	r, s := g.r, g.snap()
	if s == nil || len(s.Pairs) == 0 {
		return
	}
	if g.done > g.crowdAt {
		if r.P(60) && g.done < g.blocks-1 { // all of them end at once, or when their time comes
			g.wrap([]Msg{{T: "cancelall", S: g.crowdBy}})
			g.crowdAt = 0
		}
		return
	}
	pv := g.params()
	ids := s.pairIDs()
	p := s.Pairs[ids[r.N(len(ids))]]
	a := g.acc()
	g.crowdBy = a
	n := r.Range(105, 230)
	var q *Pool
	if pl := s.poolIDs(); len(pl) > 0 && r.P(35) {
		if q = s.Pools[pl[r.N(len(pl))]]; q.Disabled {
			q = nil
		} else {
			p = s.Pairs[q.Pair]
		}
	}
	dir := r.Range(1, 2)
	life := []int64{pv.life, pv.life, 0, pv.life / 2}[r.N(4)]
	var ms []Msg
	for ; n > 0; n-- {
		var m Msg
		switch {
		case q != nil:
			x := bigI(int64(r.Range(100, 5000)))
			m = Msg{T: "dep", S: a, Pool: q.ID, Coins: []C{{p.Base, x.String()}, {p.Quote, x.String()}}}
			if f := s.bal(g.w.Accs[a].S, q.Denom); f.Cmp(bigI(1000000)) > 0 && n%3 == 0 {
				m = Msg{T: "wd", S: a, Pool: q.ID, Coins: []C{{q.Denom, floorQ(f, bigI(int64(r.Range(1000, 5000)))).String()}}}
			} else {
				sort.Slice(m.Coins, func(i, j int) bool { return m.Coins[i].D < m.Coins[j].D })
			}
		default:
			px := g.centers
			if c := g.center[p.ID]; c != nil {
				px = c
			}
			if p.Last != nil {
				px = p.Last
			}
			k := int64(1000 + r.Range(5, 80)) // the far side of the band
			if dir == buy {
				k = 2000 - k
			}
			px = floorQ(mul(px, bigI(k)), bigI(1000))
			amt := bigI(int64(r.Range(100, 3000)))
			m = Msg{T: "limit", S: a, Pair: p.ID, Dir: dir, Price: decS(px), Amt: amt.String(), Life: life}
			if dir == buy {
				m.Coins, m.Demand = []C{{p.Quote, maxB(quoteCeil(px, amt), bigI(100)).String()}}, p.Base
			} else {
				m.Coins, m.Demand = []C{{p.Base, amt.String()}}, p.Quote
			}
		}
		if ms = append(ms, m); len(ms) >= 15 || r.P(15) {
			g.wrap(ms)
			ms = nil
		}
	}
	if len(ms) > 0 {
		g.wrap(ms)
	}
}

// wrap makes a transaction of messages and puts it in the pool.
func (g *Gen) wrap(ms []Msg) {
	r := g.r
	st := Step{K: "tx", ID: g.next, Msgs: ms}
	g.next++
	seen := map[int]bool{}
	for _, m := range ms {
		si := m.S
		if si < 0 {
			si = 0
		}
		if !seen[si] {
			seen[si] = true
			st.Signers = append(st.Signers, si)
		}
	}
	pv := g.params()
	cnt := 0
	var count func(ms []Msg)
	count = func(ms []Msg) {
		for _, m := range ms {
			cnt++
			count(m.Msgs)
		}
	}
	count(ms)
	st.Gas = uint64(cnt+1)*(gasBound+pv.gas) + uint64(cnt)*pv.gas
	if r.P(30) {
		st.Fee = []C{{stake, fmt.Sprint(r.Range(1, 2000))}}
	}
	if r.P(1) {
		st.Fee = []C{{stake, "100000000000000000000000000000000000000000000000000000000000000"}}
	}
	lowGas := 2
	if g.prof == "gas" {
		lowGas = 60
	}
	if r.P(lowGas) {
		st.Gas = uint64(r.Range(20000, 400000))
		if r.P(30) {
			st.Gas += pv.gas
		}
	}
	bad := 2
	if g.prof == "auth" {
		bad = 25
	}
	if r.P(bad) {
		switch r.N(7) {
		case 0:
			st.Corrupt = "sig"
		case 1:
			st.Corrupt = "chain"
		case 2:
			st.Corrupt = "accnum"
		case 3:
			st.Corrupt = "signer"
		case 4:
			st.Corrupt = "none"
		case 5:
			st.Seq = r.Range(1, 3)
		case 6:
			st.Seq = -r.Range(1, 3)
		}
	}
	g.emit(st)
	g.mem = append(g.mem, Ref{ID: st.ID})
}

type wt struct {
	k string
	w int
}

func (g *Gen) msg(s *Snap, a int) (Msg, bool) {
	r := g.r
	np, nl := 0, 0
	if s != nil {
		np, nl = len(s.Pairs), len(s.Pools)
	}
	if np == 0 || len(g.plans) > 0 && r.P(25) {
		return g.mPair(s, a), true
	}
	ws := []wt{{"limit", 46}, {"market", 9}, {"mm", 9}, {"cancel", 7}, {"cancelall", 3}, {"pool", 4}, {"rpool", 4}, {"dep", 6}, {"wd", 6}, {"send", 2}, {"pair", 1}, {"params", 0}, {"prop", 0}, {"vote", 0}, {"grant", 0}, {"exec", 0}, {"revoke", 0}}
	set := func(k string, v int) {
		for i := range ws {
			if ws[i].k == k {
				ws[i].w = v
			}
		}
	}
	if nl == 0 {
		set("pool", 10)
		set("rpool", 10)
	}
	switch g.prof {
	case "core":
		if r.P(50) {
			set("pool", 1)
			set("rpool", 1)
		}
	case "pools", "extreme":
		set("dep", 18)
		set("wd", 18)
		set("pool", 9)
		set("rpool", 9)
		set("limit", 34)
	case "mm":
		set("mm", 45)
		set("limit", 15)
		set("cancel", 14)
		set("cancelall", 8)
	case "gov":
		set("prop", 10)
		set("vote", 4)
		set("params", 3)
	case "ibc":
		set("limit", 20)
		set("grant", 5)
		set("exec", 6)
		set("revoke", 1)
	case "auth":
		set("grant", 8)
		set("exec", 14)
		set("revoke", 3)
		set("params", 2)
		set("send", 6)
	}
	tot := 0
	for _, w := range ws {
		tot += w.w
	}
	x := r.N(tot)
	k := ""
	for _, w := range ws {
		if x < w.w {
			k = w.k
			break
		}
		x -= w.w
	}
	return g.mk(s, a, k)
}

func (g *Gen) mk(s *Snap, a int, k string) (Msg, bool) {
	r := g.r
	switch k {
	case "pair":
		return g.mPair(s, a), true
	case "limit", "mm", "market":
		return g.mOrder(s, a, k)
	case "cancel":
		return g.mCancel(s, a)
	case "cancelall":
		m := Msg{T: k, S: a}
		ids := s.pairIDs()
		if r.P(60) {
			for _, id := range ids {
				if r.P(60) {
					m.Pairs = append(m.Pairs, id)
				}
			}
			if r.P(5) {
				m.Pairs = append(m.Pairs, uint64(r.N(30)))
			}
		}
		return m, true
	case "pool", "rpool":
		return g.mPool(s, a, k)
	case "dep":
		return g.mDep(s, a)
	case "wd":
		return g.mWd(s, a)
	case "send":
		return g.mSend(s, a)
	case "xfer":
		return g.mXfer(s, a)
	case "params":
		p := g.paramUpdate(r.P(80))
		return Msg{T: "params", S: a, Params: &p}, true
	case "prop":
		if r.P(15) { // the governance account cannot be signed for: rejected
			p := g.paramUpdate(true)
			return Msg{T: "params", S: a, Params: &p}, true
		}
		m := Msg{T: "prop", S: a, Coins: []C{{stake, "1000"}}}
		if r.P(20) {
			m.Opt = 1
			m.Coins[0].A = "2000"
		}
		if r.P(15) {
			m.Coins[0].A = fmt.Sprint(r.Range(1, 2500))
		}
		k := 1
		if r.P(20) {
			k = 2
		}
		for ; k > 0; k-- {
			p := g.paramUpdate(r.P(75))
			auth := -1
			if r.P(5) {
				auth = a
			}
			m.Msgs = append(m.Msgs, Msg{T: "params", S: auth, Params: &p})
		}
		g.props++
		return m, true
	case "vote":
		opt := 1
		if r.P(25) {
			opt = []int{2, 3, 4, 4, 4}[r.N(5)]
		}
		id := uint64(r.Range(1, g.props+1))
		if r.P(70) && g.props > 0 {
			id = uint64(g.props)
		}
		if r.P(30) {
			return Msg{T: "govdep", S: a, Prop: id, Coins: []C{{stake, fmt.Sprint(r.Range(1, 1200))}}}, true
		}
		if r.P(10) {
			return Msg{T: "vote", S: a, Prop: id, Opt: opt}, true
		}
		return Msg{T: "vote", S: 0, Prop: id, Opt: opt}, true
	case "grant":
		to := g.acc()
		if to == a && r.P(90) {
			to = (a + 1) % len(g.w.Accs)
		}
		ks := []string{"limit", "market", "mm", "cancel", "cancelall", "dep", "wd", "pool", "send", "pair"}
		if g.prof == "ibc" && r.P(50) {
			ks = []string{"xfer"}
		}
		return Msg{T: "grant", S: a, To: fmt.Sprint(to), Kind: ks[r.N(len(ks))]}, true
	case "revoke":
		ks := []string{"limit", "market", "mm", "cancel", "cancelall", "dep", "wd", "send"}
		return Msg{T: "revoke", S: a, To: fmt.Sprint(g.acc()), Kind: ks[r.N(len(ks))]}, true
	case "exec":
		m := Msg{T: "exec", S: a}
		for k := r.Range(1, 2); k > 0; k-- {
			owner := g.acc()
			ks := []string{"limit", "market", "mm", "cancel", "cancelall", "dep", "wd", "send"}
			kind := ks[r.N(len(ks))]
			// prefer what was granted
			var gr []string
			for _, x := range sortedStr(s.Grants) {
				gr = append(gr, x)
			}
			if len(gr) > 0 && r.P(75) {
				x := gr[r.N(len(gr))]
				for i, ac := range g.w.Accs {
					if len(x) > len(ac.S) && x[:len(ac.S)] == ac.S {
						owner = i
					}
				}
				for i, ac := range g.w.Accs {
					if len(x) > len(ac.S)*2+1 && x[len(ac.S)+1:2*len(ac.S)+1] == ac.S && r.P(80) {
						m.S = i
					}
				}
				for _, kd := range sortedStr(kindURL) {
					if u := kindURL[kd]; len(x) > len(u) && x[len(x)-len(u):] == u && r.P(90) {
						kind = kd
					}
				}
			}
			if kind == "params" {
				kind = "limit"
			}
			if in, ok := g.mk(s, owner, kind); ok {
				m.Msgs = append(m.Msgs, in)
			}
		}
		return m, len(m.Msgs) > 0
	}
	return Msg{}, false
}

func (g *Gen) paramUpdate(valid bool) PJ {
	r := g.r
	full := randParams(r, g.prof)
	var p PJ
	switch r.N(5) {
	case 4: // back to nothing, field by field
		z := &[]C{}
		if r.P(35) {
			p.WdFee = str("0")
		}
		if r.P(35) {
			p.PairFee = z
		}
		if r.P(35) {
			p.PoolFee = z
		}
		if r.P(35) {
			p.OrderGas = u64(0)
		}
		if r.P(35) {
			p.DepGas = u64(0)
		}
		if r.P(35) {
			p.WdGas = u64(0)
		}
		if r.P(20) {
			p.MaxPools = u32(0)
		}
		if r.P(20) {
			p.Ratio = str("0")
		}
		if r.P(20) {
			p.Lifespan = i64(0)
		}
		if r.P(20) {
			p.SwapFee = str("0")
		}
		if r.P(30) {
			p.Batch = u32(1)
		}
		if r.P(20) {
			p.MMMax = u32(1)
		}
	case 0:
		p = full
	case 1:
		p.Batch, p.Ratio, p.Lifespan = full.Batch, full.Ratio, full.Lifespan
	case 2:
		p.WdFee, p.MMMax, p.MaxPools, p.MinDep = full.WdFee, full.MMMax, full.MaxPools, full.MinDep
	case 3:
		p.OrderGas, p.DepGas, p.WdGas, p.PairFee, p.PoolFee = full.OrderGas, full.DepGas, full.WdGas, full.PairFee, full.PoolFee
		fc, dc := account(g.acc()).S, account(g.acc()).S
		p.FeeCol, p.DustCol = &fc, &dc
	}
	p.Tick = nil
	if r.P(40) {
		p.Tick = u32(uint32(r.Range(2, 5)))
	}
	if r.P(20) {
		p.MinSupply = full.MinSupply
	}
	cur := g.params()
	if p.Ratio != nil && wideRatio(*p.Ratio) && (cur.prec > 3 || p.Tick != nil) {
		p.Ratio = str("0.1")
	}
	if p.Ratio != nil && *p.Ratio == "0.9" && cur.prec > 2 {
		p.Ratio = str("0.4")
	}
	if p.Tick != nil && *p.Tick > 3 && cur.ratio.Cmp(quo(e18, bn(4))) > 0 {
		p.Tick = u32(3)
	}
	if !valid {
		switch r.N(12) {
		case 9: // more than everything
			p.Ratio = str([]string{"1", "1.5", "20"}[r.N(3)])
		case 10, 11:
			p.WdFee = str([]string{"1.000000000000000001", "1.5", "7"}[r.N(3)])
		case 0:
			p.Batch = u32(0)
		case 1:
			p.FeeCol = str("nonsense")
		case 2:
			p.DustCol = str("")
		case 3:
			p.MinSupply = str("0")
		case 4:
			p.Ratio = str("-0.1")
		case 5:
			p.MMMax = u32(0)
		case 6:
			p.Lifespan = i64(-1)
		case 7:
			p.WdFee = str("-0.000000000000000001")
		case 8:
			p.MinDep = str("-1")
		}
	}
	return p
}

func (g *Gen) mPair(s *Snap, a int) Msg {
	r := g.r
	ds := g.w.Cfg.Denoms
	if len(g.plans) > 0 {
		p := g.plans[0]
		if r.P(90) {
			g.plans = g.plans[1:]
		}
		if s == nil || len(s.Pairs) == 0 || r.P(70) {
			a = 0
		}
		return Msg{T: "pair", S: a, Base: p[0], Quote: p[1]}
	}
	return Msg{T: "pair", S: a, Base: ds[r.N(len(ds))], Quote: ds[r.N(len(ds))]}
}

func (g *Gen) pair(s *Snap) *Pair {
	ids := s.pairIDs()
	if g.hotPair != 0 && g.r.P(80) {
		if p := s.Pairs[g.hotPair]; p != nil {
			return p
		}
	}
	p := s.Pairs[ids[g.r.N(len(ids))]]
	if g.r.P(60) {
		g.hotPair = p.ID
		g.hotPx = nil
	}
	return p
}

// price picks a price for an order in a market.
func (g *Gen) price(s *Snap, p *Pair, dir int) *big.Int {
	r := g.r
	pv := g.params()
	prec := pv.prec
	step := func(x *big.Int, n int) *big.Int {
		for ; n > 0; n-- {
			x = nextTick(x, prec)
		}
		for ; n < 0; n++ {
			if y := prevTick(x, prec); y.Sign() > 0 {
				x = y
			}
		}
		return x
	}
	c := p.Last
	var lo, hi *big.Int
	sane := true
	if c == nil {
		c = g.center[p.ID]
		if c == nil {
			c = downTick(g.centers, prec)
			g.center[p.ID] = c
		}
		lo, hi = downTick(floorQ(mul(c, bigI(8)), bigI(10)), prec), upTick(floorQ(mul(c, bigI(12)), bigI(10)), prec)
	} else {
		lo, hi, sane = band(c, pv.ratio, prec)
		if !sane {
			return c
		}
	}
	// levels of the hot market are reused so that orders meet
	if len(g.hotPx) > 0 && r.P(45) {
		return g.hotPx[r.N(len(g.hotPx))]
	}
	var x *big.Int
	switch r.N(14) {
	case 0:
		x = lo
	case 1:
		x = hi
	case 2:
		x = step(lo, r.Range(-1, 1))
	case 3:
		x = step(hi, r.Range(-1, 1))
	case 4:
		x = c
	case 5, 6:
		x = step(c, r.Range(-3, 3))
	case 7: // not on a tick
		x = add(step(c, r.Range(-3, 3)), bigI(int64(r.Range(-1, 1))))
	case 8: // somewhere in the band
		d := sub(hi, lo)
		x = add(lo, floorQ(mul(d, bigI(int64(r.N(1001)))), bigI(1000)))
	case 9, 10: // the price of a live order
		var ps []*big.Int
		for _, k := range s.orderKeys() {
			if o := s.Orders[k]; k.A == p.ID && o.live() {
				ps = append(ps, o.Price)
			}
		}
		if len(ps) > 0 {
			x = ps[r.N(len(ps))]
		} else {
			x = c
		}
	case 11: // near a pool's price
		x = c
		var ps []*Pool
		for _, q := range s.poolsOf(p.ID) {
			if !q.Disabled {
				ps = append(ps, q)
			}
		}
		if len(ps) > 0 {
			q := ps[r.N(len(ps))]
			rx, ry := s.bal(q.Reserve, p.Quote), s.bal(q.Reserve, p.Base)
			if rx.Sign() > 0 && ry.Sign() > 0 {
				f := fquo(fl(rx), fl(ry))
				if q.Type == poolRanged {
					f = rangedPrice(rx, ry, q.Min, q.Max)
				}
				i, _ := fmulF(f, fl(e18)).Int(nil)
				if i.Sign() > 0 {
					x = step(downTick(i, prec), r.Range(-2, 2))
				}
			}
		}
	default: // crossing side of the band
		k := r.Range(1, 40)
		if dir == buy {
			x = step(c, r.Range(0, k))
		} else {
			x = step(c, -r.Range(0, k))
		}
	}
	if x == nil || x.Sign() <= 0 {
		x = c
	}
	if len(g.hotPx) < 4 {
		g.hotPx = append(g.hotPx, x)
	}
	return x
}

func (g *Gen) amount(s *Snap, p *Pair, price *big.Int, max *big.Int) *big.Int {
	r := g.r
	// the smallest tradable amount at this price
	min := bigI(100)
	if price != nil && price.Sign() > 0 {
		min = maxB(min, ceilQ(mul(bigI(100), e18), price))
	}
	var x *big.Int
	switch r.N(10) {
	case 0:
		x = min
	case 1:
		x = add(min, bigI(int64(r.Range(-1, 1))))
	case 2:
		x = mul(min, bigI(int64(r.Range(1, 20))))
	case 3:
		x = add(min, bigI(int64(r.N(50))))
	case 4, 5:
		x = add(mul(min, bigI(int64(r.Range(1, 3000)))), bigI(int64(r.N(7))))
	case 6, 7: // the size of an order on the book
		x = mul(min, bigI(10))
		var ps []*big.Int
		for _, k := range s.orderKeys() {
			if o := s.Orders[k]; k.A == p.ID && o.live() {
				ps = append(ps, o.Open)
			}
		}
		if len(ps) > 0 {
			x = add(ps[r.N(len(ps))], bigI(int64(r.Range(-1, 1))))
		}
	case 8:
		x = bigI(int64(r.Range(100, 2000000)))
	case 9:
		x = floorQ(mul(max, bigI(int64(r.Range(1, 60)))), bigI(100))
	}
	if x.Cmp(max) > 0 && r.P(95) {
		x = max
	}
	if t := pow10(75); x.Cmp(t) > 0 {
		x = t
	}
	if x.Sign() <= 0 {
		x = bigI(100)
	}
	return x
}

func (g *Gen) life() int64 {
	r := g.r
	m := g.params().life
	switch r.N(10) {
	case 0:
		return 0
	case 1:
		return m
	case 2:
		if r.P(30) {
			return m + 1
		}
		return m
	case 3, 4:
		return minI(m, g.dt*int64(r.Range(1, 6)))
	case 5:
		return minI(m, g.dt*int64(r.Range(1, 6))+1)
	case 6:
		return minI(m, 1)
	}
	return int64(r.U64()>>1) % (m + 1)
}

func minI(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func (g *Gen) mOrder(s *Snap, a int, k string) (Msg, bool) {
	r := g.r
	p := g.pair(s)
	pv := g.params()
	dir := r.Range(1, 2)
	m := Msg{T: k, S: a, Pair: p.ID, Dir: dir}
	price := g.price(s, p, dir)
	var sweep *big.Int
	if sw := 4; k == "limit" && (r.P(sw) || g.prof == "extreme" && r.P(25)) { // buy a pool out
		price, sweep = g.sweep(s, p, dir, price)
	}
	eff := price
	if k == "market" {
		if p.Last == nil {
			if !r.P(10) {
				return Msg{}, false
			}
		} else if lo, hi, ok := band(p.Last, pv.ratio, pv.prec); ok {
			eff = lo
			if dir == buy {
				eff = hi
			}
		}
	} else {
		m.Price = decS(price)
		if dir == buy {
			eff = downTick(price, pv.prec)
		} else {
			eff = upTick(price, pv.prec)
		}
	}
	if eff.Sign() <= 0 {
		return Msg{}, false
	}
	var fr *big.Int
	if dir == buy {
		fr = g.free(s, a, p.Quote)
		max := floorQ(mul(fr, e18), eff)
		amt := g.amount(s, p, eff, max)
		if sweep != nil && r.P(90) {
			amt = maxB(minB(sweep, max), bigI(1))
		}
		need := quoteCeil(eff, amt)
		if k != "market" {
			// stateless validation wants the offer to cover the given price
			need = maxB(need, quoteCeil(price, amt))
			if r.P(15) {
				need = quoteCeil(eff, amt)
			}
		}
		switch r.N(20) {
		case 0:
			need = sub(need, bigI(1))
		case 1:
			need = add(need, bigI(1))
		case 2:
			need = add(need, bigI(int64(r.N(100000))))
		}
		if need.Cmp(pow10(76)) > 0 {
			return Msg{}, false
		}
		m.Coins, m.Demand, m.Amt = []C{{p.Quote, maxB(need, bigI(1)).String()}}, p.Base, amt.String()
		g.use(a, p.Quote, quoteCeil(eff, amt))
	} else {
		fr = g.free(s, a, p.Base)
		amt := g.amount(s, p, eff, fr)
		if sweep != nil && r.P(90) {
			amt = maxB(minB(sweep, fr), bigI(1))
		}
		need := amt
		switch r.N(25) {
		case 0:
			need = sub(need, bigI(1))
		case 1:
			need = add(need, bigI(1))
		case 2:
			need = add(need, bigI(int64(r.N(100000))))
		}
		m.Coins, m.Demand, m.Amt = []C{{p.Base, maxB(need, bigI(1)).String()}}, p.Quote, amt.String()
		g.use(a, p.Base, amt)
	}
	m.Life = g.life()
	if r.P(2) {
		ds := g.w.Cfg.Denoms
		switch r.N(4) {
		case 0:
			m.Demand = ds[r.N(len(ds))]
		case 1:
			m.Coins[0].D = ds[r.N(len(ds))]
		case 2:
			m.Pair = uint64(r.N(12))
		case 3:
			m.Dir = 3 - m.Dir
		}
	}
	return m, true
}

// sweep is an order that takes everything, or nearly, a pool has on one side.
func (g *Gen) sweep(s *Snap, p *Pair, dir int, price *big.Int) (*big.Int, *big.Int) {
	r := g.r
	pv := g.params()
	var qs []*Pool
	for _, id := range s.poolIDs() {
		if q := s.Pools[id]; q.Pair == p.ID && !q.Disabled {
			qs = append(qs, q)
		}
	}
	if len(qs) == 0 {
		return price, nil
	}
	q := qs[r.N(len(qs))]
	rx, ry := s.bal(q.Reserve, p.Quote), s.bal(q.Reserve, p.Base)
	x := price
	if q.Type == poolRanged {
		if x = q.Max; dir == sell {
			x = q.Min
		}
	} else if ry.Sign() > 0 && rx.Sign() > 0 {
		x = floorQ(mul(rx, e18), ry)
		if n := bigI(int64(r.Range(1, 1000))); dir == buy {
			x = mul(x, n)
		} else {
			x = floorQ(x, n)
		}
	}
	if p.Last != nil {
		if lo, hi, ok := band(p.Last, pv.ratio, pv.prec); ok {
			x = maxB(lo, minB(hi, x))
		}
	}
	if x.Sign() <= 0 {
		return price, nil
	}
	amt := ry
	if dir == sell {
		amt = floorQ(mul(rx, e18), x)
	}
	switch r.N(4) {
	case 0:
		amt = add(amt, bigI(int64(r.Range(0, 300))))
	case 1:
		amt = mul(amt, bigI(2))
	case 2:
		amt = sub(amt, bigI(int64(r.Range(0, 300))))
	}
	return x, amt
}

func (g *Gen) mCancel(s *Snap, a int) (Msg, bool) {
	r := g.r
	ks := s.orderKeys()
	if len(ks) == 0 {
		return Msg{}, false
	}
	k := ks[r.N(len(ks))]
	own := 80
	if g.aimDT > 0 && s.Orders[g.aim] != nil && r.P(70) {
		k, own = g.aim, 40
	}
	m := Msg{T: "cancel", S: a, Pair: k.A, Order: k.B}
	if r.P(own) {
		for i, ac := range g.w.Accs {
			if ac.S == s.Orders[k].Owner {
				m.S = i
			}
		}
	}
	if r.P(4) {
		m.Order = uint64(r.Range(1, 60))
	}
	if r.P(10) { // an order placed in this very batch
		if p := s.Pairs[k.A]; p != nil {
			m.Order = p.LastOrder + 1
		}
	}
	return m, true
}

func (g *Gen) mPool(s *Snap, a int, k string) (Msg, bool) {
	r := g.r
	p := g.pair(s)
	pv := g.params()
	c := p.Last
	if c == nil {
		c = g.center[p.ID]
		if c == nil {
			c = downTick(g.centers, pv.prec)
			g.center[p.ID] = c
		}
	}
	// move off the market price sometimes
	px := c
	if r.P(50) {
		px = floorQ(mul(c, bigI(int64(r.Range(85, 115)))), bigI(100))
		if px.Sign() <= 0 {
			px = c
		}
	}
	fb, fq := g.free(s, a, p.Base), g.free(s, a, p.Quote)
	y := maxB(pv.minDep, bigI(int64(r.Range(1, 5))))
	switch r.N(4) {
	case 0:
		y = add(y, bigI(int64(r.N(3000))))
	case 1:
		y = mul(y, bigI(int64(r.Range(1, 50))))
	default:
		y = maxB(y, floorQ(mul(fb, bigI(int64(r.Range(1, 30)))), bigI(100)))
	}
	x := quoteCeil(px, y)
	if x.Cmp(fq) > 0 && fq.Sign() > 0 {
		x = floorQ(mul(fq, bigI(int64(r.Range(1, 40)))), bigI(100))
		y = floorQ(mul(x, e18), px)
	}
	if x.Cmp(pv.minDep) < 0 && r.P(80) {
		x = pv.minDep
		y = maxB(pv.minDep, floorQ(mul(x, e18), px))
	}
	if x.Sign() <= 0 || y.Sign() <= 0 {
		return Msg{}, false
	}
	m := Msg{T: k, S: a, Pair: p.ID}
	if k == "rpool" {
		lo := floorQ(mul(px, bigI(int64(r.Range(300, 999)))), bigI(1000))
		hi := ceilQ(mul(px, bigI(int64(r.Range(1001, 3000)))), bigI(1000))
		switch r.N(8) {
		case 0:
			lo = prevTick(downTick(px, pv.prec), pv.prec)
		case 1:
			hi = nextTick(upTick(px, pv.prec), pv.prec)
		case 2:
			lo = px
		case 3:
			hi = px
		}
		if wide := 4; r.P(wide) || g.prof == "extreme" && r.P(40) { // as far as allowed
			mn, mx := pow10(3), pow10(38)
			switch r.N(4) {
			case 0:
				lo = mn
			case 1:
				hi = mx
			case 2:
				lo, hi = mn, mx
			case 3:
				lo, hi = maxB(mn, floorQ(lo, pow10(r.Range(1, 12)))), minB(mx, mul(hi, pow10(r.Range(1, 12))))
			}
			if r.P(40) {
				px = []*big.Int{lo, hi}[r.N(2)]
			}
			if r.P(30) { // a narrow one near a bound
				lo = px
				hi = add(add(lo, ceilQ(lo, bigI(1000))), bigI(int64(r.N(3))))
			}
		}
		tk := func(x *big.Int) *big.Int {
			if r.P(95) {
				return downTick(x, pv.prec)
			}
			return x
		}
		if lo.Sign() <= 0 {
			lo = lowestTick(pv.prec)
		}
		lo, hi = tk(lo), tk(hi)
		m.Min, m.Max, m.Price = decS(lo), decS(hi), decS(tk(maxB(lo, minB(hi, px))))
		if r.P(5) {
			m.Price = decS(add(hi, bigI(1)))
		}
		if r.P(15) {
			m.Price = []string{m.Min, m.Max}[r.N(2)]
		}
		switch r.N(12) {
		case 0:
			x = zero
		case 1:
			y = zero
		}
	}
	var cs []Coin
	if x.Sign() > 0 {
		cs = append(cs, Coin{p.Quote, x})
	}
	if y.Sign() > 0 {
		cs = append(cs, Coin{p.Base, y})
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].D < cs[j].D })
	for _, c := range cs {
		m.Coins = append(m.Coins, C{c.D, c.A.String()})
		g.use(a, c.D, c.A)
	}
	return m, true
}

func (g *Gen) pool(s *Snap) *Pool {
	ids := s.poolIDs()
	if len(ids) == 0 {
		return nil
	}
	var open []uint64
	for _, id := range ids {
		if !s.Pools[id].Disabled {
			open = append(open, id)
		}
	}
	if len(open) > 0 && g.r.P(90) {
		ids = open
	}
	return s.Pools[ids[g.r.N(len(ids))]]
}

func (g *Gen) mDep(s *Snap, a int) (Msg, bool) {
	r := g.r
	q := g.pool(s)
	if q == nil {
		return Msg{}, false
	}
	p := s.Pairs[q.Pair]
	rx, ry := s.bal(q.Reserve, p.Quote), s.bal(q.Reserve, p.Base)
	fb, fq := g.free(s, a, p.Base), g.free(s, a, p.Quote)
	var x, y *big.Int
	switch r.N(6) {
	case 0:
		x, y = bigI(int64(r.Range(1, 20))), bigI(int64(r.Range(1, 20)))
	case 1:
		pct := bigI(int64(r.Range(1, 300)))
		x, y = floorQ(mul(rx, pct), bigI(100)), floorQ(mul(ry, pct), bigI(100))
	case 2:
		n := bigI(int64(r.Range(1, 100000)))
		x, y = floorQ(rx, n), floorQ(ry, n)
	default:
		x = floorQ(mul(fq, bigI(int64(r.Range(1, 50)))), bigI(100))
		y = floorQ(mul(fb, bigI(int64(r.Range(1, 50)))), bigI(100))
	}
	if r.P(95) {
		x, y = minB(x, fq), minB(y, fb)
	}
	if q.Type == poolRanged {
		if rx.Sign() == 0 && r.P(90) || r.P(5) {
			x = zero
		}
		if ry.Sign() == 0 && r.P(90) || r.P(5) {
			y = zero
		}
	}
	var cs []Coin
	if x.Sign() > 0 {
		cs = append(cs, Coin{p.Quote, x})
	}
	if y.Sign() > 0 {
		cs = append(cs, Coin{p.Base, y})
	}
	if len(cs) == 0 {
		return Msg{}, false
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].D < cs[j].D })
	m := Msg{T: "dep", S: a, Pool: q.ID}
	for _, c := range cs {
		m.Coins = append(m.Coins, C{c.D, c.A.String()})
		g.use(a, c.D, c.A)
	}
	if r.P(2) {
		m.Pool = uint64(r.N(12))
	}
	return m, true
}

func (g *Gen) mWd(s *Snap, a int) (Msg, bool) {
	r := g.r
	q := g.pool(s)
	if q == nil {
		return Msg{}, false
	}
	// prefer a holder
	var hs []int
	for i, ac := range g.w.Accs {
		if s.bal(ac.S, q.Denom).Sign() > 0 {
			hs = append(hs, i)
		}
	}
	if len(hs) > 0 && r.P(95) {
		a = hs[r.N(len(hs))]
	}
	have := g.free(s, a, q.Denom)
	var x *big.Int
	switch r.N(8) {
	case 0:
		x = have
	case 1:
		x = bigI(int64(r.Range(1, 50)))
	case 2:
		x = floorQ(have, bigI(2))
	case 3: // leave next to nothing in the pool
		if p := s.Pairs[q.Pair]; p != nil {
			big := maxB(s.bal(q.Reserve, p.Quote), s.bal(q.Reserve, p.Base))
			if r.P(50) {
				big = maxB(bigI(1), minB(s.bal(q.Reserve, p.Quote), s.bal(q.Reserve, p.Base)))
			}
			if big.Sign() > 0 {
				left := ceilQ(mul(s.sup(q.Denom), bigI(int64(r.Range(1, 60)))), big)
				x = sub(have, left)
			}
		}
	case 4:
		x = sub(have, bigI(int64(r.Range(1, 3))))
	default:
		x = floorQ(mul(have, bigI(int64(r.Range(1, 40)))), bigI(100))
	}
	if x == nil || x.Sign() <= 0 {
		x = bigI(1)
	}
	g.use(a, q.Denom, x)
	return Msg{T: "wd", S: a, Pool: q.ID, Coins: []C{{q.Denom, x.String()}}}, true
}

func (g *Gen) mSend(s *Snap, a int) (Msg, bool) {
	r := g.r
	m := Msg{T: "send", S: a, To: fmt.Sprint(g.acc())}
	d := g.w.Cfg.Denoms[r.N(len(g.w.Cfg.Denoms))]
	if r.P(30) {
		if q := g.pool(s); q != nil && s.bal(g.w.Accs[a].S, q.Denom).Sign() > 0 {
			d = q.Denom
		}
	}
	amt := floorQ(mul(g.free(s, a, d), bigI(int64(r.Range(1, 30)))), bigI(100))
	huge := false
	if r.P(35) { // a gift to a market account
		amt = bigI(int64(r.Range(1, 100000)))
		huge = g.prof == "extreme" && r.P(40)
		switch r.N(4) {
		case 0:
			m.To = "addr:" + globalEscrow
		case 1:
			p := g.pair(s)
			m.To = "addr:" + p.Escrow
			d = []string{p.Base, p.Quote}[r.N(2)]
		default:
			if q := g.pool(s); q != nil {
				p := s.Pairs[q.Pair]
				m.To = "addr:" + q.Reserve
				d = []string{p.Base, p.Quote}[r.N(2)]
			}
		}
	}
	if huge {
		amt = floorQ(mul(g.free(s, a, d), amt), bigI(100000))
	}
	if amt.Sign() <= 0 {
		amt = bigI(1)
	}
	g.use(a, d, amt)
	m.Coins = []C{{d, amt.String()}}
	return m, true
}
