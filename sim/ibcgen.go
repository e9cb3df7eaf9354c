package main

import (
	"encoding/hex"
	"fmt"
	"sort"
	"strings"

	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	channeltypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"
	host "github.com/cosmos/ibc-go/v8/modules/core/24-host"
)

// ---- generation of interchain traffic ----

type chEnd struct {
	id string
	c  channeltypes.Channel
}

func (s *Snap) channels() []chEnd {
	var x []chEnd
	for k := range s.IBC {
		if strings.HasPrefix(k, "ibc/channelEnds/ports/"+tport+"/channels/") {
			id := k[strings.LastIndex(k, "/")+1:]
			c, _ := s.ch(id)
			x = append(x, chEnd{id, c})
		}
	}
	sort.Slice(x, func(i, j int) bool {
		if len(x[i].id) != len(x[j].id) {
			return len(x[i].id) < len(x[j].id)
		}
		return x[i].id < x[j].id
	})
	return x
}

func (g *Gen) ibcRound() {
	r, s := g.r, g.snap()
	if s == nil || s.IBC == nil {
		return
	}
	if g.wantCh == 0 {
		g.wantCh = r.Range(1, 3)
		g.relay = []int{25, 50, 50, 80}[r.N(4)]
	}
	quiet := g.done > g.blocks-4
	chs := s.channels()
	g.handshakes(s, chs, quiet)
	var open []chEnd
	for _, c := range chs {
		if c.c.State == channeltypes.OPEN {
			open = append(open, c)
		}
	}
	if !quiet {
		n := r.N(4)
		if len(open) == 0 {
			n = r.N(10) / 9
		}
		for ; n > 0; n-- {
			g.transferTx(s)
		}
		if len(open) > 0 && r.P(12) {
			c := open[r.N(len(open))]
			m := Msg{T: "payee", S: g.acc(), Chan: c.id, To: fmt.Sprint(g.acc())}
			if r.P(5) {
				m.To = "addr:" + []string{feeColl, distrAcc}[r.N(2)]
			}
			if r.P(60) {
				m.T = "cpayee"
				if r.P(15) {
					m.To = "raw:" + []string{"somebody", feeColl, "   "}[r.N(3)]
				}
			}
			g.wrap([]Msg{m})
		}
		if len(chs) > 0 && r.P(2) {
			g.wrap([]Msg{{T: "chclose", S: g.acc(), Chan: chs[r.N(len(chs))].id}})
		}
	}
	g.relayers(s, chs, quiet)
	// vouchers get markets, too
	if len(g.plans) == 0 && r.P(15) {
		if v := g.voucher(s, -1); v != "" {
			q := g.w.Cfg.Denoms[r.N(len(g.w.Cfg.Denoms)-1)]
			if r.P(50) {
				g.plans = append(g.plans, [2]string{v, q})
			} else {
				g.plans = append(g.plans, [2]string{q, v})
			}
		}
	}
}

func modA(n string) string { return authtypes.NewModuleAddress(n).String() }

var (
	feeColl  = modA("fee_collector")
	distrAcc = modA("distribution")
)

func (g *Gen) handshakes(s *Snap, chs []chEnd, quiet bool) {
	r := g.r
	ends := map[string]channeltypes.Channel{}
	tried := map[string]bool{}
	pairs := 0
	for _, c := range chs {
		ends[c.id] = c.c
		if c.c.State == channeltypes.TRYOPEN {
			tried[c.c.Counterparty.ChannelId] = true
		}
		if c.c.State == channeltypes.INIT || c.c.State == channeltypes.OPEN {
			pairs++
		}
	}
	// the INIT end becomes OPEN and its other end is OPEN, too: two ends for one pair
	if !quiet && (len(chs) == 0 && r.P(90) || pairs < 2*g.wantCh-1 && r.P(20)) {
		m := Msg{T: "chinit", S: g.acc()}
		switch r.N(10) {
		case 0, 1, 2, 3:
			m.Base = ics20
		case 4:
			m.Base = feeVersion(ics20)
		case 5:
			m.Base = []string{"ics20-2", feeVersion("ics20-2"), feeVersion(""), `{"fee_version":"ics29-2","app_version":"ics20-1"}`, " ", "{}"}[r.N(6)]
		}
		if r.P(4) {
			m.Opt = 1
		}
		g.wrap([]Msg{m})
	}
	for _, c := range chs {
		var m Msg
		switch c.c.State {
		case channeltypes.INIT:
			if tried[c.id] && r.P(97) {
				continue
			}
			m = Msg{T: "chtry", S: g.acc(), Chan: c.id, Base: c.c.Version}
		case channeltypes.TRYOPEN:
			o := c.c.Counterparty.ChannelId
			switch x := ends[o]; {
			case x.State == channeltypes.INIT:
				m = Msg{T: "chack", S: g.acc(), Chan: o, Quote: c.id, Base: c.c.Version}
			case x.State == channeltypes.OPEN && x.Counterparty.ChannelId == c.id || r.P(4):
				m = Msg{T: "chconf", S: g.acc(), Chan: c.id}
			default:
				continue
			}
		default:
			if !r.P(1) {
				continue
			}
			m = Msg{T: []string{"chtry", "chack", "chconf"}[r.N(3)], S: g.acc(), Chan: c.id, Quote: c.c.Counterparty.ChannelId, Base: c.c.Version}
		}
		if r.P(15) {
			continue // the relayer sleeps
		}
		if r.P(6) {
			switch r.N(4) {
			case 0:
				m.Base = []string{ics20, feeVersion(ics20), "", "ics20-2"}[r.N(4)]
			case 1:
				m.Forge = "proof"
			case 2:
				m.Chan = fmt.Sprintf("channel-%d", r.N(len(chs)+2))
			case 3:
				m.Quote = fmt.Sprintf("channel-%d", r.N(len(chs)+2))
			}
		}
		g.wrap([]Msg{m})
		if r.P(6) { // two relayers at once
			m.S = g.acc()
			g.wrap([]Msg{m})
		}
	}
}

// voucher picks a voucher an account (or anyone, -1) holds.
func (g *Gen) voucher(s *Snap, a int) string {
	set := map[string]bool{}
	for i, ac := range g.w.Accs {
		if a >= 0 && i != a {
			continue
		}
		for d := range s.Bal[ac.S] {
			if g.w.traced[d] {
				set[d] = true
			}
		}
	}
	x := sortedStr(set)
	if len(x) == 0 {
		return ""
	}
	return x[g.r.N(len(x))]
}

func (g *Gen) transferTx(s *Snap) {
	r := g.r
	a := g.acc()
	m, ok := g.mXfer(s, a)
	if !ok {
		return
	}
	ms := []Msg{m}
	if s.feeEnabled(m.Chan) && r.P(45) || r.P(3) {
		f := g.mFee(s, a, m.Chan)
		if r.P(93) {
			ms = []Msg{f, m}
		} else {
			ms = []Msg{m, f} // pays for the packet after this one
		}
		if r.P(8) {
			ms = append([]Msg{g.mFee(s, a, m.Chan)}, ms...)
		}
	}
	if r.P(8) {
		if x, ok := g.mXfer(s, a); ok {
			ms = append(ms, x)
		}
	}
	g.wrap(ms)
}

func (g *Gen) mFee(s *Snap, a int, ch string) Msg {
	r := g.r
	f := Msg{T: "fee", S: a, Chan: ch}
	ds := append([]string{}, g.w.Cfg.Denoms...)
	if v := g.voucher(s, a); v != "" {
		ds = append(ds, v)
	}
	d := ds[r.N(len(ds))]
	for i := 0; i < 3; i++ {
		if r.P(20) {
			d = ds[r.N(len(ds))]
		}
		x := r.Range(1, 5000)
		if r.P(15) {
			x = 0
		}
		if r.P(3) {
			f.Coins = append(f.Coins, C{d, g.free(s, a, d).String()})
			continue
		}
		f.Coins = append(f.Coins, C{d, fmt.Sprint(x)})
		g.use(a, d, bigI(int64(x)))
	}
	return f
}

func (g *Gen) mXfer(s *Snap, a int) (Msg, bool) {
	r := g.r
	if s == nil || s.IBC == nil {
		return Msg{}, false
	}
	chs := s.channels()
	m := Msg{T: "xfer", S: a, Chan: "channel-0"}
	var open []string
	for _, c := range chs {
		if c.c.State == channeltypes.OPEN {
			open = append(open, c.id)
		}
	}
	switch {
	case len(open) > 0 && r.P(96):
		m.Chan = open[r.N(len(open))]
	case len(chs) > 0 && r.P(80):
		m.Chan = chs[r.N(len(chs))].id
	case r.P(30):
		m.Chan = "channel-77"
	}
	ds := g.w.Cfg.Denoms
	d := ds[r.N(len(ds))]
	if v := g.voucher(s, a); v != "" && r.P(55) {
		d = v
		if r.P(50) { // send it home
			for k, t := range s.IBC {
				if strings.HasPrefix(k, "transfer/\x02") && "ibc/"+strings.ToUpper(hex.EncodeToString([]byte(k[len("transfer/\x02"):]))) == v {
					var tr transfertypes.DenomTrace
					must(tr.Unmarshal([]byte(t)))
					p := strings.Split(tr.Path, "/")
					if len(p) > 1 && (len(open) == 0 || r.P(97)) {
						m.Chan = p[1]
					}
				}
			}
		}
	} else if r.P(12) {
		if q := g.pool(s); q != nil && s.bal(g.w.Accs[a].S, q.Denom).Sign() > 0 {
			d = q.Denom
		}
	} else if r.P(2) {
		d = "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2"
	}
	fr := g.free(s, a, d)
	amt := floorQ(mul(fr, bigI(int64(r.Range(1, 40)))), bigI(100))
	switch r.N(12) {
	case 0:
		amt = fr
	case 1:
		amt = bigI(int64(r.Range(1, 50)))
	case 2:
		if r.P(20) {
			amt = add(fr, bigI(int64(r.Range(1, 1000))))
		}
	}
	if amt.Sign() <= 0 {
		amt = bigI(1)
	}
	g.use(a, d, amt)
	m.Coins = []C{{d, amt.String()}}
	m.Rcv = fmt.Sprint(g.acc())
	switch x := r.N(100); {
	case x < 6:
		m.Rcv = "raw:" + []string{feeColl, distrAcc, modA("mint"), modA("bonded_tokens_pool"), modA("not_bonded_tokens_pool")}[r.N(5)]
	case x < 9:
		m.Rcv = "raw:" + []string{"nobody", "cosmos1abc", "0x12", strings.Repeat("x", 2049), " "}[r.N(5)]
	}
	now, h := uint64(g.w.Time.UnixNano()), uint64(s.Height)
	short := func() {
		if r.P(50) {
			m.TH = h + uint64(r.Range(2, 6))
		} else {
			m.TT = now + uint64(g.dt)*uint64(r.Range(2, 6))
		}
	}
	switch x := r.N(100); {
	case x < 45:
		m.TH = h + 1000
	case x < 60:
		m.TT = now + 1000*3600*1e9
	case x < 90:
		short()
		if r.P(30) && m.TT == 0 {
			m.TT = now + uint64(g.dt)*uint64(r.Range(1, 8))
		}
	case x < 93: // without end
	case x < 97:
		m.TH = h + uint64(r.N(2))
	default:
		m.TT = now - uint64(r.N(2))
	}
	if r.P(20) {
		m.Kind = []string{"a memo", `{"wasm":{}}`, "\u2028", strings.Repeat("m", 300)}[r.N(4)]
	}
	return m, true
}

var forges = []string{"amt", "rcv", "denom", "snd", "proof", "dst", "src", "tmo", "seq"}

// relayers carry packets, acknowledgements and timeouts.
func (g *Gen) relayers(s *Snap, chs []chEnd, quiet bool) {
	r := g.r
	rate := g.relay
	if quiet {
		rate = 92
	}
	var txs [][]Msg
	put := func(m Msg) {
		if len(txs) > 0 && r.P(30) && len(txs[len(txs)-1]) < 6 {
			l := len(txs) - 1
			if r.P(80) {
				m.S = txs[l][0].S
			}
			txs[l] = append(txs[l], m)
		} else {
			txs = append(txs, []Msg{m})
		}
	}
	budget := 24
	for _, p := range g.w.pktList() {
		if budget <= 0 {
			break
		}
		m := Msg{T: "recv", S: g.acc(), Chan: p.Src, Seq: p.Seq}
		_, sent := s.IBC[ibcK(host.PacketCommitmentKey(tport, p.Src, p.Seq))]
		_, got := s.IBC[ibcK(host.PacketReceiptKey(tport, p.P.DestinationChannel, p.Seq))]
		over := elapsed(uint64(s.Height)+1, uint64(g.w.Time.UnixNano()), p.P.TimeoutHeight, p.P.TimeoutTimestamp)
		pr := rate
		switch {
		case sent && got:
			m.T = "ack"
		case sent && over:
			m.T, m.PH = "tmo", uint64(s.Height)
		case sent && r.P(5) && !quiet: // a timeout too early, or claiming a height that is not there yet
			m.T, m.PH = "tmo", uint64(s.Height)
			if r.P(40) {
				m.PH += uint64(r.Range(1, 2000))
			}
		case sent:
		default:
			pr = 3
			m.T = []string{"recv", "ack", "tmo"}[r.N(3)]
			m.PH = uint64(s.Height)
			if quiet {
				pr = 1
			}
		}
		if !r.P(pr) {
			continue
		}
		budget--
		if !quiet && r.P(9) {
			m.Forge = forges[r.N(len(forges))]
			if r.P(25) {
				m.T = []string{"recv", "ack", "tmo"}[r.N(3)]
			}
			if m.T == "ack" && r.P(60) {
				m.Forge = []string{"ok", "err", "okfee", "payee"}[r.N(4)]
			}
			if len(chs) > 0 {
				m.Quote = chs[r.N(len(chs))].id
			}
		}
		put(m)
		if r.P(7) { // another relayer does the same, or the opposite
			m.S = g.acc()
			if r.P(30) {
				m.T = []string{"recv", "ack", "tmo"}[r.N(3)]
				m.PH = uint64(s.Height) + uint64(r.N(3))
			}
			put(m)
		}
		if m.T == "recv" && m.Forge == "" && r.P(8) && !s.feeEnabled(p.P.DestinationChannel) { // the answer is known beforehand
			put(Msg{T: "ack", S: g.acc(), Chan: p.Src, Seq: p.Seq})
		}
		if s.feeEnabled(p.Src) && r.P(8) && !quiet {
			f := g.mFee(s, g.acc(), p.Src)
			f.T, f.Seq = "feea", p.Seq
			if r.P(8) {
				f.Seq += uint64(r.Range(1, 3))
			}
			put(f)
		}
	}
	// relayers without an order of their own
	for i := len(txs) - 1; i > 0; i-- {
		if r.P(30) {
			j := r.N(i + 1)
			txs[i], txs[j] = txs[j], txs[i]
		}
	}
	for _, t := range txs {
		g.wrap(t)
	}
}
