package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"cosmossdk.io/log"
	pruningtypes "cosmossdk.io/store/pruning/types"
	abci "github.com/cometbft/cometbft/abci/types"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	cmttypes "github.com/cometbft/cometbft/types"
	"github.com/cosmos/cosmos-sdk/baseapp"

	"defund/app"
	dextypes "defund/x/dex/types"
)

// Fork is a chain restarted from an export; it executes the same later blocks.
type Fork struct {
	n    *Node
	from int64
	dead bool
	runs int64
	oog  bool
}

func (w *World) execExport(st Step) {
	n := w.node(st.N)
	if n == nil || !n.up || n.dead || n.diverged {
		return
	}
	h := n.height - st.H
	if st.H > 0 && n.cfg.Pruning != "" && n.cfg.Pruning != "nothing" {
		h = n.height
	}
	if h < w.initH() {
		return
	}
	w.Stats.Inc("exports", 1)
	s := w.block(h).Snap
	var state []byte
	var cp cmtproto.ConsensusParams
	var height int64
	var part []byte
	var evals []cmttypes.GenesisValidator
	export := func(zero bool, allowed, mods []string) (err error) {
		_, pan := n.call(func() {
			a := app.New(log.NewNopLogger(), n.db.Fork(), nil, false, appOpts{"home": "/nonexistent/defund-sim"},
				baseapp.SetPruning(pruningtypes.NewPruningOptions(pruningtypes.PruningNothing)), baseapp.SetChainID(chainID))
			if h == n.height {
				err = a.LoadLatestVersion()
			} else {
				err = a.LoadHeight(h)
			}
			if err != nil {
				return
			}
			x, e := a.ExportAppStateAndValidators(zero, allowed, mods)
			if e != nil {
				err = e
				return
			}
			state, height, cp, evals = x.AppState, x.Height, x.ConsensusParams, x.Validators
		})
		if pan != nil {
			err = fmt.Errorf("panic: %v", pan)
		}
		return
	}
	if st.Arg&1 == 1 { // an export for a restart at height zero carries the same markets
		allowed, jail := w.allowedVals(s, st.Arg)
		if err := export(true, allowed, nil); n.dead {
			return
		} else if err != nil {
			p := P("C22")
			if strings.Contains(err.Error(), "invariant") {
				p = P("C22", "C25")
			}
			if jail != nil {
				p = append(p, "C27")
			}
			w.viol(p, "export-zero-fails", "exporting height %d for height zero (allowed validators %v) fails: %v", h, allowed, err)
		} else {
			w.compareExport(n, h, s, state)
			w.checkZero(n, h, s, state, cp, evals, jail)
		}
	}
	if st.Arg&2 == 2 {
		// single modules can be exported too
		if err := export(false, nil, []string{"dex", "bank"}); n.dead {
			return
		} else if err != nil {
			w.viol(P("C22"), "export-fails", "exporting the markets and balances of height %d fails: %v", h, err)
			return
		}
		part = state
	}
	if err := export(false, nil, nil); n.dead {
		return
	} else if err != nil {
		w.viol(P("C22"), "export-fails", "exporting height %d fails: %v", h, err)
		return
	}
	if height != h+1 {
		w.viol(P("C22"), "export-height", "export of height %d says it continues at %d", h, height)
	}
	w.compareExport(n, h, s, state)
	if part != nil {
		var a, b map[string]json.RawMessage
		if json.Unmarshal(part, &a) != nil || json.Unmarshal(state, &b) != nil || len(a) != 2 || string(a["dex"]) != string(b["dex"]) || string(a["bank"]) != string(b["bank"]) {
			w.viol(P("C22"), "export-part", "the export of markets and balances of height %d differs from what the whole export holds of them", h)
		}
	}
	w.exportedSet(h, "export", evals, s.Stk)
	var alive []*Fork
	for _, f := range w.forks {
		if !f.dead && f.runs < 25 {
			alive = append(alive, f)
		}
	}
	if len(alive) >= 2 {
		alive = alive[1:]
	}
	w.forks = alive
	f := &Fork{n: &Node{w: w, id: 100 + int(h%50), db: NewSimDB(w.Stats), cfg: NodeCfg{MapSeed: 77}}, from: h}
	if err := f.n.start(); err != nil {
		panic(err)
	}
	_, pan := f.n.call(func() {
		res, err := f.n.app.InitChain(&abci.RequestInitChain{ChainId: chainID, Time: w.block(h).Time, InitialHeight: h + 1, ConsensusParams: &cp, AppStateBytes: state})
		must(err)
		set := map[string]int64{}
		for _, u := range res.Validators {
			set[updCons(u)] = u.Power
		}
		w.sameSet(h, "an export", set)
	})
	if pan != nil {
		w.viol(P("C22"), "import-fails:"+haltKey(fmt.Sprint(pan)), "a chain cannot be started from the export of height %d: %v", h, pan)
		return
	}
	w.Stats.Inc("imports", 1)
	f.n.height = h
	for x := h + 1; x <= w.height() && !f.dead; x++ {
		w.forkBlock(f, w.block(x))
	}
	w.forks = append(w.forks, f)
}

func (w *World) compareExport(n *Node, h int64, s *Snap, state []byte) {
	var m map[string]json.RawMessage
	if err := json.Unmarshal(state, &m); err != nil {
		w.viol(P("C22"), "export-garbage", "export of height %d: %v", h, err)
		return
	}
	raw, ok := m["dex"]
	if !ok {
		w.viol(P("C22"), "export-missing", "the export of height %d holds no dex state", h)
		return
	}
	var g dextypes.GenesisState
	if err := n.app.AppCodec().UnmarshalJSON(raw, &g); err != nil {
		w.viol(P("C22"), "export-garbage", "export of height %d: %v", h, err)
		return
	}
	got := &Snap{Pairs: map[uint64]*Pair{}, Pools: map[uint64]*Pool{}, Orders: map[K2]*Order{}, Deps: map[K2]*Dep{}, Wds: map[K2]*Wd{}, MM: map[MMK]uint32{}, LastPair: g.LastPairId, LastPool: g.LastPoolId}
	for i := range g.Pairs {
		x := convPair(&g.Pairs[i])
		got.Pairs[x.ID] = x
	}
	for i := range g.Pools {
		x := convPool(&g.Pools[i])
		got.Pools[x.ID] = x
	}
	for i := range g.Orders {
		x := convOrder(&g.Orders[i])
		got.Orders[K2{x.Pair, x.ID}] = x
	}
	for i := range g.DepositRequests {
		x := convDep(&g.DepositRequests[i])
		got.Deps[K2{x.Pool, x.ID}] = x
	}
	for i := range g.WithdrawRequests {
		x := convWd(&g.WithdrawRequests[i])
		got.Wds[K2{x.Pool, x.ID}] = x
	}
	for _, r := range g.NumMarketMakingOrdersRecords {
		got.MM[MMK{r.Orderer, r.PairId}] = r.NumMarketMakingOrders
	}
	d := diff(s, got, diffOpt{skipBal: true, skipSeq: true, skipPar: true})
	if e, x := paramsStr(s.P), paramsStr(&g.Params); e != x {
		d = append(d, fmt.Sprintf("params: expected %s, is %s", e, x))
	}
	if len(d) > 0 {
		w.viol(P("C22"), "export-differs:"+diffKinds(d), "export of height %d: %s", h, short(d))
	}
}

// forkBlock lets a restarted chain execute the next block.
func (w *World) forkBlock(f *Fork, b *Block) {
	if f.dead || f.runs >= 25 || b.Height != f.n.height+1 {
		return
	}
	n := f.n
	req := w.finalizeReq(b)
	var res *abci.ResponseFinalizeBlock
	var err error
	_, pan := n.call(func() {
		res, err = n.app.FinalizeBlock(req)
		if err == nil {
			_, err = n.app.Commit()
		}
	})
	if pan != nil || err != nil {
		f.dead = true
		w.viol(P("C22"), "fork-fails", "the chain restarted from the export of height %d cannot execute block %d: %v %v", f.from, b.Height, pan, err)
		return
	}
	n.height = b.Height
	f.runs++
	w.Stats.Inc("fork_blocks", 1)
	for i := range b.Results {
		x, y := b.Results[i], res.TxResults[i]
		if x.Codespace == "sdk" && x.Code == 11 || y.Codespace == "sdk" && y.Code == 11 {
			f.dead = true // gas differs between the stores; not comparable further
			return
		}
		if x.Code != y.Code || x.Codespace != y.Codespace {
			f.dead = true
			w.viol(P("C22"), "fork-tx", "restarted from the export of height %d: tx %d of block %d returns %s/%d, originally %s/%d: %s", f.from, i, b.Height, y.Codespace, y.Code, x.Codespace, x.Code, cut(y.Log+x.Log))
			return
		}
	}
	s, err := n.committed(0)
	if err != nil {
		f.dead = true
		w.viol(P("C22"), "fork-unreadable", "%v", err)
		return
	}
	opt := diffOpt{skipDenom: stake}
	var d []string
	if w.usesStake() {
		opt.skipDenom = ""
		d = append(diffLines(b.Snap.Stk.lines(), s.Stk.lines()), diffLines(b.Snap.Stk.rewardLines(), s.Stk.rewardLines())...)
	}
	if d = append(d, diff(b.Snap, s, opt)...); len(d) > 0 {
		f.dead = true
		p := P("C22")
		for _, x := range d {
			if strings.HasPrefix(x, "mmcount") {
				p = P("C22", "C08")
			}
			if strings.HasPrefix(x, "ibc ") {
				p = P("C22", "C26")
			}
		}
		w.viol(p, "fork-state:"+diffKinds(d), "restarted from the export of height %d, state after block %d: %s", f.from, b.Height, short(d))
		return
	}
	// indexes survive as well: ask the restarted chain
	a := &asker{w: w, n: n, h: b.Height, s: b.Snap, p: P("C22")}
	r := NewRng(mix(uint64(b.Height), uint64(f.from)))
	died, pan := n.call(func() {
		for i := 0; i < 4; i++ {
			a.one(r)
		}
	})
	if died || pan != nil {
		w.viol(P("C22"), "fork-query", "%v", pan)
	}
}
