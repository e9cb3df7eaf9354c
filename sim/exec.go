package main

import (
	"cosmossdk.io/collections"
	storetypes "cosmossdk.io/store/types"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"
	"runtime"
	"strings"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authsign "github.com/cosmos/cosmos-sdk/x/auth/signing"
	"github.com/cosmos/cosmos-sdk/x/authz"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
)

// exec runs one step. It is a pure function of the world so far and the step.
func (w *World) exec(i int, st Step) {
	w.step = i
	if w.Halt {
		return
	}
	w.Stats.Inc("step_"+st.K, 1)
	switch st.K {
	case "tx":
		if w.Txs[st.ID] != nil {
			return
		}
		if rec := w.buildTx(st); rec != nil {
			w.Txs[st.ID] = rec
			w.ByRaw[string(rec.Bytes)] = rec
			w.Stats.Inc("txs_created", 1)
		}
	case "block":
		w.execBlock(st)
	case "apply":
		w.execApply(st)
	case "catchup":
		w.catchUp(w.node(st.N), false)
	case "crash":
		if n := w.node(st.N); n != nil && n.id != 0 && n.up {
			n.crash(st.Keep)
			w.Stats.Inc("fault_crash", 1)
		}
	case "restart":
		if n := w.node(st.N); n != nil && n.id != 0 {
			if n.up {
				n.crash(-1)
				w.Stats.Inc("fault_restart", 1)
			}
			w.restart(n, st)
		}
	case "rollback":
		w.execRollback(st)
	case "check":
		w.execCheck(st)
	case "sim":
		if n := w.node(st.N); n != nil && n.up {
			if rec := w.Txs[st.Arg]; rec != nil {
				n.reads++
				n.call(func() { n.app.Simulate(rec.Bytes) })
				w.Stats.Inc("op_simulate", 1)
			}
		}
	case "query":
		if n := w.node(st.N); n != nil && n.up {
			n.reads++
			_, pan := n.call(func() { w.queryStep(n, st) })
			if pan != nil {
				w.viol(P("C20"), "query-panic", "query %s panicked: %v", st, pan)
			}
		}
	case "propose":
		w.execPropose(st)
	case "export":
		w.execExport(st)
	case "clock":
		if n := w.node(st.N); n != nil {
			n.skew = st.Ns
			w.Stats.Inc("fault_clock_skew", 1)
		}
	}
}

func (w *World) node(i int) *Node {
	if i < 0 || i >= len(w.Nodes) {
		return nil
	}
	return w.Nodes[i]
}

// digest of transaction results and block events; deterministic parts only.
func digestRes(res *abci.ResponseFinalizeBlock) (string, []string) {
	h := sha256.New()
	var per []string
	for _, r := range res.TxResults {
		th := sha256.New()
		fmt.Fprintf(th, "%d|%s|%d|%d|%x|", r.Code, r.Codespace, r.GasWanted, r.GasUsed, r.Data)
		for _, e := range r.Events {
			fmt.Fprintf(th, "%s|", e.Type)
			for _, a := range e.Attributes {
				fmt.Fprintf(th, "%s=%s;", a.Key, a.Value)
			}
		}
		x := hex.EncodeToString(th.Sum(nil)[:8])
		per = append(per, x)
		fmt.Fprintf(h, "%s,", x)
	}
	eh := sha256.New()
	for _, e := range res.Events {
		fmt.Fprintf(eh, "%s|", e.Type)
		for _, a := range e.Attributes {
			fmt.Fprintf(eh, "%s=%s;", a.Key, a.Value)
		}
	}
	for _, v := range res.ValidatorUpdates {
		fmt.Fprintf(eh, "val %s", v.String())
	}
	ev := hex.EncodeToString(eh.Sum(nil)[:8])
	fmt.Fprintf(h, "%s", ev)
	return hex.EncodeToString(h.Sum(nil)[:12]), append(per, "events:"+ev)
}

func (w *World) refBytes(r Ref) []byte {
	if r.Mode == "raw" {
		x := NewRng(uint64(r.Arg))
		b := make([]byte, x.Range(0, 120))
		for i := range b {
			b[i] = byte(x.U64())
		}
		return b
	}
	rec := w.Txs[r.ID]
	if rec == nil {
		return nil
	}
	b := append([]byte{}, rec.Bytes...)
	if r.Mode == "flip" && len(b) > 0 {
		bit := (r.Arg & 0x7fffffff) % (len(b) * 8)
		b[bit/8] ^= 1 << (bit % 8)
	}
	return b
}

func (w *World) execBlock(st Step) {
	n0 := w.Nodes[0]
	dt := st.DT
	if dt < 1 {
		dt = 1
	}
	w.Time = w.Time.Add(time.Duration(dt))
	b := &Block{Height: w.height() + 1, Time: w.Time}
	for _, r := range st.Txs {
		bz := w.refBytes(r)
		if bz == nil {
			continue
		}
		if r.Mode != "" {
			w.Stats.Inc("fault_forged_bytes", 1)
		}
		b.Txs = append(b.Txs, bz)
	}
	if !w.stakeBlock(b, st) {
		return
	}
	prev := w.obs.last
	obs := &BlockObs{Prev: prev, Gov0: w.obs.gov}
	w.obs.cur = obs
	req := w.finalizeReq(b)
	var res *abci.ResponseFinalizeBlock
	var err error
	stage := "FinalizeBlock"
	_, pan := n0.call(func() {
		res, err = n0.app.FinalizeBlock(req)
		if err != nil {
			return
		}
		stage = "Commit"
		_, err = n0.app.Commit()
	})
	w.obs.cur = nil
	w.Stats.Inc("blocks", 1)
	w.Stats.Inc("sim_ms", int(dt/1000000))
	if pan != nil || err != nil {
		w.Halt = true
		msg := fmt.Sprint(err)
		if pan != nil {
			msg = fmt.Sprintf("panic: %v", pan)
		}
		where := stage
		switch {
		case obs.PreBegin != nil && obs.PostBegin == nil:
			where = "dex BeginBlock"
		case obs.PreEnd != nil && obs.PostEnd == nil:
			where = "dex EndBlock"
		case obs.PostTxs != nil && obs.PreEnd == nil:
			where = "another module's EndBlock"
		}
		props := P("C19", "C05", "C09", "C10", "C14", "C03", "C15")
		low := strings.ToLower(msg)
		if strings.Contains(low, "insufficient") || strings.Contains(low, "smaller") || strings.Contains(low, "negative") {
			props = append(props, "C01", "C02", "C04", "C11")
		}
		if w.usesStake() {
			props = append(props, "C27")
		}
		if w.obs.usesGov && where == "another module's EndBlock" {
			props = append(props, "C23")
		}
		w.viol(props, "halt:"+haltKey(msg), "block %d could not be produced: %s: %s", b.Height, where, msg)
		w.onHalt(obs, msg)
		return
	}
	b.AppHash = res.AppHash
	b.Results = res.TxResults
	b.Digest, b.Parts = digestRes(res)
	b.Events = res.Events
	b.Snap = obs.PostEnd
	w.Chain = append(w.Chain, b)
	n0.height = b.Height
	w.pend = map[int]int{}
	if obs.PostEnd == nil || obs.PreEnd == nil || obs.PreBegin == nil || obs.PostTxs == nil || obs.PostBegin == nil {
		w.viol(P("C14", "C25"), "module-not-run", "block %d: a dex or crisis block hook was not run", b.Height)
		w.Halt = true
		return
	}
	w.obs.last = obs.PostEnd
	w.obs.gov = obs.Gov1
	w.notePackets(b)
	w.checkStakeStart(b, obs)
	w.checkBlock(b, obs)
	w.checkStake(b, obs, res.ValidatorUpdates)
	for _, f := range w.forks {
		w.forkBlock(f, b)
	}
}

func haltKey(msg string) string {
	var sb strings.Builder
	for _, r := range msg {
		if r >= '0' && r <= '9' {
			continue
		}
		sb.WriteRune(r)
		if sb.Len() > 60 {
			break
		}
	}
	return sb.String()
}

func (w *World) onHalt(o *BlockObs, msg string) {
	// Forensics: did the batch leave conservation broken?
}

// ---- node faults ----

func (n *Node) crash(keep int) {
	n.up = false
	n.app = nil
	n.db.Crash(keep)
	n.crashes++
}

func (w *World) restart(n *Node, st Step) {
	if n.up {
		return
	}
	if st.Kill != "" {
		n.db.killAt, n.db.after = n.db.ops+st.At, st.Kill == "after"
		err := n.start()
		n.db.killAt = 0
		if err != nil && n.db.killed {
			w.Stats.Inc("fault_kill_in_start", 1)
			n.crash(st.Keep)
			return // needs another restart
		}
		if err != nil {
			w.viol(P("C16"), "restart-fails", "node %d does not start again: %v", n.id, err)
			n.dead = true
			return
		}
	} else if err := n.start(); err != nil {
		w.viol(P("C16"), "restart-fails", "node %d does not start again: %v", n.id, err)
		n.dead = true
		return
	}
	n.afterStart()
}

// firstCommitLost reports that a node which died while committing its first
// block found leftovers of it, and starts it on an empty disk as an operator would.
func (n *Node) firstCommitLost(how string) {
	w := n.w
	w.viol(P("C16"), "first-commit-crash", "node %d, killed while committing its first block, %s", n.id, how)
	n.db = NewSimDB(w.Stats)
	n.inFly, n.height, n.dirty = 0, w.initH()-1, false
	must(n.start())
	n.initChain()
}

func (n *Node) afterStart() {
	w := n.w
	h := n.app.LastBlockHeight()
	if h == 0 {
		if n.height >= w.initH() && n.inFly != n.height {
			w.viol(P("C16"), "committed-block-lost", "node %d restarted at genesis, but had committed height %d", n.id, n.height)
		}
		if err := n.tryInitChain(); err != nil {
			if n.inFly != w.initH() || n.crashes == 0 {
				panic(err)
			}
			// killed inside the very first commit
			n.firstCommitLost(fmt.Sprintf("cannot start again: %v", err))
		} else {
			n.dirty = n.inFly == w.initH() && n.crashes > 0
		}
		return
	}
	if h != n.height && h != n.inFly {
		w.viol(P("C16"), "restart-height", "node %d restarted at height %d; it had committed %d (in flight %d)", n.id, h, n.height, n.inFly)
	}
	n.height = h
	n.inFly = 0
	if h >= w.initH() && h <= w.height() {
		b := w.block(h)
		if got := n.app.LastCommitID().Hash; string(got) != string(b.AppHash) {
			w.viol(P("C16", "C15"), "restart-hash", "node %d restarted at height %d with app hash %X, committed was %X", n.id, h, got, b.AppHash)
		}
	}
}

// execApply lets a node execute its next block, possibly dying meanwhile.
func (w *World) execApply(st Step) {
	n := w.node(st.N)
	if n == nil || n.id == 0 || !n.up || n.dead || n.height >= w.height() {
		return
	}
	b := w.block(n.height + 1)
	n.traceOps = 0
	n.ints = st.Ints
	n.killTr = 0
	switch st.Kill {
	case "write":
		n.db.killAt, n.db.after = n.db.ops+st.At, false
	case "after":
		n.db.killAt, n.db.after = n.db.ops+st.At, true
	case "err":
		n.db.errAt = n.db.ops + st.At
	case "rerr":
		n.db.rerrAt = n.db.reads + st.At
	case "trace":
		n.killTr = st.At
	}
	var res *abci.ResponseFinalizeBlock
	var err error
	committed := false
	req := w.finalizeReq(b)
	died, pan := n.call(func() {
		n.inFinal = true
		res, err = n.app.FinalizeBlock(req)
		n.inFinal = false
		if err != nil {
			return
		}
		if st.Kill == "precommit" {
			w.Stats.Inc("fault_kill_before_commit", 1)
			runtime.Goexit()
		}
		for _, x := range n.ints {
			if x.At < 0 { // between execution and commit
				n.serve(x)
			}
		}
		if n.db.errHit { // the disk failed and nothing noticed; the process goes down
			w.Stats.Inc("fault_disk_error_unnoticed", 1)
			runtime.Goexit()
		}
		n.inFly = b.Height
		// Reads of Commit do not fail: the storage library (IAVL 1.1.2) damages
		// its tree when a read fails while it prunes, whatever the application
		// does (see DESIGN.md).
		n.db.rerrAt = 0
		_, err = n.app.Commit()
		committed = err == nil
	})
	n.inFinal = false
	faulted := n.db.errHit
	n.db.killAt, n.db.errAt, n.db.rerrAt, n.db.errHit, n.ints, n.killTr = 0, 0, 0, false, nil, 0
	if died || (faulted && (pan != nil || err != nil)) {
		w.Stats.Inc("fault_killed_in_block", 1)
		n.crash(st.Keep)
		return
	}
	if pan != nil || err != nil {
		w.viol(n.cmpProps(), "node-fails", "node %d fails on block %d, which node 0 executed: %v %v", n.id, b.Height, pan, err)
		n.dead = true
		n.up = false
		return
	}
	if committed {
		n.height = b.Height
		n.inFly = 0
	}
	w.Stats.Inc("replica_blocks", 1)
	if n.dirty && b.Height == w.initH() {
		n.dirty = false
		if d, _ := digestRes(res); d != b.Digest || string(res.AppHash) != string(b.AppHash) {
			n.firstCommitLost("starts again on leftovers of it and computes another state")
			return
		}
	}
	n.compare(b, res)
	if faulted {
		// the storage library may have swallowed the error and kept wrong data
		// in memory: a disk error ends the process at the latest here
		w.Stats.Inc("fault_disk_error_unnoticed", 1)
		n.crash(st.Keep)
	}
}

func (n *Node) cmpProps() []string {
	p := P("C15")
	if n.crashes > 0 {
		p = append(p, "C16")
	}
	if n.reads > 0 {
		p = append(p, "C21")
	}
	if n.w.obs.usesIBC {
		p = append(p, "C26")
	}
	if n.w.usesStake() {
		p = append(p, "C27")
	}
	return p
}

func (n *Node) compare(b *Block, res *abci.ResponseFinalizeBlock) {
	w := n.w
	if n.diverged {
		return
	}
	d, parts := digestRes(res)
	if d != b.Digest {
		n.diverged = true
		where := ""
		for i := range parts {
			if i >= len(b.Parts) || parts[i] != b.Parts[i] {
				where += fmt.Sprintf(" part %d of %d", i, len(parts))
				if i < len(res.TxResults) && i < len(b.Results) {
					where += fmt.Sprintf(" (code %d gas %d vs code %d gas %d, log %q vs %q)", res.TxResults[i].Code, res.TxResults[i].GasUsed, b.Results[i].Code, b.Results[i].GasUsed, cut(res.TxResults[i].Log), cut(b.Results[i].Log))
				} else {
					where += eventDiff(b.Events, res.Events)
				}
				break
			}
		}
		w.viol(n.cmpProps(), "results-differ", "node %d: results of block %d differ from node 0:%s", n.id, b.Height, where)
	}
	if string(res.AppHash) != string(b.AppHash) {
		n.diverged = true
		extra := ""
		if s, err := n.committed(0); err == nil && n.height == b.Height {
			extra = short(diff(b.Snap, s, diffOpt{}))
		}
		extra += n.storeDiff(b.Height)
		w.viol(n.cmpProps(), "apphash-differs", "node %d: app hash of block %d is %X, node 0 has %X; %s", n.id, b.Height, res.AppHash, b.AppHash, extra)
	}
	w.Stats.Inc("hash_comparisons", 1)
}

// storeDiff names the stores of the block in progress whose hash is not node 0's.
func (n *Node) storeDiff(h int64) string {
	type ci interface {
		GetCommitInfo(int64) (*storetypes.CommitInfo, error)
	}
	rs, ok := n.w.Nodes[0].app.CommitMultiStore().(ci)
	if !ok {
		return ""
	}
	info, err := rs.GetCommitInfo(h)
	if err != nil {
		return ""
	}
	out := ""
	for _, si := range info.StoreInfos {
		k := n.app.GetKey(si.Name)
		if k == nil {
			continue
		}
		if st := n.app.CommitMultiStore().GetCommitKVStore(k); st != nil {
			if g := st.WorkingHash(); string(g) != string(si.CommitId.Hash) {
				out += fmt.Sprintf(" store %s (%x, node 0 %x)", si.Name, g, si.CommitId.Hash)
			}
		}
	}
	return out
}

func eventDiff(a, b []abci.Event) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf(": event %d missing", i)
		}
		if a[i].String() != b[i].String() {
			return fmt.Sprintf(": event %d: %s vs %s", i, cut(a[i].String()), cut(b[i].String()))
		}
	}
	return ""
}

func cut(s string) string {
	if len(s) > 160 {
		return s[:160]
	}
	return s
}

// catchUp brings a node to the head without faults; force restarts it first.
func (w *World) catchUp(n *Node, force bool) {
	if n == nil || n.id == 0 || n.dead {
		return
	}
	for i := 0; !n.up && i < 3 && !n.dead; i++ {
		w.restart(n, Step{})
	}
	for n.up && !n.dead && n.height < w.height() {
		h := n.height
		w.execApply(Step{N: n.id})
		if n.up && n.height == h {
			break
		}
	}
}

func (w *World) execRollback(st Step) {
	n := w.node(st.N)
	if n == nil || n.id == 0 || !n.up || n.dead {
		return
	}
	target := n.height - st.H
	if target < w.initH() || target >= n.height || n.cfg.Pruning != "" {
		return
	}
	var err error
	died, pan := n.call(func() { err = n.app.CommitMultiStore().RollbackToVersion(target) })
	if died || pan != nil || err != nil {
		w.viol(P("C16"), "rollback-fails", "node %d: rollback from %d to %d fails: %v %v", n.id, n.height, target, pan, err)
		n.dead = true
		n.up = false
		return
	}
	w.Stats.Inc("fault_rollback", 1)
	n.height = target
	n.inFly = 0
	n.crash(-1)
	w.restart(n, Step{})
}

func (w *World) execCheck(st Step) {
	n := w.node(st.N)
	rec := w.Txs[st.Arg]
	if n == nil || !n.up || rec == nil || n.height < w.initH() {
		return
	}
	typ := abci.CheckTxType_New
	if st.At == 1 {
		typ = abci.CheckTxType_Recheck
	}
	n.reads++
	w.Stats.Inc("op_checktx", 1)
	n.call(func() { n.app.CheckTx(&abci.RequestCheckTx{Tx: rec.Bytes, Type: typ}) })
}

func (w *World) execPropose(st Step) {
	n := w.node(st.N)
	if n == nil || !n.up || n.height < w.initH() || n.id == 0 {
		return
	}
	n.reads++
	var txs [][]byte
	for _, r := range st.Txs {
		if bz := w.refBytes(r); bz != nil {
			txs = append(txs, bz)
		}
	}
	w.Stats.Inc("op_proposal", 1)
	n.call(func() {
		cons := w.valKey.PubKey().Address().Bytes()
		if st.Arg&1 == 0 {
			_, _ = n.app.PrepareProposal(&abci.RequestPrepareProposal{MaxTxBytes: 1 << 20, Txs: txs, Height: n.height + 1, Time: w.Time.Add(time.Second), ProposerAddress: cons})
		}
		if st.Arg&2 == 0 {
			_, _ = n.app.ProcessProposal(&abci.RequestProcessProposal{Txs: txs, Height: n.height + 1, Time: w.Time.Add(time.Second), Hash: make([]byte, 32), ProposerAddress: cons})
		}
	})
}

// traced is called on every store operation of a node with store tracing.
func (n *Node) traced() {
	if !n.inFinal || n.busy {
		return
	}
	n.traceOps++
	if n.killTr != 0 && n.traceOps == n.killTr {
		n.w.Stats.Inc("fault_kill_in_execution", 1)
		n.db.killed = true
		runtime.Goexit()
	}
	for _, x := range n.ints {
		if x.At == n.traceOps {
			n.serve(x)
		}
	}
}

// serve answers something in the middle of a block.
func (n *Node) serve(x Int) {
	n.busy = true
	defer func() { n.busy = false }()
	n.reads++
	n.w.Stats.Inc("fault_read_during_block", 1)
	switch x.What {
	case "query":
		if n.height >= n.w.initH() {
			n.w.queryStep(n, Step{K: "query", N: n.id, Arg: x.Arg, H: 0, At: 1})
		}
	case "sim":
		if rec := n.w.Txs[x.Tx]; rec != nil {
			n.app.Simulate(rec.Bytes)
		}
	case "check":
		if rec := n.w.Txs[x.Tx]; rec != nil && x.At < 0 {
			n.app.CheckTx(&abci.RequestCheckTx{Tx: rec.Bytes, Type: abci.CheckTxType_New})
		}
	}
}

// ---- transactions of a block ----

// checkTxs compares every transaction's effect with the model's.
func (w *World) checkTxs(b *Block, o *BlockObs) {
	// match ante handler calls with the block's transactions
	oi := 0
	var before = make([]*Snap, len(b.Txs)+1)
	for i, t := range b.Txs {
		if oi < len(o.Txs) && string(o.Txs[oi].Bytes) == string(t) {
			before[i] = o.Txs[oi].Before
			oi++
		}
	}
	if oi != len(o.Txs) {
		w.viol(P("C18", "C17"), "stray-execution", "block %d executed a transaction it does not contain", b.Height)
	}
	before[len(b.Txs)] = o.PostTxs
	next := o.PostTxs
	after := make([]*Snap, len(b.Txs))
	for i := len(b.Txs) - 1; i >= 0; i-- {
		after[i] = next
		if before[i] == nil {
			before[i] = next // never reached the ante handler: cannot have had an effect
			if d := 0; d != 0 {
				_ = d
			}
		}
		next = before[i]
	}
	// whatever happened before the first ante handler call
	if first := next; first != o.PostBegin && first != nil {
		if d := diff(o.PostBegin, first, diffOpt{skipDenom: "stake"}); len(d) > 0 {
			w.viol(P("C17", "C18", "C14"), "effect-before-txs", "block %d: state changed between BeginBlock and the first transaction: %s", b.Height, short(d))
		}
	}
	for i, t := range b.Txs {
		w.checkTx(b, i, t, before[i], after[i], b.Results[i])
	}
}

func kindProps(kinds []string) []string {
	var p []string
	for _, k := range kinds {
		switch k {
		case "pair":
			p = append(p, "C13", "C24")
		case "pool", "rpool":
			p = append(p, "C12", "C24", "C13")
		case "dep":
			p = append(p, "C09", "C13")
		case "wd":
			p = append(p, "C10", "C13")
		case "limit", "market":
			p = append(p, "C07", "C13")
		case "mm":
			p = append(p, "C07", "C08", "C13")
		case "cancel", "cancelall":
			p = append(p, "C06", "C05")
		case "params":
			p = append(p, "C23")
		case "exec", "grant", "revoke", "send":
			p = append(p, "C18")
		default:
			if ibcKind(k) {
				p = append(p, "C26")
			}
			if stakeKind(k) {
				p = append(p, "C27")
			}
		}
	}
	return uniq(p)
}

func uniq(p []string) []string {
	m := map[string]bool{}
	for _, x := range p {
		m[x] = true
	}
	return sortedStr(m)
}

func (w *World) checkTx(b *Block, i int, bz []byte, s0, s1 *Snap, res *abci.ExecTxResult) {
	rec := w.ByRaw[string(bz)]
	w.Stats.Inc("txs_delivered", 1)
	if res.Code == 0 {
		w.Stats.Inc("txs_ok", 1)
	}
	if rec == nil {
		// not a transaction anybody signed
		if res.Code == 0 {
			w.viol(P("C18"), "forged-accepted", "block %d tx %d: bytes nobody signed were accepted", b.Height, i)
		}
		if d := diff(s0, s1, diffOpt{}); len(d) > 0 {
			w.viol(P("C18"), "forged-effect", "block %d tx %d: bytes nobody signed had an effect: %s", b.Height, i, short(d))
		}
		w.checkStakeTx(b, i, nil, s0, s1, nil, nil, false)
		return
	}
	for _, m := range rec.Step.Msgs {
		w.Stats.Inc("msg_"+m.T, 1)
		if res.Code == 0 {
			w.Stats.Inc("msgok_"+m.T, 1)
		}
	}
	tx, err := w.txc.TxDecoder()(bz)
	must(err)
	msgs := tx.GetMsgs()
	sigTx := tx.(authsign.SigVerifiableTx)
	signers, _ := sigTx.GetSigners()
	st := rec.Step

	// authorised?
	auth := st.Corrupt == "" && len(signers) == len(st.Signers)
	why := "signature"
	if st.Corrupt != "" {
		why = "corrupted: " + st.Corrupt
	}
	if auth {
		for k, sg := range signers {
			si := st.Signers[k]
			if si < 0 || si >= len(w.Accs) {
				si = 0
			}
			if sdk.AccAddress(sg).String() != w.Accs[si].S {
				auth = false
				why = "signed by others than required"
				break
			}
			if s0.Seq[si] != rec.Seqs[k] {
				auth = false
				why = fmt.Sprintf("sequence %d instead of %d", rec.Seqs[k], s0.Seq[si])
				break
			}
		}
	}
	if !auth {
		w.Stats.Inc("txs_unauthorised", 1)
		if res.Code == 0 {
			w.viol(P("C18"), "unauthorised-accepted", "block %d tx %d accepted though not authorised (%s)", b.Height, i, why)
		}
		if d := diff(s0, s1, diffOpt{}); len(d) > 0 {
			w.viol(P("C18"), "unauthorised-effect", "block %d tx %d had an effect though not authorised (%s): %s", b.Height, i, why, short(d))
		}
		w.checkStakeTx(b, i, nil, s0, s1, nil, nil, false)
		return
	}
	// ante effects
	ante := s0.clone()
	feePayer := w.Accs[clampAcc(w, st.Signers[0])].S
	fee := fromMk(st.Fee)
	feeOK := w.send(ante, feePayer, feeCollectorMod, fee)
	for _, si := range st.Signers {
		ante.Seq[clampAcc(w, si)]++
	}
	// messages
	out := &mOut{}
	exp := ante.clone()
	reason := ""
	failIdx := -1
	if !feeOK {
		reason = "cannot pay the fee"
		failIdx = -2
	}
	for k, m := range msgs {
		if reason != "" {
			break
		}
		if e := basic(m); e != "" {
			reason = e
			failIdx = k
			out.seen = append(out.seen, st.Msgs[minInt(k, len(st.Msgs)-1)].T)
		}
	}
	var kinds []string
	for k, m := range msgs {
		if reason != "" {
			break
		}
		if e := w.applyMsg(exp, s1, m, out); e != "" {
			reason = e
			failIdx = k
		}
	}
	for _, m := range st.Msgs {
		kinds = append(kinds, m.T)
		for _, x := range m.Msgs {
			kinds = append(kinds, x.T)
		}
	}
	ample := w.ampleGas(st, s0, out) && res.Code != codeOOG(res)
	multi := len(msgs) > 1
	props := kindProps(kinds)
	if multi {
		props = append(props, "C17")
	}
	delete2 := ""
	if out.opaque {
		delete2 = "stake"
	}
	if w.usesStake() {
		if reason != "" && res.Code == 0 {
			out.stk = 2
		}
		w.checkStakeTx(b, i, msgs, s0, s1, exp, out, res.Code == 0)
	}
	if res.Code == 0 {
		if rec.Done++; rec.Done > 1 {
			w.viol(P("C18"), "executed-twice", "tx %d took effect %d times (block %d)", rec.ID, rec.Done, b.Height)
		}
		w.Stats.Inc("model_accept", 1)
		if reason != "" && !out.soft {
			w.Stats.Inc("model_mismatch", 1)
			p := append([]string{}, props...)
			if failIdx >= 0 {
				p = kindProps([]string{st.Msgs[minInt(failIdx, len(st.Msgs)-1)].T})
				if sub := st.Msgs[minInt(failIdx, len(st.Msgs)-1)].Msgs; len(sub) > 0 {
					p = append(p, kindProps(kindsOf(sub))...)
				}
				if multi {
					p = append(p, "C17")
				}
			} else {
				p = P("C18", "C24")
			}
			if strings.Contains(reason, "not the owner") || strings.Contains(reason, "not authorised") || strings.Contains(reason, "authority") {
				p = append(p, "C18")
			}
			w.viol(uniq(p), "accepted:"+reason, "block %d tx %d (%s) was accepted, but must be rejected: %s", b.Height, i, kinds, reason)
			return
		}
		if reason != "" {
			return
		}
		opt := diffOpt{skipDenom: delete2, skipBal: out.gone}
		if d := diff(exp, s1, opt); len(d) > 0 {
			p := append([]string{}, props...)
			if strings.Contains(strings.Join(d, " "), "balance") {
				p = append(p, "C01")
			}
			if w.othersTouched(exp, s1, st, msgs) {
				p = append(p, "C18")
			}
			if w.failedBefore(msgs) {
				p = append(p, "C17")
			}
			w.viol(uniq(p), "effect:"+strings.Join(uniq(kinds), "+")+":"+diffKinds(d), "block %d tx %d (%s): wrong effect: %s", b.Height, i, kinds, short(d))
		}
		// extra gas
		if out.gas > 0 {
			if uint64(res.GasUsed) < out.gas {
				w.viol(P("C24"), "extra-gas", "block %d tx %d used %d gas, less than the extra gas %d", b.Height, i, res.GasUsed, out.gas)
			}
		}
		if max := out.gas + uint64(len(msgs)+3)*gasBound; uint64(res.GasUsed) > max {
			w.viol(P("C24"), "gas-high", "block %d tx %d used %d gas; expected at most %d", b.Height, i, res.GasUsed, max)
		}
		return
	}
	// failed
	w.Stats.Inc("model_reject", 1)
	failed := w.failedBefore(msgs)
	if w.failedBy == nil {
		w.failedBy = map[string]bool{}
	}
	for _, a := range signersOf(msgs) {
		w.failedBy[a] = true
	}
	if res.Codespace == "sdk" && res.Code == 11 {
		w.Stats.Inc("fault_out_of_gas", 1)
	}
	noEffect := len(diff(s0, s1, diffOpt{})) == 0
	d := diff(ante, s1, diffOpt{})
	anteEffect := len(d) == 0
	if !noEffect && !(anteEffect && feeOK) {
		w.viol(uniq(append(P("C17"), props...)), "failed-with-effect:"+diffKinds(d), "block %d tx %d (%s) failed (%s) but had an effect: %s", b.Height, i, kinds, cut(res.Log), short(d))
	}
	if reason == "" && !out.soft && ample {
		if failed {
			props = append(props, "C17")
		}
		w.viol(uniq(props), "rejected:"+strings.Join(uniq(kinds), "+"), "block %d tx %d (%s) was rejected though it meets every rule: code %d %s", b.Height, i, st, res.Code, cut(res.Log))
	}
}

// othersTouched: somebody who authorised nothing lost coins or had an order or
// request changed beyond what was predicted.
// failedBefore: a transaction with a message of one of these accounts has failed
// earlier; what is wrong now may be something it left behind.
func (w *World) failedBefore(msgs []sdk.Msg) bool {
	for _, a := range signersOf(msgs) {
		if w.failedBy[a] {
			return true
		}
	}
	return false
}

func signersOf(msgs []sdk.Msg) []string {
	var out []string
	for _, m := range msgs {
		if e, ok := m.(*authz.MsgExec); ok {
			in, _ := e.GetMessages()
			out = append(out, signersOf(in)...)
			continue
		}
		out = append(out, msgSigner(m))
	}
	return out
}

func (w *World) othersTouched(exp, got *Snap, st Step, msgs []sdk.Msg) bool {
	mine := map[string]bool{}
	for _, si := range st.Signers {
		mine[w.Accs[clampAcc(w, si)].S] = true
	}
	for _, m := range msgs {
		if e, ok := m.(*authz.MsgExec); ok {
			in, _ := e.GetMessages()
			for _, x := range in {
				mine[msgSigner(x)] = true
			}
		}
	}
	for _, a := range w.Accs {
		if mine[a.S] {
			continue
		}
		for _, d := range sortedStr(exp.Bal[a.S]) {
			if got.bal(a.S, d).Cmp(exp.bal(a.S, d)) < 0 {
				return true
			}
		}
	}
	for k, o := range exp.Orders {
		if x := got.Orders[k]; !mine[o.Owner] && (x == nil || x.str() != o.str()) {
			return true
		}
	}
	return false
}

const gasBound = 3000000

func codeOOG(r *abci.ExecTxResult) uint32 { return 0xffffffff }

func kindsOf(ms []Msg) []string {
	var k []string
	for _, m := range ms {
		k = append(k, m.T)
	}
	return k
}

func (w *World) ampleGas(st Step, s0 *Snap, out *mOut) bool {
	if w.Cfg.BlockGas > 0 {
		return false
	}
	return st.Gas >= out.gas+uint64(len(st.Msgs)+1)*gasBound
}

func clampAcc(w *World, i int) int {
	if i < 0 || i >= len(w.Accs) {
		return 0
	}
	return i
}

func fromMk(cs []C) []Coin {
	var o []Coin
	for _, c := range cs {
		o = append(o, Coin{c.D, bigS(c.A)})
	}
	return o
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// diffKinds names what differs (for grouping violations).
func diffKinds(d []string) string {
	m := map[string]bool{}
	for _, x := range d {
		m[strings.SplitN(x, " ", 2)[0]] = true
	}
	return strings.Join(sortedStr(m), "+")
}

// ---- governance ----

type govState map[uint64]*govProp

type govProp struct {
	Status    govv1.ProposalStatus
	Msgs      []sdk.Msg
	Votes     map[string]int
	Deps      map[string]*big.Int // of the staked coin
	Expedited bool
	VoteEnd   int64
	DepEnd    int64
}

func (w *World) readGov(ctx sdk.Context) govState {
	g := govState{}
	if !w.obs.usesGov {
		return g
	}
	_ = w.obs.a.GovKeeper.Proposals.Walk(ctx, nil, func(id uint64, p govv1.Proposal) (bool, error) {
		ms, _ := p.GetMsgs()
		x := &govProp{Status: p.Status, Msgs: ms, Votes: map[string]int{}, Deps: map[string]*big.Int{}, Expedited: p.Expedited}
		if p.VotingEndTime != nil {
			x.VoteEnd = p.VotingEndTime.UnixNano()
		}
		if p.DepositEndTime != nil {
			x.DepEnd = p.DepositEndTime.UnixNano()
		}
		g[id] = x
		return false, nil
	})
	_ = w.obs.a.GovKeeper.Votes.Walk(ctx, nil, func(k collections.Pair[uint64, sdk.AccAddress], v govv1.Vote) (bool, error) {
		if x := g[k.K1()]; x != nil && len(v.Options) == 1 {
			x.Votes[k.K2().String()] = int(v.Options[0].Option)
		}
		return false, nil
	})
	_ = w.obs.a.GovKeeper.Deposits.Walk(ctx, nil, func(k collections.Pair[uint64, sdk.AccAddress], v govv1.Deposit) (bool, error) {
		if x := g[k.K1()]; x != nil {
			x.Deps[k.K2().String()] = bi(sdk.Coins(v.Amount).AmountOf(stake))
		}
		return false, nil
	})
	return g
}

var _ = big.NewInt
