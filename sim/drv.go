package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- one run ----

type RunOut struct {
	Idx     int              `json:"idx"`
	Seed    uint64           `json:"seed"`
	Profile string           `json:"profile"`
	Digest  string           `json:"digest"`
	Steps   int              `json:"steps"`
	Ms      int64            `json:"ms"`
	Halt    bool             `json:"halt,omitempty"`
	Viols   []Violation      `json:"viols,omitempty"`
	Stats   map[string]int64 `json:"stats"`
	States  []string         `json:"states,omitempty"`
	Replay  *Replay          `json:"replay,omitempty"`
	Sample  string           `json:"sample,omitempty"`
}

func (w *World) digest() string {
	h := sha256.New()
	for _, b := range w.Chain {
		fmt.Fprintf(h, "%d %X %s|", b.Height, b.AppHash, b.Digest)
	}
	for _, v := range w.Viols {
		fmt.Fprintf(h, "%v %s %d|", v.Props, v.Key, v.Step)
	}
	for _, k := range w.Stats.Keys() {
		fmt.Fprintf(h, "%s=%d|", k, w.Stats.M[k])
	}
	for _, n := range w.Nodes {
		fmt.Fprintf(h, "%d %d %d %v|", n.id, n.height, n.db.ops, n.up)
	}
	return hex.EncodeToString(h.Sum(nil)[:10])
}

// finish lets all faults stop and every node catch up.
func (w *World) finish() {
	if w.Halt {
		return
	}
	w.step++
	for i := 1; i < len(w.Nodes); i++ {
		n := w.Nodes[i]
		w.catchUp(n, false)
		if n.dead || n.diverged {
			continue
		}
		if n.height != w.height() {
			w.viol(P("C16", "C15"), "no-catch-up", "node %d is at height %d after all faults stopped, the chain is at %d", n.id, n.height, w.height())
			continue
		}
		var s *Snap
		var err error
		_, pan := n.call(func() { s, err = n.committed(0) })
		if pan != nil || err != nil {
			w.viol(P("C16", "C20"), "final-unreadable", "node %d: %v %v", n.id, pan, err)
			continue
		}
		if b := w.block(w.height()); s.DexSum != b.Snap.DexSum {
			w.viol(n.cmpProps(), "final-state", "node %d: final state differs: %s", n.id, short(diff(b.Snap, s, diffOpt{})))
		}
		w.Stats.Inc("final_comparisons", 1)
	}
}

func runSeed(seed uint64, prof string, verbose bool) (*World, *Replay) {
	cfg := genConfig(seed, prof)
	w := NewWorld(cfg)
	w.verbose = verbose
	g := NewGen(w, seed, prof)
	rp := &Replay{Seed: seed, Profile: prof, Config: cfg}
	for {
		st, ok := g.Next()
		if !ok {
			break
		}
		rp.Steps = append(rp.Steps, st)
		if verbose {
			fmt.Println(len(rp.Steps)-1, st)
		}
		w.exec(len(rp.Steps)-1, st)
	}
	w.finish()
	return w, rp
}

func runSteps(rp *Replay, verbose bool) *World {
	for _, s := range rp.Warmup {
		runSeed(s, warmProfile(rp, s), false)
	}
	w := NewWorld(rp.Config)
	w.verbose = verbose
	for i, st := range rp.Steps {
		if verbose {
			fmt.Println(i, st)
		}
		w.exec(i, st)
	}
	w.finish()
	return w
}

func warmProfile(rp *Replay, s uint64) string { return profileOf(rp.Property, s) }

func (w *World) has(prop, key string) *Violation {
	for i := range w.Viols {
		if w.Viols[i].Key == key && w.Viols[i].Has(prop) {
			return &w.Viols[i]
		}
	}
	return nil
}

// ---- which profiles serve which property ----

type pw struct {
	p string
	w int
}

var mixes = map[string][]pw{
	"C01": {{"core", 4}, {"pools", 3}, {"mm", 1}, {"gas", 1}, {"auth", 1}, {"extreme", 1}},
	"C02": {{"core", 6}, {"pools", 3}, {"mm", 1}, {"extreme", 1}},
	"C03": {{"core", 7}, {"pools", 3}, {"extreme", 1}},
	"C04": {{"core", 6}, {"pools", 4}, {"extreme", 1}},
	"C05": {{"core", 6}, {"mm", 2}, {"pools", 1}, {"faults", 1}, {"extreme", 1}},
	"C06": {{"core", 4}, {"mm", 4}, {"auth", 2}},
	"C07": {{"core", 6}, {"mm", 2}, {"gov", 1}, {"auth", 1}, {"extreme", 1}},
	"C08": {{"mm", 8}, {"export", 1}, {"core", 1}},
	"C09": {{"pools", 8}, {"export", 1}, {"extreme", 2}},
	"C10": {{"pools", 9}, {"extreme", 2}},
	"C11": {{"pools", 8}, {"core", 1}, {"extreme", 2}},
	"C12": {{"pools", 8}, {"export", 1}, {"gov", 1}, {"extreme", 1}},
	"C13": {{"core", 3}, {"pools", 4}, {"export", 2}, {"gas", 1}},
	"C14": {{"core", 4}, {"pools", 4}, {"gov", 2}, {"extreme", 1}},
	"C15": {{"faults", 6}, {"query", 3}, {"gov", 2}},
	"C16": {{"faults", 9}, {"gov", 1}},
	"C17": {{"gas", 6}, {"auth", 2}, {"mm", 2}},
	"C18": {{"auth", 9}, {"core", 1}},
	"C19": {{"core", 3}, {"pools", 4}, {"extreme", 3}, {"gov", 2}},
	"C20": {{"query", 8}, {"export", 1}, {"faults", 1}, {"extreme", 1}},
	"C21": {{"query", 5}, {"faults", 3}, {"gov", 3}},
	"C22": {{"export", 10}},
	"C23": {{"gov", 10}},
	"C24": {{"pools", 4}, {"core", 4}, {"gov", 2}},
	"C25": {{"core", 3}, {"pools", 3}, {"mm", 3}, {"gov", 1}, {"extreme", 1}},
	"C26": {{"ibc", 10}},
	"C27": {{"stake", 10}},
}

func profileOf(prop string, seed uint64) string {
	ms, ok := mixes[prop]
	if !ok {
		ms = nil
		for _, p := range profiles {
			ms = append(ms, pw{p, 1})
		}
	}
	t := 0
	for _, m := range ms {
		t += m.w
	}
	x := NewRng(mix(seed, 0x9f0)).N(t)
	for _, m := range ms {
		if x < m.w {
			return m.p
		}
		x -= m.w
	}
	return ms[0].p
}

func seedOf(base uint64, prop string, idx int) uint64 {
	n, _ := strconv.Atoi(strings.TrimPrefix(prop, "C"))
	return mix(base, uint64(n), uint64(idx)) >> 1
}

// ---- worker: runs a slice of the seeds, one JSON line each ----

func workerMain(args []string) {
	prop := args[0]
	base, _ := strconv.ParseUint(args[1], 10, 64)
	from, _ := strconv.Atoi(args[2])
	count, _ := strconv.Atoi(args[3])
	force := ""
	if len(args) > 4 {
		force = args[4]
	}
	rtInit()
	out := bufio.NewWriter(os.Stdout)
	var warm []uint64
	for i := from; i < from+count; i++ {
		seed := seedOf(base, prop, i)
		prof := profileOf(prop, seed)
		if force != "" {
			prof = force
		}
		fmt.Fprintf(out, "START %d\n", i)
		out.Flush()
		t0 := realNow()
		w, rp := runSeed(seed, prof, false)
		o := RunOut{Idx: i, Seed: seed, Profile: prof, Digest: w.digest(), Steps: len(rp.Steps), Halt: w.Halt, Viols: w.Viols, Stats: w.Stats.M, Ms: (realNow() - t0) / 1e6}
		for s := range w.states {
			o.States = append(o.States, strconv.FormatUint(s, 36))
		}
		sort.Strings(o.States)
		if len(w.Viols) > 0 {
			rp.Warmup = append([]uint64{}, warm...)
			rp.Property = prop
			o.Replay = rp
		}
		if i%50 == 0 {
			o.Sample = sampleOf(rp)
		}
		warm = append(warm, seed)
		b, err := json.Marshal(o)
		must(err)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

func sampleOf(rp *Replay) string {
	s := fmt.Sprintf("seed %d profile %s accounts %d nodes %d: ", rp.Seed, rp.Profile, rp.Config.NAcc, len(rp.Config.Nodes))
	for i, st := range rp.Steps {
		if i > 14 || len(s) > 1500 {
			s += fmt.Sprintf("... (%d steps)", len(rp.Steps))
			break
		}
		x := st.String()
		if len(x) > 140 {
			x = x[:140] + "…"
		}
		s += x + " ; "
	}
	return s
}

// ---- the check ----

type known struct{ prop, key, text string }

// loadKnown reads "known: property=<id> key=<key prefix> <what fails>" lines.
func loadKnown(dir string) []known {
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) < 3 || !strings.HasPrefix(f[0], "property=") || !strings.HasPrefix(f[1], "key=") {
			continue
		}
		ks = append(ks, known{f[0][9:], strings.ReplaceAll(f[1][4:], "_", " "), f[2]})
	}
	return ks
}

type tierCfg struct {
	runs    int
	wall    time.Duration
	workers int
	chunk   int
}

func self() string { p, _ := os.Executable(); return p }

func childEnv() []string {
	env := []string{"GOMAXPROCS=1", "GOGC=300", "GODEBUG=asyncpreemptoff=1"}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "PATH=") || strings.HasPrefix(e, "HOME=") || strings.HasPrefix(e, "TMPDIR=") {
			env = append(env, e)
		}
	}
	return env
}

func checkMain(args []string) int {
	// check PROP TIER SEED VERIFDIR [runs]
	prop, tier := args[0], args[1]
	base, _ := strconv.ParseUint(args[2], 10, 64)
	dir := args[3]
	tc := tierCfg{runs: 360, wall: 75 * time.Second, workers: 8, chunk: 12}
	if n := runtime.NumCPU(); n < tc.workers {
		tc.workers = n
	}
	if tier == "thorough" {
		tc = tierCfg{runs: 200000, wall: 45 * time.Minute, workers: runtime.NumCPU(), chunk: 25}
		if v := os.Getenv("SIM_MINUTES"); v != "" {
			m, _ := strconv.Atoi(v)
			tc.wall = time.Duration(m) * time.Minute
		}
	}
	if len(args) > 4 {
		tc.runs, _ = strconv.Atoi(args[4])
	}
	t0 := time.Now()
	ks := loadKnown(dir)
	isKnown := func(v Violation) *known {
		for i := range ks {
			if ks[i].prop == prop && strings.HasPrefix(v.Key, ks[i].key) {
				return &ks[i]
			}
		}
		return nil
	}
	stats := NewStats()
	states := map[string]bool{}
	profs := map[string]int{}
	digests := map[string]bool{}
	var samples []interface{}
	runs := 0
	type cand struct {
		v  Violation
		rp *Replay
	}
	var cands []cand
	seenKey := map[string]bool{}
	knownHit := map[string]string{}
	var trouble []string
	stop := false
	var mu sync.Mutex
	next := 0
	var wg sync.WaitGroup
	deadline := t0.Add(tc.wall)
	for k := 0; k < tc.workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= tc.runs || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				from := next
				cnt := tc.chunk
				if from+cnt > tc.runs {
					cnt = tc.runs - from
				}
				next += cnt
				mu.Unlock()
				err := runChunk(prop, base, from, cnt, deadline, func(o *RunOut) {
					mu.Lock()
					defer mu.Unlock()
					runs++
					profs[o.Profile]++
					digests[o.Digest] = true
					for a, b := range o.Stats {
						stats.M[a] += b
					}
					for _, s := range o.States {
						states[s] = true
					}
					if o.Sample != "" && len(samples) < 4 {
						samples = append(samples, o.Sample)
					}
					for _, v := range o.Viols {
						if !v.Has(prop) {
							continue
						}
						if kn := isKnown(v); kn != nil {
							if knownHit[kn.text] == "" {
								knownHit[kn.text] = fmt.Sprintf("seed %d: %s", o.Seed, v.Msg)
							}
							continue
						}
						if !seenKey[v.Key] {
							seenKey[v.Key] = true
							cands = append(cands, cand{v, o.Replay})
						}
						if tier == "quick" {
							stop = true
						}
					}
				})
				if err != nil {
					mu.Lock()
					trouble = append(trouble, err.Error())
					stop = true
					mu.Unlock()
					return
				}
			}
		}()
	}
	wg.Wait()
	simWall := time.Since(t0)
	code := 0
	nviol := 0
	sort.SliceStable(cands, func(i, j int) bool { return len(cands[i].rp.Steps) < len(cands[j].rp.Steps) })
	for i, c := range cands {
		if i >= 3 {
			break
		}
		path := report(dir, prop, c.v, c.rp)
		fmt.Printf("%s\n", c.v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		nviol++
		code = 1
	}
	if code == 0 && len(trouble) > 0 {
		for _, t := range trouble {
			fmt.Fprintln(os.Stderr, "TROUBLE", t)
		}
		code = 3
		// a step that never ends, or that ends the whole process: confirm alone, in a fresh process
		if path := confirmStuck(dir, prop, trouble); path != "" {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			nviol++
			code = 1
		}
	}
	for _, k := range sortedStr(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	for _, k := range ks {
		if k.prop == prop && knownHit[k.text] == "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s (listed; not met in this run)\n", prop, k.text)
		}
	}
	wall := time.Since(t0).Seconds()
	writeEvidence(dir, prop, tier, base, runs, stats, states, digests, profs, samples, simWall.Seconds(), wall, nviol, knownHit, ks)
	fmt.Printf("%s: %d runs, %d distinct, %d batch states, %.0f s\n", prop, runs, len(digests), len(states), wall)
	return code
}

// runChunk runs one worker process; a run that takes too long is reported as HANG.
func runChunk(prop string, base uint64, from, cnt int, deadline time.Time, f func(*RunOut)) error {
	cmd := exec.Command(self(), "worker", prop, fmt.Sprint(base), fmt.Sprint(from), fmt.Sprint(cnt))
	cmd.Env = childEnv()
	var errb bytes.Buffer
	cmd.Stderr = &errb
	pipe, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	lines := make(chan []byte)
	go func() {
		rd := bufio.NewReaderSize(pipe, 1<<20)
		for {
			l, err := rd.ReadBytes('\n')
			if len(l) > 0 {
				lines <- l
			}
			if err != nil {
				close(lines)
				return
			}
		}
	}()
	cur := -1
	got := 0
	timeout := time.NewTimer(runLimit)
	defer timeout.Stop()
	for {
		select {
		case l, ok := <-lines:
			if !ok {
				err := cmd.Wait()
				if got == cnt && err == nil {
					return nil
				}
				tail := errb.String()
				if len(tail) > 1500 {
					tail = tail[:700] + " ... " + tail[len(tail)-700:]
				}
				if x, ok := err.(*exec.ExitError); ok && x.ExitCode() > 0 && cur >= 0 {
					return fmt.Errorf("DIED %s %d %d: %v: %s", prop, base, cur, err, tail)
				}
				return fmt.Errorf("worker %s %d died in run %d: %v: %s", prop, base, cur, err, tail)
			}
			timeout.Reset(runLimit)
			if bytes.HasPrefix(l, []byte("START ")) {
				cur, _ = strconv.Atoi(strings.TrimSpace(string(l[6:])))
				if time.Now().After(deadline) {
					cmd.Process.Kill()
					for range lines {
					}
					cmd.Wait()
					return nil
				}
				continue
			}
			var o RunOut
			if err := json.Unmarshal(l, &o); err != nil {
				return fmt.Errorf("worker output: %v: %s", err, cut(string(l)))
			}
			got++
			f(&o)
		case <-timeout.C:
			cmd.Process.Kill()
			for range lines {
			}
			cmd.Wait()
			return fmt.Errorf("HANG %s %d %d: a run took longer than %s", prop, base, cur, runLimit)
		}
	}
}

var runLimit = 150 * time.Second

func contains(l []string, x string) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

func confirmStuck(dir, prop string, trouble []string) string {
	for _, t := range trouble {
		var p string
		var base uint64
		var idx int
		key := ""
		for _, k := range []string{"HANG", "DIED"} {
			if n, _ := fmt.Sscanf(strings.Replace(t, ":", " ", 1), k+" %s %d %d ", &p, &base, &idx); n == 3 {
				key = strings.ToLower(k)
			}
		}
		if key == "" {
			continue
		}
		seed := seedOf(base, prop, idx)
		got, last := runAlone(seed, profileOf(prop, seed))
		if got != key || !contains(stuckProps(last), prop) {
			continue
		}
		msg := "a step never returns: the simulated chain stops"
		if key == "died" {
			msg = "a step ends the whole process"
		}
		path := filepath.Join(dir, "evidence", "replays", fmt.Sprintf("%s-%s.json", prop, key))
		os.MkdirAll(filepath.Dir(path), 0o755)
		b, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "key": key, "seed": seed, "profile": profileOf(prop, seed), "message": msg + " (confirmed in a second process)", "last_step": last}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("%s: %s\n", msg, last)
		return path
	}
	return ""
}

// stuckProps: whom a step concerns that stops the process.
func stuckProps(last string) []string {
	switch {
	case strings.Contains(last, `"export"`):
		return P("C22", "C27")
	case strings.Contains(last, `"query"`):
		return P("C20")
	case strings.Contains(last, `"start"`), strings.Contains(last, `"crash"`):
		return P("C16")
	}
	return P("C19", "C14")
}

// runAlone runs a seed in a process of its own: "", "hang" or "died", and the last step begun.
func runAlone(seed uint64, prof string) (string, string) {
	cmd := exec.Command(self(), "run", fmt.Sprint(seed), prof, "v")
	cmd.Env = childEnv()
	var ob bytes.Buffer
	cmd.Stdout = &ob
	if cmd.Start() != nil {
		return "", ""
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	r := ""
	select {
	case err := <-done:
		if x, ok := err.(*exec.ExitError); ok && x.ExitCode() > 0 {
			r = "died"
		}
	case <-time.After(100 * time.Second):
		cmd.Process.Kill()
		<-done
		r = "hang"
	}
	last := ""
	for _, l := range strings.Split(ob.String(), "\n") {
		if stepLine.MatchString(l) {
			last = l
		}
	}
	return r, last
}

var stepLine = regexp.MustCompile(`^\d+ \{`)

// report confirms a violation in a fresh process, minimises it and writes the replay file.
func report(dir, prop string, v Violation, rp *Replay) string {
	d := filepath.Join(dir, "evidence", "replays")
	must(os.MkdirAll(d, 0o755))
	h := sha256.Sum256([]byte(prop + v.Key))
	path := filepath.Join(d, fmt.Sprintf("%s-%s.json", prop, hex.EncodeToString(h[:4])))
	rp.Property, rp.Key, rp.Message = prop, v.Key, v.Msg
	warm := rp.Warmup
	rp.Warmup = nil
	writeReplay(path, rp)
	if !replays(path) {
		rp.Warmup = warm
		writeReplay(path, rp)
		fmt.Fprintf(os.Stderr, "note: needs its warm-up runs to replay\n")
		return path
	}
	cmd := exec.Command(self(), "min", path)
	cmd.Env = childEnv()
	cmd.Stderr = os.Stderr
	full, _ := os.ReadFile(path)
	cmd.Run()
	if !replays(path) {
		os.WriteFile(path, full, 0o644)
	}
	return path
}

func replays(path string) bool {
	cmd := exec.Command(self(), "replay", path)
	cmd.Env = childEnv()
	done := make(chan error, 1)
	if cmd.Start() != nil {
		return false
	}
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
		return cmd.ProcessState.ExitCode() == 1
	case <-time.After(100 * time.Second):
		cmd.Process.Kill()
		<-done
		return false
	}
}

func writeReplay(path string, rp *Replay) {
	b, err := json.MarshalIndent(rp, "", " ")
	must(err)
	must(os.WriteFile(path, b, 0o644))
}

func readReplay(path string) *Replay {
	b, err := os.ReadFile(path)
	must(err)
	var rp Replay
	must(json.Unmarshal(b, &rp))
	return &rp
}

func minMain(path string) {
	rp := readReplay(path)
	rtInit()
	end := realNow() + int64(envInt("SIM_MIN_SECS", 50))*int64(time.Second)
	fails := func(steps []Step) (*Violation, bool) {
		q := *rp
		q.Steps = steps
		v := runSteps(&q, false).has(rp.Property, rp.Key)
		return v, v != nil
	}
	v, ok := fails(rp.Steps)
	if !ok {
		return
	}
	best := rp.Steps
	try := func(s []Step) bool {
		if realNow() > end {
			return false
		}
		x, ok := fails(s)
		if ok {
			v, best = x, s
		}
		return ok
	}
	if v.Step+1 < len(best) {
		try(append([]Step{}, best[:v.Step+1]...))
	}
	for n := 2; len(best) > 1 && realNow() < end; {
		size := (len(best) + n - 1) / n
		red := false
		for i := 0; i < len(best); i += size {
			j := i + size
			if j > len(best) {
				j = len(best)
			}
			c := append(append([]Step{}, best[:i]...), best[j:]...)
			if len(c) > 0 && try(c) {
				red = true
				break
			}
			if realNow() > end {
				break
			}
		}
		if red {
			if n > 2 {
				n--
			}
			continue
		}
		if size == 1 {
			break
		}
		n *= 2
		if n > len(best) {
			n = len(best)
		}
	}
	// inside the steps: drop messages, references, interruptions
	for i := 0; i < len(best) && realNow() < end; i++ {
		st := best[i]
		shrink := func(m Step) {
			c := append([]Step{}, best...)
			c[i] = m
			try(c)
		}
		for k := 0; k < len(st.Msgs) && len(best[i].Msgs) > 1; k++ {
			m := best[i]
			if k < len(m.Msgs) {
				m.Msgs = append(append([]Msg{}, m.Msgs[:k]...), m.Msgs[k+1:]...)
				shrink(m)
			}
		}
		for k := len(st.Txs) - 1; k >= 0; k-- {
			m := best[i]
			if k < len(m.Txs) {
				m.Txs = append(append([]Ref{}, m.Txs[:k]...), m.Txs[k+1:]...)
				shrink(m)
			}
		}
		if len(st.Ints) > 0 {
			m := best[i]
			m.Ints = nil
			shrink(m)
		}
		if st.Kill != "" {
			m := best[i]
			m.Kill, m.At, m.Keep = "", 0, 0
			shrink(m)
		}
	}
	rp.Steps = best
	rp.Message = v.Msg
	writeReplay(path, rp)
}

func replayMain(path string, verbose bool) int {
	rp := readReplay(path)
	rtInit()
	if len(rp.Steps) == 0 && (rp.Key == "hang" || rp.Key == "died") {
		got, last := runAlone(rp.Seed, rp.Profile)
		fmt.Println(got, last)
		if got == rp.Key {
			fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	w := runSteps(rp, verbose)
	for _, v := range w.Viols {
		fmt.Printf("%v %s: %s (step %d, height %d)\n", v.Props, v.Key, v.Msg, v.Step, v.Height)
	}
	fmt.Println("digest", w.digest())
	if rp.Key == "" {
		if len(w.Viols) > 0 {
			return 1
		}
		return 0
	}
	if v := w.has(rp.Property, rp.Key); v != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

func writeEvidence(dir, prop, tier string, base uint64, runs int, st *Stats, states, digests map[string]bool, profs map[string]int, samples []interface{}, simWall, wall float64, nviol int, knownHit map[string]string, ks []known) {
	faults := map[string]int64{}
	ops := map[string]int64{}
	for _, k := range st.Keys() {
		if strings.HasPrefix(k, "fault_") {
			faults[k[6:]] = st.M[k]
		} else if !strings.HasPrefix(k, "viol_") && k != "sim_ms" {
			ops[k] = st.M[k]
		}
	}
	if len(samples) == 0 {
		samples = []interface{}{"no run finished"}
	}
	per := 0.0
	if simWall > 0 {
		per = float64(runs) / simWall * 3600
	}
	var kn []string
	for _, k := range ks {
		if k.prop == prop {
			kn = append(kn, k.text+" — "+knownHit[k.text])
		}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": int64(base), "level": "exploration",
		"wall_s": wall, "violations": nviol,
		"coverage": map[string]interface{}{
			"evaluations": runs, "distinct_nontrivial": len(digests),
			"rule":                          "one evaluation is one simulated run of the real application (one seed: random parameters, accounts, transactions, block contents, node faults), judged after every block; runs are distinct when their chain of app hashes, results, fault counts and node states differ, and every run executes blocks with signed transactions",
			"samples":                       samples,
			"simulated_runs_per_hour":       per,
			"seeds_per_hour":                per,
			"simulated_time_s":              float64(st.M["sim_ms"]) / 1000,
			"simulated_blocks":              st.M["blocks"],
			"faults_injected":               faults,
			"operations":                    ops,
			"distinct_batch_states":         len(states),
			"distinct_batch_states_measure": "hash of the shape of a market's batch: number of orders per side, levels and types, pools and their kinds, crossing, price change direction, fills, expiries",
			"runs_per_profile":              profs,
			"real_components":               "defund app (all modules, ante handler, baseapp, IAVL multistore, dex module) in this process",
			"stubbed_components":            "consensus and network (blocks are delivered by the simulator), disk (journaled in-memory store with unsynced-write loss), wall clock, process randomness",
			"known_findings_met":            kn,
		},
		"assumptions": []string{"sampling: a clean batch is evidence, not proof", "consensus delivers the same decided blocks to all nodes"},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(dir, "evidence"), 0o755))
	must(os.WriteFile(filepath.Join(dir, "evidence", prop+".json"), b, 0o644))
}
