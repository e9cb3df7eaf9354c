package main

import (
	"aaa"
	"fmt"
	"os"
	"runtime/pprof"
	"strconv"
)

func main() {
	dbg("main rand %x", aaa.Rand())
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim check|worker|run|replay|min ...")
		os.Exit(2)
	}
	a := os.Args[2:]
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(a))
	case "worker":
		workerMain(a)
	case "run": // run SEED PROFILE [v]
		seed, _ := strconv.ParseUint(a[0], 10, 64)
		rtInit()
		if p := os.Getenv("SIM_PROF"); p != "" {
			f, _ := os.Create(p)
			_ = pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
		t0 := realNow()
		w, rp := runSeed(seed, a[1], len(a) > 2)
		if len(a) > 3 {
			writeReplay(a[3], rp)
		}
		for _, k := range w.Stats.Keys() {
			fmt.Printf("  %s=%d\n", k, w.Stats.M[k])
		}
		for _, v := range w.Viols {
			fmt.Printf("%v %s: %s (step %d, height %d)\n", v.Props, v.Key, v.Msg, v.Step, v.Height)
		}
		fmt.Printf("digest %s, %d steps, %d states, %d ms\n", w.digest(), len(rp.Steps), len(w.states), (realNow()-t0)/1e6)
	case "replay":
		os.Exit(replayMain(a[0], len(a) > 1))
	case "min":
		minMain(a[0])
	default:
		os.Exit(2)
	}
}
