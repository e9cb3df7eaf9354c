package main

import (
	"fmt"
	"os"
	"strconv"
)

var dbgF *os.File

func init() {
	if p := os.Getenv("SIM_TRACE"); p != "" {
		dbgF, _ = os.Create(p)
	}
}

// dbg writes a line of the execution trace (only when SIM_TRACE is set).
func dbg(f string, a ...interface{}) {
	if dbgF != nil {
		fmt.Fprintf(dbgF, f+"\n", a...)
	}
}

// envInt reads a number from the environment.
func envInt(k string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return def
}
