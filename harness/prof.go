package main

import (
	"os"
	"runtime/pprof"
)

func startProf() func() {
	f := os.Getenv("VP_PROF")
	if f == "" {
		return func() {}
	}
	w, _ := os.Create(f)
	pprof.StartCPUProfile(w)
	return func() { pprof.StopCPUProfile(); w.Close() }
}
