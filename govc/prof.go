package main

import (
	"os"
	"runtime/pprof"
	"time"
)

// profile writes a CPU profile when GOVC_PROF names a file (development only).
func profile() func() {
	p := os.Getenv("GOVC_PROF")
	if p == "" {
		return func() {}
	}
	f, err := os.Create(p)
	if err != nil {
		return func() {}
	}
	pprof.StartCPUProfile(f)
	return func() { pprof.StopCPUProfile(); f.Close() }
}

func init() {
	if os.Getenv("GOVC_STACKS") == "" {
		return
	}
	go func() {
		for {
			time.Sleep(20 * time.Second)
			os.Stderr.WriteString("=== STACKS\n")
			pprof.Lookup("goroutine").WriteTo(os.Stderr, 1)
		}
	}()
}
