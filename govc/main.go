package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc fn NAME... | prop ID | list")
		os.Exit(2)
	}
	if f := os.Getenv("GOVC_PROF"); f != "" {
		o, _ := os.Create(f)
		pprof.StartCPUProfile(o)
		go func() {
			time.Sleep(60 * time.Second)
			pprof.StopCPUProfile()
			o.Close()
		}()
	}
	os.Exit(runMain(os.Args[1], os.Args[2:]))
}
