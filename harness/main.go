//go:build go1.22

package main

import (
	"flag"
	"fmt"
	"os"
	"time"
)

var (
	fMode  = flag.String("mode", "", "driver")
	fSeed  = flag.Int64("seed", 1, "seed")
	fN     = flag.Int("n", 10, "episodes")
	fOut   = flag.String("out", "", "trace file")
	fProf  = flag.String("profile", "", "profile")
	fIn    = flag.String("script", "", "behaviours generated from the specification")
	fLimit = flag.Duration("watchdog", 60*time.Second, "no progress limit")
	fOps   = flag.Int("ops", 50, "operations in an episode")
	fDir   = flag.String("dir", "", "scratch directory")
)

func exitNow() { os.Exit(0) }

func main() {
	flag.Parse()
	tr := &Trace{file: *fOut}
	watchdog(tr, *fLimit)
	fn, ok := modes[*fMode]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown mode")
		os.Exit(3)
	}
	fn(tr)
	tr.flush()
}

var modes = map[string]func(*Trace){}
