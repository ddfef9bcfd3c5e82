//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	shutdown "github.com/klauspost/shutdown2"
)

// A server that is started, used, stopped while it is used, and started again
// on what it stored. Each life of it is a process of its own.

// lifeState is what the next life has to know.
type lifeState struct {
	Last    []map[string]interface{}
	Pending []lifeCall
}

// lifeCall is a request made while the server was stopped.
type lifeCall struct {
	Method string
	Lists  []int
	Ev     Ev
}

func lifeOpts(rng *rand.Rand, storage string) apiOpts {
	o := apiOpts{storage: storage}
	if rng.Intn(2) == 0 {
		o.cache, o.cacheType = 8+rng.Intn(50), pick(rng, []string{"ARC", "LRU", "LRU2Q"})
	}
	if rng.Intn(3) > 0 {
		o.lazy, o.lazyTime = true, pick(rng, []string{"", "1h", "1h", "5ms"})
		o.lazyItems = pick(rng, []int{0, 8, 1000, 1000})
	}
	if rng.Intn(3) == 0 {
		o.maxUpdates = 1 + rng.Intn(2)
	}
	o.save = pick(rng, []string{"", "", "20ms"})
	o.prune = pick(rng, []string{"", "15ms"})
	if rng.Intn(2) == 0 {
		o.backup, o.every = pick(rng, []string{"Master", map[string]string{"BoltDB": "Badger", "Badger": "BoltDB"}[storage]}), 1+rng.Intn(2)
	}
	if rng.Intn(3) == 0 {
		o.retry = "10s"
	}
	return o
}

func init() {
	modes["restart"] = func(tr *Trace) {
		tr.add(Ev{"ev": "tables", "jwt": false, "scopes": scopeOf, "cfg": "",
			"names": apiLists, "suffixed": renames(false, true), "prefixed": renames(true, false), "both": renames(true, true)})
		rng := rand.New(rand.NewSource(*fSeed))
		for ep := 0; ep < *fN; ep++ {
			dir := filepath.Join(*fDir, fmt.Sprint("chain", ep))
			must(os.MkdirAll(dir, 0o755))
			storage := pick(rng, []string{"BoltDB", "Badger"})
			tr.add(Ev{"ev": "begin", "post": []int{}})
			for life, n := 0, 2+rng.Intn(4); life < n; life++ {
				part := filepath.Join(dir, "part")
				curOp.Store(fmt.Sprint("life ", life))
				cmd := exec.Command(os.Args[0], "-mode", "life", "-seed", fmt.Sprint(rng.Int63()), "-dir", dir, "-out", part,
					"-script", fmt.Sprintf("%s %d", storage, *fSeed+int64(ep)), "-ops", fmt.Sprint(*fOps), "-watchdog", fmt.Sprint(*fLimit))
				cmd.Stdout, cmd.Stderr = os.Stderr, os.Stderr
				err := cmd.Run()
				if b, e := os.ReadFile(part); e == nil {
					for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
						var ev Ev
						if json.Unmarshal([]byte(l), &ev) == nil {
							tr.add(ev)
						}
					}
				}
				os.Remove(part)
				if err != nil {
					tr.flush()
					if x, ok := err.(*exec.ExitError); ok && x.ExitCode() > 0 {
						os.Exit(x.ExitCode())
					}
					fmt.Fprintln(os.Stderr, err)
					os.Exit(3)
				}
			}
			os.RemoveAll(dir)
		}
	}

	modes["life"] = func(tr *Trace) {
		rawUpd = true
		shutdown.Logger = log.New(io.Discard, "", 0)
		f := strings.Fields(*fIn)
		words, err := strconv.ParseInt(f[1], 10, 64)
		must(err)
		d := &apiDrv{tr: tr, dir: *fDir, rng: rand.New(rand.NewSource(words)), toks: map[string]string{}, plain: map[int]bool{}}
		d.vocabulary()
		d.rng = rand.New(rand.NewSource(*fSeed))
		o := lifeOpts(d.rng, f[0])
		curOp.Store("start")
		d.s = startAPI(*fDir, o)

		// What was there before?
		var st lifeState
		if b, err := os.ReadFile(filepath.Join(*fDir, "state.json")); err == nil {
			must(json.Unmarshal(b, &st))
		}
		d.last = d.dump()
		var runs []*aRun
		for _, p := range st.Pending {
			runs = append(runs, &aRun{method: p.Method, lists: p.Lists, ev: p.Ev})
		}
		blend(st.Last, d.last, runs)
		for _, x := range runs {
			tr.add(x.ev)
		}
		tr.add(Ev{"ev": "start", "post": d.last, "cfg": fmt.Sprintf("%+v", o)})

		next := func() *aCall { return d.rndCall(apiMix["restart"]) }
		for i, n := 0, d.rng.Intn(*fOps+1); i < n; i++ {
			if d.rng.Intn(5) == 0 {
				k := 2 + d.rng.Intn(5)
				d.together(k, next)
				i += k - 1
				continue
			}
			d.call(next())
		}

		// Stop, while there are requests.
		runs = d.disjoint(d.rng.Intn(7), next)
		curOp.Store("stop")
		var wg sync.WaitGroup
		for _, x := range runs {
			wait := time.Duration(d.rng.Intn(4000)) * time.Microsecond
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(wait)
				d.send(x)
			}()
		}
		time.Sleep(time.Duration(d.rng.Intn(4000)) * time.Microsecond)
		shutdown.Shutdown()
		wg.Wait()
		st = lifeState{Last: d.last}
		for i, late := range append(runs, d.disjoint(1, next)...) {
			if i >= len(runs) {
				d.send(late)
			}
			d.note(late)
			late.ev["stop"], late.ev["late"] = true, i >= len(runs)
			st.Pending = append(st.Pending, lifeCall{Method: late.method, Lists: late.lists, Ev: late.ev})
		}
		b, err := json.Marshal(st)
		must(err)
		must(os.WriteFile(filepath.Join(*fDir, "state.json"), b, 0o644))
	}
}
