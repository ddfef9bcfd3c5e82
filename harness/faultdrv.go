//go:build go1.22

package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/log"
)

// Faults of the store while a list operation runs.
type faulter struct {
	rng   *rand.Rand
	kind  string // "", get, set, del
	nth   int    // first failing access
	count int    // number of failing ones
	prob  int    // or at random
	seen  int
	hit   int
}

func (f *faulter) fault(op, set, key string) error {
	if f.kind != "" && op != f.kind {
		return nil
	}
	f.seen++
	fail := f.prob > 0 && f.rng.Intn(100) < f.prob
	if f.nth > 0 && f.seen >= f.nth && f.seen < f.nth+f.count {
		fail = true
	}
	if !fail {
		return nil
	}
	f.hit++
	return errInjected
}

// limWriter fails after a number of bytes.
type limWriter struct {
	lim    int
	buf    bytes.Buffer
	failed bool
}

func (l *limWriter) Write(b []byte) (int, error) {
	if l.lim >= 0 && l.buf.Len()+len(b) > l.lim {
		l.failed = true
		return 0, errInjected
	}
	return l.buf.Write(b)
}

func (w *world) newFaulter() *faulter {
	r := w.rng
	f := &faulter{rng: rand.New(rand.NewSource(r.Int63())), kind: pick(r, []string{"", "get", "set", "set", "del"})}
	switch r.Intn(4) {
	case 0, 1:
		f.nth, f.count = 1+r.Intn(8), 1
	case 2:
		f.nth, f.count = 1+r.Intn(6), 1000
	default:
		f.prob = 5 + r.Intn(60)
	}
	return f
}

// call runs one operation with or without failing storage.
func (w *world) call(e Ev, faults bool, fn func()) {
	curOp.Store(fmt.Sprint(e["ev"]))
	f := &faulter{}
	if faults {
		f = w.newFaulter()
		w.st.setFault(f.fault)
	}
	p := guard(fn)
	w.st.setFault(nil)
	e["nf"] = f.hit
	if p != "" {
		e["ev"] = "panic"
		e["err"] = p
		w.tr.add(e)
		w.tr.flush()
		exitNow()
	}
	w.tr.add(e)
	if k := e["k"].(int); w.lists[k] != nil {
		if err := w.lists[k].VerifyUnlocked(w.ctx, 20*time.Second); err != nil {
			w.tr.add(Ev{"ev": "stuck", "k": k, "err": errText(err)})
			w.tr.flush()
			exitNow()
		}
	}
}

func (w *world) dump(k int, faults bool) {
	l := w.lists[k]
	e := Ev{"ev": "dump", "k": k}
	w.call(e, faults, func() {
		els, err := l.GetRankTop(w.ctx, w.bs, 0, 1000)
		e["res"], e["err"], e["els"] = errClass(err), errText(err), elsJ(els)
	})
}

func (w *world) faultStep(what string, faults bool) {
	r := w.rng
	ks := make([]int, 0)
	for k := 1; k <= len(w.lists); k++ {
		ks = append(ks, k)
	}
	k := pick(r, ks)
	l := w.lists[k]
	defer w.callCtx()()
	ctx, bs := w.ctx, w.bs
	switch what {
	case "upd":
		els := w.batch(w.someIDs(k, 1+r.Intn(5), -1))
		radius, results := r.Intn(3), r.Intn(3) > 0
		e := Ev{"ev": "upd", "k": k, "els": elsJ(els), "radius": radius, "results": results}
		w.call(e, faults, func() {
			res, err := l.UpdateElements(ctx, bs, els, radius, results)
			e["res"], e["err"], e["out"] = errClass(err), errText(err), rankedsJ(res)
		})
		w.have(k, els)
	case "ins":
		els := w.batch(w.someIDs(k, 1+r.Intn(4), 0))
		e := Ev{"ev": "ins", "k": k, "els": elsJ(els)}
		w.call(e, faults, func() {
			err := l.Insert(ctx, bs, els)
			e["res"], e["err"] = errClass(err), errText(err)
		})
		w.have(k, els)
	case "del":
		ids := w.someIDs(k, 1+r.Intn(4), 1)
		var x []rankdb.ElementID
		for _, id := range ids {
			x = append(x, rankdb.ElementID(id))
		}
		e := Ev{"ev": "del", "k": k, "ids": idsJ(x)}
		w.call(e, faults, func() {
			err := l.DeleteElements(ctx, bs, x)
			e["res"], e["err"] = errClass(err), errText(err)
			if err == nil {
				for _, id := range ids {
					delete(w.model[k], id)
				}
			}
		})
	case "pop":
		els := w.batch(w.someIDs(k, 1+r.Intn(len(w.ids)), -1))
		e := Ev{"ev": "pop", "k": k, "els": elsJ(els)}
		w.call(e, faults, func() {
			err := l.Populate(ctx, bs, els)
			e["res"], e["err"] = errClass(err), errText(err)
			if err == nil {
				w.model[k] = map[uint64]bool{}
			}
		})
		w.have(k, els)
	case "get":
		ids := w.someIDs(k, 1+r.Intn(len(w.ids)), -1)
		var x []rankdb.ElementID
		for _, id := range ids {
			x = append(x, rankdb.ElementID(id))
		}
		radius := r.Intn(4)
		e := Ev{"ev": "get", "k": k, "ids": idsJ(x), "radius": radius}
		w.call(e, faults, func() {
			res, err := l.GetElements(ctx, bs, x, radius)
			e["res"], e["err"], e["out"] = errClass(err), errText(err), rankedsJ(res)
		})
	case "full":
		w.dump(k, faults)
	case "top", "bottom", "score":
		off, n := r.Intn(4), 1+r.Intn(10)
		s := pick(r, w.scs)
		e := Ev{"ev": what, "k": k, "off": off, "n": n, "s": scTab.of(s)}
		w.call(e, faults, func() {
			var els rankdb.Elements
			var err error
			switch what {
			case "top":
				els, err = l.GetRankTop(ctx, bs, off, n)
			case "bottom":
				els, err = l.GetRankBottom(ctx, bs, off, n)
			default:
				var res rankdb.RankedElements
				res, err = l.GetRankScoreDesc(ctx, bs, s, n)
				for _, x := range res {
					els = append(els, x.Element)
				}
			}
			e["res"], e["err"], e["els"] = errClass(err), errText(err), elsJ(els)
		})
	case "pct", "stats":
		k16, radius := r.Intn(17), r.Intn(4)
		e := Ev{"ev": what, "k": k, "k16": k16, "radius": radius}
		w.call(e, faults, func() {
			out := []Ev{}
			var err error
			if what == "pct" {
				var res *rankdb.RankedElement
				res, err = l.GetPercentile(ctx, bs, float64(k16)/16, radius)
				if res != nil {
					out = append(out, rankedJ(*res))
				}
			} else {
				var res *rankdb.ListStats
				res, err = l.Stats(ctx, bs, true)
				if res != nil && res.Top != nil && res.Bottom != nil {
					out = append(out, rankedJ(*res.Top), rankedJ(*res.Bottom))
				}
			}
			e["res"], e["err"], e["out"] = errClass(err), errText(err), out
		})
	case "backup":
		// to a destination that may fail, with metadata that makes the list fill the buffers
		pad := make([]byte, r.Intn(4100))
		l.Lock()
		l.Metadata = map[string]string{"pad": string(pad)}
		l.Unlock()
		out := &limWriter{lim: -1}
		if r.Intn(2) == 0 {
			out.lim = r.Intn(7000)
		}
		e := Ev{"ev": "backup", "k": k}
		w.call(e, faults, func() {
			m := rankdb.NewWriterMsg()
			m.ReplaceWriter(out)
			err := l.Backup(ctx, bs, m)
			if ferr := m.Writer().Flush(); err == nil {
				err = ferr
			}
			m.Close()
			e["res"], e["err"], e["wf"], e["good"] = errClass(err), errText(err), out.failed, true
			els := rankdb.Elements{}
			if err == nil {
				tmp := newRecStore()
				nl, err := rankdb.RestoreList(ctx, tmp, rankdb.NewReaderMsgp(out.buf.Bytes()), nil, nil)
				if err == nil {
					els, err = nl.GetRankTop(ctx, tmp, 0, 1000)
				}
				e["good"] = err == nil || err == rankdb.ErrOffsetOutOfBounds
			}
			e["els"] = elsJ(els)
		})
	case "heal":
		e := Ev{"ev": "heal", "k": k}
		clear := r.Intn(2) == 0
		w.call(e, false, func() {
			err := l.Repair(ctx, bs, clear)
			if err == nil {
				err = l.Verify(ctx, bs)
			}
			if err == nil {
				err = l.VerifyElements(ctx, bs)
			}
			els := rankdb.Elements{}
			if err == nil {
				els, err = l.GetRankTop(ctx, bs, 0, 1000)
				if err == rankdb.ErrOffsetOutOfBounds {
					err = nil
				}
			}
			e["res"], e["err"], e["els"], e["post"] = errClass(err), errText(err), elsJ(els), structOf(w.st, l)
			w.model[k] = map[uint64]bool{}
			w.have(k, els)
		})
	default:
		clear := what == "repair" && r.Intn(3) == 0
		e := Ev{"ev": "maint", "what": what, "k": k, "clear": clear}
		w.call(e, faults, func() {
			var err error
			switch what {
			case "split":
				err = l.ForceSplit(ctx, bs)
			case "reindex":
				err = l.Reindex(ctx, bs)
			case "repair":
				err = l.Repair(ctx, bs, clear)
			case "verify":
				err = l.Verify(ctx, bs)
			case "verifyE":
				err = l.VerifyElements(ctx, bs)
			case "release":
				l.ReleaseSegments(ctx)
			}
			e["res"], e["err"] = errClass(err), errText(err)
		})
	}
}

var faultWeights = map[string]int{"upd": 30, "ins": 10, "del": 14, "get": 14, "full": 6, "top": 3, "bottom": 3, "score": 4, "pct": 4, "stats": 3,
	"split": 12, "reindex": 4, "repair": 4, "verify": 1, "verifyE": 2, "release": 12, "pop": 1, "backup": 8}

func init() {
	modes["fault"] = func(tr *Trace) {
		tr.add(tablesEv())
		for ep := 0; ep < *fN; ep++ {
			seed := *fSeed*1000003 + int64(ep)
			w := newWorld(tr, seed, profile{})
			r := w.rng
			w.ctx = log.WithLogger(context.Background(), log.NullLogger())
			w.newManager(pick(r, []string{"none", "big", "small", "evil"}))
			lists := []interface{}{}
			for k := 1; k <= 1+r.Intn(2); k++ {
				sz := pick(r, concSizes)
				l, err := rankdb.NewList(w.ctx, rankdb.ListID(fmt.Sprint("list", k)), pick(r, []string{"s1", "s2"}), w.bs,
					rankdb.WithListOption.MergeSplitSize(sz[0], sz[1]), rankdb.WithListOption.LoadIndex(r.Intn(2) == 0), rankdb.WithListOption.Cache(w.cache))
				must(err)
				w.m.Lists.Add(l)
				w.lists[k] = l
				w.model[k] = map[uint64]bool{}
				els := w.batch(w.someIDs(k, r.Intn(len(w.ids)+1), 0))
				lists = append(lists, elsJ(els))
				must(l.Populate(w.ctx, w.bs, els))
				must(l.ForceSplit(w.ctx, w.bs))
				w.have(k, els)
			}
			tr.add(Ev{"ev": "begin", "lists": lists})
			for i := 0; i < *fOps; i++ {
				what := choose(r, faultWeights)
				faults := r.Intn(3) == 0 && what != "release"
				w.faultStep(what, faults)
				if r.Intn(3) == 0 {
					w.dump(1+r.Intn(len(w.lists)), false)
				}
				if r.Intn(8) == 0 {
					w.faultStep("heal", false)
				}
			}
			for range w.lists {
				w.faultStep("heal", false)
			}
		}
	}
}
