//go:build go1.22

package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/log"
)

// opStore is the store given to one operation: it can stop the operation at any access to the store.
type opStore struct {
	bs      blobstore.Store
	mu      sync.Mutex
	n       int
	stopAt  int // stop at the n-th access, 0: never
	kind    string
	stopped chan struct{} // closed when the operation stopped
	release chan struct{}
	jitter  func() time.Duration
}

func (s *opStore) at(op string) {
	s.mu.Lock()
	if s.kind == "" || s.kind == op {
		s.n++
	}
	stop := s.stopAt > 0 && s.n == s.stopAt && (s.kind == "" || s.kind == op)
	if stop {
		s.stopAt = 0
	}
	s.mu.Unlock()
	if stop {
		close(s.stopped)
		<-s.release
		return
	}
	if s.jitter != nil {
		if d := s.jitter(); d > 0 {
			time.Sleep(d)
		} else if d < 0 {
			runtime.Gosched()
		}
	}
}

func (s *opStore) Get(ctx context.Context, set, key string) ([]byte, error) {
	s.at("get")
	return s.bs.Get(ctx, set, key)
}
func (s *opStore) Set(ctx context.Context, set, key string, val []byte) error {
	s.at("set")
	return s.bs.Set(ctx, set, key, val)
}
func (s *opStore) Delete(ctx context.Context, set, key string) error {
	s.at("del")
	return s.bs.Delete(ctx, set, key)
}

type concEp struct {
	*epTrace
	w       *world
	seed    int64
	shared  []uint64
	private map[int][]uint64 // by process
	has     map[int]map[uint64]bool
	nclone  atomic.Int64
	failed  atomic.Bool
}

var concSizes = [][2]int{{1, 2}, {1, 3}, {2, 4}, {3, 6}, {2, 4}, {4, 8}, {10, 20}}

func newConcEp(seed int64, ep *epTrace, nl int) *concEp {
	// the world is used for its values only
	w := newWorld(nil, seed, prof("map"))
	w.ctx = log.WithLogger(context.Background(), log.NullLogger())
	x := &concEp{epTrace: ep, w: w, seed: seed, private: map[int][]uint64{}, has: map[int]map[uint64]bool{}}
	r := w.rng
	perm := r.Perm(len(idTab.vals))
	n := 3 + r.Intn(6)
	for i := 0; i < n; i++ {
		x.shared = append(x.shared, idTab.vals[perm[i]])
	}
	for p := 1; p <= 5; p++ {
		x.private[p] = []uint64{idTab.vals[perm[n+p]], idTab.vals[perm[n+p+6]]}
		for k := 1; k <= 2; k++ {
			x.has[p*10+k] = map[uint64]bool{}
		}
	}
	w.newManager(pick(r, []string{"none", "none", "big", "small", "evil"}))
	if c, ok := w.cache.(*evilCache); ok {
		w.cache = &lockedCache{c: c}
		must(w.m.NewLists(w.cache))
	}
	lists := []interface{}{}
	for k := 1; k <= nl; k++ {
		sz := pick(r, concSizes)
		l, err := rankdb.NewList(w.ctx, rankdb.ListID(fmt.Sprint("list", k)), pick(r, []string{"s1", "s2"}), w.bs,
			rankdb.WithListOption.MergeSplitSize(sz[0], sz[1]), rankdb.WithListOption.LoadIndex(r.Intn(2) == 0), rankdb.WithListOption.Cache(w.cache))
		must(err)
		w.m.Lists.Add(l)
		w.lists[k] = l
		var ids []uint64
		for _, id := range x.shared {
			if r.Intn(4) > 0 {
				ids = append(ids, id)
			}
		}
		els := w.batch(ids)
		lists = append(lists, elsJ(els))
		must(l.Populate(w.ctx, w.bs, els))
		must(l.ForceSplit(w.ctx, w.bs))
		if r.Intn(2) == 0 {
			l.ReleaseSegments(w.ctx)
		}
	}
	x.add(Ev{"ev": "begin", "lists": lists})
	return x
}

type lockedCache struct {
	mu sync.Mutex
	c  *evilCache
}

func (c *lockedCache) Add(k, v interface{}) { c.mu.Lock(); c.c.Add(k, v); c.mu.Unlock() }
func (c *lockedCache) Get(k interface{}) (interface{}, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.c.Get(k)
}
func (c *lockedCache) Contains(k interface{}) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.c.Contains(k)
}
func (c *lockedCache) Remove(k interface{}) { c.mu.Lock(); c.c.Remove(k); c.mu.Unlock() }

// element makes an element with the values of this episode.
func (x *concEp) element(r *rand.Rand, id uint64) rankdb.Element {
	w := x.w
	return rankdb.Element{ID: rankdb.ElementID(id), Score: pick(r, w.scs), TieBreaker: uint32(pick(r, w.tis)),
		Updated: pick(r, w.ups), Payload: append([]byte{}, pick(r, w.pays)...)}
}

func near(res []rankdb.RankedElement) []rankdb.Element {
	var els []rankdb.Element
	for _, e := range res {
		els = append(els, e.Element)
		els = append(els, e.Above...)
		els = append(els, e.Below...)
	}
	return els
}

// op runs one operation of process p on list k. st is its store.
func (x *concEp) op(r *rand.Rand, p, k int, what string, st blobstore.Store) {
	w := x.w
	l := w.lists[k]
	// The context of a request ends with the request.
	ctx, done := context.WithCancel(w.ctx)
	defer done()
	pan := ""
	switch what {
	case "upd":
		var els rankdb.Elements
		for _, id := range x.shared {
			if r.Intn(2) == 0 {
				els = append(els, x.element(r, id))
			}
		}
		for _, id := range x.private[p] {
			if r.Intn(4) == 0 {
				els = append(els, x.element(r, id))
				x.has[p*10+k][id] = true
			}
		}
		if len(els) > 3 && r.Intn(2) == 0 {
			els = els[:1+r.Intn(3)]
			for _, id := range x.private[p] {
				found := false
				for _, e := range els {
					found = found || uint64(e.ID) == id
				}
				if !found {
					// may or may not be in the list
					x.has[p*10+k][id] = true
				}
			}
		}
		radius, results := r.Intn(4), r.Intn(3) > 0
		x.add(Ev{"ev": "upd", "p": p, "k": k, "els": elsJ(els), "radius": radius, "results": results})
		pan = guard(func() {
			res, err := l.UpdateElements(ctx, st, els, radius, results)
			x.add(Ev{"ev": "wret", "p": p, "k": k, "res": errClass(err), "err": errText(err), "out": rankedsJ(res)})
		})
	case "ins":
		var els rankdb.Elements
		for _, id := range x.private[p] {
			if !x.has[p*10+k][id] {
				els = append(els, x.element(r, id))
				x.has[p*10+k][id] = true
			}
		}
		x.add(Ev{"ev": "ins", "p": p, "k": k, "els": elsJ(els)})
		pan = guard(func() {
			err := l.Insert(ctx, st, els)
			x.add(Ev{"ev": "wret", "p": p, "k": k, "res": errClass(err), "err": errText(err), "out": []int{}})
		})
	case "del":
		var ids []rankdb.ElementID
		for _, id := range x.shared {
			if r.Intn(3) == 0 {
				ids = append(ids, rankdb.ElementID(id))
			}
		}
		for _, id := range x.private[p] {
			if r.Intn(2) == 0 {
				ids = append(ids, rankdb.ElementID(id))
				delete(x.has[p*10+k], id)
			}
		}
		x.add(Ev{"ev": "del", "p": p, "k": k, "ids": idsJ(ids)})
		pan = guard(func() {
			err := l.DeleteElements(ctx, st, ids)
			x.add(Ev{"ev": "wret", "p": p, "k": k, "res": errClass(err), "err": errText(err), "out": []int{}})
		})
	case "get":
		var ids []rankdb.ElementID
		for _, id := range x.shared {
			if r.Intn(2) == 0 {
				ids = append(ids, rankdb.ElementID(id))
			}
		}
		for q := 1; q <= 3; q++ {
			ids = append(ids, rankdb.ElementID(x.private[q][0]))
		}
		radius := r.Intn(4)
		x.add(Ev{"ev": "get", "p": p, "k": k, "ids": idsJ(ids), "radius": radius})
		pan = guard(func() {
			res, err := l.GetElements(ctx, st, ids, radius)
			x.add(Ev{"ev": "rret", "p": p, "k": k, "res": errClass(err), "err": errText(err), "out": rankedsJ(res)})
		})
	case "top", "bottom", "score", "pct", "stats":
		off, n := r.Intn(3), 1+r.Intn(30)
		if off > 0 && r.Intn(2) == 0 {
			off = r.Intn(8)
		}
		x.add(Ev{"ev": "scan", "p": p, "k": k, "what": what})
		pan = guard(func() {
			var els []rankdb.Element
			var err error
			switch what {
			case "top":
				els, err = l.GetRankTop(ctx, st, off, n)
			case "bottom":
				els, err = l.GetRankBottom(ctx, st, off, n)
			case "score":
				var res rankdb.RankedElements
				res, err = l.GetRankScoreDesc(ctx, st, pick(r, x.w.scs), n)
				els = near(res)
			case "pct":
				var res *rankdb.RankedElement
				res, err = l.GetPercentile(ctx, st, float64(r.Intn(17))/16, r.Intn(4))
				if res != nil {
					els = near([]rankdb.RankedElement{*res})
				}
			case "stats":
				var res *rankdb.ListStats
				res, err = l.Stats(ctx, st, true)
				if res != nil {
					if res.Top != nil {
						els = append(els, res.Top.Element)
					}
					if res.Bottom != nil {
						els = append(els, res.Bottom.Element)
					}
				}
			}
			x.add(Ev{"ev": "rret", "p": p, "k": k, "res": errClass(err), "err": errText(err), "els": elsJ(els)})
		})
	case "backup", "clone":
		x.add(Ev{"ev": "snap", "p": p, "k": k, "what": what})
		pan = guard(func() {
			var els rankdb.Elements
			var err error
			if what == "backup" {
				var buf bytes.Buffer
				m := rankdb.NewWriterMsg()
				m.ReplaceWriter(&buf)
				err = l.Backup(ctx, st, m)
				m.Flush()
				m.Close()
				if err == nil {
					var nl *rankdb.List
					tmp := newRecStore()
					nl, err = rankdb.RestoreList(ctx, tmp, rankdb.NewReaderMsgp(buf.Bytes()), nil, nil)
					if err == nil {
						els, err = nl.GetRankTop(ctx, tmp, 0, 1000)
					}
				}
			} else {
				id := rankdb.ListID(fmt.Sprint("clone", x.nclone.Add(1)))
				var nl *rankdb.List
				nl, err = rankdb.NewList(ctx, id, pick(r, []string{"s1", "s2"}), st, rankdb.WithListOption.MergeSplitSize(2, 4),
					rankdb.WithListOption.Cache(w.cache), rankdb.WithListOption.Clone(l))
				if err == nil {
					els, err = nl.GetRankTop(ctx, st, 0, 1000)
					nl.DeleteAll(ctx, st)
				}
			}
			if err == rankdb.ErrOffsetOutOfBounds {
				err = nil // empty
			}
			x.add(Ev{"ev": "sret", "p": p, "k": k, "res": errClass(err), "err": errText(err), "els": elsJ(els)})
		})
	default:
		x.add(Ev{"ev": "maint", "p": p, "k": k, "what": what})
		pan = guard(func() {
			var err error
			free := false
			switch what {
			case "split":
				err = l.ForceSplit(ctx, st)
			case "reindex":
				err = l.Reindex(ctx, st)
			case "repair":
				err = l.Repair(ctx, st, r.Intn(2) == 0)
			case "verify":
				err = l.Verify(ctx, st)
				free = true // may see an update half way
			case "verifyE":
				err = l.VerifyElements(ctx, st)
			case "len":
				_, err = l.Len(ctx, st)
			case "release":
				l.ReleaseSegments(ctx)
			case "prune":
				err = w.m.Lists.Prune(ctx)
			default:
				panic("HARNESS " + what)
			}
			x.add(Ev{"ev": "mret", "p": p, "k": k, "res": errClass(err), "err": errText(err), "free": free})
		})
	}
	if pan != "" {
		x.add(Ev{"ev": "panic", "err": pan, "k": k})
		x.failed.Store(true)
		panic("abandon")
	}
}

// run calls op, and is abandoned with its locks when the code panicked.
func (x *concEp) run(r *rand.Rand, p, k int, what string, st blobstore.Store) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if e != "abandon" {
				panic(e)
			}
			ok = false
		}
	}()
	x.op(r, p, k, what, st)
	return true
}

func (x *concEp) within(what string, done chan struct{}) bool {
	end := time.Now().Add(patience)
	for {
		select {
		case <-done:
			return !x.failed.Load()
		case <-time.After(100 * time.Millisecond):
			if x.failed.Load() {
				return false
			}
			if time.Now().After(end) {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				os.WriteFile(*fOut+".stack", buf, 0644)
				x.add(Ev{"ev": "stuck", "in": what, "k": 1})
				return false
			}
		}
	}
}

func (x *concEp) final() {
	w := x.w
	for k, l := range w.lists {
		if err := l.VerifyUnlocked(w.ctx, patience); err != nil {
			x.add(Ev{"ev": "stuck", "in": "locks are held: " + errText(err), "k": k})
			return
		}
	}
	for k, l := range w.lists {
		err := l.Verify(w.ctx, w.bs)
		if err == nil {
			err = l.VerifyElements(w.ctx, w.bs)
		}
		var els rankdb.Elements
		if err == nil {
			els, err = l.GetRankTop(w.ctx, w.bs, 0, 1000)
			if err == rankdb.ErrOffsetOutOfBounds {
				err = nil
			}
		}
		x.add(Ev{"ev": "final", "k": k, "res": errClass(err), "err": errText(err), "els": elsJ(els), "post": structOf(w.st, l)})
	}
}

var concWeights = map[string]map[string]int{
	"linear": {"upd": 30, "ins": 8, "del": 12, "get": 20, "top": 6, "bottom": 3, "score": 4, "pct": 3, "stats": 2, "backup": 4, "clone": 4,
		"split": 8, "reindex": 3, "repair": 4, "verifyE": 2, "release": 2, "len": 1, "verify": 1, "prune": 1},
	"finish": {"upd": 20, "ins": 6, "del": 8, "get": 12, "top": 6, "bottom": 6, "score": 8, "pct": 8, "stats": 8, "backup": 6, "clone": 6,
		"split": 8, "reindex": 6, "repair": 6, "verifyE": 5, "verify": 5, "release": 6, "len": 4, "prune": 4},
}

// concFree: workers do anything.
func concFree(seed int64, ep *epTrace, weights map[string]int) {
	rng := rand.New(rand.NewSource(seed))
	x := newConcEp(seed, ep, 1+rng.Intn(2))
	var smu sync.Mutex
	srng := rand.New(rand.NewSource(seed + 7))
	calm := rng.Intn(3)
	jitter := func() time.Duration {
		smu.Lock()
		defer smu.Unlock()
		switch q := srng.Intn(10); {
		case q < 3:
			return -1
		case q < 3+3*calm:
			return time.Duration(srng.Intn(400)) * time.Microsecond
		}
		return 0
	}
	shut := make(chan chan struct{})
	x.w.m.StartListSplitter(x.w.ctx, x.w.bs, shut)
	workers := 2 + rng.Intn(3)
	var wg sync.WaitGroup
	for p := 1; p <= workers; p++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(seed*17 + int64(p)))
		go func(p int) {
			defer wg.Done()
			st := &opStore{bs: x.w.bs, jitter: jitter}
			for i := 0; i < 12; i++ {
				what := choose(r, weights)
				if !x.run(r, p, 1+r.Intn(len(x.w.lists)), what, st) {
					return
				}
			}
		}(p)
	}
	done := make(chan struct{})
	go func() {
		wg.Wait()
		v := make(chan struct{})
		shut <- v
		<-v
		close(done)
	}()
	if x.within("operations", done) {
		x.final()
	}
}

// concStop: an operation is stopped at an access to the store, others start meanwhile.
func concStop(seed int64, ep *epTrace, weights map[string]int) {
	rng := rand.New(rand.NewSource(seed))
	x := newConcEp(seed, ep, 1+rng.Intn(2))
	for round := 0; round < 12; round++ {
		k := 1 + rng.Intn(len(x.w.lists))
		if rng.Intn(2) == 0 {
			x.w.lists[k].ReleaseSegments(x.w.ctx)
		}
		n := 2 + rng.Intn(2)
		done := make(chan struct{})
		var wg sync.WaitGroup
		var sts []*opStore
		for p := 1; p <= n; p++ {
			st := &opStore{bs: x.w.bs, stopped: make(chan struct{}), release: make(chan struct{})}
			if p == 1 || rng.Intn(3) == 0 {
				st.stopAt = 1 + rng.Intn(10)
				st.kind = pick(rng, []string{"", "get", "set"})
			}
			sts = append(sts, st)
			fin := make(chan struct{})
			wg.Add(1)
			r := rand.New(rand.NewSource(rng.Int63()))
			kk := k
			if rng.Intn(8) == 0 {
				kk = 1 + rng.Intn(len(x.w.lists))
			}
			what := choose(rng, weights)
			go func(p int) {
				defer wg.Done()
				defer close(fin)
				x.run(r, p, kk, what, st)
			}(p)
			// until it finished, stopped, or waits for a lock
			select {
			case <-st.stopped:
			case <-fin:
			case <-time.After(time.Duration(1+rng.Intn(3)) * time.Millisecond):
			}
		}
		go func() { wg.Wait(); close(done) }()
		rng.Shuffle(len(sts), func(i, j int) { sts[i], sts[j] = sts[j], sts[i] })
		for _, st := range sts {
			close(st.release)
			time.Sleep(time.Duration(rng.Intn(600)) * time.Microsecond)
		}
		if !x.within("operations", done) {
			return
		}
	}
	x.final()
}

func init() {
	modes["conc"] = func(tr *Trace) {
		tr.add(tablesEv())
		weights := concWeights[*fProf]
		sideBySide(tr, *fN, 4, func(i int, ep *epTrace) {
			seed := *fSeed*1000003 + int64(i)
			if i%2 == 0 {
				concFree(seed, ep, weights)
			} else {
				concStop(seed, ep, weights)
			}
		})
	}
}
