//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"time"

	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/log"
)

// episode events are collected apart, so that episodes can run side by side.
type epTrace struct {
	mu  sync.Mutex
	evs []Ev
}

func (t *epTrace) add(e Ev) {
	t.mu.Lock()
	t.evs = append(t.evs, e)
	t.mu.Unlock()
	lastProgress.Store(time.Now().UnixNano())
}

func (t *Trace) addEpisode(ep *epTrace) {
	ep.mu.Lock()
	evs := append([]Ev{}, ep.evs...)
	ep.mu.Unlock()
	t.mu.Lock()
	t.evs = append(t.evs, evs...)
	t.mu.Unlock()
}

// sideBySide runs n episodes, some of them at the same time.
func sideBySide(tr *Trace, n, par int, fn func(i int, ep *epTrace)) {
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		sem <- struct{}{}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			ep := &epTrace{}
			fn(i, ep)
			tr.addEpisode(ep)
		}(i)
	}
	wg.Wait()
}

// patience is how long something that must happen may take.
const patience = 25 * time.Second

// waitFor polls until cond holds.
func waitFor(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(500 * time.Microsecond)
	}
}

var lazyNames = [][2]string{{"a", "b/c"}, {"a/b", "c"}, {"s", "kk"}, {"s2", "kk"}, {"", "s/kk"}, {"s", "kk2"}, {"s/", "kk"}, {"2", "s/k"},
	{"x", "1"}, {"x", "2"}, {"x", "3"}, {"x", "4"}, {"x", "5"}, {"x", "6"}, {"x", "7"}, {"x", "8"}}

// value of a version: header and a body that depends on the version.
func lazyVal(k, v, size int) []byte {
	if size == 0 {
		return []byte{}
	}
	if size < 16 {
		size = 16
	}
	b := make([]byte, size)
	copy(b, "LZ")
	b[2] = byte(k)
	binary.LittleEndian.PutUint32(b[4:], uint32(v))
	binary.LittleEndian.PutUint32(b[8:], uint32(size))
	for i := 12; i < size; i++ {
		b[i] = byte(i*7 + v*13 + k)
	}
	return b
}

type lazyEp struct {
	*epTrace
	rng  *rand.Rand
	l    *blobstore.LazySaver
	ctx  context.Context
	st   *lazyStore
	nk   int
	next int // version

	smu               sync.Mutex // protects below
	empty             map[int]int
	last              map[int]int // last written version by key, single writer only
	held              []heldVal
	writing, overlaps map[int]int
	timeMs            int
}

type heldVal struct{ got, want []byte }

func (x *lazyEp) decode(k int, b []byte) int {
	if len(b) == 0 {
		x.smu.Lock()
		defer x.smu.Unlock()
		return x.empty[k]
	}
	if len(b) < 16 {
		return 0
	}
	v := int(binary.LittleEndian.Uint32(b[4:]))
	if !bytes.Equal(b, lazyVal(k, v, len(b))) {
		return 0
	}
	return v
}

type lazyFlight struct {
	i, k    int
	release chan bool // ok
}

type lazyStore struct {
	x       *lazyEp
	mu      sync.Mutex
	m       map[int][]byte
	n       int
	flights []*lazyFlight
	gated   bool
	delay   func() time.Duration
	fate    func() int  // 0 ok, 1 fails, 2 fails after the save timeout
	doneV   map[int]int // version of last ended save
	bad     bool
}

func lazyKeyOf(set, key string) int {
	for i, n := range lazyNames {
		if n[0] == set && n[1] == key {
			return i + 1
		}
	}
	return 0
}

func (s *lazyStore) Get(ctx context.Context, set, key string) ([]byte, error) {
	k := lazyKeyOf(set, key)
	s.mu.Lock()
	b, ok := s.m[k]
	b = append([]byte{}, b...)
	s.mu.Unlock()
	if d := s.delay; d != nil {
		time.Sleep(d() / 4)
	}
	if !ok {
		return nil, blobstore.ErrBlobNotFound
	}
	return b, nil
}

func (s *lazyStore) save(ctx context.Context, set, key string, val []byte, del bool) error {
	k := lazyKeyOf(set, key)
	v := 0
	if !del {
		v = s.x.decode(k, val)
		if v == 0 {
			v = 1 << 30 // never written
		}
	}
	dl := -1
	if t, ok := ctx.Deadline(); ok {
		dl = int(time.Until(t) / time.Millisecond)
		if dl < 0 {
			dl = 0
		}
	}
	if ctx.Err() == context.Canceled {
		// A store that observes its context could not do this.
		dl = -2
	}
	s.mu.Lock()
	s.n++
	f := &lazyFlight{i: s.n, k: k, release: make(chan bool, 1)}
	s.flights = append(s.flights, f)
	gated := s.gated
	s.x.add(Ev{"ev": "sbeg", "i": f.i, "k": k, "v": v, "dl": dl})
	s.mu.Unlock()
	ok := true
	if gated {
		ok = <-f.release
	} else {
		if s.delay != nil {
			time.Sleep(s.delay())
		}
		if s.fate != nil {
			switch s.fate() {
			case 1:
				ok = false
			case 2:
				ok = false
				if dl >= 0 {
					<-ctx.Done()
				}
			}
		}
	}
	if !del && v < 1<<30 && s.x.decode(k, val) != v {
		// The buffer was changed while it is being saved.
		s.x.add(Ev{"ev": "changed", "k": k, "v": v})
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for i := range s.flights {
		if s.flights[i] == f {
			s.flights = append(s.flights[:i], s.flights[i+1:]...)
			break
		}
	}
	if ok {
		if del {
			delete(s.m, k)
		} else {
			s.m[k] = append([]byte{}, val...)
		}
	}
	s.doneV[k] = v
	s.x.add(Ev{"ev": "send", "i": f.i, "ok": ok})
	if !ok {
		return errors.New("injected save failure")
	}
	return nil
}

func (s *lazyStore) Set(ctx context.Context, set, key string, val []byte) error {
	return s.save(ctx, set, key, val, false)
}
func (s *lazyStore) Delete(ctx context.Context, set, key string) error {
	return s.save(ctx, set, key, nil, true)
}

func (s *lazyStore) inflight() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.flights)
}

// releaseOne lets the n-th running save end.
func (s *lazyStore) releaseOne(n int, ok bool) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.flights) == 0 {
		return false
	}
	f := s.flights[n%len(s.flights)]
	select {
	case f.release <- ok:
	default:
	}
	return true
}

// open lets all running and later saves end.
func (s *lazyStore) open() {
	s.mu.Lock()
	s.gated = false
	for _, f := range s.flights {
		select {
		case f.release <- true:
		default:
		}
	}
	s.mu.Unlock()
}
func (s *lazyStore) shut() {
	s.mu.Lock()
	s.gated = true
	s.mu.Unlock()
}

type lazyCfg struct {
	nk, max, flush, savers int
	maxTime, timeout       time.Duration
	preload                bool
}

func newLazyEp(seed int64, ep *epTrace, c lazyCfg) *lazyEp {
	x := &lazyEp{epTrace: ep, rng: rand.New(rand.NewSource(seed)), ctx: log.WithLogger(context.Background(), log.NullLogger()),
		nk: c.nk, next: 100, empty: map[int]int{}, last: map[int]int{},
		writing: map[int]int{}, overlaps: map[int]int{}}
	x.st = &lazyStore{x: x, m: map[int][]byte{}, doneV: map[int]int{}}
	init := []int{}
	for k := 1; k <= c.nk; k++ {
		if c.preload && x.rng.Intn(2) == 0 {
			x.st.m[k] = lazyVal(k, k, 20)
			init = append(init, k)
		} else {
			init = append(init, -1)
		}
	}
	l, err := blobstore.NewLazySaver(x.st, blobstore.WithLazySaveOption.Items(c.max, c.flush), blobstore.WithLazySaveOption.MaxTime(c.maxTime),
		blobstore.WithLazySaveOption.Savers(c.savers), blobstore.WithLazySaveOption.SaveTimeout(c.timeout),
		blobstore.WithLazySaveOption.Logger(log.NullLogger()))
	must(err)
	x.l = l
	x.add(Ev{"ev": "begin", "nk": c.nk, "init": init, "max": c.max, "flush": c.flush, "savers": c.savers, "timeout": int(c.timeout / time.Millisecond)})
	return x
}

func lazyRes(err error) string {
	switch err {
	case nil:
		return "ok"
	case blobstore.ErrBlobNotFound:
		return "nf"
	case blobstore.ErrShuttingDown:
		return "shutdown"
	}
	return "err"
}

var lazySizes = []int{0, 16, 16, 20, 500, 1023, 1024, 1025, 2048, 3000, 70000, 1 << 20}

func (x *lazyEp) version() int {
	x.smu.Lock()
	defer x.smu.Unlock()
	x.next++
	return x.next
}

// overlap says whether a write of k may begin: few writes of a key overlap, so that only few orders
// of the writes explain what is seen.
func (x *lazyEp) overlap(k int) bool {
	x.smu.Lock()
	defer x.smu.Unlock()
	if x.writing[k] > 0 {
		if x.overlaps[k] >= 6 {
			return false
		}
		x.overlaps[k]++
	}
	x.writing[k]++
	return true
}

// write runs Set or Delete, or Get if too many writes of the key overlap.
func (x *lazyEp) write(rng *rand.Rand, p, k int, del bool) {
	if !x.overlap(k) {
		x.read(rng, p, k)
		return
	}
	defer func() {
		x.smu.Lock()
		x.writing[k]--
		x.smu.Unlock()
	}()
	x.write1(rng, p, k, del)
}

func (x *lazyEp) write1(rng *rand.Rand, p, k int, del bool) {
	v := x.version()
	n := lazyNames[k-1]
	if del {
		x.smu.Lock()
		x.last[k] = 0
		x.smu.Unlock()
		x.add(Ev{"ev": "wcall", "p": p, "k": k, "v": -v})
		ctx, done := context.WithCancel(x.ctx)
		err := x.l.Delete(ctx, n[0], n[1])
		done()
		x.add(Ev{"ev": "wret", "p": p, "res": lazyRes(err)})
		return
	}
	size := pick(rng, lazySizes)
	if size > 5000 && rng.Intn(4) > 0 {
		size = 30
	}
	x.smu.Lock()
	if size == 0 && x.empty[k] != 0 {
		size = 16
	}
	if size == 0 {
		x.empty[k] = v
	}
	x.last[k] = v
	x.smu.Unlock()
	b := lazyVal(k, v, size)
	x.add(Ev{"ev": "wcall", "p": p, "k": k, "v": v})
	ctx, done := context.WithCancel(x.ctx)
	err := x.l.Set(ctx, n[0], n[1], b)
	done()
	x.add(Ev{"ev": "wret", "p": p, "res": lazyRes(err)})
	// We may re-use the buffer
	for i := range b {
		b[i] = 0xee
	}
}

func (x *lazyEp) read(rng *rand.Rand, p, k int) {
	n := lazyNames[k-1]
	x.add(Ev{"ev": "gcall", "p": p, "k": k})
	b, err := x.l.Get(x.ctx, n[0], n[1])
	v := 0
	if err == nil {
		v = x.decode(k, b)
	}
	x.add(Ev{"ev": "gret", "p": p, "res": lazyRes(err), "v": v})
	if err != nil {
		return
	}
	if rng.Intn(2) == 0 {
		// The value is ours.
		b = b[:cap(b)]
		for i := range b {
			b[i] = 0xdd
		}
		return
	}
	x.smu.Lock()
	x.held = append(x.held, heldVal{got: b, want: append([]byte{}, b...)})
	x.smu.Unlock()
}

func (x *lazyEp) checkHeld() {
	x.smu.Lock()
	same := true
	for _, h := range x.held {
		same = same && bytes.Equal(h.got, h.want)
	}
	x.smu.Unlock()
	x.add(Ev{"ev": "held", "same": same})
}

// within runs fn, which has to finish.
func (x *lazyEp) within(what string, fn func()) bool {
	done := make(chan struct{})
	go func() { fn(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(patience):
		x.add(Ev{"ev": "stuck", "in": what})
		return false
	}
}

func (x *lazyEp) shutdown() bool {
	return x.within("shutdown", func() {
		x.add(Ev{"ev": "sdcall"})
		x.l.Shutdown()
		x.add(Ev{"ev": "sdret"})
	})
}

func (x *lazyEp) afterShutdown() {
	x.within("after shutdown", func() {
		x.read(x.rng, 1, 1)
		x.write(x.rng, 1, 1, false)
		x.write(x.rng, 1, 1, true)
	})
	x.checkHeld()
}

// lazyFree: several goroutines do anything.
func lazyFree(seed int64, ep *epTrace, fails, single bool) {
	rng := rand.New(rand.NewSource(seed))
	c := lazyCfg{nk: 1 + rng.Intn(4), max: pick(rng, []int{1, 2, 3, 8}), savers: 1 + rng.Intn(4), preload: true,
		maxTime: pick(rng, []time.Duration{time.Millisecond, 3 * time.Millisecond, 15 * time.Millisecond, time.Hour}), timeout: 60 * time.Millisecond}
	c.flush = 1 + rng.Intn(c.max)
	x := newLazyEp(seed, ep, c)
	drng := rand.New(rand.NewSource(seed + 1))
	var dmu sync.Mutex
	slow := pick(rng, []int{200, 1000, 4000})
	x.st.delay = func() time.Duration {
		dmu.Lock()
		defer dmu.Unlock()
		if drng.Intn(4) == 0 {
			return time.Duration(drng.Intn(slow*4)) * time.Microsecond
		}
		return time.Duration(drng.Intn(slow)) * time.Microsecond
	}
	if fails {
		x.st.fate = func() int {
			dmu.Lock()
			defer dmu.Unlock()
			switch drng.Intn(12) {
			case 0, 1:
				return 1
			case 2:
				return 2
			}
			return 0
		}
	}
	workers := 1 + rng.Intn(4)
	racing := rng.Intn(3) == 0
	var wg sync.WaitGroup
	stop := make(chan struct{})
	for w := 1; w <= workers; w++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(seed*31 + int64(w)))
		go func(w int) {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				select {
				case <-stop:
					return
				default:
				}
				k := 1 + r.Intn(c.nk)
				op := r.Intn(10)
				if op < 6 && single {
					k = 1 + (k*workers+w)%c.nk
					if k%workers != w%workers {
						op = 9
					}
				}
				switch {
				case op < 5:
					x.write(r, w, k, false)
				case op < 6:
					x.write(r, w, k, true)
				default:
					x.read(r, w, k)
				}
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(2500)) * time.Microsecond)
				}
			}
		}(w)
	}
	if racing {
		time.Sleep(time.Duration(rng.Intn(30)) * time.Millisecond)
		ok := x.shutdown()
		if x.within("requests", wg.Wait) && ok {
			x.afterShutdown()
		}
		return
	}
	if !x.within("requests", wg.Wait) {
		return
	}
	for k := 1; k <= c.nk; k++ {
		x.read(rng, 1, k)
	}
	if x.shutdown() {
		x.afterShutdown()
	}
}

// settle gives the saver time to do something.
func settle(rng *rand.Rand) { time.Sleep(time.Duration(200+rng.Intn(2500)) * time.Microsecond) }

// lazyGated: the test decides when, in which order and how saves end.
func lazyGated(seed int64, ep *epTrace) {
	rng := rand.New(rand.NewSource(seed))
	c := lazyCfg{nk: 1 + rng.Intn(2), max: pick(rng, []int{2, 4, 8}), savers: 1 + rng.Intn(4), preload: true,
		maxTime: pick(rng, []time.Duration{500 * time.Microsecond, time.Millisecond, time.Hour}), timeout: time.Hour}
	c.flush = 1
	x := newLazyEp(seed, ep, c)
	x.st.shut()
	busy := make([]sync.Mutex, 4)
	var wg sync.WaitGroup
	fails := rng.Intn(3) == 0
	start := func(fn func(r *rand.Rand, p int)) {
		for p := 1; p < len(busy); p++ {
			if busy[p].TryLock() {
				wg.Add(1)
				r := rand.New(rand.NewSource(rng.Int63()))
				done := make(chan struct{})
				go func(p int) {
					defer wg.Done()
					fn(r, p)
					busy[p].Unlock()
					close(done)
				}(p)
				select {
				case <-done:
				case <-time.After(2 * time.Millisecond):
				}
				return
			}
		}
	}
	for i := 0; i < 25; i++ {
		k := 1 + rng.Intn(c.nk)
		switch rng.Intn(8) {
		case 0, 1, 2:
			start(func(r *rand.Rand, p int) { x.write(r, p, k, false) })
		case 3:
			start(func(r *rand.Rand, p int) { x.write(r, p, k, true) })
		case 4:
			start(func(r *rand.Rand, p int) { x.read(r, p, k) })
		case 5, 6:
			x.st.releaseOne(rng.Intn(4), !fails || rng.Intn(3) > 0)
			settle(rng)
		default:
			settle(rng)
		}
	}
	if rng.Intn(2) == 0 {
		// Shutdown while saves are running, then let them end one by one.
		done := make(chan bool)
		go func() { done <- x.shutdown() }()
		for i := rng.Intn(4); i > 0; i-- {
			settle(rng)
			x.st.releaseOne(rng.Intn(4), true)
		}
		x.st.open()
		if !<-done || !x.within("requests", wg.Wait) {
			return
		}
		x.afterShutdown()
		return
	}
	x.st.open()
	if !x.within("requests", wg.Wait) {
		return
	}
	if x.shutdown() {
		x.afterShutdown()
	}
}

// lazyBound: capacity, thresholds and draining.
func lazyBound(seed int64, ep *epTrace) {
	rng := rand.New(rand.NewSource(seed))
	aged := rng.Intn(2) == 0
	c := lazyCfg{max: 1 + rng.Intn(6), savers: 1 + rng.Intn(3), maxTime: time.Hour, timeout: 40 * time.Millisecond}
	c.nk = c.max + 3
	c.flush = 1 + rng.Intn(c.max)
	if aged {
		c.maxTime = pick(rng, []time.Duration{time.Millisecond, 5 * time.Millisecond, 20 * time.Millisecond})
	}
	x := newLazyEp(seed, ep, c)
	dirtyLocked := func() int {
		n := 0
		for k, v := range x.last {
			if x.st.doneV[k] != v {
				n++
			}
		}
		return n
	}
	dirty := func() int {
		x.smu.Lock()
		defer x.smu.Unlock()
		x.st.mu.Lock()
		defer x.st.mu.Unlock()
		return dirtyLocked()
	}
	drng := rand.New(rand.NewSource(seed + 1))
	var dmu sync.Mutex
	fate := 0
	x.st.fate = func() int {
		dmu.Lock()
		defer dmu.Unlock()
		switch fate {
		case 1:
			return drng.Intn(3)
		case 2:
			return 1
		}
		return 0
	}
	for round := 0; round < 3; round++ {
		// Nothing is saved, but up to the limit writes are taken at once.
		x.st.shut()
		base := dirty()
		if base > 0 && round > 0 {
			// One value of the last key may be about to be saved and a newer one be waiting.
			base++
		}
		for i := base; i < c.max; i++ {
			// keys that are not dirty yet
			k := 0
			x.smu.Lock()
			x.st.mu.Lock()
			for j := 1; j <= c.nk; j++ {
				if x.last[j] == x.st.doneV[j] {
					k = j
					break
				}
			}
			x.st.mu.Unlock()
			x.smu.Unlock()
			if k == 0 {
				break
			}
			if !x.within("write below the limit", func() { x.write(rng, 1, k, false) }) {
				return
			}
		}
		var wg sync.WaitGroup
		extra := rng.Intn(3)
		used := map[int]bool{}
		for i := 0; i < extra; i++ {
			k := c.nk - i
			used[k] = true
			wg.Add(1)
			r := rand.New(rand.NewSource(rng.Int63()))
			go func(p int) { defer wg.Done(); x.write(r, p, k, false) }(2 + i)
		}
		if extra > 0 {
			settle(rng)
		}
		if extra > 0 && rng.Intn(2) == 0 {
			// overwrites a write that waits, must not exceed the limit either
			r := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			// the same key: the last version is not known, write again later
			go func() { defer wg.Done(); x.write(r, 9, c.nk, rng.Intn(2) == 0) }()
			settle(rng)
		}
		dmu.Lock()
		fate = rng.Intn(3)
		if aged && fate == 0 && rng.Intn(2) == 0 {
			fate = 1
		}
		dmu.Unlock()
		x.st.open()
		if !x.within("waiting writes", wg.Wait) {
			return
		}
		if extra > 0 {
			if !x.within("write", func() { x.write(rng, 1, c.nk, false) }) {
				return
			}
		}
		limit := c.flush
		name := "flushed"
		if aged {
			limit, name = 0, "drained"
		}
		// nothing more is requested
		if !waitFor(patience, func() bool {
			x.smu.Lock()
			defer x.smu.Unlock()
			x.st.mu.Lock()
			defer x.st.mu.Unlock()
			if dirtyLocked() > limit || len(x.st.flights) > 0 {
				return false
			}
			// No save begins while we have the lock.
			x.add(Ev{"ev": name})
			return true
		}) {
			x.add(Ev{"ev": name})
		}
		dmu.Lock()
		fate = 0
		dmu.Unlock()
	}
	if x.shutdown() {
		x.afterShutdown()
	}
}

// lazyScript runs the events of a behaviour of LazySaver.tla.
func lazyScript(seed int64, ep *epTrace, sc []Ev) {
	rng := rand.New(rand.NewSource(seed))
	c := lazyCfg{nk: 2, max: 2, flush: 1, savers: 2, maxTime: time.Millisecond, timeout: time.Hour}
	x := newLazyEp(seed, ep, c)
	x.st.shut()
	busy := make([]sync.Mutex, 10)
	var wg sync.WaitGroup
	num := func(e Ev, f string) int { n, _ := e[f].(float64); return int(n) }
	sd := make(chan bool, 1)
	down := false
	for _, e := range sc {
		p, k, v := num(e, "p"), num(e, "k"), num(e, "v")
		switch e["ev"] {
		case "wcall", "gcall":
			if !busy[p].TryLock() {
				continue
			}
			wg.Add(1)
			r := rand.New(rand.NewSource(rng.Int63()))
			read := e["ev"] == "gcall"
			go func() {
				defer wg.Done()
				if read {
					x.read(r, p, k)
				} else {
					x.write(r, p, k, v < 0)
				}
				busy[p].Unlock()
			}()
		case "wret", "gret":
			waitFor(5*time.Millisecond, func() bool {
				if busy[p].TryLock() {
					busy[p].Unlock()
					return true
				}
				return false
			})
		case "sbeg":
			n := num(e, "i")
			waitFor(4*time.Millisecond, func() bool { return x.st.inflight() >= n })
		case "send":
			x.st.releaseOne(num(e, "i")-1, e["ok"] == true)
			time.Sleep(300 * time.Microsecond)
		case "sdcall":
			if !down {
				down = true
				go func() { sd <- x.shutdown() }()
				time.Sleep(200 * time.Microsecond)
			}
		}
	}
	x.st.open()
	if down && !<-sd {
		return
	}
	if !x.within("requests", wg.Wait) {
		return
	}
	if !down && !x.shutdown() {
		return
	}
	x.afterShutdown()
}

func readScripts(file string) [][]Ev {
	f, err := os.Open(file)
	must(err)
	defer f.Close()
	var res [][]Ev
	s := bufio.NewScanner(f)
	s.Buffer(nil, 1<<26)
	for s.Scan() {
		var e []Ev
		must(json.Unmarshal(s.Bytes(), &e))
		res = append(res, e)
	}
	must(s.Err())
	return res
}

func init() {
	modes["lazy"] = func(tr *Trace) {
		tr.add(Ev{"ev": "tables"})
		if *fIn != "" {
			sc := readScripts(*fIn)
			sideBySide(tr, len(sc), 6, func(i int, ep *epTrace) { lazyScript(*fSeed*1000003+int64(i), ep, sc[i]) })
			return
		}
		sideBySide(tr, *fN, 6, func(i int, ep *epTrace) {
			seed := *fSeed*1000003 + int64(i)
			switch *fProf {
			case "read":
				if i%3 == 0 {
					lazyGated(seed, ep)
				} else {
					lazyFree(seed, ep, i%6 == 1, false)
				}
			case "order":
				if i%3 > 0 {
					lazyGated(seed, ep)
				} else {
					lazyFree(seed, ep, i%6 == 0, i%4 == 1)
				}
			case "bound":
				if i%3 > 0 {
					lazyBound(seed, ep)
				} else {
					lazyFree(seed, ep, true, true)
				}
			default:
				panic(fmt.Sprint("profile ", *fProf))
			}
		})
	}
}
