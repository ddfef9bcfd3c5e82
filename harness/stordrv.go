//go:build go1.22

package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/blobstore/badgerstore"
	"github.com/Vivino/rankdb/blobstore/boltstore"
	"github.com/Vivino/rankdb/blobstore/memstore"
	"github.com/Vivino/rankdb/log"
	"github.com/dgraph-io/badger"
	"github.com/etcd-io/bbolt"
)

func init() { modes["store"] = storeMode }

// sizeStore records the largest blob handed to the store below.
type sizeStore struct {
	*recStore
	szmu    sync.Mutex
	biggest int
}

func (s *sizeStore) Set(ctx context.Context, set, key string, b []byte) error {
	s.szmu.Lock()
	if len(b) > s.biggest {
		s.biggest = len(b)
	}
	s.szmu.Unlock()
	return s.recStore.Set(ctx, set, key, b)
}

// storeWorld is an episode on one store.
type storeWorld struct {
	tr    *epTrace
	r     *rand.Rand
	ctx   context.Context
	st    blobstore.Store
	open  func() (blobstore.Store, error)
	sets  []string
	keys  []string
	in    *intern
	model map[int][]byte // what the store should hold; nil if unknown
	below *sizeStore
	max   int
	nth   uint32
	late  bool // failures are reported after the effect
}

func resOf(err error) string {
	switch err {
	case nil:
		return "ok"
	case blobstore.ErrBlobNotFound:
		return "notfound"
	case blobstore.ErrBlobTooBig:
		return "toobig"
	}
	return "err"
}

func (w *storeWorld) blob(size int) []byte {
	b := make([]byte, size)
	w.nth++
	x := w.nth*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
	// The capacity belongs to the caller as well.
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0xff
	}
}

func (w *storeWorld) val(b []byte) int { return w.in.of(string(b)) }

// setFail makes the n-th call of the store below fail, returns a function giving the number of failures.
func (w *storeWorld) setFail(n int) func() int {
	if w.below == nil || n == 0 {
		return func() int { return 0 }
	}
	c, f := 0, 0
	w.below.setFault(func(op, set, key string) error {
		c++
		if c == n {
			f++
			if w.late {
				return errLate
			}
			return errInjected
		}
		return nil
	})
	return func() int { w.below.setFault(nil); return f }
}

func (w *storeWorld) call(name string, fn func()) bool {
	curOp.Store(name)
	if p := guard(fn); p != "" {
		w.tr.add(Ev{"ev": "panic", "err": p, "in": name})
		return false
	}
	return true
}

func (w *storeWorld) set(k int, b []byte, invalid bool, fail int) bool {
	v := w.val(b)
	buf := append(make([]byte, 0, len(b)+w.r.Intn(3)), b...)
	nf := w.setFail(fail)
	var err error
	if !w.call("set", func() { err = w.st.Set(w.ctx, w.sets[k], w.keys[k], buf) }) {
		return false
	}
	n := nf()
	scribble(buf)
	w.tr.add(Ev{"ev": "set", "k": k + 1, "v": v, "size": len(b), "res": resOf(err), "nf": n, "invalid": invalid, "err": errText(err)})
	if err == nil && n == 0 {
		w.model[k] = b
	} else if n > 0 {
		w.model[k] = nil
	}
	return true
}

func (w *storeWorld) get(k int, fail int) (string, bool) {
	nf := w.setFail(fail)
	var b []byte
	var err error
	if !w.call("get", func() { b, err = w.st.Get(w.ctx, w.sets[k], w.keys[k]) }) {
		return "", false
	}
	n := nf()
	v := 0
	if err == nil {
		v = w.val(b)
		scribble(b)
	}
	w.tr.add(Ev{"ev": "get", "k": k + 1, "v": v, "res": resOf(err), "nf": n, "err": errText(err)})
	return resOf(err), true
}

func (w *storeWorld) del(k int, fail int) bool {
	nf := w.setFail(fail)
	var err error
	if !w.call("delete", func() { err = w.st.Delete(w.ctx, w.sets[k], w.keys[k]) }) {
		return false
	}
	n := nf()
	w.tr.add(Ev{"ev": "del", "k": k + 1, "res": resOf(err), "nf": n, "err": errText(err)})
	if err == nil {
		delete(w.model, k)
	} else {
		w.model[k] = nil
	}
	return true
}

func (w *storeWorld) reopen() bool {
	var err error
	if c, ok := w.st.(io.Closer); ok {
		if !w.call("close", func() { err = c.Close() }) {
			return false
		}
		if err != nil {
			w.tr.add(Ev{"ev": "reopen", "res": resOf(err), "err": errText(err)})
			return false
		}
	}
	if !w.call("open", func() { w.st, err = w.open() }) {
		return false
	}
	w.tr.add(Ev{"ev": "reopen", "res": resOf(err), "err": errText(err)})
	return err == nil
}

func (w *storeWorld) blobsOf(s *recStore, names *intern) [][]int {
	res := [][]int{}
	s.mu.Lock()
	defer s.mu.Unlock()
	for set, m := range s.m {
		for k, b := range m {
			res = append(res, []int{names.of(set + "\x00" + k), w.in.of(string(b))})
		}
	}
	return res
}

var blobNames intern

func (w *storeWorld) recordBelow() {
	fresh := newRecStore()
	fs, err := blobstore.NewMaxSizeStore(fresh, w.max)
	must(err)
	content := [][]int{}
	certain := true
	for k, b := range w.model {
		if b == nil {
			certain = false
			break
		}
		content = append(content, []int{k + 1, w.val(b)})
	}
	e := Ev{"ev": "below", "blobs": [][]int{}, "fresh": [][]int{}, "content": content}
	if certain {
		for k, b := range w.model {
			_ = fs.Set(w.ctx, w.sets[k], w.keys[k], b)
		}
		e["blobs"] = w.blobsOf(w.below.recStore, &blobNames)
		e["fresh"] = w.blobsOf(fresh, &blobNames)
	}
	w.below.szmu.Lock()
	e["biggest"] = w.below.biggest
	w.below.szmu.Unlock()
	w.tr.add(e)
}

// together runs overlapping calls from several goroutines.
func (w *storeWorld) together(procs, rounds, per int, only []int) bool {
	type step struct {
		op string
		k  int
		b  []byte
	}
	ok := true
	for round := 0; round < rounds && ok; round++ {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for p := 1; p <= procs; p++ {
			var todo []step
			for i := 0; i < per; i++ {
				s := step{op: []string{"get", "get", "set", "set", "del"}[w.r.Intn(5)], k: only[w.r.Intn(len(only))]}
				if s.op == "set" {
					size := 20 + w.r.Intn(80)
					if w.max > 0 {
						size = w.r.Intn(4*w.max) + 1
					}
					s.b = w.blob(size)
				}
				todo = append(todo, s)
			}
			wg.Add(1)
			go func(p int, todo []step, delay int) {
				defer wg.Done()
				<-start
				for i := 0; i < delay; i++ {
					runtime.Gosched()
				}
				for _, s := range todo {
					v := 0
					if s.op == "set" {
						v = w.val(s.b)
					}
					var b []byte
					var err error
					w.tr.add(Ev{"ev": "call", "p": p, "k": s.k + 1, "op": s.op, "v": v})
					pn := guard(func() {
						switch s.op {
						case "get":
							b, err = w.st.Get(w.ctx, w.sets[s.k], w.keys[s.k])
						case "set":
							buf := append([]byte{}, s.b...)
							err = w.st.Set(w.ctx, w.sets[s.k], w.keys[s.k], buf)
							scribble(buf)
						default:
							err = w.st.Delete(w.ctx, w.sets[s.k], w.keys[s.k])
						}
					})
					if pn != "" {
						w.tr.add(Ev{"ev": "panic", "err": pn, "in": s.op})
						ok = false
						return
					}
					if s.op == "get" && err == nil {
						v = w.val(b)
						scribble(b)
					}
					w.tr.add(Ev{"ev": "ret", "p": p, "k": s.k + 1, "op": s.op, "v": v, "res": resOf(err), "err": errText(err)})
				}
			}(p, todo, w.r.Intn(40))
		}
		close(start)
		wg.Wait()
	}
	return ok
}

// maxSizeEpisode runs operations on the size limiting store.
func maxSizeEpisode(tr *epTrace, r *rand.Rand, in *intern, ops int, faults, together, huge bool) {
	w := &storeWorld{tr: tr, r: r, ctx: quietCtx, in: in, model: map[int][]byte{}, below: &sizeStore{recStore: newRecStore()}, max: 1024 + r.Intn(60), nth: uint32(r.Int31())}
	w.open = func() (blobstore.Store, error) { return blobstore.NewMaxSizeStore(w.below, w.max) }
	w.st, _ = w.open()
	w.sets = []string{"s", "s", "s", `s/\x`, "t", "s", "t/s"}
	w.keys = []string{"one", "two", `x/\key`, "key", "one", "on", "e"}
	tr.add(Ev{"ev": "begin", "keys": len(w.keys), "max": w.max})
	size := func() int {
		switch r.Intn(8) {
		case 0:
			return r.Intn(30)
		case 1:
			return r.Intn(7 * w.max)
		default:
			n := (1+r.Intn(5))*w.max - 6 + r.Intn(12)
			return n
		}
	}
	if huge {
		// The largest permitted blobs, and larger ones.
		for _, n := range []int{65533 * w.max, 65535*w.max + 1, 65533*w.max - 1 - r.Intn(3), 2*w.max + 5, 66000 * w.max} {
			if !w.set(0, w.blob(n), false, 0) {
				return
			}
			if _, ok := w.get(0, 0); !ok {
				return
			}
			w.tr.add(Ev{"ev": "below", "blobs": [][]int{}, "fresh": [][]int{}, "content": [][]int{{1, w.val(w.model[0])}}, "biggest": w.below.biggest})
		}
		if !w.del(0, 0) {
			return
		}
		w.recordBelow()
	}
	if together {
		var hr = rand.New(rand.NewSource(r.Int63()))
		var hmu sync.Mutex
		w.below.hook = func(op, set, key string) {
			hmu.Lock()
			n := hr.Intn(12)
			hmu.Unlock()
			if n < 3 {
				time.Sleep(time.Duration(n*30) * time.Microsecond)
			} else {
				for i := 3; i < n; i++ {
					runtime.Gosched()
				}
			}
		}
		if !w.together(3, ops/6, 3, []int{0, 1, 2}) {
			return
		}
		w.below.hook = nil
		for k := range w.keys {
			if !w.del(k, 0) {
				return
			}
		}
		w.recordBelow()
	}
	known := map[int]bool{}
	heal := func() bool {
		for k, b := range w.model {
			if b == nil && !w.del(k, 0) {
				return false
			}
		}
		return true
	}
	for i := 0; i < ops; i++ {
		k := r.Intn(len(w.keys))
		fail := 0
		if faults && r.Intn(4) == 0 {
			fail = 1 + r.Intn(5)
			w.late = r.Intn(2) == 0
		}
		switch x := r.Intn(20); {
		case x < 10:
			if !known[k] {
				// Parts of a blob are only removed when known.
				res, ok := w.get(k, 0)
				if !ok {
					return
				}
				known[k] = res != "err"
			}
			if !w.set(k, w.blob(size()), false, fail) {
				return
			}
		case x < 15:
			if _, ok := w.get(k, fail); !ok {
				return
			}
		case x < 19:
			if !w.del(k, fail) {
				return
			}
		default:
			if !heal() || !w.reopen() {
				return
			}
			known = map[int]bool{}
		}
		if r.Intn(4) == 0 {
			w.recordBelow()
		}
	}
	if !heal() {
		return
	}
	w.recordBelow()
	for k := range w.keys {
		if _, ok := w.get(k, 0); !ok {
			return
		}
		if !w.del(k, 0) {
			return
		}
	}
	w.recordBelow()
}

// maxScript is a behaviour generated from MaxGen.tla.
type maxScript struct {
	Tidy bool
	H    []struct {
		A           string
		Total, Fail int
		Eff         bool
	}
}

// maxSizeScript runs it on one key, with another one beside it.
func maxSizeScript(tr *epTrace, r *rand.Rand, in *intern, s maxScript) {
	w := &storeWorld{tr: tr, r: r, ctx: quietCtx, in: in, model: map[int][]byte{}, below: &sizeStore{recStore: newRecStore()}, max: 1024 + r.Intn(9), nth: uint32(r.Int31())}
	w.open = func() (blobstore.Store, error) { return blobstore.NewMaxSizeStore(w.below, w.max) }
	w.st, _ = w.open()
	w.sets = []string{"s", "s"}
	w.keys = []string{"key", "ke"}
	tr.add(Ev{"ev": "begin", "keys": 2, "max": w.max})
	if !w.set(1, w.blob(w.max+7), false, 0) {
		return
	}
	for _, o := range s.H {
		w.late = o.Eff
		ok := true
		switch o.A {
		case "set":
			// as many parts: the least, the most, and in between
			lo, hi := (o.Total-1)*w.max-2, o.Total*w.max-3
			if lo < 0 {
				lo = 0
			}
			ok = w.set(0, w.blob(pick(r, []int{lo, hi, lo + r.Intn(hi-lo+1), lo + 1, hi - 1})), false, o.Fail)
		case "get":
			_, ok = w.get(0, o.Fail)
		case "del":
			ok = w.del(0, o.Fail)
		case "reopen":
			ok = w.reopen()
		}
		if !ok {
			return
		}
	}
	// A read and, if it is known what the blob is, what is stored.
	if _, ok := w.get(0, 0); !ok {
		return
	}
	if s.Tidy {
		w.recordBelow()
	}
	if !w.del(0, 0) {
		return
	}
	if s.Tidy {
		w.recordBelow()
	}
	if _, ok := w.get(0, 0); !ok {
		return
	}
	w.get(1, 0)
}

type noLog struct{}

func (noLog) Errorf(string, ...interface{})   {}
func (noLog) Warningf(string, ...interface{}) {}
func (noLog) Infof(string, ...interface{})    {}
func (noLog) Debugf(string, ...interface{})   {}

// backendEpisode runs operations on a storage backend.
func backendEpisode(tr *epTrace, r *rand.Rand, in *intern, kind, dir string, ops int) {
	w := &storeWorld{tr: tr, r: r, ctx: quietCtx, in: in, model: map[int][]byte{}, nth: uint32(r.Int31())}
	must(os.MkdirAll(dir, 0755))
	nkeys, maxv := 8, 200
	durable := true
	var invalid [][2]string
	tooBig := 0
	switch kind {
	case "mem":
		durable = false
		mem := memstore.NewMemStore()
		w.open = func() (blobstore.Store, error) { return mem, nil }
		invalid = [][2]string{{"set", "x"}, {"set", ""}}
		tooBig = blobstore.MaxSize + 1
	case "bolt":
		file := filepath.Join(dir, "bolt.db")
		w.open = func() (blobstore.Store, error) {
			s, err := boltstore.NewBoltStore(file, &bbolt.Options{Timeout: 5 * time.Second, NoFreelistSync: r.Intn(2) == 0})
			if err == nil {
				s.DB().NoSync = true
			}
			return s, err
		}
		invalid = [][2]string{{"set", ""}, {"", "key"}, {"set", strings.Repeat("k", 40000)}}
	case "badger":
		nkeys = 8 + r.Intn(300)
		maxv = []int{60, 600, 5000}[r.Intn(3)]
		w.open = func() (blobstore.Store, error) {
			o := badger.DefaultOptions(dir)
			o.Logger = noLog{}
			o.MaxTableSize = 1 << 20
			o.NumMemtables = 2
			o.ValueLogFileSize = 4 << 20
			o.SyncWrites = false
			o.ValueLogLoadingMode = 0
			o.TableLoadingMode = 0
			return badgerstore.New(o)
		}
		invalid = [][2]string{{"!badger!", "key"}, {"set", strings.Repeat("k", 70000)}}
		tooBig = 1 << 20
	}
	var err error
	w.st, err = w.open()
	must(err)
	defer func() {
		if c, ok := w.st.(io.Closer); ok && c != nil {
			_ = c.Close()
		}
		_ = os.RemoveAll(dir)
	}()
	setNames := []string{"a", "ab", "a b", "A", "ä"}
	if kind == "bolt" {
		setNames = append(setNames, "a/b", "/")
	}
	for i := 0; i < nkeys; i++ {
		w.sets = append(w.sets, setNames[r.Intn(len(setNames))])
		w.keys = append(w.keys, fmt.Sprintf("%s%d", []string{"b/", "key", "key+", "K\x00", "b"}[i%5], i/5+10))
	}
	// the same key in several sets
	for i := 0; i < 4; i++ {
		w.sets = append(w.sets, setNames[i])
		w.keys = append(w.keys, "same/key")
	}
	n := len(w.keys)
	for _, x := range invalid {
		w.sets = append(w.sets, x[0])
		w.keys = append(w.keys, x[1])
	}
	tr.add(Ev{"ev": "begin", "keys": len(w.keys), "max": 0, "kind": kind})
	together := r.Intn(3) == 0
	for i := 0; i < ops; i++ {
		k := r.Intn(n)
		switch x := r.Intn(100); {
		case x < 50:
			size := r.Intn(maxv)
			if r.Intn(10) == 0 {
				size = 0
			}
			if !w.set(k, w.blob(size), false, 0) {
				return
			}
		case x < 75:
			if _, ok := w.get(k, 0); !ok {
				return
			}
		case x < 92:
			if !w.del(k, 0) {
				return
			}
		case x < 95:
			if len(invalid) > 0 && r.Intn(2) == 0 {
				k = n + r.Intn(len(invalid))
				if !w.set(k, w.blob(10), true, 0) {
					return
				}
			} else if tooBig > 0 {
				if !w.set(k, w.blob(tooBig+r.Intn(3)), true, 0) {
					return
				}
			}
			if _, ok := w.get(k, 0); !ok {
				return
			}
		case x < 97:
			if together {
				only := []int{r.Intn(n), r.Intn(n)}
				for round := 0; round < 3; round++ {
					// older and newer versions of the same blob
					if !w.set(only[0], w.blob(6), false, 0) || kind == "badger" && r.Intn(2) == 0 && !w.reopen() || !w.set(only[0], w.blob(7), false, 0) {
						return
					}
					if !w.together(3, 2, 4, only) {
						return
					}
					// known again
					for _, k := range only {
						if !w.del(k, 0) {
							return
						}
					}
				}
			}
		default:
			if durable && r.Intn(2) == 0 {
				if !w.reopen() {
					return
				}
			}
		}
	}
	if durable && !w.reopen() {
		return
	}
	for k := 0; k < n; k++ {
		if _, ok := w.get(k, 0); !ok {
			return
		}
	}
}

var quietCtx = log.WithLogger(context.Background(), log.NullLogger())

func storeMode(tr *Trace) {
	tr.add(Ev{"ev": "tables"})
	var scripts []maxScript
	if *fIn != "" {
		for _, l := range readLines(*fIn) {
			var s maxScript
			must(json.Unmarshal([]byte(l), &s))
			scripts = append(scripts, s)
		}
		*fN = len(scripts)
	}
	for i := 0; i < *fN; i++ {
		r := rand.New(rand.NewSource(*fSeed*7919 + int64(i)))
		ep := &epTrace{}
		in := &intern{}
		func() {
			defer func() {
				if p := recover(); p != nil {
					tr.addEpisode(ep)
					panic(p)
				}
			}()
			switch *fProf {
			case "maxscript":
				maxSizeScript(ep, r, in, scripts[i])
			case "maxsize":
				maxSizeEpisode(ep, r, in, *fOps, i%3 == 1, i%4 == 2, i == 0 && *fSeed%8 == 0)
			default:
				kind := []string{"mem", "bolt", "badger"}[(int(*fSeed)+i)%3]
				ops := *fOps
				if kind == "badger" {
					ops *= 4
				}
				backendEpisode(ep, r, in, kind, filepath.Join(*fDir, fmt.Sprint("db", i)), ops)
			}
		}()
		tr.addEpisode(ep)
	}
}
