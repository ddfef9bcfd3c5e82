//go:build go1.22

package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	lru "github.com/hashicorp/golang-lru"
)

// ---------------------------------------------------------------------
// Projection of Go values to trace values.

var payloads intern

func elJ(e rankdb.Element) []interface{} {
	return []interface{}{idTab.of(uint64(e.ID)), scTab.of(e.Score), tiTab.of(uint64(e.TieBreaker)), upd(e.Updated), payJ(e.Payload)}
}

func payJ(p []byte) int {
	if len(p) == 0 {
		return 0
	}
	return payloads.of(string(p))
}

func elsJ(e []rankdb.Element) []interface{} {
	r := make([]interface{}, 0, len(e))
	for i := range e {
		r = append(r, elJ(e[i]))
	}
	return r
}

func rankedJ(r rankdb.RankedElement) Ev {
	bf := []Ev{}
	if r.Before != nil {
		bf = append(bf, rankedJ(*r.Before))
	}
	return Ev{"e": elJ(r.Element), "ft": r.FromTop, "fb": r.FromBottom, "ab": elsJ(r.Above), "be": elsJ(r.Below), "bf": bf}
}

func rankedsJ(r []rankdb.RankedElement) []interface{} {
	res := make([]interface{}, 0, len(r))
	for i := range r {
		res = append(res, rankedJ(r[i]))
	}
	return res
}

func idsJ(ids []rankdb.ElementID) []int {
	r := make([]int, 0, len(ids))
	for _, id := range ids {
		r = append(r, idTab.of(uint64(id)))
	}
	return r
}

func errClass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == rankdb.ErrOffsetOutOfBounds:
		return "oob"
	case err == rankdb.ErrNotFound:
		return "notfound"
	case err == blobstore.ErrBlobNotFound:
		return "blobnotfound"
	}
	return "err"
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	s := err.Error()
	if len(s) > 200 {
		s = s[:200]
	}
	return strings.Map(func(r rune) rune {
		if r < 32 || r > 126 || r == '"' || r == '\\' {
			return ' '
		}
		return r
	}, s)
}

func metaJ(m map[string]string) [][]string {
	r := make([][]string, 0, len(m))
	for k, v := range m {
		r = append(r, []string{k, v})
	}
	sort.Slice(r, func(i, j int) bool { return r[i][0] < r[j][0] })
	return r
}

// ---------------------------------------------------------------------
// Stored structure of a list, read from the blobs.

var names intern // blob keys, segment collection ids

func segBorder(score uint64, tie uint32) []int {
	return append(limbs(score, 4), limbs(uint64(tie), 2)...)
}

// structOf reads the stored form of the list.
func structOf(st *recStore, l *rankdb.List) Ev {
	ctx := context.Background()
	l.RLock()
	set, sid, xid := l.Set, l.Scores, l.Index
	o := Ev{"set": set, "sid": names.of(string(sid)), "xid": names.of(string(xid)), "mz": l.MergeSize, "sz": l.SplitSize,
		"li": l.LoadIndex, "meta": metaJ(l.Metadata), "id": string(l.ID)}
	l.RUnlock()
	bad := []string{}
	want := []int{}
	ws := blobstore.StoreWithSet(rawStore{st}, set)
	read := func(id rankdb.SegmentsID, index bool) []Ev {
		res := []Ev{}
		want = append(want, names.of(set+"\x00"+string(id)))
		segs, err := id.Load(ctx, ws, nil)
		if err != nil {
			bad = append(bad, "segments: "+errText(err))
			return res
		}
		if segs.IsIndex != index {
			bad = append(bad, "IsIndex flag wrong")
		}
		if segs.ID != id {
			bad = append(bad, "stored id wrong")
		}
		for i := range segs.Segments {
			s := &segs.Segments[i]
			key := s.StorageKey()
			if s.Parent != id {
				bad = append(bad, "parent wrong")
			}
			if s.Updated == 0 {
				bad = append(bad, "segment without update time")
			}
			if s.ID >= segs.NextID {
				bad = append(bad, "segment id not below next id")
			}
			want = append(want, names.of(set+"\x00"+key))
			r := Ev{"id": int(s.ID), "n": s.N, "mx": segBorder(s.Max, s.MaxTie), "mn": segBorder(s.Min, s.MinTie)}
			var els rankdb.Elements
			b, err := ws.Get(ctx, key)
			if err == nil {
				var v uint8
				b, v = rankdb.MsgpGetVersion(b)
				if v != 1 {
					bad = append(bad, "element version")
				}
				_, err = els.UnmarshalMsg(b)
			}
			if err != nil {
				bad = append(bad, "elements: "+errText(err))
			}
			if index {
				x := make([][]int, 0, len(els))
				for _, e := range els {
					if uint64(e.ID) != e.Score {
						bad = append(bad, "index entry id/score")
					}
					x = append(x, []int{idTab.of(uint64(e.ID)), int(e.TieBreaker & 0x7fffffff)})
				}
				r["els"] = x
			} else {
				r["els"] = elsJ(els)
			}
			res = append(res, r)
		}
		return res
	}
	o["segs"] = read(sid, false)
	o["idx"] = read(xid, true)
	o["want"] = want
	o["bad"] = bad
	return o
}

// ---------------------------------------------------------------------
// Caches

// evilCache forgets entries at random.
type evilCache struct {
	rng *rand.Rand
	m   *lru.Cache
	pct int
}

func (c *evilCache) Add(k, v interface{}) {
	if c.rng.Intn(100) >= c.pct {
		c.m.Add(k, v)
	} else {
		c.m.Remove(k)
	}
}
func (c *evilCache) Get(k interface{}) (interface{}, bool) { return c.m.Get(k) }
func (c *evilCache) Contains(k interface{}) bool           { return c.m.Contains(k) }
func (c *evilCache) Remove(k interface{})                  { c.m.Remove(k) }

type lruCache struct{ *lru.Cache }

func (c lruCache) Add(k, v interface{}) { c.Cache.Add(k, v) }
func (c lruCache) Remove(k interface{}) { c.Cache.Remove(k) }

func newCache(kind string, rng *rand.Rand) rankdb.Cache {
	switch kind {
	case "none":
		return nil
	case "big":
		c, _ := lru.New(10000)
		return lruCache{c}
	case "small":
		c, _ := lru.New(3)
		return lruCache{c}
	}
	c, _ := lru.New(10000)
	return &evilCache{rng: rand.New(rand.NewSource(rng.Int63())), m: c, pct: 50}
}

// ---------------------------------------------------------------------
// World: the lists of one episode.

type world struct {
	tr    *Trace
	rng   *rand.Rand
	st    *recStore
	bs    blobstore.Store
	m     *rankdb.Manager
	cache rankdb.Cache
	ctx   context.Context

	lists  map[int]*rankdb.List
	ids    []uint64 // ids used in this episode
	scs    []uint64
	tis    []uint64
	ups    []uint32
	pays   [][]byte
	model  map[int]map[uint64]bool // ids present, to pick sensible arguments
	back   map[int][]byte          // serialized lists
	nls    int
	prof   profile
	noSnap bool
}

type profile struct {
	name    string
	weights map[string]int
	nlists  int
	ops     int
}

func newWorld(tr *Trace, seed int64, p profile) *world {
	rng := rand.New(rand.NewSource(seed))
	w := &world{tr: tr, rng: rng, st: newRecStore(), lists: map[int]*rankdb.List{}, model: map[int]map[uint64]bool{},
		back: map[int][]byte{}, ctx: context.Background(), prof: p}
	w.bs = w.st
	perm := rng.Perm(len(idTab.vals))
	n := []int{3, 6, 12, 24}[rng.Intn(4)]
	for _, i := range perm[:n] {
		w.ids = append(w.ids, idTab.vals[i])
	}
	switch rng.Intn(5) {
	case 0:
		w.scs = []uint64{0, 1, maxU64}
	case 1:
		w.scs = []uint64{10, 11}
	case 2:
		w.scs = []uint64{500}
	case 3:
		w.scs = []uint64{maxU64 - 1, maxU64, 1 << 63, 0, 1 << 32, 1<<32 - 1}
	default:
		w.scs = scTab.vals
	}
	switch rng.Intn(4) {
	case 0:
		w.tis = []uint64{0}
	case 1:
		w.tis = []uint64{0, 1, 1<<32 - 1}
	case 2:
		w.tis = []uint64{1<<32 - 1, 1<<32 - 2}
	default:
		w.tis = tiTab.vals
	}
	switch rng.Intn(3) {
	case 0:
		w.ups = []uint32{1000}
	case 1:
		w.ups = []uint32{1, maxU32}
	default:
		w.ups = []uint32{1, 2, 1000, 1 << 31, maxU32 - 1, maxU32}
	}
	w.pays = [][]byte{nil, {}, []byte("a"), []byte("b"), bytes.Repeat([]byte("xyz"), 100), {0, 255, 34, 10}}
	return w
}

func pick[T any](r *rand.Rand, s []T) T { return s[r.Intn(len(s))] }

func (w *world) element(id uint64) rankdb.Element {
	var p []byte
	if q := pick(w.rng, w.pays); q != nil {
		p = append([]byte{}, q...)
	}
	return rankdb.Element{ID: rankdb.ElementID(id), Score: pick(w.rng, w.scs), TieBreaker: uint32(pick(w.rng, w.tis)),
		Updated: pick(w.rng, w.ups), Payload: p}
}

// someIDs picks up to n distinct ids; present: only (not) in list.
func (w *world) someIDs(k, n int, present int) []uint64 {
	var c []uint64
	for _, id := range w.ids {
		if present < 0 || (present == 1) == w.model[k][id] {
			c = append(c, id)
		}
	}
	w.rng.Shuffle(len(c), func(i, j int) { c[i], c[j] = c[j], c[i] })
	if len(c) > n {
		c = c[:n]
	}
	return c
}

func (w *world) batch(ids []uint64) rankdb.Elements {
	r := make(rankdb.Elements, 0, len(ids))
	for _, id := range ids {
		r = append(r, w.element(id))
	}
	return r
}

func (w *world) snapshot() []Ev {
	post := []Ev{}
	ks := make([]int, 0)
	for k := range w.lists {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		o := structOf(w.st, w.lists[k])
		o["k"] = k
		post = append(post, o)
	}
	return post
}

func (w *world) blobKeys() []int {
	r := []int{}
	for _, k := range w.st.keys() {
		if strings.HasPrefix(k, "mgr\x00") || strings.HasPrefix(k, "bak\x00") {
			continue
		}
		r = append(r, names.of(k))
	}
	sort.Ints(r)
	return r
}

// op runs one operation, and records its event and the state afterwards.
func (w *world) op(e Ev, fn func()) {
	curOp.Store(fmt.Sprint(e["ev"]))
	p := guard(fn)
	if p != "" {
		e["ev"] = "panic"
		e["err"] = p
		w.tr.add(e)
		w.tr.flush()
		exitNow()
	}
	e["post"] = w.snapshot()
	e["keys"] = w.blobKeys()
	w.tr.add(e)
}

// query runs one operation that must not change anything.
func (w *world) query(e Ev, fn func()) {
	curOp.Store(fmt.Sprint(e["ev"]))
	p := guard(fn)
	if p != "" {
		e["ev"] = "panic"
		e["err"] = p
		w.tr.add(e)
		w.tr.flush()
		exitNow()
	}
	w.tr.add(e)
}

func (w *world) begin() {
	w.tr.add(Ev{"ev": "begin", "prof": w.prof.name})
}

func (w *world) newManager(kind string) {
	m, err := rankdb.NewManager(w.bs, "mgr")
	must(err)
	m.Backup = blobstore.StoreWithSet(w.bs, "bak")
	w.cache = newCache(kind, w.rng)
	must(m.NewLists(w.cache))
	w.m = m
}

func (w *world) have(k int, els []rankdb.Element) {
	for _, e := range els {
		w.model[k][uint64(e.ID)] = true
	}
}

var sizes = [][2]int{{1, 2}, {1, 3}, {2, 4}, {3, 6}, {4, 8}, {5, 6}, {10, 20}, {0, 2}}

func (w *world) create(k int, clone int) {
	sz := pick(w.rng, sizes)
	set := pick(w.rng, []string{"s1", "s2"})
	id := rankdb.ListID(listName(k))
	meta := map[string]string(nil)
	if w.rng.Intn(2) == 0 {
		meta = map[string]string{"game": pick(w.rng, []string{"x", "y"}), "k": fmt.Sprint(k)}
		if w.rng.Intn(3) == 0 {
			meta["empty"] = ""
		}
	}
	li := w.rng.Intn(2) == 0
	opts := []rankdb.ListOption{rankdb.WithListOption.MergeSplitSize(sz[0], sz[1]), rankdb.WithListOption.LoadIndex(li),
		rankdb.WithListOption.Metadata(meta), rankdb.WithListOption.Cache(w.cache)}
	var els rankdb.Elements
	if clone != 0 {
		opts = append(opts, rankdb.WithListOption.Clone(w.lists[clone]))
	} else if w.rng.Intn(3) > 0 {
		els = w.batch(w.someIDs(k, w.rng.Intn(len(w.ids)+1), -1))
		opts = append(opts, rankdb.WithListOption.Populate(els))
	}
	e := Ev{"ev": "create", "k": k, "set": set, "mz": sz[0], "sz": sz[1], "meta": metaJ(meta), "li": li, "clone": clone, "id": string(id)}
	w.model[k] = map[uint64]bool{}
	w.op(e, func() {
		t0 := uint32(time.Now().Unix())
		l, err := rankdb.NewList(w.ctx, id, set, w.bs, opts...)
		t1 := uint32(time.Now().Unix())
		e["res"] = errClass(err)
		e["err"] = errText(err)
		e["els"] = elsJ(els)
		e["lo"], e["hi"] = upd(t0), upd(t1)
		if l != nil {
			w.lists[k] = l
			w.m.Lists.Add(l)
		}
	})
	if clone != 0 {
		for id := range w.model[clone] {
			w.model[k][id] = true
		}
	} else {
		w.have(k, els)
	}
}

func (w *world) anyList() (int, *rankdb.List) {
	ks := make([]int, 0)
	for k := range w.lists {
		ks = append(ks, k)
	}
	if len(ks) == 0 {
		return 0, nil
	}
	sort.Ints(ks)
	k := pick(w.rng, ks)
	return k, w.lists[k]
}

// callCtx makes the following calls use a context of their own until the returned function is called.
func (w *world) callCtx() func() {
	base := w.ctx
	ctx, cancel := context.WithCancel(base)
	w.ctx = ctx
	return func() { cancel(); w.ctx = base }
}

func (w *world) step(what string) bool {
	defer w.callCtx()()
	if what == "create" {
		for k := 1; k <= w.prof.nlists; k++ {
			if w.lists[k] == nil {
				w.create(k, 0)
				return true
			}
		}
		return false
	}
	k, l := w.anyList()
	if l == nil {
		return false
	}
	ctx, bs := w.ctx, w.bs
	r := w.rng
	switch what {
	case "upd":
		els := w.batch(w.someIDs(k, r.Intn(6), -1))
		if r.Intn(6) == 0 {
			els = w.batch(w.someIDs(k, len(w.ids), -1))
		}
		w.update(k, els, r.Intn(5), r.Intn(4) > 0)
	case "ins":
		els := w.batch(w.someIDs(k, 1+r.Intn(5), 0))
		if r.Intn(5) == 0 {
			els = w.batch(w.someIDs(k, len(w.ids), 0))
		}
		w.insert(k, els)
	case "del":
		ids := w.someIDs(k, r.Intn(5), -1)
		if r.Intn(2) == 0 {
			ids = w.someIDs(k, 1+r.Intn(5), 1)
		}
		switch r.Intn(8) {
		case 0:
			ids = w.someIDs(k, len(w.ids), 1)
		case 1:
			// everything at one end of the ranking, to empty border segments
			ids = w.endIDs(k)
		}
		if len(ids) > 0 && r.Intn(5) == 0 {
			ids = append(ids, ids[0])
		}
		w.del(k, ids)
	case "pop":
		els := w.batch(w.someIDs(k, r.Intn(len(w.ids)+1), -1))
		e := Ev{"ev": "pop", "k": k, "els": elsJ(els)}
		w.op(e, func() { err := l.Populate(ctx, bs, els); e["res"], e["err"] = errClass(err), errText(err) })
		w.model[k] = map[uint64]bool{}
		w.have(k, els)
	case "split":
		w.maint(k, "split", func() error { return l.ForceSplit(ctx, bs) })
	case "reindex":
		w.maint(k, "reindex", func() error { return l.Reindex(ctx, bs) })
	case "repair":
		w.maint(k, "repair", func() error { return l.Repair(ctx, bs, r.Intn(2) == 0) })
	case "verify":
		w.maint(k, "verify", func() error { return l.Verify(ctx, bs) })
	case "verifyE":
		w.maint(k, "verifyE", func() error { return l.VerifyElements(ctx, bs) })
	case "release":
		w.maint(k, "release", func() error { l.ReleaseSegments(ctx); return nil })
	case "prune":
		w.maint(0, "prune", func() error { return w.m.Lists.Prune(ctx) })
	case "unlocked":
		w.maint(k, "unlocked", func() error { return l.VerifyUnlocked(ctx, 20*time.Second) })
	case "clone":
		for d := 1; d <= w.prof.nlists; d++ {
			if w.lists[d] == nil {
				w.create(d, k)
				return true
			}
		}
		return false
	case "dellist":
		e := Ev{"ev": "dellist", "k": k}
		w.op(e, func() {
			err := w.m.DeleteList(ctx, rankdb.ListID(listName(k)))
			e["res"], e["err"] = errClass(err), errText(err)
			delete(w.lists, k)
		})
	case "damage":
		w.damage(k)
	case "backup":
		e := Ev{"ev": "backup", "k": k}
		w.op(e, func() {
			var buf bytes.Buffer
			m := rankdb.NewWriterMsg()
			m.ReplaceWriter(&buf)
			err := l.Backup(ctx, bs, m)
			m.Flush()
			m.Close()
			e["res"], e["err"] = errClass(err), errText(err)
			w.back[k] = append([]byte{}, buf.Bytes()...)
		})
	case "restore":
		// restore under another id
		src := 0
		for s := 1; s <= w.prof.nlists; s++ {
			if w.back[s] != nil && (src == 0 || r.Intn(2) == 0) {
				src = s
			}
		}
		if src == 0 {
			return false
		}
		for d := 1; d <= w.prof.nlists; d++ {
			if w.lists[d] != nil {
				continue
			}
			e := Ev{"ev": "restore", "k": d, "src": src, "id": listName(d)}
			w.op(e, func() {
				id := rankdb.ListID(listName(d))
				nl, err := rankdb.RestoreList(ctx, bs, rankdb.NewReaderMsgp(w.back[src]), w.cache, &id)
				e["res"], e["err"] = errClass(err), errText(err)
				if err == nil {
					w.lists[d] = nl
					w.m.Lists.Add(nl)
				}
			})
			w.model[d] = map[uint64]bool{}
			if nl := w.lists[d]; nl != nil {
				els, _ := nl.GetRankTop(ctx, bs, 0, 1000)
				w.have(d, els)
			}
			return true
		}
		return false
	case "restart":
		w.restart()
	case "pageA", "pageB", "match", "byids":
		w.registryQuery(what)
	default:
		w.rankQuery(k, what)
	}
	return true
}

func (w *world) endIDs(k int) []uint64 {
	els, err := w.lists[k].GetRankTop(w.ctx, w.bs, 0, 1000)
	if err != nil || len(els) == 0 {
		return nil
	}
	n := 1 + w.rng.Intn(len(els))
	if w.rng.Intn(2) == 0 {
		els = els[len(els)-n:]
	} else {
		els = els[:n]
	}
	var r []uint64
	for _, e := range els {
		r = append(r, uint64(e.ID))
	}
	return r
}

func (w *world) update(k int, els rankdb.Elements, radius int, results bool) {
	l := w.lists[k]
	e := Ev{"ev": "upd", "k": k, "els": elsJ(els), "radius": radius, "results": results}
	w.op(e, func() {
		res, err := l.UpdateElements(w.ctx, w.bs, els, radius, results)
		e["res"], e["err"] = errClass(err), errText(err)
		e["out"] = rankedsJ(res)
	})
	w.have(k, els)
}

func (w *world) insert(k int, els rankdb.Elements) {
	l := w.lists[k]
	e := Ev{"ev": "ins", "k": k, "els": elsJ(els)}
	w.op(e, func() {
		err := l.Insert(w.ctx, w.bs, els)
		e["res"], e["err"] = errClass(err), errText(err)
	})
	w.have(k, els)
}

func (w *world) del(k int, ids []uint64) {
	l := w.lists[k]
	var x []rankdb.ElementID
	for _, id := range ids {
		x = append(x, rankdb.ElementID(id))
	}
	e := Ev{"ev": "del", "k": k, "ids": idsJ(x)}
	w.op(e, func() {
		err := l.DeleteElements(w.ctx, w.bs, x)
		e["res"], e["err"] = errClass(err), errText(err)
	})
	for _, id := range ids {
		delete(w.model[k], id)
	}
}

func (w *world) maint(k int, name string, fn func() error) {
	e := Ev{"ev": name, "k": k}
	w.op(e, func() { err := fn(); e["res"], e["err"] = errClass(err), errText(err) })
}

func (w *world) qRange(k int, what string, off, cnt int) {
	e := Ev{"ev": what, "k": k, "off": off, "n": cnt}
	w.query(e, func() {
		var res rankdb.Elements
		var err error
		if what == "top" {
			res, err = w.lists[k].GetRankTop(w.ctx, w.bs, off, cnt)
		} else {
			res, err = w.lists[k].GetRankBottom(w.ctx, w.bs, off, cnt)
		}
		e["res"], e["err"], e["out"] = errClass(err), errText(err), elsJ(res)
	})
}

func (w *world) qScore(k int, s uint64, cnt int) {
	e := Ev{"ev": "score", "k": k, "s": scTab.of(s), "n": cnt}
	w.query(e, func() {
		res, err := w.lists[k].GetRankScoreDesc(w.ctx, w.bs, s, cnt)
		e["res"], e["err"], e["out"] = errClass(err), errText(err), rankedsJ(res)
	})
}

func (w *world) qPct(k, k16 int, f float64, radius int) {
	e := Ev{"ev": "pct", "k": k, "k16": k16, "radius": radius}
	w.query(e, func() {
		res, err := w.lists[k].GetPercentile(w.ctx, w.bs, f, radius)
		e["res"], e["err"] = errClass(err), errText(err)
		out := []Ev{}
		if res != nil {
			out = append(out, rankedJ(*res))
		}
		e["out"] = out
	})
}

func (w *world) qGet(k int, ids []uint64, radius int) {
	var x []rankdb.ElementID
	for _, id := range ids {
		x = append(x, rankdb.ElementID(id))
	}
	e := Ev{"ev": "get", "k": k, "ids": idsJ(x), "radius": radius}
	w.query(e, func() {
		res, err := w.lists[k].GetElements(w.ctx, w.bs, x, radius)
		e["res"], e["err"], e["out"] = errClass(err), errText(err), rankedsJ(res)
	})
}

func (w *world) qLen(k int) {
	e := Ev{"ev": "len", "k": k}
	w.query(e, func() {
		res, err := w.lists[k].Len(w.ctx, w.bs)
		e["res"], e["err"], e["out"] = errClass(err), errText(err), res
	})
}

func (w *world) qStats(k int, els bool) {
	e := Ev{"ev": "stats", "k": k, "els": els}
	w.query(e, func() {
		res, err := w.lists[k].Stats(w.ctx, w.bs, els)
		e["res"], e["err"] = errClass(err), errText(err)
		top, bot := []Ev{}, []Ev{}
		if res != nil {
			e["n"], e["segs"] = res.Elements, res.Segments
			if res.Top != nil {
				top = append(top, rankedJ(*res.Top))
			}
			if res.Bottom != nil {
				bot = append(bot, rankedJ(*res.Bottom))
			}
		}
		e["top"], e["bot"] = top, bot
	})
}

func (w *world) rankQuery(k int, what string) {
	r := w.rng
	n := len(w.model[k])
	switch what {
	case "full":
		w.qRange(k, "top", 0, 1000)
	case "top", "bottom":
		off, cnt := r.Intn(n+3), r.Intn(n+3)
		switch r.Intn(12) {
		case 0:
			off = -1 - r.Intn(3)
		case 1:
			off = 1 << 30
		case 2:
			cnt = 1 << 30
		}
		w.qRange(k, what, off, cnt)
	case "score":
		s := pick(r, scTab.vals)
		if r.Intn(2) == 0 {
			s = pick(r, w.scs)
		}
		cnt := r.Intn(n + 3)
		if r.Intn(12) == 0 {
			cnt = 1 << 30
		}
		w.qScore(k, s, cnt)
	case "pct":
		k16 := r.Intn(17)
		f := float64(k16) / 16
		switch r.Intn(10) {
		case 0:
			k16, f = 16, 1.5
		case 1:
			k16, f = 0, -0.5
		case 2, 3:
			k16, f = 16, 1
		}
		radius := r.Intn(4)
		if r.Intn(4) == 0 {
			radius = n + 1
		}
		w.qPct(k, k16, f, radius)
	case "get":
		ids := w.someIDs(k, 1+r.Intn(5), -1)
		if r.Intn(4) == 0 {
			ids = w.someIDs(k, len(w.ids), -1)
		}
		if r.Intn(4) == 0 {
			ids = append(ids, ids[r.Intn(len(ids))])
		}
		if r.Intn(4) == 0 {
			ids = append(ids, pick(r, idTab.vals))
		}
		if r.Intn(15) == 0 {
			ids = nil
		}
		radius := r.Intn(4)
		if r.Intn(4) == 0 {
			radius = n + 1
		}
		w.qGet(k, ids, radius)
	case "len":
		w.qLen(k)
	case "stats":
		w.qStats(k, r.Intn(3) > 0)
	default:
		must(errors.New("unknown step " + what))
	}
}

// damage breaks the stored index of a list, and lets the list forget it.
func (w *world) damage(k int) {
	l := w.lists[k]
	l.RLock()
	set, xid := l.Set, l.Index
	l.RUnlock()
	raw := rawStore{w.st}
	ws := blobstore.StoreWithSet(raw, set)
	segs, err := xid.Load(w.ctx, ws, nil)
	if err != nil {
		return
	}
	e := Ev{"ev": "damage", "k": k}
	kind := w.rng.Intn(5)
	e["kind"] = kind
	w.op(e, func() {
		i := w.rng.Intn(len(segs.Segments))
		key := segs.Segments[i].StorageKey()
		switch kind {
		case 0: // index lost
			ws.Delete(w.ctx, string(xid))
			for i := range segs.Segments {
				ws.Delete(w.ctx, segs.Segments[i].StorageKey())
			}
		case 1: // elements of an index segment lost
			ws.Delete(w.ctx, key)
		case 2: // garbage
			ws.Set(w.ctx, key, []byte{9, 1, 2, 3})
		default: // entries lost, or pointing to the wrong segment
			b, err := ws.Get(w.ctx, key)
			must(err)
			var els rankdb.Elements
			b, _ = rankdb.MsgpGetVersion(b)
			_, err = els.UnmarshalMsg(b)
			must(err)
			if len(els) > 0 {
				j := w.rng.Intn(len(els))
				if kind == 3 {
					els = append(els[:j], els[j+1:]...)
				} else {
					els[j].TieBreaker++
				}
			}
			wm := rankdb.NewWriterMsg()
			wm.SetVersion(1)
			els.EncodeMsg(wm.Writer())
			ws.Set(w.ctx, key, append([]byte{}, wm.Buffer().Bytes()...))
			wm.Close()
		}
		l.ReleaseSegments(w.ctx)
		e["res"], e["err"] = "ok", ""
	})
	// Without the index only these are promised to work.
	what := pick(w.rng, []string{"reindex", "repair"})
	if kind != 0 {
		for i := 0; i < w.rng.Intn(4); i++ {
			w.rankQuery(k, pick(w.rng, []string{"full", "top", "bottom", "score", "pct", "len"}))
		}
	}
	if what == "reindex" {
		w.maint(k, "reindex", func() error { return l.Reindex(w.ctx, w.bs) })
	} else {
		w.maint(k, "repair", func() error { return l.Repair(w.ctx, w.bs, w.rng.Intn(2) == 0) })
	}
	w.maint(k, "verifyE", func() error { return l.VerifyElements(w.ctx, w.bs) })
	w.rankQuery(k, "full")
	w.rankQuery(k, "get")
}
