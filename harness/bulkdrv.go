//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math/rand"
	"sort"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/log"
)

// Large lists. Elements are handled in ranges of ids: everything about an element follows from
// its id, its slot and the time it was updated. See Blocks.tla.

type span [2]int // ids from..to

type bulk struct {
	tr    *Trace
	rng   *rand.Rand
	st    *recStore
	bs    blobstore.Store
	cache rankdb.Cache
	ctx   context.Context
	l     *rankdb.List
	seq   int

	mode   string // what differs inside a slot: score, tie, id
	asc    bool
	n      int // usual number of elements
	uni    int // ids are below
	max    int // longest list
	maxUpd int
	idBase uint64
	tie0   uint32
	bases  []uint64
	slot   []int8 // by id, 0 when not in the list
	batch  int
	sizes  [][2]int
}

const noID = 1 << 30

func newBulk(tr *Trace, seed int64, huge bool) *bulk {
	rng := rand.New(rand.NewSource(seed))
	b := &bulk{tr: tr, rng: rng, st: newRecStore(), ctx: log.WithLogger(context.Background(), log.NullLogger())}
	b.bs = b.st
	b.cache = newCache(pick(rng, []string{"none", "big", "small", "evil"}), rng)
	b.mode = pick(rng, []string{"score", "score", "tie", "id"})
	b.n = pick(rng, []int{60, 300, 300, 1500, 1500, 4000})
	b.sizes = [][2]int{{1, 2}, {5, 12}, {20, 40}, {100, 250}, {250, 500}, {500, 1000}, {1000, 2500}}
	b.batch = b.n
	if huge {
		b.mode = pick(rng, []string{"score", "score", "tie"})
		b.n = 101000 + rng.Intn(30000)
		b.sizes = [][2]int{{250, 1000}, {500, 1500}, {1000, 2000}}
		b.batch = 20000
		b.cache = newCache(pick(rng, []string{"none", "big"}), rng)
	}
	b.asc = b.mode == "id"
	b.uni = b.n + b.n/2
	b.slot = make([]int8, b.uni)
	b.maxUpd = 1 + rng.Intn(3)
	top := uint64(b.uni)
	b.idBase = pick(rng, []uint64{0, 1<<32 - top/2, 1<<63 - top/2, maxU64 - top + 1, 1 << 40})
	b.tie0 = pick(rng, []uint32{0, maxU32 - uint32(top) + 1, 1<<31 - uint32(top)/2})
	switch rng.Intn(4) {
	case 0:
		b.bases = []uint64{0}
	case 1:
		b.bases = []uint64{0, maxU64 - top + 1}
	case 2:
		b.bases = []uint64{maxU64 - 3*top, maxU64 - 2*top, maxU64 - top + 1}
	default:
		b.bases = []uint64{0, 1<<32 - top/2, 1 << 53, 1<<63 - top/2, maxU64 - top + 1}
	}
	return b
}

// usable sizes: not too many segments
func (b *bulk) size() (int, int) {
	for {
		s := pick(b.rng, b.sizes)
		if b.n/s[1] <= 300 {
			return s[0], s[1]
		}
	}
}

// ---------------------------------------------------------------------
// Elements

func bulkPayload(id, upd int) []byte {
	switch (id*7 + upd) % 5 {
	case 0:
		return nil
	case 1:
		return []byte{byte(upd)}
	}
	var p [8]byte
	binary.LittleEndian.PutUint32(p[:], uint32(id))
	binary.LittleEndian.PutUint32(p[4:], uint32(upd))
	return p[:]
}

func (b *bulk) id(id int) rankdb.ElementID { return rankdb.ElementID(b.idBase + uint64(id)) }

func (b *bulk) element(id, slot, upd int) rankdb.Element {
	e := rankdb.Element{ID: b.id(id), Score: b.bases[slot-1], TieBreaker: b.tie0, Updated: uint32(upd), Payload: bulkPayload(id, upd)}
	switch b.mode {
	case "score":
		e.Score += uint64(id)
	case "tie":
		e.TieBreaker += uint32(id)
	}
	return e
}

// unid returns the id, or -1
func (b *bulk) unid(id rankdb.ElementID) int {
	x := uint64(id) - b.idBase
	if x >= uint64(b.uni) {
		return -1
	}
	return int(x)
}

// decode returns id, slot and update time. -1 if they are not what an element can be.
func (b *bulk) decode(e *rankdb.Element) (int, int, int) {
	id, upd := b.unid(e.ID), int(e.Updated)
	if id < 0 || upd > 1000 {
		return -1, -1, -1
	}
	base, tie := e.Score, e.TieBreaker
	switch b.mode {
	case "score":
		base -= uint64(id)
	case "tie":
		tie -= uint32(id)
	}
	for s := range b.bases {
		if b.bases[s] == base && tie == b.tie0 && bytes.Equal(e.Payload, bulkPayload(id, upd)) {
			return id, s + 1, upd
		}
	}
	return id, -1, upd
}

// step to the next id in ranking order inside a run
func (b *bulk) dir() int {
	if b.asc {
		return 1
	}
	return -1
}

func lohi(x, y int) (int, int) {
	if x > y {
		return y, x
	}
	return x, y
}

// blocksOf returns the elements as maximal runs.
func (b *bulk) blocksOf(els []rankdb.Element) [][]int {
	res := [][]int{}
	f, t, slot, upd := 0, 0, 0, 0
	put := func() {
		if slot != 0 {
			lo, hi := lohi(f, t)
			res = append(res, []int{lo, hi, slot, upd})
		}
	}
	for i := range els {
		id, s, u := b.decode(&els[i])
		if slot != 0 && s == slot && u == upd && id == t+b.dir() {
			t = id
			continue
		}
		put()
		f, t, slot, upd = id, id, s, u
	}
	put()
	return res
}

// runsOf returns ranked elements as runs.
func (b *bulk) runsOf(els []rankdb.RankedElement) []Ev {
	type rec struct{ f, t, ft, fb, slot, upd, bk, bft, bfb, bslot, bupd int }
	res := []Ev{}
	var c rec
	put := func() {
		if c.slot != 0 {
			res = append(res, Ev{"f": c.f, "t": c.t, "ft": c.ft, "fb": c.fb, "slot": c.slot, "upd": c.upd, "bk": c.bk, "bft": c.bft, "bfb": c.bfb, "bslot": c.bslot, "bupd": c.bupd})
		}
	}
	for i := range els {
		e := &els[i]
		var x rec
		x.f, x.slot, x.upd = b.decode(&e.Element)
		x.t, x.ft, x.fb = x.f, e.FromTop, e.FromBottom
		if e.Before != nil {
			x.bk, x.bft, x.bfb = 1, e.Before.FromTop, e.Before.FromBottom
			var id int
			id, x.bslot, x.bupd = b.decode(&e.Before.Element)
			if id != x.f {
				x.bslot = -1
			}
		}
		n := c.t - c.f
		if n < 0 {
			n = -n
		}
		n++
		if c.slot != 0 && x.slot == c.slot && x.upd == c.upd && x.f == c.t+b.dir() && x.ft == c.ft+n && x.fb == c.fb-n && x.bk == c.bk &&
			(x.bk == 0 || x.bslot == c.bslot && x.bupd == c.bupd && x.bft == c.bft+n && x.bfb == c.bfb-n) {
			c.t = x.f
			continue
		}
		put()
		c = x
	}
	put()
	return res
}

func (b *bulk) plain(els []rankdb.Element) [][]int {
	res := [][]int{}
	for i := range els {
		id, s, u := b.decode(&els[i])
		res = append(res, []int{id, s, u})
	}
	return res
}

// sample of the neighbours of ranked elements. All must have some, except at the ends.
func (b *bulk) neighbours(els []rankdb.RankedElement, radius int) []Ev {
	res := []Ev{}
	add := func(i int) {
		id, _, _ := b.decode(&els[i].Element)
		res = append(res, Ev{"id": id, "radius": radius, "ab": b.plain(els[i].Above), "be": b.plain(els[i].Below)})
	}
	short := 0
	for i := range els {
		e := &els[i]
		if len(els) <= 12 {
			add(i)
		} else if len(e.Above) != radius || len(e.Below) != radius {
			// at the ends
			if short++; short < 20 {
				add(i)
			}
		} else if b.rng.Intn(len(els)) < 12 {
			add(i)
		}
	}
	return res
}

// ---------------------------------------------------------------------
// Stored form

func (b *bulk) stored() Ev {
	ctx := context.Background()
	l := b.l
	l.RLock()
	set, sid, xid := l.Set, l.Scores, l.Index
	l.RUnlock()
	bad := []string{}
	complain := func(s string) {
		if len(bad) < 5 {
			bad = append(bad, s)
		}
	}
	want := []int{}
	ws := blobstore.StoreWithSet(rawStore{b.st}, set)
	var els, idx rankdb.Elements
	read := func(id rankdb.SegmentsID, index bool) []Ev {
		res := []Ev{}
		want = append(want, names.of(set+"\x00"+string(id)))
		segs, err := id.Load(ctx, ws, nil)
		if err != nil {
			complain("segments: " + errText(err))
			return res
		}
		if segs.IsIndex != index || segs.ID != id {
			complain("stored flag or id wrong")
		}
		for i := range segs.Segments {
			s := &segs.Segments[i]
			key := s.StorageKey()
			if s.Parent != id || s.Updated == 0 || s.ID >= segs.NextID {
				complain("parent, update time or next id wrong")
			}
			want = append(want, names.of(set+"\x00"+key))
			r := Ev{"id": int(s.ID), "n": s.N, "cnt": 0, "mx": segBorder(s.Max, s.MaxTie), "mn": segBorder(s.Min, s.MinTie), "first": []int{}, "last": []int{}}
			var e rankdb.Elements
			blob, err := ws.Get(ctx, key)
			if err == nil {
				var v uint8
				blob, v = rankdb.MsgpGetVersion(blob)
				if v != 1 {
					complain("element version")
				}
				_, err = e.UnmarshalMsg(blob)
			}
			if err != nil {
				complain("elements: " + errText(err))
			}
			if n := len(e); n > 0 {
				r["cnt"] = n
				if index {
					r["first"], r["last"] = segBorder(uint64(e[0].ID), maxU32), segBorder(uint64(e[n-1].ID), maxU32)
				} else {
					r["first"], r["last"] = segBorder(e[0].Score, e[0].TieBreaker), segBorder(e[n-1].Score, e[n-1].TieBreaker)
				}
			}
			if index {
				idx = append(idx, e...)
			} else {
				els = append(els, e...)
			}
			res = append(res, r)
		}
		return res
	}
	o := Ev{"segs": read(sid, false), "idx": read(xid, true)}
	o["runs"] = b.blocksOf(els)
	at := make(map[rankdb.ElementID]int, len(idx))
	idruns := [][]int{}
	for i := range idx {
		e := &idx[i]
		if uint64(e.ID) != e.Score {
			complain("index entry id/score")
		}
		at[e.ID] = int(e.TieBreaker & 0x7fffffff)
		id := b.unid(e.ID)
		if k := len(idruns) - 1; k >= 0 && idruns[k][0]-1 == id {
			idruns[k][0] = id
		} else {
			idruns = append(idruns, []int{id, id, 0, 0})
		}
	}
	o["idruns"] = idruns
	ptr := [][]int{}
	for i := range els {
		p, ok := at[els[i].ID]
		if !ok {
			p = -1
		}
		if k := len(ptr) - 1; k >= 0 && ptr[k][0] == p {
			ptr[k][1]++
		} else {
			ptr = append(ptr, []int{p, 1})
		}
	}
	if len(ptr) > 4000 || len(idruns) > 4000 {
		complain("index and elements have little in common")
		o["ptr"], o["idruns"] = ptr[:1], idruns[:1]
	} else {
		o["ptr"] = ptr
	}
	keys := []int{}
	for _, k := range b.st.keys() {
		keys = append(keys, names.of(k))
	}
	o["want"], o["keys"], o["bad"] = want, keys, bad
	return o
}

// ---------------------------------------------------------------------
// Operations

func (b *bulk) call(e Ev, changes bool, fn func() error) {
	curOp.Store(fmt.Sprint(e["ev"]))
	base := b.ctx
	ctx, cancel := context.WithCancel(base)
	b.ctx = ctx
	p := guard(func() {
		err := fn()
		e["res"], e["err"] = errClass(err), errText(err)
	})
	cancel()
	b.ctx = base
	if p != "" {
		e["ev"], e["err"] = "panic", p
		b.tr.add(e)
		b.tr.flush()
		exitNow()
	}
	if changes {
		e["post"] = b.stored()
	}
	b.tr.add(e)
}

// spans picks up to k disjoint ranges of about n ids together, ascending.
func (b *bulk) spans(k, n int) []span {
	r := b.rng
	var res []span
	used := 0
	for i := 0; i < k && used < n; i++ {
		w := 1 + r.Intn((n-used+k-1)/k+1)
		if k == 1 {
			w = n
		}
		if w > b.uni {
			w = b.uni
		}
		lo := r.Intn(b.uni - w + 1)
		s := span{lo, lo + w - 1}
		ok := true
		for _, o := range res {
			if s[0] <= o[1] && o[0] <= s[1] {
				ok = false
			}
		}
		if ok {
			res = append(res, s)
			used += w
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i][0] < res[j][0] })
	return res
}

// absent returns the parts of the ranges that are not in the list, at most m.
func (b *bulk) absent(in []span, m int) []span {
	var res []span
	for _, s := range in {
		for id := s[0]; id <= s[1]; id++ {
			if b.slot[id] != 0 {
				continue
			}
			if k := len(res) - 1; k >= 0 && res[k][1] == id-1 {
				res[k][1] = id
			} else if len(res) == m {
				return res
			} else {
				res = append(res, span{id, id})
			}
		}
	}
	return res
}

// few or many elements
func (b *bulk) amount() int {
	switch b.rng.Intn(5) {
	case 0:
		return 1 + b.rng.Intn(3)
	case 1:
		return 1 + b.rng.Intn(20)
	case 2:
		return b.batch
	}
	return 1 + b.rng.Intn(b.batch)
}

// blocks gives every range a slot and an update time, and returns the elements in some order.
func (b *bulk) blocks(in []span) ([][]int, rankdb.Elements) {
	r := b.rng
	bl := [][]int{}
	var els rankdb.Elements
	for _, s := range in {
		slot, upd := 1+r.Intn(len(b.bases)), 1+r.Intn(b.maxUpd)
		bl = append(bl, []int{s[0], s[1], slot, upd})
		for id := s[0]; id <= s[1]; id++ {
			els = append(els, b.element(id, slot, upd))
		}
	}
	switch r.Intn(4) {
	case 0:
		els.Sort()
	case 1:
		els.Sort()
		for i, j := 0, len(els)-1; i < j; i, j = i+1, j-1 {
			els[i], els[j] = els[j], els[i]
		}
	default:
		r.Shuffle(len(els), func(i, j int) { els[i], els[j] = els[j], els[i] })
	}
	return bl, els
}

func (b *bulk) have(bl [][]int) {
	for _, x := range bl {
		for id := x[0]; id <= x[1]; id++ {
			b.slot[id] = int8(x[2])
		}
	}
}

func (b *bulk) len() int {
	n := 0
	for _, s := range b.slot {
		if s != 0 {
			n++
		}
	}
	return n
}

func (b *bulk) fresh() (rankdb.ListID, []rankdb.ListOption) {
	b.seq++
	mz, sz := b.size()
	return rankdb.ListID(fmt.Sprintf("list%d", b.seq)), []rankdb.ListOption{rankdb.WithListOption.MergeSplitSize(mz, sz),
		rankdb.WithListOption.LoadIndex(b.rng.Intn(2) == 0), rankdb.WithListOption.Cache(b.cache)}
}

func spansJ(s []span) [][]int {
	r := [][]int{}
	for _, x := range s {
		r = append(r, []int{x[0], x[1]})
	}
	return r
}

func (b *bulk) populate(n int) {
	k := 1 + b.rng.Intn(6)
	in := b.spans(k, n)
	if n > 100000 { // that many
		lo := b.rng.Intn(b.uni - n + 1)
		cut := n / 3
		in = []span{{lo, lo + cut - 1}, {lo + cut, lo + n - 1}}
	}
	bl, els := b.blocks(in)
	if n > 100000 && b.rng.Intn(4) > 0 {
		b.rng.Shuffle(len(els), func(i, j int) { els[i], els[j] = els[j], els[i] })
	}
	e := Ev{"ev": "pop", "blocks": bl}
	b.call(e, true, func() error { return b.l.Populate(b.ctx, b.bs, els) })
	for i := range b.slot {
		b.slot[i] = 0
	}
	b.have(bl)
}

func (b *bulk) step(what string) {
	r := b.rng
	ivs := b.spans(1+r.Intn(4), b.amount())
	switch what {
	case "pop":
		b.populate(1 + r.Intn(b.n))
	case "upd":
		bl, els := b.blocks(ivs)
		radius, results := 0, r.Intn(3) > 0
		if len(els) <= 5000 {
			radius = pick(r, []int{0, 1, 3, 30})
		}
		e := Ev{"ev": "upd", "blocks": bl, "results": results}
		b.call(e, true, func() error {
			res, err := b.l.UpdateElements(b.ctx, b.bs, els, radius, results)
			e["out"], e["nb"] = b.runsOf(res), b.neighbours(res, radius)
			return err
		})
		b.have(bl)
	case "ins":
		bl, els := b.blocks(b.absent(ivs, 30))
		e := Ev{"ev": "ins", "blocks": bl}
		b.call(e, true, func() error { return b.l.Insert(b.ctx, b.bs, els) })
		b.have(bl)
	case "del":
		var ids []rankdb.ElementID
		for _, s := range ivs {
			for id := s[0]; id <= s[1]; id++ {
				ids = append(ids, b.id(id))
			}
		}
		r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		b.call(Ev{"ev": "del", "ivs": spansJ(ivs)}, true, func() error { return b.l.DeleteElements(b.ctx, b.bs, ids) })
		for _, s := range ivs {
			for id := s[0]; id <= s[1]; id++ {
				b.slot[id] = 0
			}
		}
	case "split":
		b.call(Ev{"ev": what}, true, func() error { return b.l.ForceSplit(b.ctx, b.bs) })
	case "reindex":
		b.call(Ev{"ev": what}, true, func() error { return b.l.Reindex(b.ctx, b.bs) })
	case "repair":
		b.call(Ev{"ev": what}, true, func() error { return b.l.Repair(b.ctx, b.bs, r.Intn(2) == 0) })
	case "release":
		b.call(Ev{"ev": what}, true, func() error { b.l.ReleaseSegments(b.ctx); return nil })
	case "verify":
		b.call(Ev{"ev": what}, true, func() error { return b.l.Verify(b.ctx, b.bs) })
	case "verifyE":
		b.call(Ev{"ev": what}, true, func() error { return b.l.VerifyElements(b.ctx, b.bs) })
	case "clone":
		b.call(Ev{"ev": what}, true, func() error {
			id, opts := b.fresh()
			nl, err := rankdb.NewList(b.ctx, id, "s2", b.bs, append(opts, rankdb.WithListOption.Clone(b.l))...)
			if err != nil {
				return err
			}
			err = b.l.DeleteAll(b.ctx, b.bs)
			b.l = nl
			return err
		})
	case "restore":
		b.call(Ev{"ev": what}, true, func() error {
			var buf bytes.Buffer
			m := rankdb.NewWriterMsg()
			m.ReplaceWriter(&buf)
			if err := b.l.Backup(b.ctx, b.bs, m); err != nil {
				return err
			}
			m.Flush()
			m.Close()
			if err := b.l.DeleteAll(b.ctx, b.bs); err != nil {
				return err
			}
			id, _ := b.fresh()
			nl, err := rankdb.RestoreList(b.ctx, b.bs, rankdb.NewReaderMsgp(buf.Bytes()), b.cache, &id)
			if err == nil {
				b.l = nl
			}
			return err
		})
	case "top", "bottom":
		n := b.len()
		off, cnt := r.Intn(n+2), r.Intn(n+3)
		switch r.Intn(5) {
		case 0:
			cnt = r.Intn(10)
		case 1:
			off = r.Intn(4) - 1
		case 2:
			cnt = 1 << 29
		}
		b.rangeQ(what, off, cnt)
	case "full":
		b.rangeQ("top", 0, 1<<29)
	case "score":
		slot, id := 1+r.Intn(len(b.bases)), noID
		s := b.bases[slot-1]
		if b.mode == "score" {
			id = r.Intn(b.uni)
			s += uint64(id)
		}
		cnt := r.Intn(b.len() + 3)
		if r.Intn(2) == 0 {
			cnt = r.Intn(50)
		}
		e := Ev{"ev": what, "slot": slot, "id": id, "n": cnt}
		b.call(e, false, func() error {
			res, err := b.l.GetRankScoreDesc(b.ctx, b.bs, s, cnt)
			e["out"] = b.runsOf(res)
			return err
		})
	case "get":
		if r.Intn(2) == 0 {
			ivs = b.spans(1+r.Intn(3), 1+r.Intn(4))
		}
		var ids []rankdb.ElementID
		for _, s := range ivs {
			for id := s[0]; id <= s[1]; id++ {
				ids = append(ids, b.id(id))
			}
		}
		r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		radius := 0
		if len(ids) <= 5000 {
			radius = pick(r, []int{0, 2, 40})
		}
		if len(ids) <= 3 {
			radius = pick(r, []int{5, 300})
		}
		e := Ev{"ev": what, "ivs": spansJ(ivs)}
		b.call(e, false, func() error {
			res, err := b.l.GetElements(b.ctx, b.bs, ids, radius)
			e["out"], e["nb"] = b.runsOf(res), b.neighbours(res, radius)
			return err
		})
	case "len":
		e := Ev{"ev": what}
		b.call(e, false, func() error {
			n, err := b.l.Len(b.ctx, b.bs)
			e["out"] = n
			return err
		})
	case "pct":
		k16 := r.Intn(17)
		radius := pick(r, []int{0, 2, 200})
		e := Ev{"ev": what, "k16": k16}
		b.call(e, false, func() error {
			res, err := b.l.GetPercentile(b.ctx, b.bs, float64(k16)/16, radius)
			var x []rankdb.RankedElement
			if res != nil {
				x = append(x, *res)
			}
			e["out"], e["nb"] = b.runsOf(x), b.neighbours(x, radius)
			return err
		})
	case "stats":
		e := Ev{"ev": what, "n": -1}
		b.call(e, false, func() error {
			res, err := b.l.Stats(b.ctx, b.bs, true)
			var x []rankdb.RankedElement
			if res != nil {
				e["n"] = res.Elements
				if res.Top != nil && res.Bottom != nil {
					x = append(x, *res.Top)
				}
			}
			e["out"] = b.runsOf(x)
			if len(x) > 0 {
				e["out"] = append(b.runsOf(x), b.runsOf([]rankdb.RankedElement{*res.Bottom})...)
			}
			return err
		})
	default:
		must(fmt.Errorf("unknown step %s", what))
	}
}

func (b *bulk) rangeQ(what string, off, cnt int) {
	e := Ev{"ev": what, "off": off, "n": cnt}
	b.call(e, false, func() error {
		var res rankdb.Elements
		var err error
		if what == "top" {
			res, err = b.l.GetRankTop(b.ctx, b.bs, off, cnt)
		} else {
			res, err = b.l.GetRankBottom(b.ctx, b.bs, off, cnt)
		}
		e["out"] = b.blocksOf(res)
		return err
	})
}

func bulkWeights(prof string) map[string]int {
	w := map[string]int{"upd": 20, "ins": 8, "del": 10, "pop": 3, "split": 8, "release": 3, "full": 4}
	add := func(m map[string]int) {
		for k, v := range m {
			w[k] += v
		}
	}
	switch prof {
	case "map":
		add(map[string]int{"get": 14, "len": 4, "repair": 1, "reindex": 1})
	case "rank":
		add(map[string]int{"top": 12, "bottom": 12, "score": 12, "pct": 10, "get": 14, "stats": 4})
	case "struct":
		add(map[string]int{"split": 12, "pop": 6, "del": 6, "verifyE": 6, "verify": 4, "clone": 4, "restore": 4, "repair": 3, "reindex": 3})
	case "place":
		add(map[string]int{"upd": 40, "split": 4})
	case "maint":
		add(map[string]int{"split": 12, "verifyE": 4, "verify": 2, "clone": 6, "restore": 6, "repair": 8, "reindex": 8, "top": 4, "get": 6, "score": 4})
	default:
		panic("profile " + prof)
	}
	return w
}

func init() {
	modes["bulk"] = func(tr *Trace) {
		tr.add(Ev{"ev": "tables"})
		w := bulkWeights(*fProf)
		for ep := 0; ep < *fN; ep++ {
			// one episode in the first of every 4 shards with a really large list
			huge := ep == 0 && *fSeed%4 == 0
			b := newBulk(tr, *fSeed*1000003+int64(ep), huge)
			tr.add(Ev{"ev": "begin", "asc": b.asc, "mode": b.mode, "of": b.n})
			id, opts := b.fresh()
			l, err := rankdb.NewList(b.ctx, id, "s1", b.bs, opts...)
			must(err)
			b.l = l
			ops := *fOps
			if huge {
				ops = 8
				b.populate(b.n)
			} else if b.rng.Intn(4) > 0 {
				b.populate(1 + b.rng.Intn(b.n))
			}
			for i := 0; i < ops; i++ {
				b.step(choose(b.rng, w))
			}
			b.rangeQ("top", 0, 1<<29)
			b.step("verifyE")
		}
	}
}
