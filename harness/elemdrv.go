//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/tinylib/msgp/msgp"
)

func init() { modes["elem"] = elemMode }

// valTable maps values to dense, order preserving numbers.
type valTable struct {
	vals []uint64
	idx  map[uint64]int
}

func valsOf(v ...uint64) *valTable {
	t := &valTable{idx: map[uint64]int{}}
	for _, x := range v {
		t.idx[x] = 0
	}
	for x := range t.idx {
		t.vals = append(t.vals, x)
	}
	sort.Slice(t.vals, func(i, j int) bool { return t.vals[i] < t.vals[j] })
	for i, x := range t.vals {
		t.idx[x] = i
	}
	return t
}

func (t *valTable) of(x uint64) int {
	if i, ok := t.idx[x]; ok {
		return i
	}
	return -1
}

func (t *valTable) pick(r *rand.Rand) uint64 { return t.vals[r.Intn(len(t.vals))] }

// elemWorld is one episode on elements.
type elemWorld struct {
	tr                       *epTrace
	r                        *rand.Rand
	scores, ties, times, ids *valTable
}

type elems = rankdb.Elements

func (w *elemWorld) j(e rankdb.Element) []int {
	tag, err := strconv.Atoi(string(e.Payload))
	if err != nil {
		tag = -1
	}
	return []int{w.scores.of(e.Score), w.ties.of(uint64(e.TieBreaker)), w.times.of(uint64(e.Updated)), w.ids.of(uint64(e.ID)), tag}
}

func (w *elemWorld) js(l elems) [][]int {
	res := make([][]int, len(l))
	for i, e := range l {
		res[i] = w.j(e)
	}
	return res
}

func (w *elemWorld) elem() rankdb.Element {
	return rankdb.Element{Score: w.scores.pick(w.r), TieBreaker: uint32(w.ties.pick(w.r)), Updated: uint32(w.times.pick(w.r)), ID: rankdb.ElementID(w.ids.pick(w.r))}
}

func tagged(l elems, from int) elems {
	for i := range l {
		l[i].Payload = []byte(strconv.Itoa(from + i))
	}
	return l
}

func (w *elemWorld) list(n int) elems {
	l := make(elems, n)
	for i := range l {
		l[i] = w.elem()
	}
	return tagged(l, 1)
}

// sorted sorts independently of the code under test.
func sortedElems(l elems) elems {
	c := append(make(elems, 0, len(l)), l...)
	sort.SliceStable(c, func(i, j int) bool {
		a, b := c[i], c[j]
		switch {
		case a.Score != b.Score:
			return a.Score > b.Score
		case a.TieBreaker != b.TieBreaker:
			return a.TieBreaker > b.TieBreaker
		case a.Updated != b.Updated:
			return a.Updated < b.Updated
		}
		return a.ID < b.ID
	})
	return c
}

// fresh returns a private copy with some spare capacity.
func fresh(l elems, spare int) elems {
	c := make(elems, len(l), len(l)+spare)
	copy(c, l)
	for i := range c {
		c[i].Payload = append([]byte{}, c[i].Payload...)
	}
	return c
}

func uniqueIDs(l elems) elems {
	seen := map[rankdb.ElementID]bool{}
	var res elems
	for _, e := range l {
		if !seen[e.ID] {
			seen[e.ID] = true
			res = append(res, e)
		}
	}
	return res
}

func (w *elemWorld) do(name string, e Ev, fn func()) bool {
	curOp.Store(name)
	if p := guard(fn); p != "" {
		w.tr.add(Ev{"ev": "panic", "err": p, "in": name})
		return false
	}
	e["ev"] = name
	w.tr.add(e)
	return true
}

func (w *elemWorld) sort(l elems) bool {
	in := fresh(l, w.r.Intn(3))
	e := Ev{"in": w.js(in)}
	return w.do("sort", e, func() { e["changed"] = in.Sort(); e["out"] = w.js(in) })
}

func (w *elemWorld) dedup(l elems) bool {
	in := fresh(l, w.r.Intn(3))
	e := Ev{"in": w.js(in)}
	return w.do("dedup", e, func() {
		var out elems
		if w.r.Intn(3) == 0 {
			out = rankdb.NewElements(in)
			e["changed"] = len(out) < len(l)
		} else {
			e["changed"] = in.Deduplicate()
			out = in
		}
		e["out"] = w.js(out)
		pos := map[rankdb.ElementID]int{}
		for i, x := range out {
			pos[x.ID] = i + 1
		}
		at := make([]int, len(l))
		for i, x := range l {
			at[i] = pos[x.ID]
		}
		e["at"] = at
	})
}

func (w *elemWorld) merge(x, y elems) bool {
	spare := 0
	if w.r.Intn(2) == 0 {
		spare = len(y) + w.r.Intn(3)
	}
	a, b := tagged(fresh(sortedElems(x), spare+4), 1), tagged(fresh(sortedElems(y), 0), len(x)+1)
	sliced := w.r.Intn(3) == 0
	// When shared, what follows belongs to others.
	whole := a[:len(a)+4]
	if !sliced {
		whole = a
		a = a[: len(a) : len(a)+spare]
	} else {
		for i := len(a); i < len(whole); i++ {
			whole[i].Score = 77
		}
	}
	n := len(a)
	e := Ev{"a": w.js(a), "b": w.js(b)}
	return w.do("merge", e, func() {
		a.Merge(b, sliced)
		e["out"] = w.js(a)
		ok := true
		for i := n; i < len(whole); i++ {
			ok = ok && whole[i].Score == 77
		}
		e["apart"] = ok
	})
}

func (w *elemWorld) mergeDedup(x, y elems) bool {
	a, b := uniqueIDs(x), uniqueIDs(y)
	if w.r.Intn(2) == 0 {
		a, b = sortedElems(a), sortedElems(b)
	}
	a, b = tagged(fresh(a, w.r.Intn(3)), 1), tagged(fresh(b, w.r.Intn(5)), len(a)+1)
	e := Ev{"a": w.js(a), "b": w.js(b)}
	if len(b) == 0 {
		a = sortedElems(a)
		tagged(a, 1)
		e["a"] = w.js(a)
	}
	return w.do("mergededup", e, func() { a.MergeDeduplicate(b); e["out"] = w.js(a) })
}

func (w *elemWorld) split(x elems, n int) bool {
	in := tagged(fresh(sortedElems(x), 0), 1)
	e := Ev{"in": w.js(in), "n": n}
	return w.do("split", e, func() {
		parts := [][][]int{}
		for _, p := range in.SplitSize(n) {
			parts = append(parts, w.js(p))
		}
		e["parts"] = parts
	})
}

// one runs the operations with a single element on a sorted list.
func (w *elemWorld) one(x elems, el rankdb.Element) bool {
	in := tagged(fresh(sortedElems(x), 0), 1)
	el.Payload = []byte(strconv.Itoa(len(in) + 1))
	run := func(name string, e Ev, fn func(l *elems)) bool {
		l := fresh(in, w.r.Intn(2))
		e["in"] = w.js(in)
		e["e"] = w.j(el)
		return w.do(name, e, func() { fn(&l); e["out"] = w.js(l) })
	}
	e1 := Ev{}
	if !run("insert", e1, func(l *elems) { e1["idx"] = l.Insert(el) }) {
		return false
	}
	in = tagged(fresh(sortedElems(uniqueIDs(in)), 0), 1)
	el.Payload = []byte(strconv.Itoa(len(in) + 1))
	rank := func(e Ev, r *rankdb.Rank, err error) {
		e["found"] = err == nil
		e["top"], e["bottom"] = -1, -1
		if r != nil {
			e["top"], e["bottom"] = r.FromTop, r.FromBottom
		}
	}
	e2, e3 := Ev{"stamped": true}, Ev{"stamped": true}
	if !run("add", e2, func(l *elems) { r, err := l.Add(el); rank(e2, r, err) }) ||
		!run("update", e3, func(l *elems) { r, err := l.Update(el); rank(e3, r, err) }) {
		return false
	}
	e4 := Ev{"id": w.ids.of(uint64(el.ID))}
	if !run("delete", e4, func(l *elems) {
		err := l.Delete(el.ID)
		e4["found"] = err == nil
		if err != nil && err != rankdb.ErrNotFound {
			e4["found"] = "other"
		}
	}) {
		return false
	}
	e5 := Ev{"id": w.ids.of(uint64(el.ID)), "score": w.scores.of(el.Score)}
	return run("find", e5, func(l *elems) {
		i, err := l.FindIdx(el.ID)
		if err != nil {
			i = -1
		}
		e5["idx"] = i
		i, err = l.FindScoreIdx(el.Score)
		if err != nil {
			i = -1
		}
		e5["sidx"] = i
		f, err := l.Find(el.ID)
		e5["e"] = []int{}
		if err == nil {
			e5["e"] = w.j(*f)
		}
	})
}

// unstamped adds elements without a time, which get the current one.
func (w *elemWorld) unstamped(x elems, el rankdb.Element) bool {
	in := tagged(fresh(sortedElems(uniqueIDs(x)), 0), 1)
	el.Payload = []byte(strconv.Itoa(len(in) + 1))
	el.Updated = 0
	for _, name := range []string{"add", "update"} {
		l := fresh(in, 0)
		e := Ev{"in": w.js(in)}
		if !w.do(name, e, func() {
			from := uint32(time.Now().Unix())
			var r *rankdb.Rank
			var err error
			if name == "add" {
				r, err = l.Add(el)
			} else {
				r, err = l.Update(el)
			}
			to := uint32(time.Now().Unix())
			e["stamped"] = true
			e["found"] = err == nil
			e["top"], e["bottom"] = -1, -1
			if r != nil {
				e["top"], e["bottom"] = r.FromTop, r.FromBottom
			}
			w2 := *w
			if err == nil {
				got := l[r.FromTop].Updated
				e["stamped"] = got >= from && got <= to
				// order the new time among the others
				el.Updated = got
				w2.times = valsOf(append([]uint64{uint64(got)}, w.times.vals...)...)
			}
			e["in"], e["out"], e["e"] = w2.js(in), w2.js(l), w2.j(el)
		}) {
			return false
		}
		el.Updated = 0
	}
	return true
}

func (w *elemWorld) firsts(x elems) bool {
	in := tagged(fresh(sortedElems(x), 0), 1)
	pick := map[uint64]bool{}
	for i := w.r.Intn(6); i >= 0; i-- {
		pick[w.scores.pick(w.r)] = true
	}
	var sc []uint64
	for s := range pick {
		sc = append(sc, s)
	}
	sort.Slice(sc, func(i, j int) bool { return sc[i] > sc[j] })
	want := []int{}
	for _, s := range sc {
		want = append(want, w.scores.of(s))
	}
	e := Ev{"in": w.js(in), "scores": want}
	return w.do("firsts", e, func() { e["out"] = w.js(in.FirstElementsWithScore(sc)) })
}

func (w *elemWorld) limbs(score uint64, tie uint32) []int {
	return []int{int(score >> 48), int(score >> 32 & 0xffff), int(score >> 16 & 0xffff), int(score & 0xffff), int(tie >> 16), int(tie & 0xffff)}
}

func (w *elemWorld) rest(x elems) bool {
	in := fresh(x, 0)
	base := func() Ev { return Ev{"in": w.js(in)} }
	e := base()
	if !w.do("clone", e, func() {
		pay := w.r.Intn(2) == 0
		c := in.Clone(pay)
		e["out"] = w.js(c)
		for i := range c {
			if pay {
				c[i].Payload[0] = 'x'
			}
			c[i] = rankdb.Element{}
		}
		b, _ := json.Marshal(w.js(in))
		b2, _ := json.Marshal(e["in"])
		e["apart"] = bytes.Equal(b, b2)
	}) {
		return false
	}
	e = base()
	if !w.do("codec", e, func() {
		b, err := in.MarshalMsg(nil)
		var out elems
		var left []byte
		if w.r.Intn(2) == 0 {
			var buf bytes.Buffer
			err = msgp.Encode(&buf, in)
			b = buf.Bytes()
			if err == nil {
				err = msgp.Decode(bytes.NewReader(b), &out)
			}
		} else if err == nil {
			left, err = out.UnmarshalMsg(append(b, 0xc0))
			if len(left) != 1 {
				err = fmt.Errorf("left %d", len(left))
			}
		}
		e["out"], e["ok"] = w.js(out), err == nil
	}) {
		return false
	}
	e = base()
	off, total := w.r.Intn(5), len(in)+5+w.r.Intn(3)
	e["off"], e["total"] = off, total
	if !w.do("ranked", e, func() {
		show := func(r rankdb.RankedElements) [][]interface{} {
			res := [][]interface{}{}
			for _, x := range r {
				res = append(res, []interface{}{w.j(x.Element), x.FromTop, x.FromBottom})
			}
			return res
		}
		r := in.Ranked(off, total)
		e["out"] = show(r)
		r.Offset(7)
		e["moved"] = show(r)
	}) {
		return false
	}
	e = base()
	t := w.times.pick(w.r)
	e["t"] = w.times.of(t)
	if !w.do("times", e, func() { c := fresh(in, 0); c.UpdateTime(time.Unix(int64(t), 0)); e["out"] = w.js(c) }) {
		return false
	}
	e = base()
	if !w.do("dups", e, func() { e["res"] = in.HasDuplicates() != nil }) {
		return false
	}
	s := tagged(fresh(sortedElems(in), 0), 1)
	e = Ev{"in": w.js(s)}
	sc := valsOf(append([]uint64{0, math.MaxUint64}, w.scores.vals...)...)
	ti := valsOf(append([]uint64{0, math.MaxUint32}, w.ties.vals...)...)
	w2 := *w
	w2.scores, w2.ties = sc, ti
	if !w.do("minmax", e, func() {
		a, b, c, d := s.MinMax()
		e["in"] = w2.js(s)
		e["low"], e["high"], e["tlow"], e["thigh"] = sc.of(0), sc.of(math.MaxUint64), ti.of(0), ti.of(math.MaxUint32)
		e["out"] = []int{sc.of(a), sc.of(b), ti.of(uint64(c)), ti.of(uint64(d))}
	}) {
		return false
	}
	e = base()
	seg := uint32(w.ties.pick(w.r))
	e["seg"] = w.ties.of(uint64(seg))
	if !w.do("index", e, func() {
		ix := in.ElementIDs(rankdb.SegmentID(seg))
		res := [][]int{}
		for _, x := range ix.Elements {
			res = append(res, []int{w.ids.of(x.Score), w.ties.of(uint64(x.TieBreaker)), w.times.of(uint64(x.Updated)), w.ids.of(uint64(x.ID))})
		}
		e["out"] = res
	}) {
		return false
	}
	e = base()
	if !w.do("ids", e, func() {
		nums := func(l rankdb.ElementIDs) []int {
			res := []int{}
			for _, x := range l {
				res = append(res, w.ids.of(uint64(x)))
			}
			return res
		}
		all := in.IDs()
		var other rankdb.ElementIDs
		for i := w.r.Intn(5); i > 0; i-- {
			other = append(other, rankdb.ElementID(w.ids.pick(w.r)))
		}
		other.Deduplicate()
		e["all"], e["other"] = nums(all), nums(other)
		e["notin"], e["overlap"] = nums(all.NotIn(other)), nums(all.Overlap(other))
		all.Deduplicate()
		e["dedup"] = nums(all)
	}) {
		return false
	}
	a, b := w.elem(), w.elem()
	if w.r.Intn(3) == 0 {
		b.Score = a.Score
	}
	a.Payload, b.Payload = []byte("1"), []byte("2")
	e = Ev{"a": w.j(a), "b": w.j(b)}
	if !w.do("above", e, func() { e["res"] = []bool{a.Above(b), b.Above(a)} }) {
		return false
	}
	a.Score = []uint64{0, math.MaxUint64, a.Score}[w.r.Intn(3)]
	a.TieBreaker = []uint32{0, math.MaxUint32, a.TieBreaker}[w.r.Intn(3)]
	e = Ev{"x": w.limbs(a.Score, a.TieBreaker)}
	return w.do("next", e, func() {
		e["above"] = w.limbs(a.AboveThis())
		e["below"] = w.limbs(a.PrevMax())
	})
}

var bigScores = []uint64{0, 1, 2, 100, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}

func (w *elemWorld) values() {
	some := func(from []uint64, n int) *valTable {
		v := []uint64{}
		for i := 0; i < n; i++ {
			v = append(v, from[w.r.Intn(len(from))])
		}
		return valsOf(v...)
	}
	short := []uint64{0, 1, 2, 3, 1 << 15, 1<<31 - 1, 1 << 31, math.MaxUint32 - 1, math.MaxUint32}
	w.scores, w.ties, w.times, w.ids = some(bigScores, 1+w.r.Intn(6)), some(short, 1+w.r.Intn(4)), some(short[1:], 1+w.r.Intn(3)), some(bigScores, 1+w.r.Intn(12))
}

func (w *elemWorld) random() {
	w.values()
	n := w.r.Intn(13)
	switch w.r.Intn(12) {
	case 0:
		n = w.r.Intn(80)
	case 1:
		n = 980 + w.r.Intn(50)
		v := []uint64{}
		for i := 0; i < 40+w.r.Intn(2000); i++ {
			v = append(v, w.r.Uint64())
		}
		w.ids, w.scores = valsOf(v...), valsOf(v[:40]...)
	}
	l := w.list(n)
	k := 0
	if n > 0 {
		k = n - w.r.Intn(min(n, 14))
	}
	size := 1 + w.r.Intn(n+2)
	_ = w.sort(l) && w.dedup(l) && w.merge(l[:k], l[k:]) && w.merge(l[k:], l[:k]) && w.mergeDedup(l[:k], l[k:]) &&
		w.split(l, size) && w.split(l, []int{0, 1, 2, 10}[w.r.Intn(4)]) && w.one(l, w.elem()) && w.unstamped(l, w.elem()) && w.firsts(l) && w.rest(l)
}

// large sorts and merges what does not fit in one piece.
func (w *elemWorld) large() {
	n := 25000 + w.r.Intn(6000)
	if w.r.Intn(3) == 0 {
		n = 24995 + w.r.Intn(10)
	}
	distinct := []int{1, 3, 50, 5000, 1 << 20}[w.r.Intn(5)]
	v := []uint64{}
	for i := 0; i < n; i++ {
		v = append(v, uint64(w.r.Intn(distinct))<<40)
	}
	ids := []uint64{}
	idn := []int{n / 3, 4 * n}[w.r.Intn(2)]
	for i := 0; i < n; i++ {
		ids = append(ids, uint64(w.r.Intn(idn))*3)
	}
	w.scores, w.ids, w.ties, w.times = valsOf(v...), valsOf(ids...), valsOf(0, 1, 9), valsOf(1, 2, 3)
	if distinct == 1 && w.r.Intn(3) > 0 {
		// nothing but ties
		w.ties = valsOf(3)
	}
	l := make(elems, n)
	for i := range l {
		l[i] = rankdb.Element{Score: v[i], ID: rankdb.ElementID(ids[i]), TieBreaker: uint32(w.ties.pick(w.r)), Updated: uint32(w.times.pick(w.r))}
	}
	switch w.r.Intn(4) {
	case 0: // nearly sorted
		l = sortedElems(l)
		i, j := w.r.Intn(n), w.r.Intn(n)
		l[i], l[j] = l[j], l[i]
	case 1:
		l = sortedElems(l)
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	}
	tagged(l, 1)
	switch w.r.Intn(5) {
	case 0:
		w.dedup(l)
	case 1:
		w.merge(l[:n/3], l[n/3:])
	default:
		w.sort(l)
	}
}

// small runs the operations on a sequence generated by the specification.
func (w *elemWorld) small(s [][]int) {
	w.scores, w.ties, w.times, w.ids = valsOf(5, math.MaxUint64-2, 1<<40), valsOf(0, 1<<31), valsOf(1, math.MaxUint32), valsOf(0, 1<<63, 9, 12)
	l := make(elems, len(s))
	for i, x := range s {
		l[i] = rankdb.Element{Score: w.scores.vals[x[0]], TieBreaker: uint32(w.ties.vals[x[1]]), Updated: uint32(w.times.vals[x[2]]), ID: rankdb.ElementID(w.ids.vals[x[3]])}
	}
	tagged(l, 1)
	n := len(l)
	_ = w.sort(l) && w.dedup(l) && w.split(l, 1+w.r.Intn(n)) && w.one(l[:n-1], l[n-1]) && w.firsts(l)
	for k := 0; k <= n; k++ {
		if !w.merge(l[:k], l[k:]) || !w.mergeDedup(l[:k], l[k:]) {
			return
		}
	}
}

func elemMode(tr *Trace) {
	tr.add(Ev{"ev": "tables"})
	r := rand.New(rand.NewSource(*fSeed))
	ep := &epTrace{}
	w := &elemWorld{tr: ep, r: r}
	switch *fProf {
	case "small":
		f, err := os.Open(*fIn)
		must(err)
		defer f.Close()
		sc := bufio.NewScanner(f)
		for i := 0; sc.Scan(); i++ {
			if i%50 == 0 {
				ep.add(Ev{"ev": "begin"})
			}
			var s [][]int
			must(json.Unmarshal(sc.Bytes(), &s))
			w.small(s)
		}
	case "large":
		for i := 0; i < *fN; i++ {
			ep.add(Ev{"ev": "begin"})
			w.large()
		}
	default:
		for i := 0; i < *fN; i++ {
			ep.add(Ev{"ev": "begin"})
			w.random()
		}
	}
	tr.addEpisode(ep)
}
