//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/backup"
	"github.com/Vivino/rankdb/backup/file"
	"github.com/Vivino/rankdb/backup/reader"
	"github.com/Vivino/rankdb/log"
)

// Backup jobs, following scripts generated by BackupGen.tla.

var errDst = errors.New("destination failed")

// dest is a destination that may fail.
type dest struct {
	mu      sync.Mutex
	kind    string
	lim     int
	buf     bytes.Buffer
	failed  bool
	closed  int
	errCh   chan error
	after   bool // used after closing
	inner   io.WriteCloser
	innerRd func() []byte
	saver   backup.Saver
}

func (d *dest) Save(ctx context.Context) (io.WriteCloser, error) {
	if d.kind == "save" {
		return nil, errDst
	}
	if d.saver != nil {
		w, err := d.saver.Save(ctx)
		if err != nil {
			return nil, err
		}
		d.inner = w
	}
	return d, nil
}

func (d *dest) Write(b []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.after = d.after || d.closed > 0
	if d.kind == "write" && d.buf.Len()+len(b) > d.lim {
		d.failed = true
		n := d.lim - d.buf.Len()
		if n > 0 {
			d.buf.Write(b[:n])
			return n, errDst
		}
		return 0, errDst
	}
	d.buf.Write(b)
	if d.inner != nil {
		return d.inner.Write(b)
	}
	return len(b), nil
}

func (d *dest) Close() error {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.closed++
	var err error
	if d.inner != nil {
		err = d.inner.Close()
	}
	if d.kind == "close" {
		d.failed = true
		return errDst
	}
	return err
}

type bkStep struct {
	A  string `json:"a"`
	K  int    `json:"k"`
	At int    `json:"at"`
}

type bkScript struct {
	Req []bool   `json:"req"`
	Dst string   `json:"dst"`
	H   []bkStep `json:"h"`
}

type bkJob struct {
	tr    *epTrace
	w     *world
	ids   map[rankdb.ListID]int
	sets  map[string]int
	gone  map[int]bool
	bad   map[int]bool
	seen  map[int]bool
	id    backup.ID
	idCh  chan backup.ID
	sc    bkScript
	polls []pollSnap
}

type pollSnap struct {
	st   *backup.Status
	text string
}

func (j *bkJob) els(l *rankdb.List) []interface{} {
	els, err := l.GetRankTop(j.w.ctx, rawStore{j.w.st}, 0, 1000)
	if err != nil && err != rankdb.ErrOffsetOutOfBounds {
		must(err)
	}
	return elsJ(els)
}

func (j *bkJob) act(s bkStep) {
	w := j.w
	ctx := w.ctx
	switch s.A {
	case "upd":
		l := w.lists[s.K]
		_, err := l.UpdateElements(ctx, rawStore{w.st}, w.batch(w.someIDs(s.K, 1+w.rng.Intn(4), -1)), 0, false)
		must(err)
		if w.rng.Intn(2) == 0 {
			must(l.DeleteElements(ctx, rawStore{w.st}, []rankdb.ElementID{rankdb.ElementID(pick(w.rng, w.ids))}))
		}
		e := Ev{"ev": "act", "what": "upd", "k": s.K, "els": j.els(l)}
		l.ReleaseSegments(ctx)
		j.tr.add(e)
	case "rem":
		st := w.m.Storage
		w.m.Storage = rawStore{w.st}
		err := w.m.DeleteList(ctx, rankdb.ListID(fmt.Sprint("l", s.K)))
		w.m.Storage = st
		must(err)
		delete(w.lists, s.K)
		j.gone[s.K] = true
		j.tr.add(Ev{"ev": "act", "what": "rem", "k": s.K})
	case "bad":
		j.bad[s.K] = true
		j.tr.add(Ev{"ev": "act", "what": "bad", "k": s.K})
	case "cancel":
		j.tr.add(Ev{"ev": "act", "what": "cancel"})
		j.jobID().Cancel()
	}
}

func (j *bkJob) jobID() backup.ID {
	if j.id == "" {
		j.id = <-j.idCh
	}
	return j.id
}

func keysOf(m map[string]string, ids map[rankdb.ListID]int) (ks []int, other int) {
	ks = []int{}
	for s := range m {
		if k, ok := ids[rankdb.ListID(s)]; ok {
			ks = append(ks, k)
		} else {
			other++
		}
	}
	sort.Ints(ks)
	return ks, other
}

func (j *bkJob) status(st *backup.Status) Ev {
	succ := []int{}
	for _, s := range st.Success {
		k, ok := j.ids[rankdb.ListID(s)]
		if !ok {
			k = -1
		}
		succ = append(succ, k)
	}
	errs, other := keysOf(st.Errors, j.ids)
	return Ev{"succ": succ, "errs": errs, "other": other, "lists": st.Lists, "ldone": st.ListsDone, "canc": st.Cancelled, "done": st.Done, "fin": st.Finished != nil}
}

func (j *bkJob) poll() {
	st := j.jobID().Status()
	e := j.status(st)
	e["ev"] = "poll"
	j.tr.add(e)
	b, err := json.Marshal(st)
	must(err)
	j.polls = append(j.polls, pollSnap{st, string(b)})
}

// restore reads a stored backup into an empty database.
func (j *bkJob) restore(ev string, data []byte) {
	ctx := j.w.ctx
	st := newRecStore()
	m, err := rankdb.NewManager(st, "mgr2")
	must(err)
	must(m.NewLists(nil))
	ri := backup.RestoreInfo{Source: backup.WrapReader{ReadCloser: io.NopCloser(bytes.NewReader(data))}, DB: m}
	res, err := ri.Restore(ctx)
	e := Ev{"ev": ev, "res": errClass(err), "err": errText(err), "n": -1, "failed": 0, "skipped": 0}
	if res != nil {
		e["n"], e["failed"], e["skipped"] = res.Restored, len(res.Failed), res.Skipped
	}
	got := []interface{}{}
	for _, id := range m.Lists.All() {
		l, ok := m.Lists.ByID(id)
		if !ok {
			continue
		}
		els, err := l.GetRankTop(ctx, st, 0, 1000)
		if err == rankdb.ErrOffsetOutOfBounds {
			err = nil
		}
		k := -1
		if err == nil {
			if x, ok := j.ids[id]; ok {
				k = x
			}
		}
		got = append(got, Ev{"k": k, "els": elsJ(els)})
	}
	e["got"] = got
	j.tr.add(e)
}

func bkEpisode(tr *epTrace, seed int64, sc bkScript, dir string) {
	curOp.Store("backup job")
	r := rand.New(rand.NewSource(seed))
	w := newWorld(nil, seed, profile{})
	w.ctx = log.WithLogger(context.Background(), log.NullLogger())
	w.newManager("none")
	j := &bkJob{tr: tr, w: w, ids: map[rankdb.ListID]int{}, sets: map[string]int{}, gone: map[int]bool{}, bad: map[int]bool{}, seen: map[int]bool{},
		idCh: make(chan backup.ID, 1), sc: sc}
	lists := []interface{}{}
	n := len(sc.Req)
	for k := 1; k <= n; k++ {
		id, set := rankdb.ListID(fmt.Sprint("l", k)), fmt.Sprint("set", k)
		j.ids[id], j.sets[set] = k, k
		sz := pick(r, concSizes)
		meta := map[string]string{"k": fmt.Sprint(k)}
		if r.Intn(3) == 0 {
			b := make([]byte, []int{3000, 200000}[r.Intn(2)])
			r.Read(b)
			meta["pad"] = string(b)
		}
		l, err := rankdb.NewList(w.ctx, id, set, w.bs, rankdb.WithListOption.MergeSplitSize(sz[0], sz[1]), rankdb.WithListOption.LoadIndex(r.Intn(2) == 0),
			rankdb.WithListOption.Metadata(meta))
		must(err)
		w.m.Lists.Add(l)
		w.lists[k] = l
		w.model[k] = map[uint64]bool{}
		els := w.batch(w.someIDs(k, r.Intn(len(w.ids)+1), 0))
		must(l.Populate(w.ctx, w.bs, els))
		must(l.ForceSplit(w.ctx, w.bs))
		w.have(k, els)
		lists = append(lists, j.els(l))
		l.ReleaseSegments(w.ctx)
	}
	req := []int{}
	var reqIDs rankdb.ListIDs
	for k := 1; k <= n; k++ {
		if sc.Req[k-1] {
			req = append(req, k)
			reqIDs = append(reqIDs, rankdb.ListID(fmt.Sprint("l", k)))
		}
	}
	r.Shuffle(len(reqIDs), func(a, b int) { reqIDs[a], reqIDs[b] = reqIDs[b], reqIDs[a] })
	d := &dest{kind: sc.Dst, lim: []int{0, 1 + r.Intn(60), r.Intn(1000), r.Intn(300000)}[r.Intn(4)]}
	breq := backup.Request{DB: w.m, Dst: d, Lists: reqIDs}
	var fname string
	var piped chan []byte
	if sc.Dst == "ok" {
		switch r.Intn(3) {
		case 0:
			fname = filepath.Join(dir, "backup.bin")
			must(os.WriteFile(fname, bytes.Repeat([]byte("old"), 1000), 0644))
			d.saver = file.New(fname)
		case 1:
			rd := reader.NewReader()
			d.saver = rd
			piped = make(chan []byte, 1)
			go func() {
				b, err := io.ReadAll(rd.Output())
				must(err)
				piped <- b
			}()
		}
	}
	if sc.Dst == "late" || r.Intn(4) == 0 {
		d.errCh = make(chan error, 1)
		if sc.Dst == "late" {
			d.errCh <- errDst
		} else {
			d.errCh <- nil
		}
		breq.ErrCh = d.errCh
	}
	tr.add(Ev{"ev": "begin", "lists": lists, "req": req, "dst": sc.Dst})
	for _, s := range sc.H {
		if s.At == 0 {
			j.act(s)
		}
	}
	w.st.hook = func(op, set, key string) {
		k := j.sets[set]
		if k == 0 || op != "get" || j.seen[k] {
			return
		}
		j.seen[k] = true
		j.tr.add(Ev{"ev": "enter", "k": k})
		for _, s := range sc.H {
			if s.At == k {
				j.act(s)
			}
		}
		if r.Intn(2) == 0 {
			j.poll()
		}
	}
	w.st.setFault(func(op, set, key string) error {
		if j.bad[j.sets[set]] {
			return errInjected
		}
		return nil
	})
	id := breq.Start(w.ctx)
	j.idCh <- id
	var st *backup.Status
	for t0 := time.Now(); ; {
		st = id.Status()
		if st == nil || st.Done || time.Since(t0) > 40*time.Second {
			break
		}
		time.Sleep(100 * time.Microsecond)
	}
	if st == nil || !st.Done {
		tr.add(Ev{"ev": "stuck"})
		return
	}
	w.st.hook = nil
	w.st.setFault(nil)
	d.mu.Lock()
	data := append([]byte{}, d.buf.Bytes()...)
	e := j.status(st)
	e["ev"] = "end"
	e["wf"] = d.failed
	e["closed"] = d.closed
	e["after"] = d.after
	e["size"] = int64(len(data)) == st.Size
	e["alias"] = false
	d.mu.Unlock()
	if fname != "" {
		b, err := os.ReadFile(fname)
		must(err)
		e["size"] = e["size"].(bool) && bytes.Equal(b, data)
		data = b
		os.Remove(fname)
	}
	if piped != nil {
		b := <-piped
		e["size"] = e["size"].(bool) && bytes.Equal(b, data)
		data = b
	}
	for _, p := range j.polls {
		b, err := json.Marshal(p.st)
		must(err)
		if string(b) != p.text {
			e["alias"] = true
		}
	}
	tr.add(e)
	j.restore("restored", data)
	if len(data) > 1 {
		j.restore("cut", data[:r.Intn(len(data)-1)])
	}
	for k, l := range w.lists {
		if err := l.VerifyUnlocked(w.ctx, 20*time.Second); err != nil {
			tr.add(Ev{"ev": "stuck", "k": k})
			return
		}
		tr.add(Ev{"ev": "source", "k": k, "els": j.els(l)})
	}
}

func init() {
	modes["bkjob"] = func(tr *Trace) {
		tr.add(tablesEv())
		for i, line := range readLines(*fIn) {
			var sc bkScript
			must(json.Unmarshal([]byte(line), &sc))
			ep := &epTrace{}
			p := guard(func() { bkEpisode(ep, *fSeed*1000003+int64(i), sc, *fDir) })
			ep.mu.Lock()
			for _, e := range ep.evs {
				tr.add(e)
			}
			ep.mu.Unlock()
			if p != "" {
				tr.add(Ev{"ev": "panic", "err": p})
				return
			}
		}
	}
}
