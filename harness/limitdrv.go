//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	shutdown "github.com/klauspost/shutdown2"
)

// The limit driver sends requests that stop at their first use of storage, and
// lets the storage of one after the other go on (C21).

type limStep struct {
	A string `json:"a"`
	I int    `json:"i"`
}

// limReq is a request.
type limReq struct {
	n        int
	what     string
	upd      bool
	panics   bool // the storage may panic in it
	noQuit   bool
	mutates  bool
	watch    string // list it changes
	before   string
	method   string
	path     string
	body     []byte
	set      string
	conn     net.Conn
	gen      int // storage operations of earlier generations go on
	blocked  int // operations that wait
	entered  bool
	released bool
	how      string
	gone     bool
	late     bool
	replied  bool
	st       int
	raw      string
}

type limDrv struct {
	tr   *Trace
	rng  *rand.Rand
	s    *apiSrv
	raw  blobstore.Store
	k    int
	dir  string
	mu   sync.Mutex
	cond *sync.Cond
	sets map[string]*limReq
	reqs []*limReq // of this episode
	n    int
	down bool
	shut chan struct{}
	tmpl []*limTmpl
	ls   []rankdb.ListID
}

type limTmpl struct {
	id   rankdb.ListID
	file string
	data []byte
	used bool
}

// --- storage
type gateStore struct {
	blobstore.Store
	d *limDrv
}

func (g gateStore) pass(set string) error {
	g.d.mu.Lock()
	r := g.d.sets[set]
	if r == nil {
		g.d.mu.Unlock()
		return nil
	}
	if !r.released {
		if r.blocked == 0 && !(r.replied && !r.upd) {
			r.entered = true
			g.d.tr.add(Ev{"ev": "enter", "r": r.n})
		}
		r.blocked++
		for gen := r.gen; !r.released && gen == r.gen; {
			g.d.cond.Wait()
		}
	}
	g.d.mu.Unlock()
	switch r.how {
	case "err":
		return errors.New("storage is broken")
	case "panic":
		// only where the server is there to recover
		buf := make([]byte, 1<<14)
		if bytes.Contains(buf[:runtime.Stack(buf, false)], []byte("ServeHTTP")) {
			panic("storage is broken")
		}
		return errors.New("storage is broken")
	}
	return nil
}

func (g gateStore) Get(ctx context.Context, set, key string) ([]byte, error) {
	if err := g.pass(set); err != nil {
		return nil, err
	}
	return g.Store.Get(ctx, set, key)
}

func (g gateStore) Set(ctx context.Context, set, key string, val []byte) error {
	if err := g.pass(set); err != nil {
		return err
	}
	return g.Store.Set(ctx, set, key, val)
}

func (g gateStore) Delete(ctx context.Context, set, key string) error {
	if err := g.pass(set); err != nil {
		return err
	}
	return g.Store.Delete(ctx, set, key)
}

// --- lists
func (d *limDrv) els(from, n int) []rankdb.Element {
	var e []rankdb.Element
	for i := 0; i < n; i++ {
		e = append(e, rankdb.Element{ID: rankdb.ElementID(from + i), Score: uint64(1000 - 10*i), Updated: 1, Payload: []byte(`{"v":1}`)})
	}
	return e
}

func (d *limDrv) newList(id, set string) {
	l, err := rankdb.NewList(d.s.ctx, rankdb.ListID(id), set, d.raw, rankdb.WithListOption.MergeSplitSize(10, 20+d.rng.Intn(10)),
		rankdb.WithListOption.LoadIndex(d.rng.Intn(2) == 0), rankdb.WithListOption.Metadata(map[string]string{"k": id}),
		rankdb.WithListOption.Populate(d.els(1, 5+d.rng.Intn(60))))
	must(err)
	d.s.db.Lists.Add(l)
	d.ls = append(d.ls, rankdb.ListID(id))
}

func (d *limDrv) content(id string) string {
	l, ok := d.s.db.Lists.ByID(rankdb.ListID(id))
	if !ok {
		return "none"
	}
	e, err := l.GetRankTop(d.s.ctx, d.raw, 0, 1000)
	if err != nil && err != rankdb.ErrOffsetOutOfBounds {
		return "error " + err.Error()
	}
	var b strings.Builder
	for _, x := range e {
		fmt.Fprintf(&b, "%d:%d:%d:%d:%s ", x.ID, x.Score, x.TieBreaker, x.Updated, x.Payload)
	}
	return b.String()
}

// --- requests
type limKind struct {
	name string
	w    int
	fn   func(d *limDrv, r *limReq)
}

func jsonBody(x interface{}) []byte {
	b, err := json.Marshal(x)
	must(err)
	return b
}

type obj map[string]interface{}

// limList makes a list with elements for the request.
func (d *limDrv) limList(r *limReq) string {
	id := fmt.Sprintf("q%d", r.n)
	d.newList(id, r.set)
	r.watch = id
	return id
}

func (d *limDrv) limLists(r *limReq) []string {
	ids := []string{d.limList(r)}
	for i := d.rng.Intn(3) * d.rng.Intn(4); i > 0; i-- {
		id := fmt.Sprintf("q%d.%d", r.n, i)
		d.newList(id, r.set)
		ids = append(ids, id)
	}
	return ids
}

func el(id, score int) obj { return obj{"id": id, "score": score, "payload": obj{"v": 2}} }

// sel selects the lists by name or metadata.
func (d *limDrv) sel(ids []string) obj {
	if len(ids) == 1 && d.rng.Intn(2) == 0 {
		return obj{"match_metadata": map[string]string{"k": ids[0]}}
	}
	return obj{"lists": ids}
}

func limElc(d *limDrv, r *limReq) {
	r.method, r.path, r.body = "POST", "/lists/"+d.limList(r)+"/elements", jsonBody(el(5000, d.rng.Intn(2000)))
	r.panics = true
}

var limUpd = []limKind{
	{"elc", 3, limElc},
	{"elp", 3, func(d *limDrv, r *limReq) {
		r.method, r.path, r.body = "PUT", "/lists/"+d.limList(r)+"/elements/2", jsonBody(el(2, d.rng.Intn(2000)))
		r.panics = true
	}},
	{"elpm", 2, func(d *limDrv, r *limReq) {
		r.method, r.path = "PUT", "/lists/"+d.limList(r)+"/elements"
		r.body = jsonBody([]obj{el(2, d.rng.Intn(2000)), el(3, 1), el(7000, 99)})
		r.panics = true
	}},
	{"eld", 2, func(d *limDrv, r *limReq) {
		r.method, r.path = "DELETE", "/lists/"+d.limList(r)+"/elements/3"
		r.panics = true
	}},
	{"eldm", 2, func(d *limDrv, r *limReq) {
		r.method, r.path = "DELETE", "/lists/"+d.limList(r)+"/elements?element_ids=3&element_ids=4&element_ids=9999"
		r.panics = true
	}},
	{"lc", 2, func(d *limDrv, r *limReq) {
		id := fmt.Sprintf("q%d", r.n)
		r.watch = id
		p := ""
		if d.rng.Intn(2) == 0 {
			d.limList(r)
			p = "?replace=true"
		}
		r.method, r.path = "POST", "/lists"+p
		r.body = jsonBody(obj{"id": id, "set": r.set, "populate": []obj{el(1, 1), el(2, 5), el(8000, 3)}})
	}},
	{"ld", 2, func(d *limDrv, r *limReq) { r.method, r.path = "DELETE", "/lists/"+d.limList(r) }},
	{"lcl", 2, func(d *limDrv, r *limReq) {
		id := d.limList(r)
		r.method, r.path = "PUT", "/lists/"+id+"/clone"
		r.watch = id + "c"
		r.body = jsonBody(obj{"id": r.watch, "set": r.set})
	}},
	{"lrix", 1, func(d *limDrv, r *limReq) {
		r.method, r.path = "PUT", "/lists/"+d.limList(r)+"/reindex"
		r.watch = ""
	}},
	{"lrep", 1, func(d *limDrv, r *limReq) {
		r.method, r.path = "PUT", "/lists/"+d.limList(r)+"/repair"
		r.watch = ""
	}},
	{"lver", 1, func(d *limDrv, r *limReq) {
		r.method, r.path = "PUT", "/lists/"+d.limList(r)+pick(d.rng, []string{"/verify", "/verify?repair=true"})
		r.watch = ""
	}},
	{"mc", 2, func(d *limDrv, r *limReq) {
		m := d.sel(d.limLists(r))
		m["payload"] = []obj{el(6000, 7), el(6001, 1500)}
		r.method, r.path, r.body = "POST", "/xlist/elements", jsonBody(m)
	}},
	{"mp", 2, func(d *limDrv, r *limReq) {
		m := d.sel(d.limLists(r))
		m["payload"] = []obj{el(1, 7), el(6001, 1500)}
		r.method, r.path, r.body = "PUT", "/xlist/elements"+pick(d.rng, []string{"", "?results=true"}), jsonBody(m)
	}},
	{"md", 2, func(d *limDrv, r *limReq) {
		r.method, r.path = "DELETE", "/xlist/elements/2?lists="+strings.Join(d.limLists(r), "&lists=")
	}},
	{"mv", 3, func(d *limDrv, r *limReq) {
		r.method, r.path, r.body = "PUT", "/xlist/verify"+pick(d.rng, []string{"?elements=true&repair=true", "?elements=true"}), jsonBody(d.sel(d.limLists(r)))
		r.watch = ""
	}},
	{"mr", 2, func(d *limDrv, r *limReq) {
		r.method, r.path, r.body = "PUT", "/xlist/reindex", jsonBody(d.sel(d.limLists(r)))
		r.watch = ""
	}},
	{"bk", 2, func(d *limDrv, r *limReq) {
		r.method, r.path, r.body = "PUT", "/xlist/backup", jsonBody(obj{"destination": obj{"type": "download"}, "lists": d.sel(d.limLists(r))})
		r.watch = ""
	}},
	{"rs", 2, func(d *limDrv, r *limReq) {
		for i, t := range d.tmpl {
			if t.used {
				continue
			}
			t.used = true
			r.set = fmt.Sprintf("tset%d", i)
			r.watch = string(t.id)
			l, ok := d.s.db.Lists.ByID(t.id)
			if !ok || strings.Contains(d.content(r.watch), "error") {
				if ok {
					d.s.db.Lists.Delete(t.id)
				}
				d.newList(string(t.id), r.set)
				l, _ = d.s.db.Lists.ByID(t.id)
			}
			_, err := l.UpdateElements(d.s.ctx, d.raw, rankdb.Elements{{ID: 1, Score: uint64(3000 + d.rng.Intn(1000)), Updated: 2}}, 0, false)
			must(err)
			r.method, r.path, r.body = "POST", "/xlist/restore", t.data
			if d.rng.Intn(2) == 0 {
				r.path, r.body = "/xlist/restore?src_file="+t.file, nil
			} else {
				// The end of the request is not noticed before its body was read.
				r.noQuit = true
			}
			return
		}
		limElc(d, r)
	}},
}

var limRead = []limKind{
	{"elg", 2, func(d *limDrv, r *limReq) {
		r.method, r.path = "GET", "/lists/"+d.limList(r)+"/elements/2?range=3"
	}},
	{"elm", 1, func(d *limDrv, r *limReq) {
		r.method, r.path, r.body = "POST", "/lists/"+d.limList(r)+"/elements/find", jsonBody(obj{"element_ids": []int{1, 2, 3}})
	}},
	{"ela", 1, func(d *limDrv, r *limReq) {
		r.method, r.path, r.body = "POST", "/lists/"+d.limList(r)+"/elements/1/around", jsonBody(obj{"element_ids": []int{2, 3}})
	}},
	{"lrng", 1, func(d *limDrv, r *limReq) {
		r.method, r.path = "GET", "/lists/"+d.limList(r)+"/range?from_top=0&limit=10"
	}},
	{"lpct", 1, func(d *limDrv, r *limReq) { r.method, r.path = "GET", "/lists/"+d.limList(r)+"/percentile?from_top=50" }},
	{"lg", 1, func(d *limDrv, r *limReq) { r.method, r.path = "GET", "/lists/"+d.limList(r)+"?top_bottom=true" }},
	{"lall", 1, func(d *limDrv, r *limReq) {
		r.method, r.path = "GET", pick(d.rng, []string{"/lists?after_id=zzz", "/health", "/"})
	}},
	{"mg", 1, func(d *limDrv, r *limReq) {
		r.method, r.path = "GET", "/xlist/elements/2?lists="+strings.Join(d.limLists(r), "&lists=")
	}},
}

func pickKind(rng *rand.Rand, ks []limKind) limKind {
	n := 0
	for _, k := range ks {
		n += k.w
	}
	n = rng.Intn(n)
	for _, k := range ks {
		if n -= k.w; n < 0 {
			return k
		}
	}
	panic("unreachable")
}

// start sends a request.
func (d *limDrv) start(upd bool) {
	d.n++
	r := &limReq{n: d.n, upd: upd, set: fmt.Sprintf("set%d", d.n), late: d.down}
	k := pickKind(d.rng, limRead)
	if upd {
		k = pickKind(d.rng, limUpd)
	}
	r.what = k.name
	k.fn(d, r)
	r.mutates = upd && r.watch != ""
	if r.mutates {
		r.before = d.content(r.watch)
	}
	d.mu.Lock()
	d.sets[r.set] = r
	d.reqs = append(d.reqs, r)
	d.mu.Unlock()
	curOp.Store(r.method + " " + r.path)
	c, err := net.Dial("tcp", strings.TrimPrefix(d.s.base, "http://"))
	must(err)
	r.conn = c
	d.tr.add(Ev{"ev": "start", "r": r.n, "upd": upd, "what": r.method + " " + clip(r.path, 80)})
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: x\r\nAccept: application/json\r\nConnection: close\r\nContent-Length: %d\r\n", r.method, r.path, len(r.body))
	if r.body != nil {
		fmt.Fprintf(&b, "Content-Type: application/json\r\n")
	}
	b.WriteString("\r\n")
	b.Write(r.body)
	_, err = c.Write(b.Bytes())
	must(err)
	go func() {
		st, raw := -1, ""
		resp, err := http.ReadResponse(bufio.NewReader(c), nil)
		if err == nil {
			var x []byte
			x, err = io.ReadAll(resp.Body)
			if err == nil {
				st, raw = resp.StatusCode, clip(string(x), 200)
			}
		}
		if err != nil {
			raw = err.Error()
		}
		c.Close()
		d.mu.Lock()
		r.replied, r.st, r.raw = true, st, raw
		ev := Ev{"ev": "reply", "r": r.n, "st": st}
		if st != 200 && r.what != "bk" {
			ev["raw"] = raw
		}
		d.tr.add(ev)
		d.mu.Unlock()
	}()
}

func (d *limDrv) release(r *limReq, how string) {
	d.mu.Lock()
	r.released, r.how = true, how
	d.tr.add(Ev{"ev": "release", "r": r.n, "how": how})
	d.cond.Broadcast()
	d.mu.Unlock()
}

// nudge lets the storage operations go on that wait now.
func (d *limDrv) nudge(r *limReq) {
	d.mu.Lock()
	if r.blocked > 0 {
		d.tr.add(Ev{"ev": "nudge", "r": r.n})
		r.gen++
		r.blocked = 0
		r.how = "ok"
	}
	d.cond.Broadcast()
	d.mu.Unlock()
}

// quit: the client goes away.
func (d *limDrv) quit(r *limReq) {
	d.mu.Lock()
	r.gone = true
	d.tr.add(Ev{"ev": "cancel", "r": r.n})
	d.mu.Unlock()
	r.conn.(*net.TCPConn).CloseWrite() // fails if it was just answered
}

// which gives the requests at work, and the waiting ones.
func (d *limDrv) which() (running, waiting []*limReq) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, r := range d.reqs {
		switch {
		case r.entered && !r.released && !r.replied:
			running = append(running, r)
		case !r.entered && !r.replied:
			waiting = append(waiting, r)
		}
	}
	return
}

// settle waits until nothing can happen without the driver.
func (d *limDrv) settle() {
	end := time.Now().Add(25 * time.Second)
	ok := false
	for !ok && time.Now().Before(end) {
		busy := 0
		ok = true
		d.mu.Lock()
		for _, r := range d.reqs {
			if r.upd && r.blocked > 0 && !r.released && !r.replied {
				busy++
			}
			ok = ok && (r.replied || r.blocked > 0 && !r.released || !r.entered)
		}
		for _, r := range d.reqs {
			if !r.entered && !r.replied {
				ok = ok && r.upd && !r.gone && !d.down && d.k > 0 && busy >= d.k
			}
		}
		if ok {
			d.tr.add(Ev{"ev": "settled"})
		}
		d.mu.Unlock()
		if !ok {
			time.Sleep(200 * time.Microsecond)
		}
	}
	if !ok {
		d.tr.add(Ev{"ev": "settled"})
		fmt.Fprintln(os.Stderr, "NOT SETTLED")
		d.tr.flush()
		os.Exit(0)
	}
}

func (d *limDrv) outcome(r *limReq) string {
	switch n := d.rng.Intn(10); {
	case n < 5:
		return "ok"
	case n < 8 || !r.panics:
		return "err"
	default:
		return "panic"
	}
}

func (d *limDrv) run(steps []limStep) {
	d.tr.add(Ev{"ev": "begin"})
	d.reqs = nil
	for _, t := range d.tmpl {
		t.used = false
	}
	calm := 100
	if d.rng.Intn(3) == 0 {
		calm = 50
	}
	nudges := d.rng.Intn(2) * d.rng.Intn(30)
	for _, s := range steps {
		running, waiting := d.which()
		switch s.A {
		case "upd", "read":
			d.start(s.A == "upd")
		case "finish":
			if len(running) > 0 {
				r := running[s.I%len(running)]
				d.release(r, d.outcome(r))
			}
		case "quit":
			if len(waiting) > 0 {
				if r := waiting[s.I%len(waiting)]; !r.gone && !r.noQuit {
					d.quit(r)
				}
			}
		case "leave":
			if len(running) > 0 {
				if r := running[s.I%len(running)]; !r.gone {
					d.quit(r)
					if d.rng.Intn(2) == 0 {
						time.Sleep(time.Duration(d.rng.Intn(10)) * time.Millisecond)
					}
				}
			}
		case "down":
			d.tr.add(Ev{"ev": "down"})
			d.down = true
			go func() {
				shutdown.Shutdown()
				d.tr.add(Ev{"ev": "closed"})
				close(d.shut)
			}()
			for !shutdown.Started() {
				time.Sleep(100 * time.Microsecond)
			}
		}
		if d.rng.Intn(100) < calm {
			d.settle()
		}
		for nudges > 0 && d.rng.Intn(3) > 0 {
			if running, _ = d.which(); len(running) > 0 {
				d.nudge(running[d.rng.Intn(len(running))])
				if d.rng.Intn(100) < calm {
					d.settle()
				}
			}
			nudges--
		}
	}
	d.settle()
	for {
		running, _ := d.which()
		if len(running) == 0 {
			break
		}
		d.release(running[d.rng.Intn(len(running))], "ok")
		d.settle()
	}
	if d.down {
		select {
		case <-d.shut:
		case <-time.After(30 * time.Second):
			d.tr.add(Ev{"ev": "never closed"})
		}
	}
	for _, r := range d.reqs {
		if !r.released {
			d.mu.Lock()
			r.released = true
			d.cond.Broadcast()
			d.mu.Unlock()
		}
	}
	d.mu.Lock()
	d.sets = map[string]*limReq{}
	d.mu.Unlock()
	for _, r := range d.reqs {
		if r.mutates && !(r.entered && r.how != "ok") {
			d.tr.add(Ev{"ev": "final", "r": r.n, "same": d.content(r.watch) == r.before})
		}
	}
	for _, id := range d.ls {
		d.s.db.Lists.Delete(id)
	}
	d.ls = d.ls[:0]
}

func limitMode(tr *Trace) {
	k := int((*fProf)[len(*fProf)-1] - '0')
	tr.add(Ev{"ev": "tables", "k": k})
	f, err := os.Open(*fIn)
	must(err)
	var lines []string
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		lines = append(lines, sc.Text())
	}
	f.Close()
	if strings.HasPrefix(*fProf, "quit") {
		// Shutdown ends the use of a process.
		for i, x := range lines {
			one := filepath.Join(*fDir, "one.json")
			must(os.WriteFile(one, []byte(x+"\n"), 0o644))
			os.Remove(one + ".out")
			cmd := exec.Command(os.Args[0], "-mode", "limit", "-profile", fmt.Sprintf("one%d", k), "-seed", fmt.Sprint(*fSeed*1000+int64(i)),
				"-script", one, "-dir", *fDir, "-out", one+".out", "-watchdog", fLimit.String())
			cmd.Stderr = os.Stderr
			err := cmd.Run()
			var xe *exec.ExitError
			if errors.As(err, &xe) {
				tr.flush()
				os.Exit(xe.ExitCode())
			}
			must(err)
			b, err := os.ReadFile(one + ".out")
			must(err)
			for _, y := range bytes.Split(bytes.TrimSpace(b), []byte("\n"))[1:] {
				var e Ev
				must(json.Unmarshal(y, &e))
				tr.add(e)
			}
		}
		return
	}
	d := &limDrv{tr: tr, rng: rand.New(rand.NewSource(*fSeed)), k: k, dir: *fDir, sets: map[string]*limReq{}, shut: make(chan struct{})}
	d.cond = sync.NewCond(&d.mu)
	d.s = startAPI(*fDir, apiOpts{storage: "Memory", maxUpdates: k})
	d.raw = d.s.db.Storage
	d.s.db.Storage = gateStore{Store: d.raw, d: d}
	for i := 0; i < 4; i++ {
		id := fmt.Sprintf("tmpl%d", i)
		d.newList(id, fmt.Sprintf("tset%d", i))
		r := d.s.send(context.Background(), "PUT", "/xlist/backup", jsonBody(obj{"destination": obj{"type": "download"}, "lists": obj{"lists": []string{id}}}), "")
		if r.st != 200 {
			must(fmt.Errorf("backup answered %d", r.st))
		}
		t := &limTmpl{id: rankdb.ListID(id), data: r.raw, file: filepath.Join(*fDir, id+".bin")}
		must(os.WriteFile(t.file, t.data, 0o644))
		d.tmpl = append(d.tmpl, t)
	}
	d.ls = nil
	for _, x := range lines {
		var s []limStep
		must(json.Unmarshal([]byte(x), &s))
		d.run(s)
	}
}

func init() { modes["limit"] = limitMode }
