//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"time"

	"github.com/Vivino/rankdb/blobstore"
	"github.com/cenkalti/backoff"
)

func init() { modes["retry"] = retryMode }

var (
	errP = errors.New("permanent here")
	errQ = errors.New("permanent elsewhere")
)

// listErr cannot be the key of a map, like the list of invalid parameters of a cloud store.
type listErr struct {
	id   int
	list []string
}

func (l listErr) Error() string { return "several errors" }

func sameErr(a, b error) bool {
	x, ok := a.(listErr)
	y, ok2 := b.(listErr)
	if ok || ok2 {
		return ok && ok2 && x.id == y.id
	}
	return a == b
}

// callerCtx is a context that ends when told to, with any error.
type callerCtx struct {
	mu   sync.Mutex
	done chan struct{}
	err  error
	wait time.Duration
}

const longPause = 20 * time.Second

// tooSlow: a call waited for the whole pause already.
var tooSlow bool

func (c *callerCtx) Deadline() (time.Time, bool)   { return time.Time{}, false }
func (c *callerCtx) Value(interface{}) interface{} { return nil }
func (c *callerCtx) Done() <-chan struct{} {
	c.mu.Lock()
	d := c.wait
	c.mu.Unlock()
	time.Sleep(d)
	return c.done
}

// slow makes the context take its time to answer.
func (c *callerCtx) slow(d time.Duration) {
	c.mu.Lock()
	c.wait = d
	c.mu.Unlock()
}
func (c *callerCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *callerCtx) end(err error) {
	c.mu.Lock()
	c.err = err
	close(c.done)
	c.mu.Unlock()
}

type retryStep struct {
	A string `json:"a"`
	O string `json:"o"`
}

// retryEp replays one behaviour.
type retryEp struct {
	tr      *epTrace
	r       *rand.Rand
	steps   []retryStep
	pos     int
	ctx     context.Context
	endFn   func()
	timeout time.Duration
	blob    []byte
	errs    []error
	resets  int
	async   sync.WaitGroup
	op      string
	since   time.Time
}

func (x *retryEp) peek() retryStep {
	if x.pos < len(x.steps) {
		return x.steps[x.pos]
	}
	return retryStep{}
}

func (x *retryEp) end() {
	x.endFn()
	x.tr.add(Ev{"ev": "end"})
}

// attempt is called by the store below.
func (x *retryEp) attempt(ctx context.Context, op, set, key string, b []byte) ([]byte, error) {
	e := Ev{"ev": "attempt", "same": op == x.op && set == "the set" && key == "the key" && (op != "set" || bytes.Equal(b, x.blob))}
	dl, ok := ctx.Deadline()
	e["limited"] = ok
	e["within"] = !ok || time.Until(dl) <= x.timeout
	e["full"] = !ok || x.timeout < time.Hour || time.Until(dl) > x.timeout-10*time.Minute
	x.tr.add(e)
	if x.peek().A == "attempt" {
		x.pos++
	}
	if x.peek().A == "end" {
		x.pos++
		x.end()
		ok := true
		select {
		case <-ctx.Done():
		case <-time.After(patience):
			ok = false
		}
		x.tr.add(Ev{"ev": "told", "ok": ok})
	}
	o := "none"
	if s := x.peek(); s.A == "outcome" {
		o = s.O
		x.pos++
	}
	n := len(x.errs) + 1
	var err error
	switch o {
	case "ok":
	case "tmp":
		err = fmt.Errorf("temporary %d", n)
	case "wrapped":
		err = fmt.Errorf("wrapped %d: %w", n, blobstore.ErrBlobNotFound)
	case "unhash":
		err = listErr{id: n, list: []string{"a"}}
	case "notfound":
		err = blobstore.ErrBlobNotFound
	case "toobig":
		err = blobstore.ErrBlobTooBig
	case "canceled":
		err = context.Canceled
	case "P":
		err = errP
	case "Q":
		err = errQ
	case "timeout":
		if x.timeout >= time.Hour || x.timeout == 0 {
			err = context.DeadlineExceeded
			break
		}
		select {
		case <-ctx.Done():
			err = ctx.Err()
		case <-time.After(patience):
			o = "hang"
			err = errors.New("hang")
		}
	case "ctxerr":
		err = ctx.Err()
		if err == context.Canceled {
			o = "canceled"
		} else {
			o = "timeout"
		}
	default:
		// more attempts than the specification has
		err = fmt.Errorf("unexpected %d", n)
	}
	x.errs = append(x.errs, err)
	x.tr.add(Ev{"ev": "outcome", "o": o})
	if err == nil && op == "get" {
		return append([]byte("value "), byte('0'+n)), nil
	}
	return nil, err
}

func (x *retryEp) Get(ctx context.Context, set, key string) ([]byte, error) {
	return x.attempt(ctx, "get", set, key, nil)
}
func (x *retryEp) Set(ctx context.Context, set, key string, b []byte) error {
	_, err := x.attempt(ctx, "set", set, key, b)
	return err
}
func (x *retryEp) Delete(ctx context.Context, set, key string) error {
	_, err := x.attempt(ctx, "del", set, key, nil)
	return err
}

func (x *retryEp) Reset() { x.resets++ }

// NextBackOff is called with the strategy of the operation.
func (x *retryEp) NextBackOff() time.Duration {
	more := false
	if s := x.peek(); s.A == "backoff" {
		more = s.O == "more"
		x.pos++
	}
	x.tr.add(Ev{"ev": "backoff", "more": more})
	if !more {
		return backoff.Stop
	}
	if x.peek().A == "end" {
		x.pos++
		switch x.r.Intn(3) {
		case 0: // together with the end of the pause
			x.end()
			if c, ok := x.ctx.(*callerCtx); ok {
				c.slow(200 * time.Microsecond)
			}
			return time.Duration(x.r.Intn(2))
		case 1: // before
			x.end()
			return 2 * time.Millisecond
		}
		if tooSlow {
			x.end()
			return time.Millisecond
		}
		x.async.Add(1)
		go func() {
			defer x.async.Done()
			time.Sleep(time.Millisecond)
			x.end()
			x.since = time.Now()
		}()
		return longPause
	}
	return time.Duration(x.r.Intn(3)*100) * time.Microsecond
}

type wrongStrategy struct{ x *retryEp }

func (w wrongStrategy) Reset() {}
func (w wrongStrategy) NextBackOff() time.Duration {
	w.x.tr.add(Ev{"ev": "wrongstrategy"})
	return backoff.Stop
}

func (x *retryEp) run() {
	perm := x.peek().O
	x.pos++
	e := Ev{"ev": "begin", "perm": []string{}, "op": x.op, "limited": x.timeout != 0, "early": false}
	if perm != "" {
		e["perm"] = []string{perm}
	}
	x.tr.add(e)
	right := func() backoff.BackOff { return x }
	wrong := func() backoff.BackOff { return wrongStrategy{x} }
	strat := map[string]func() backoff.BackOff{"get": wrong, "set": wrong, "del": wrong}
	strat[x.op] = right
	opts := []blobstore.RetryStoreOption{blobstore.WithRetryOpt.Backoff(strat["get"], strat["set"], strat["del"])}
	if perm != "" {
		if x.r.Intn(2) == 0 {
			opts = append(opts, blobstore.WithRetryOpt.PermanentErr(errP, nil))
		} else {
			opts = append(opts, blobstore.WithRetryOpt.PermanentErr(errP), blobstore.WithRetryOpt.PermanentErr(errors.New("one more")))
		}
	} else if x.r.Intn(2) == 0 {
		opts = append(opts, blobstore.WithRetryOpt.PermanentErr())
	}
	if x.timeout != time.Second {
		opts = append(opts, blobstore.WithRetryOpt.OpTimeout(x.timeout))
	}
	if x.r.Intn(2) == 0 {
		// a strategy that is not given is kept
		opts = append(opts, blobstore.WithRetryOpt.Backoff(nil, nil, nil))
	}
	x.r.Shuffle(len(opts)-1, func(i, j int) { opts[i+1], opts[j+1] = opts[j+1], opts[i+1] })
	other := func() {
		_, err := blobstore.NewRetryStore(x, blobstore.WithRetryOpt.PermanentErr(errQ), blobstore.WithRetryOpt.OpTimeout(time.Nanosecond), blobstore.WithRetryOpt.Backoff(wrong, wrong, wrong))
		must(err)
	}
	before := x.r.Intn(2) == 0
	if before {
		other()
	}
	st, err := blobstore.NewRetryStore(x, opts...)
	must(err)
	if !before {
		other()
	}
	if x.r.Intn(2) == 0 {
		c := &callerCtx{done: make(chan struct{})}
		x.ctx = c
		x.endFn = func() {
			if x.r.Intn(2) == 0 {
				c.end(context.DeadlineExceeded)
			} else {
				c.end(context.Canceled)
			}
		}
	} else {
		ctx, cancel := context.WithCancel(context.Background())
		x.ctx, x.endFn = ctx, cancel
		defer cancel()
	}
	if x.peek().A == "end" {
		x.pos++
		x.end()
	}
	var got []byte
	p := guard(func() {
		switch x.op {
		case "get":
			got, err = st.Get(x.ctx, "the set", "the key")
		case "set":
			err = st.Set(x.ctx, "the set", "the key", x.blob)
		default:
			err = st.Delete(x.ctx, "the set", "the key")
		}
	})
	x.async.Wait()
	if p != "" {
		x.tr.add(Ev{"ev": "panic", "err": p, "in": x.op})
		return
	}
	ret := Ev{"ev": "ret", "ok": err == nil, "v": 0, "errs": []int{}, "err": errText(err), "prompt": x.since.IsZero() || time.Since(x.since) < longPause/2}
	if ret["prompt"] == false {
		tooSlow = true
	}
	if err == nil && x.op == "get" {
		for i := range x.errs {
			if string(got) == "value "+string(rune('1'+i)) {
				ret["v"] = i + 1
			}
		}
	}
	of := []int{}
	for i, e := range x.errs {
		if err != nil && e != nil && sameErr(err, e) {
			of = append(of, i+1)
		}
	}
	ret["errs"] = of
	x.tr.add(ret)
}

func retryMode(tr *Trace) {
	tr.add(Ev{"ev": "tables"})
	f, err := os.Open(*fIn)
	must(err)
	defer f.Close()
	var scripts [][]retryStep
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		var s []retryStep
		must(json.Unmarshal(sc.Bytes(), &s))
		scripts = append(scripts, s)
	}
	sideBySide(tr, len(scripts)*3, 1, func(i int, ep *epTrace) {
		r := rand.New(rand.NewSource(*fSeed*104729 + int64(i)))
		x := &retryEp{tr: ep, r: r, steps: scripts[i/3], op: []string{"get", "set", "del"}[i%3], blob: []byte(fmt.Sprint("content ", i))}
		x.timeout = []time.Duration{4 * time.Millisecond, 5 * time.Hour, 0, time.Second}[r.Intn(4)]
		for _, s := range x.steps {
			if s.O == "timeout" && x.timeout == time.Second {
				x.timeout = 4 * time.Millisecond
			}
		}
		x.run()
	})
}
