//go:build go1.22

package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ev is one line of a trace.
type Ev map[string]interface{}

// Updated timestamps are mapped to dense, order preserving indices once the
// whole shard is known (they may come from the clock of the code under test).
type vUpd uint32

var updSeen = map[uint32]int{}

func upd(u uint32) vUpd {
	updMu.Lock()
	updSeen[u] = 0
	updMu.Unlock()
	return vUpd(u)
}

var updMu sync.Mutex

// rawUpd: timestamps are recorded as they are; the traces of several processes are to be joined.
var rawUpd bool

func (v vUpd) MarshalJSON() ([]byte, error) {
	if rawUpd {
		return []byte(fmt.Sprint(uint32(v))), nil
	}
	return []byte(fmt.Sprint(updSeen[uint32(v)])), nil
}

func finishUpd() {
	all := make([]int, 0, len(updSeen))
	for k := range updSeen {
		all = append(all, int(k))
	}
	sort.Ints(all)
	for i, k := range all {
		updSeen[uint32(k)] = i
	}
}

// Static tables. Values outside of the tables are recorded as -1, which no
// specification state contains.
type table struct {
	name string
	vals []uint64
	idx  map[uint64]int
}

func newTable(name string, v []uint64) *table {
	sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
	t := &table{name: name, vals: v, idx: map[uint64]int{}}
	for i, x := range v {
		t.idx[x] = i
	}
	return t
}

func (t *table) of(x uint64) int {
	if i, ok := t.idx[x]; ok {
		return i
	}
	return -1
}

func limbs(x uint64, n int) []int {
	r := make([]int, n)
	for i := n - 1; i >= 0; i-- {
		r[i] = int(x & 0xffff)
		x >>= 16
	}
	return r
}

func (t *table) limbs(n int) [][]int {
	r := make([][]int, len(t.vals))
	for i, v := range t.vals {
		r[i] = limbs(v, n)
	}
	return r
}

const maxU64 = ^uint64(0)
const maxU32 = ^uint32(0)

var (
	idTab = newTable("id", []uint64{0, 1, 2, 3, 5, 8, 13, 100, 101, 65535, 65536, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1,
		1 << 40, 1<<53 + 1, 1<<63 - 1, 1 << 63, maxU64 - 70000, maxU64 - 2, maxU64 - 1, maxU64, 77})
	scTab = newTable("score", []uint64{0, 1, 2, 3, 10, 11, 12, 500, 1<<16 - 1, 1 << 16, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1 << 63, maxU64 - 1, maxU64})
	tiTab = newTable("tie", []uint64{0, 1, 7, 65535, 65536, 1 << 31, 1<<32 - 2, 1<<32 - 1})
)

// interning of strings (blob keys, payloads, ...)
type intern struct {
	mu sync.Mutex
	m  map[string]int
}

func (t *intern) of(s string) int {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.m == nil {
		t.m = map[string]int{}
	}
	if i, ok := t.m[s]; ok {
		return i
	}
	i := len(t.m) + 1
	t.m[s] = i
	return i
}

// Trace collects the events of a shard.
type Trace struct {
	mu     sync.Mutex
	file   string
	evs    []Ev
	closed bool
	seq    int64
}

func (t *Trace) add(e Ev) {
	t.mu.Lock()
	if len(t.evs) == 0 {
		// for the trace of a crashed process
		if b, err := json.Marshal(e); err == nil {
			os.WriteFile(t.file+".tables", b, 0644)
		}
	}
	t.evs = append(t.evs, e)
	t.mu.Unlock()
	lastProgress.Store(time.Now().UnixNano())
}

func (t *Trace) n() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.evs)
}

func (t *Trace) flush() {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.closed {
		return
	}
	t.closed = true
	finishUpd()
	f, err := os.Create(t.file)
	must(err)
	w := bufio.NewWriterSize(f, 1<<20)
	enc := json.NewEncoder(w)
	for _, e := range t.evs {
		must(enc.Encode(e))
	}
	must(w.Flush())
	must(f.Close())
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", err)
		os.Exit(3)
	}
}

var lastProgress atomic.Int64
var curOp atomic.Value // string

// watchdog turns "no operation finished for a long time" into a hang event,
// that no specification allows, and ends the process.
func watchdog(t *Trace, limit time.Duration) {
	lastProgress.Store(time.Now().UnixNano())
	go func() {
		last := time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			now := time.Now()
			if now.Sub(last) > 5*time.Second {
				// The machine was stopped or starved: not the fault of the code.
				lastProgress.Store(now.UnixNano())
			}
			last = now
			if now.Sub(time.Unix(0, lastProgress.Load())) < limit {
				continue
			}
			op, _ := curOp.Load().(string)
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			os.WriteFile(t.file+".stack", buf, 0644)
			t.add(Ev{"ev": "hang", "op": op})
			t.flush()
			fmt.Fprintln(os.Stderr, "HANG in", op)
			os.Exit(0)
		}
	}()
}

// guard runs fn, and reports whether it panicked.
func guard(fn func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 1<<14)
			buf = buf[:runtime.Stack(buf, false)]
			p = fmt.Sprint(r)
			fmt.Fprintln(os.Stderr, "PANIC:", p, "\n", string(buf))
			p = strings.Map(func(r rune) rune {
				if r < 32 || r > 126 || r == '"' || r == '\\' {
					return ' '
				}
				return r
			}, p)
		}
	}()
	fn()
	return ""
}

func sortStrings(s []string) { sort.Strings(s) }

// readLines returns the lines of a file.
func readLines(file string) []string {
	b, err := os.ReadFile(file)
	must(err)
	return strings.Split(strings.TrimSpace(string(b)), "\n")
}
