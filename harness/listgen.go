//go:build go1.22

package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/log"
)

// Sequences of operations generated from RankGen.tla, each on a list of its own.
type genScript struct {
	Mz, Sz int
	Els    [][4]int
	Ops    []struct {
		A   string
		Els [][4]int
		Ids []int
	}
}

// Values the indices of the script stand for. Ids are in order, as in the script.
var (
	genIDs    = []uint64{0, 0, 5, 1 << 32, 1<<53 + 1, maxU64}
	genScores = [][]uint64{{0, 1, maxU64}, {10, 11, 12}, {0, 1<<32 - 1, 1 << 32}, {1<<53 + 1, 1 << 63, maxU64 - 1}}
	genTies   = [][]uint64{{0, 1, 1<<32 - 1}, {0, 1, 7}, {1<<32 - 2, 1<<32 - 2, 1<<32 - 1}}
)

func init() {
	modes["listgen"] = func(tr *Trace) {
		te := tablesEv()
		te["keys"] = strings.HasSuffix(*fProf, "struct")
		tr.add(te)
		rng := rand.New(rand.NewSource(*fSeed))
		for _, x := range readLines(*fIn) {
			var s genScript
			must(json.Unmarshal([]byte(x), &s))
			runGen(tr, rng, s)
		}
	}
}

func runGen(tr *Trace, rng *rand.Rand, s genScript) {
	w := newWorld(tr, rng.Int63(), profile{name: "gen", nlists: 1})
	w.ctx = log.WithLogger(context.Background(), log.NullLogger())
	w.newManager(pick(rng, []string{"none", "big", "small", "evil"}))
	w.begin()
	scores, ties := genScores[0], genTies[0]
	if rng.Intn(3) == 0 {
		scores, ties = pick(rng, genScores), pick(rng, genTies)
	}
	elems := func(in [][4]int) rankdb.Elements {
		r := make(rankdb.Elements, 0, len(in))
		for _, e := range in {
			r = append(r, rankdb.Element{ID: rankdb.ElementID(genIDs[e[0]]), Score: scores[e[1]], TieBreaker: uint32(ties[e[2]]), Updated: uint32(e[3]),
				Payload: []byte(fmt.Sprint(e[0]))})
		}
		return r
	}
	used := map[int]bool{}
	note := func(in [][4]int) {
		for _, e := range in {
			used[e[0]] = true
		}
	}
	id := rankdb.ListID("list1")
	li := rng.Intn(2) == 0
	init := elems(s.Els)
	note(s.Els)
	e := Ev{"ev": "create", "k": 1, "set": "s1", "mz": s.Mz, "sz": s.Sz, "meta": metaJ(nil), "li": li, "clone": 0, "id": string(id)}
	w.model[1] = map[uint64]bool{}
	w.op(e, func() {
		t0 := uint32(time.Now().Unix())
		l, err := rankdb.NewList(w.ctx, id, "s1", w.bs, rankdb.WithListOption.MergeSplitSize(s.Mz, s.Sz), rankdb.WithListOption.LoadIndex(li),
			rankdb.WithListOption.Cache(w.cache), rankdb.WithListOption.Populate(init))
		e["res"], e["err"], e["els"], e["lo"], e["hi"] = errClass(err), errText(err), elsJ(init), upd(t0), upd(uint32(time.Now().Unix()))
		if l != nil {
			w.lists[1] = l
			w.m.Lists.Add(l)
		}
	})
	w.have(1, init)
	if w.lists[1] == nil {
		return
	}
	for _, o := range s.Ops {
		note(o.Els)
		switch o.A {
		case "upd":
			w.update(1, elems(o.Els), rng.Intn(4), *fProf == "gen-place" || rng.Intn(3) > 0)
		case "ins":
			w.insert(1, elems(o.Els))
		case "del":
			var ids []uint64
			for _, i := range o.Ids {
				ids = append(ids, genIDs[i])
				used[i] = true
			}
			w.del(1, ids)
		default:
			w.step(o.A)
		}
	}
	n := len(w.model[1])
	switch *fProf {
	case "gen-rank":
		for off := -1; off <= n; off++ {
			for cnt := 0; cnt <= n+1; cnt++ {
				w.qRange(1, "top", off, cnt)
				w.qRange(1, "bottom", off, cnt)
			}
		}
		for _, sc := range append([]uint64{0, maxU64}, scores...) {
			for cnt := 0; cnt <= n; cnt++ {
				w.qScore(1, sc, cnt)
			}
		}
		for k16 := 0; k16 <= 16; k16 += 4 {
			w.qPct(1, k16, float64(k16)/16, rng.Intn(n+2))
		}
		w.qStats(1, true)
	case "gen-struct", "gen-maint":
		w.maint(1, "verifyE", func() error { return w.lists[1].VerifyElements(w.ctx, w.bs) })
	}
	w.qRange(1, "top", 0, 1000)
	var ids []uint64
	for i := range genIDs[1:] {
		if used[i+1] || rng.Intn(4) == 0 {
			ids = append(ids, genIDs[i+1])
		}
	}
	w.qGet(1, ids, n+1)
	w.qLen(1)
}
