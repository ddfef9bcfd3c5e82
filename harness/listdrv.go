//go:build go1.22

package main

import (
	"context"
	"math/rand"

	"github.com/Vivino/rankdb/log"
)

var queryKinds = map[string]int{"full": 8, "top": 8, "bottom": 8, "score": 8, "pct": 8, "get": 12, "len": 3, "stats": 4}

func prof(name string) profile {
	p := profile{name: name, nlists: 1}
	add := func(m map[string]int) {
		if p.weights == nil {
			p.weights = map[string]int{}
		}
		for k, v := range m {
			p.weights[k] += v
		}
	}
	mut := map[string]int{"upd": 24, "ins": 10, "del": 12, "pop": 2}
	maint := map[string]int{"split": 8, "reindex": 2, "repair": 2, "release": 3, "verify": 1, "verifyE": 2}
	switch name {
	case "map": // C01
		add(mut)
		add(map[string]int{"split": 6, "release": 2, "repair": 1, "reindex": 1, "full": 10, "get": 16, "len": 4, "top": 2, "unlocked": 1})
	case "rank": // C02
		add(mut)
		add(map[string]int{"split": 6, "del": 6})
		add(queryKinds)
		add(queryKinds)
	case "struct": // C03
		add(mut)
		add(maint)
		add(map[string]int{"split": 8, "pop": 3, "dellist": 1, "create": 2, "verifyE": 4, "verify": 3})
		p.nlists = 2
	case "place": // C04
		add(map[string]int{"upd": 50, "ins": 3, "del": 4, "split": 8, "release": 1, "full": 2})
	case "maint": // C05
		add(map[string]int{"upd": 10, "ins": 4, "del": 5})
		add(maint)
		add(maint)
		add(map[string]int{"damage": 6, "prune": 2, "full": 6, "get": 4})
		add(queryKinds)
	case "registry": // C06
		add(mut)
		add(map[string]int{"create": 8, "dellist": 3, "restart": 14, "prune": 3, "repair": 1, "split": 3, "reindex": 1, "clone": 2, "full": 3, "get": 3})
		p.nlists = 4
	case "page": // C17
		add(map[string]int{"create": 8, "dellist": 4, "pageA": 20, "pageB": 20, "match": 20, "byids": 6, "restart": 1})
		p.nlists = 9
	case "iso": // C18
		add(mut)
		add(maint)
		add(map[string]int{"create": 8, "dellist": 4, "clone": 5, "backup": 2, "restore": 3, "prune": 2, "restart": 2, "full": 6, "get": 4})
		p.nlists = 4
	case "copy": // C16
		add(mut)
		add(map[string]int{"create": 5, "dellist": 4, "clone": 10, "backup": 10, "restore": 12, "repair": 3, "split": 4, "reindex": 2, "full": 6, "get": 4, "release": 2})
		p.nlists = 4
	default:
		panic("profile " + name)
	}
	return p
}

func choose(rng *rand.Rand, w map[string]int) string {
	total := 0
	keys := make([]string, 0, len(w))
	for k, v := range w {
		total += v
		keys = append(keys, k)
	}
	sortStrings(keys)
	x := rng.Intn(total)
	for _, k := range keys {
		if x < w[k] {
			return k
		}
		x -= w[k]
	}
	return ""
}

func tablesEv() Ev {
	return Ev{"ev": "tables", "sc": scTab.limbs(4), "ti": tiTab.limbs(2), "id": idTab.limbs(4), "keys": false}
}

func init() {
	modes["list"] = func(tr *Trace) {
		te := tablesEv()
		switch *fProf {
		case "struct", "iso":
			te["keys"] = true
		}
		tr.add(te)
		for ep := 0; ep < *fN; ep++ {
			seed := *fSeed*1000003 + int64(ep)
			p := prof(*fProf)
			w := newWorld(tr, seed, p)
			w.ctx = log.WithLogger(context.Background(), log.NullLogger())
			w.newManager(pick(w.rng, []string{"none", "big", "small", "evil"}))
			w.begin()
			w.create(1, 0)
			for i := 0; i < *fOps; i++ {
				if len(w.lists) == 0 {
					w.step("create")
					continue
				}
				w.step(choose(w.rng, p.weights))
			}
			for k := range w.lists {
				w.rankQuery(k, "full")
				w.maint(k, "verifyE", func() error { return w.lists[k].VerifyElements(w.ctx, w.bs) })
			}
		}
	}
}
