//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
)

// listNames are in ascending order, list k has the name listNames[k].
var listNames = []string{"", "A", "Z", "a", "a.b", "list1", "list10", "list2", "zz", "\xc3\xa9"}

func listName(k int) string {
	if k < len(listNames) {
		return listNames[k]
	}
	return fmt.Sprintf("unknown%d", k)
}

func listKey(id rankdb.ListID) int {
	for k, n := range listNames {
		if n == string(id) {
			return k
		}
	}
	return -1
}

// known returns what the registry says about itself.
func (w *world) known() []int {
	r := []int{}
	for _, id := range w.m.Lists.All() {
		r = append(r, listKey(id))
	}
	sort.Ints(r)
	return r
}

func (w *world) save(backup bool) {
	e := Ev{"ev": "save", "backup": backup}
	w.op(e, func() { err := w.m.SaveLists(w.ctx, backup); e["res"], e["err"] = errClass(err), errText(err) })
}

// restart saves the registry (or lets the interval saver do it), may change elements, and loads it into a new manager.
func (w *world) restart() {
	r := w.rng
	old := w.m
	how := r.Intn(4)
	switch how {
	case 0:
		w.save(true)
	case 1:
		// the interval saver saves at shutdown
		e := Ev{"ev": "save", "backup": false}
		w.op(e, func() {
			sd := make(chan chan struct{})
			every := time.Duration(0)
			if r.Intn(2) == 0 {
				every = time.Hour
			}
			w.m.StartIntervalSaver(w.ctx, every, sd)
			done := make(chan struct{})
			sd <- done
			<-done
			e["res"], e["err"] = "ok", ""
		})
	case 2:
		w.save(false)
	default:
		w.save(true)
		w.save(false)
	}
	// Element changes after the save are in the blobs.
	for i := r.Intn(3); i > 0; i-- {
		w.step(pick(r, []string{"upd", "del", "get", "top"}))
	}
	lose := 0
	raw := rawStore{w.st}
	if b, err := raw.Get(w.ctx, "mgr", "lists"); err == nil && how != 1 && how != 2 {
		switch r.Intn(6) {
		case 0:
			lose = 1
			raw.Delete(w.ctx, "mgr", "lists")
		case 1:
			lose = 2
			raw.Set(w.ctx, "mgr", "lists", b[:len(b)/2])
		case 2:
			lose = 3
			b[0] = 0x37
			raw.Set(w.ctx, "mgr", "lists", b)
		case 3:
			lose = 4
			raw.Set(w.ctx, "mgr", "lists", []byte{})
		case 4:
			// another, partly readable registry with a list that the backup does not have
			lose = 5
			m2, err := rankdb.NewManager(w.bs, "mgr")
			must(err)
			must(m2.NewLists(nil))
			for i := 0; i < 3; i++ {
				nl, err := rankdb.NewList(w.ctx, rankdb.ListID(listName(90+i)), "s9", newRecStore())
				must(err)
				m2.Lists.Add(nl)
			}
			must(m2.SaveLists(w.ctx, false))
			b, _ := raw.Get(w.ctx, "mgr", "lists")
			raw.Set(w.ctx, "mgr", "lists", damageStream(b, r.Intn(3)))
		}
	}
	e := Ev{"ev": "restart", "lose": lose}
	var nl map[int]*rankdb.List
	w.op(e, func() {
		m, err := rankdb.NewManager(w.bs, "mgr")
		must(err)
		m.Backup = blobstore.StoreWithSet(w.bs, "bak")
		kind := pick(r, []string{"none", "big", "small", "evil"})
		w.cache = newCache(kind, r)
		if r.Intn(2) == 0 {
			must(m.NewLists(w.cache))
		}
		err = m.LoadLists(w.ctx, w.cache)
		e["res"], e["err"] = errClass(err), errText(err)
		w.m = m
		nl = map[int]*rankdb.List{}
		if err == nil {
			e["known"] = w.known()
			for _, id := range m.Lists.All() {
				l, _ := m.Lists.ByID(id)
				nl[listKey(id)] = l
			}
		} else {
			e["known"] = []int{}
		}
		w.lists = nl
	})
	_ = old
	if e["res"] != "ok" {
		return
	}
	for k := range w.lists {
		w.rankQuery(k, "full")
	}
	// a list with an index in memory or on demand answers the same
	for k := range w.lists {
		if r.Intn(2) == 0 {
			w.rankQuery(k, "get")
			w.maint(k, "verifyE", func() error { return w.lists[k].VerifyElements(w.ctx, w.bs) })
		}
	}
}

func (w *world) registryQuery(what string) {
	r := w.rng
	from := pick(r, append([]string{"0", "B", "aa", "list", "list11", "z", "zzz", "\xff"}, listNames...))
	n := r.Intn(12)
	switch what {
	case "pageA", "pageB":
		upto, below := []int{}, []int{}
		for k := range w.lists {
			id := listName(k)
			if id <= from {
				upto = append(upto, k)
			}
			if id < from {
				below = append(below, k)
			}
		}
		e := Ev{"ev": what, "from": from, "n": n, "upto": upto, "below": below}
		w.query(e, func() {
			var ls []*rankdb.List
			var p rankdb.PageInfo
			if what == "pageA" {
				ls, p = w.m.Lists.SortedIDsAfter(rankdb.ListID(from), n)
			} else {
				ls, p = w.m.Lists.SortedIDsBefore(rankdb.ListID(from), n)
			}
			out := []int{}
			for _, l := range ls {
				out = append(out, listKey(l.ID))
			}
			e["out"], e["before"], e["after"] = out, p.Before, p.After
		})
	case "match":
		q := map[string]string{}
		for i := r.Intn(3); i > 0; i-- {
			q[pick(r, []string{"game", "k", "empty", "none"})] = pick(r, []string{"x", "y", "", "1", "2"})
		}
		sets := []string{}
		for i := r.Intn(3); i > 0; i-- {
			sets = append(sets, pick(r, []string{"s1", "s2", "s3", "s", ""}))
		}
		e := Ev{"ev": "match", "q": metaJ(q), "sets": sets}
		w.query(e, func() {
			out := []int{}
			for _, id := range w.m.Lists.MatchAll(q, sets) {
				out = append(out, listKey(id))
			}
			e["out"] = out
		})
	case "byids":
		ks := []int{}
		var ids []rankdb.ListID
		for i := r.Intn(5); i > 0; i-- {
			k := r.Intn(len(listNames))
			ks = append(ks, k)
			ids = append(ids, rankdb.ListID(listName(k)))
		}
		e := Ev{"ev": "byids", "ks": ks}
		w.query(e, func() {
			out := []int{}
			for _, l := range w.m.Lists.ByIDs(ids...) {
				if l == nil {
					out = append(out, -1)
				} else {
					out = append(out, listKey(l.ID))
				}
			}
			ex := []int{}
			for _, id := range w.m.Lists.Exists(ids...) {
				ex = append(ex, listKey(id))
			}
			one := []int{}
			for _, id := range ids {
				if l, ok := w.m.Lists.ByID(id); ok {
					one = append(one, listKey(l.ID))
				}
			}
			all := []int{}
			for _, id := range w.m.Lists.All() {
				all = append(all, listKey(id))
			}
			e["out"], e["ex"], e["one"], e["all"] = out, ex, one, all
		})
	}
}
