//go:build go1.22

package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	shutdown "github.com/klauspost/shutdown2"

	"github.com/Vivino/rankdb/blobstore"

	jwtgo "github.com/dgrijalva/jwt-go"
)

// Names used by the requests.  Lists are numbered in the order of their names.
var (
	apiLists = func() []string {
		base := []string{"aa", "ab-c", "b.1", "list1", "list2", "zz_9", "nolist"}
		var all []string
		for _, b := range base {
			all = append(all, b, b+".r", "p-"+b, "p-"+b+".r")
		}
		all = append(all, apiMany...)
		sort.Strings(all)
		return append([]string{""}, all...)
	}()
	// apiMany are used by requests that address very many lists.
	apiMany = func() []string {
		var r []string
		for i := 0; i < 80; i++ {
			r = append(r, fmt.Sprintf("many%02d", i))
		}
		return r
	}()
	apiBase  = []string{"aa", "ab-c", "b.1", "list1", "list2", "zz_9"}
	apiSets  = []string{"", "s1", "set2", "s-3", "noset"}
	apiKeys  = []string{"", "game", "country", "k3"}
	apiVals  = []string{"", "1", "dk", "", "two"}
	apiPays  = []string{"", `{"a":1}`, `{}`, `{"b":[1,2,{"c":null}],"name":"Mark <b>"}`}
	apiScope = []string{"", "api:read", "api:update", "api:delete", "api:manage"}
)

func indexOf(s []string, x string) int {
	for i, v := range s {
		if v == x && i > 0 {
			return i
		}
	}
	return -1
}
func listNo(x string) int { return indexOf(apiLists, x) }

// aTok describes the token of a request.
type aTok struct {
	Kind string `json:"kind"`
	Sc   []int  `json:"sc"`
	LL   bool   `json:"ll"`
	Ls   []int  `json:"ls"`
	EL   bool   `json:"el"`
	Es   []int  `json:"es"`
}

type aSel struct {
	Ls   []int    `json:"ls"`
	Meta [][2]int `json:"meta"`
	Sets []int    `json:"sets"`
}

// aCall is a request, in the numbering of the specification.
type aCall struct {
	Op      string   `json:"op"`
	Tk      aTok     `json:"tk"`
	Bad     string   `json:"bad"`
	L       int      `json:"l"`
	Dst     int      `json:"dst"`
	ID      int      `json:"id"`
	Ids     []int    `json:"ids"`
	Els     [][4]int `json:"els"`
	Rng     int      `json:"rng"` // -1: not given
	Sel     aSel     `json:"sel"`
	Set     int      `json:"set"`
	Meta    [][2]int `json:"meta"`
	SS      int      `json:"ss"` // -1: not given
	MS      int      `json:"ms"`
	LI      bool     `json:"li"`
	Replace bool     `json:"replace"`
	Results bool     `json:"results"`
	ErrOnly bool     `json:"erronly"`
	TopBot  bool     `json:"topbot"`
	Repair  bool     `json:"repair"`
	Clear   bool     `json:"clear"`
	WithEls bool     `json:"withels"`
	FromTop int      `json:"ft"` // -1: not given
	FromBot int      `json:"fb"`
	Limit   int      `json:"limit"`
	Pct     int      `json:"pct"`
	After   int      `json:"after"`
	Before  int      `json:"before"`
	Slot    int      `json:"slot"`
	Via     string   `json:"via"`
	Keep    bool     `json:"keep"`
	Pre     bool     `json:"pre"`
	Suf     bool     `json:"suf"`
	Fset    int      `json:"fset"` // storage of this set fails, 0: none
}

func blankCall(op string) *aCall {
	return &aCall{Op: op, Tk: aTok{Kind: "ok", Sc: []int{}, Ls: []int{}, Es: []int{}}, Ids: []int{}, Els: [][4]int{}, Rng: -1,
		Sel: aSel{Ls: []int{}, Meta: [][2]int{}, Sets: []int{}}, Meta: [][2]int{}, SS: -1, MS: -1, FromTop: -1, FromBot: -1, Limit: -1, Pct: -1}
}

// failSet fails operations on one set of blobs.
type failSet struct {
	blobstore.Store
	set atomic.Value // string, "" if none
	p   int32        // of 100
	mu  sync.Mutex
	rng *rand.Rand
}

func (f *failSet) fail(set string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if x, _ := f.set.Load().(string); x != "" && x == set && f.rng.Intn(100) < int(atomic.LoadInt32(&f.p)) {
		return errInjected
	}
	return nil
}
func (f *failSet) Get(ctx context.Context, set, key string) ([]byte, error) {
	if err := f.fail(set); err != nil {
		return nil, err
	}
	return f.Store.Get(ctx, set, key)
}
func (f *failSet) Set(ctx context.Context, set, key string, val []byte) error {
	if err := f.fail(set); err != nil {
		return err
	}
	return f.Store.Set(ctx, set, key, val)
}
func (f *failSet) Delete(ctx context.Context, set, key string) error {
	if err := f.fail(set); err != nil {
		return err
	}
	return f.Store.Delete(ctx, set, key)
}

type apiDrv struct {
	s       *apiSrv
	tr      *Trace
	dir     string
	rng     *rand.Rand
	ids     []int
	scs     []int
	tis     []int
	last    []map[string]interface{} // the last dump
	toks    map[string]string
	plain   map[int]bool // slots without renamed lists
	wide    bool         // this episode has very many lists
	fs      *failSet
	backups []string // ids of the backups made
}

func (d *apiDrv) token(t aTok) string {
	if !d.s.jwt {
		return ""
	}
	b, _ := json.Marshal(t)
	if x, ok := d.toks[string(b)]; ok {
		return x
	}
	c := jwtgo.MapClaims{"iss": "test", "exp": time.Now().Add(10 * time.Hour).Unix(), "nbf": 2}
	var sc []string
	for _, i := range t.Sc {
		sc = append(sc, apiScope[i])
	}
	c["scopes"] = strings.Join(sc, " ")
	if t.LL {
		var l []string
		for _, i := range t.Ls {
			l = append(l, apiLists[i])
		}
		c["only_lists"] = strings.Join(l, pick(d.rng, []string{",", ", ", " ,"}))
	}
	if t.EL {
		var l []string
		for _, i := range t.Es {
			l = append(l, fmt.Sprint(idTab.vals[i]))
		}
		c["only_elements"] = strings.Join(l, pick(d.rng, []string{",", ", "}))
	}
	var r string
	m := jwtgo.SigningMethod(pick(d.rng, []*jwtgo.SigningMethodRSA{jwtgo.SigningMethodRS256, jwtgo.SigningMethodRS512}))
	switch t.Kind {
	case "ok":
		r = d.s.sign(d.s.key, m, c)
	case "none":
		r = ""
	case "garbage":
		r = "x.y.z"
	case "otherkey":
		r = d.s.sign(d.s.key2, m, c)
	case "expired":
		c["exp"] = time.Now().Add(-time.Hour).Unix()
		r = d.s.sign(d.s.key, m, c)
	case "early":
		c["nbf"] = time.Now().Add(5 * time.Hour).Unix()
		r = d.s.sign(d.s.key, m, c)
	case "hmac":
		r = d.s.sign(d.s.pubPEM, jwtgo.SigningMethodHS256, c)
	case "unsigned":
		r = d.s.sign(jwtgo.UnsafeAllowNoneSignatureType, jwtgo.SigningMethodNone, c)
	case "changed":
		r = d.s.sign(d.s.key, m, c)
		c["scopes"] = "api:read api:update api:delete api:manage"
		delete(c, "only_lists")
		delete(c, "only_elements")
		o := d.s.sign(d.s.key2, m, c)
		p, q := strings.Split(r, "."), strings.Split(o, ".")
		r = p[0] + "." + q[1] + "." + p[2]
	default:
		panic(t.Kind)
	}
	d.toks[string(b)] = r
	return r
}

func bad[T any](d *apiDrv, v ...T) T { return v[d.rng.Intn(len(v))] }

func idS(i int) string { return strconv.FormatUint(idTab.vals[i], 10) }

func (d *apiDrv) elBody(e [4]int, kind string) map[string]interface{} {
	m := map[string]interface{}{"id": idTab.vals[e[0]], "score": scTab.vals[e[1]]}
	if e[2] > 0 || d.rng.Intn(2) == 0 {
		m["tie_breaker"] = tiTab.vals[e[2]]
	}
	if e[3] > 0 {
		m["payload"] = json.RawMessage(apiPays[e[3]])
	} else if d.rng.Intn(2) == 0 {
		m["payload"] = nil
	}
	switch kind {
	case "score":
		delete(m, "score")
	case "noid":
		delete(m, "id")
	case "neg":
		m[bad(d, "id", "score", "tie_breaker")] = -1
	case "tie":
		m["tie_breaker"] = uint64(1 << 32)
	case "big":
		m[bad(d, "id", "score")] = json.Number("18446744073709551616")
	case "type":
		m[bad(d, "id", "score")] = "12"
	}
	return m
}

func metaBody(m [][2]int) map[string]string {
	r := map[string]string{}
	for _, kv := range m {
		r[apiKeys[kv[0]]] = apiVals[kv[1]]
	}
	return r
}

func (d *apiDrv) selBody(s aSel) map[string]interface{} {
	m := map[string]interface{}{}
	if len(s.Ls) > 0 || d.rng.Intn(2) == 0 {
		l := []string{}
		for _, i := range s.Ls {
			l = append(l, apiLists[i])
		}
		m["lists"] = l
	}
	if len(s.Meta) > 0 || d.rng.Intn(3) == 0 {
		m["match_metadata"] = metaBody(s.Meta)
	}
	if len(s.Sets) > 0 || d.rng.Intn(3) == 0 {
		l := []string{}
		for _, i := range s.Sets {
			l = append(l, apiSets[i])
		}
		m["all_in_sets"] = l
	}
	return m
}

func (d *apiDrv) selQuery(c *aCall, q url.Values) {
	for _, i := range c.Sel.Ls {
		q.Add("lists", apiLists[i])
	}
	if len(c.Sel.Meta) > 0 {
		b, _ := json.Marshal(metaBody(c.Sel.Meta))
		q.Set("match_metadata", string(b))
	}
	if c.Bad == "meta" {
		q.Set("match_metadata", bad(d, "{", "[1]", `{"a":1}`, "x"))
	}
	for _, i := range c.Sel.Sets {
		q.Add("all_in_sets", apiSets[i])
	}
}

// request turns a call into a HTTP request.
func (d *apiDrv) request(c *aCall) (method, path string, body []byte) {
	q := url.Values{}
	flag := func(name string, v bool) {
		if v || d.rng.Intn(3) == 0 {
			q.Set(name, fmt.Sprint(v))
		}
	}
	num := func(name string, v int) {
		if v >= 0 {
			q.Set(name, fmt.Sprint(v))
		}
	}
	lname := apiLists[c.L]
	if c.Bad == "list" {
		lname = bad(d, "x", "b@d!", "sp ace", strings.Repeat("long", 26))
	}
	lp := "/lists/" + url.PathEscape(lname)
	el := ""
	if c.ID >= 0 {
		el = idS(c.ID)
	}
	if c.Bad == "elem" {
		el = bad(d, "12x", "18446744073709551616", "-1", "1.5", "99999999999999999999999999")
	}
	var b interface{}
	els := func() []interface{} {
		r := []interface{}{}
		k := d.rng.Intn(len(c.Els) + 1)
		for i, e := range c.Els {
			kind := ""
			if i == k || i == len(c.Els)-1 && k == len(c.Els) {
				kind = c.Bad
			}
			r = append(r, d.elBody(e, kind))
		}
		return r
	}
	listBody := func(id int) map[string]interface{} {
		m := map[string]interface{}{"id": apiLists[id], "set": apiSets[c.Set]}
		if len(c.Meta) > 0 || d.rng.Intn(2) == 0 {
			m["metadata"] = metaBody(c.Meta)
		}
		if c.SS >= 0 {
			m["split_size"] = c.SS
		}
		if c.MS >= 0 {
			m["merge_size"] = c.MS
		}
		if c.LI || d.rng.Intn(2) == 0 {
			m["load_index"] = c.LI
		}
		if len(c.Els) > 0 {
			m["populate"] = els()
		}
		switch c.Bad {
		case "size":
			m[bad(d, "split_size", "merge_size")] = bad(d, 0, 9, 100001, -5)
		case "merge":
			m["split_size"], m["merge_size"] = 20, bad(d, 20, 21, 50)
		case "set":
			m["set"] = bad(d, "", "s", strings.Repeat("long", 26))
		case "lid":
			m["id"] = bad(d, "", "x", "b@d!", "sp ace", strings.Repeat("long", 26))
		case "nolid":
			delete(m, bad(d, "id", "set"))
		}
		return m
	}
	if c.Rng >= 0 {
		q.Set("range", fmt.Sprint(c.Rng))
	}
	if c.Bad == "range" {
		q.Set("range", bad(d, "101", "-1", "x", "1.5"))
	}
	if c.Limit >= 0 {
		q.Set("limit", fmt.Sprint(c.Limit))
	}
	if c.Bad == "limit" {
		q.Set("limit", bad(d, "0", "1001", "-1", "x"))
	}
	switch c.Op {
	case "elc":
		method, path, b = "POST", lp+"/elements", d.elBody(c.Els[0], c.Bad)
	case "elg":
		method, path = "GET", lp+"/elements/"+el
	case "elm", "ela":
		ids := []uint64{}
		for _, i := range c.Ids {
			ids = append(ids, idTab.vals[i])
		}
		m := map[string]interface{}{"element_ids": ids}
		if c.Bad == "neg" {
			m["element_ids"] = []int{3, -1}
		}
		if c.Bad == "type" {
			m["element_ids"] = bad[interface{}](d, []string{"1"}, "1", nil)
		}
		method, path, b = "POST", lp+"/elements/find", m
		if c.Op == "ela" {
			path = lp + "/elements/" + el + "/around"
		}
	case "elp":
		e := d.elBody(c.Els[0], c.Bad)
		if c.Bad == "mismatch" {
			e["id"] = idTab.vals[(c.Els[0][0]+1)%len(idTab.vals)]
		}
		method, path, b = "PUT", lp+"/elements/"+el, e
	case "elpm":
		flag("results", c.Results)
		method, path, b = "PUT", lp+"/elements", els()
	case "eld":
		method, path = "DELETE", lp+"/elements/"+el
	case "eldm":
		for _, i := range c.Ids {
			q.Add("element_ids", idS(i))
		}
		if c.Bad == "elem" {
			q.Add("element_ids", el)
		}
		method, path = "DELETE", lp+"/elements"
	case "lc":
		flag("replace", c.Replace)
		method, path, b = "POST", "/lists", listBody(c.L)
	case "ld":
		method, path = "DELETE", lp
	case "lg":
		flag("top_bottom", c.TopBot)
		method, path = "GET", lp
	case "lpct":
		if c.Pct >= 0 {
			q.Set("from_top", strconv.FormatFloat(float64(c.Pct)*6.25, 'f', -1, 64))
		}
		if c.Bad == "pct" {
			q.Set("from_top", bad(d, "x", "-0.5", "100.5", "NaN", "Inf", "1e3", "-Inf"))
		}
		method, path = "GET", lp+"/percentile"
	case "lrng":
		num("from_top", c.FromTop)
		num("from_bottom", c.FromBot)
		if c.Bad == "from" {
			q.Del("from_top")
			q.Del("from_bottom")
			if d.rng.Intn(2) == 0 {
				q.Set("from_top", "0")
				q.Set("from_bottom", "0")
			}
		}
		if c.Bad == "off" {
			q.Set(bad(d, "from_top", "from_bottom"), bad(d, "-1", "x"))
		}
		method, path = "GET", lp+"/range"
	case "lall":
		if c.After > 0 {
			q.Set("after_id", apiLists[c.After])
		}
		if c.Before > 0 {
			q.Set("before_id", apiLists[c.Before])
		}
		method, path = "GET", "/lists"
	case "lrix":
		method, path = "PUT", lp+"/reindex"
	case "lrep":
		flag("clear", c.Clear)
		method, path = "PUT", lp+"/repair"
	case "lver":
		flag("repair", c.Repair)
		flag("clear", c.Clear)
		method, path = "PUT", lp+"/verify"
	case "lcl":
		m := listBody(c.Dst)
		if c.Bad == "pop" {
			m["populate"] = []interface{}{d.elBody([4]int{1, 1, 0, 0}, "")}
		}
		method, path, b = "PUT", lp+"/clone", m
	case "mc", "mp":
		m := d.selBody(c.Sel)
		m["payload"] = els()
		flag("results", c.Results)
		flag("errors_only", c.ErrOnly)
		method, path, b = "POST", "/xlist/elements", m
		if c.Op == "mp" {
			method = "PUT"
		}
	case "md":
		d.selQuery(c, q)
		flag("errors_only", c.ErrOnly)
		method, path = "DELETE", "/xlist/elements/"+el
	case "mg":
		d.selQuery(c, q)
		method, path = "GET", "/xlist/elements/"+el
	case "mv":
		flag("elements", c.WithEls)
		flag("repair", c.Repair)
		flag("clear", c.Clear)
		flag("errors_only", c.ErrOnly)
		method, path, b = "PUT", "/xlist/verify", d.selBody(c.Sel)
	case "mr":
		flag("errors_only", c.ErrOnly)
		method, path, b = "PUT", "/xlist/reindex", d.selBody(c.Sel)
	case "bk":
		dst := map[string]interface{}{"type": c.Via}
		if c.Via == "file" {
			dst["path"] = d.slotFile(c.Slot)
		}
		if c.Bad == "dest" {
			dst["type"] = bad(d, "", "tape")
		}
		if c.Bad == "path" {
			dst["type"] = bad(d, "file", "s3", "server")
			delete(dst, "path")
		}
		method, path, b = "PUT", "/xlist/backup", map[string]interface{}{"destination": dst, "lists": d.selBody(c.Sel)}
	case "bks", "bkc":
		id := bad(d, "unknown", "0", strings.Repeat("x", 32))
		if c.Slot > 0 {
			id = d.backups[c.Slot-1]
		}
		method, path = map[string]string{"bks": "GET", "bkc": "DELETE"}[c.Op], "/backup/"+url.PathEscape(id)
	case "root":
		method, path = "GET", "/"
	case "hlt":
		method, path = "GET", "/health"
	case "jwt":
		q.Set("scope", bad(d, "api:read", "api:manage", "api:read api:update api:delete api:manage"))
		if d.rng.Intn(2) == 0 {
			q.Set("expire", bad(d, "1", "1440"))
		}
		if c.Bad == "expire" {
			q.Set("expire", bad(d, "0", "-1", "x"))
		}
		method, path = "POST", "/jwt"
	case "rs":
		flag("keep", c.Keep)
		if c.Pre {
			q.Set("list_id_prefix", "p-")
		}
		if c.Suf {
			q.Set("list_id_suffix", ".r")
		}
		method, path = "POST", "/xlist/restore"
		data, err := os.ReadFile(d.slotFile(c.Slot))
		must(err)
		if c.Via == "src_file" {
			q.Set("src_file", d.slotFile(c.Slot))
			data = []byte{}
		}
		if c.Bad == "data" {
			data = bad(d, []byte("no backup"), []byte{}, data[:len(data)/2])
			q.Del("src_file")
		}
		if c.Bad == "nofile" {
			q.Set("src_file", filepath.Join(d.dir, "missing"))
		}
		body = data
	default:
		panic(c.Op)
	}
	if c.Op == "ping" {
		method, path = "GET", "/"
	}
	if b != nil {
		var err error
		body, err = json.Marshal(b)
		must(err)
		if c.Bad == "body" {
			body = bad(d, []byte("{"), body[:len(body)/2], []byte("x"), []byte(`"str"`), []byte("17"))
		}
	}
	if len(q) > 0 {
		path += "?" + q.Encode()
	}
	return
}

func (d *apiDrv) slotFile(i int) string { return filepath.Join(d.dir, fmt.Sprintf("slot%d.bin", i)) }

// ---------------------------------------------------------------- answers

func jm(x interface{}, k string) interface{} {
	m, ok := x.(map[string]interface{})
	if !ok {
		return nil
	}
	return m[k]
}
func jarr(x interface{}) []interface{} {
	a, _ := x.([]interface{})
	return a
}
func jstr(x interface{}) string {
	s, _ := x.(string)
	return s
}
func ju64(x interface{}) (uint64, bool) {
	n, ok := x.(json.Number)
	if !ok {
		return 0, false
	}
	v, err := strconv.ParseUint(n.String(), 10, 64)
	return v, err == nil
}
func jtab(t *table, x interface{}) int {
	v, ok := ju64(x)
	if !ok {
		return -1
	}
	return t.of(v)
}
func jint(x interface{}) int {
	n, ok := x.(json.Number)
	if !ok {
		return -99
	}
	v, err := n.Int64()
	if err != nil || v > 1<<30 || v < -(1<<30) {
		return -98
	}
	return int(v)
}

func jpay(x interface{}) int {
	if x == nil {
		return 0
	}
	b, err := json.Marshal(x)
	must(err)
	for i, p := range apiPays {
		var v interface{}
		dd := json.NewDecoder(strings.NewReader(p))
		dd.UseNumber()
		if i > 0 && dd.Decode(&v) == nil {
			if w, _ := json.Marshal(v); string(w) == string(b) {
				return i
			}
		}
	}
	return -1
}

func jupd(x interface{}) interface{} {
	t, err := time.Parse(time.RFC3339Nano, jstr(x))
	if err != nil {
		return -1
	}
	return upd(uint32(t.Unix()))
}

func outEl(x interface{}) []interface{} {
	return []interface{}{jtab(idTab, jm(x, "id")), jtab(scTab, jm(x, "score")), jtab(tiTab, jm(x, "tie_breaker")), jupd(jm(x, "updated_at")), jpay(jm(x, "payload"))}
}

// ranked element
func outRk(x interface{}) map[string]interface{} {
	return map[string]interface{}{"e": outEl(x), "ft": jint(jm(x, "from_top")), "fb": jint(jm(x, "from_bottom")), "l": listNo(jstr(jm(x, "list_id")))}
}

func outRks(x interface{}) []interface{} {
	r := []interface{}{}
	for _, v := range jarr(x) {
		r = append(r, outRk(v))
	}
	return r
}

func outFull(x interface{}) map[string]interface{} {
	m := outRk(x)
	m["ab"] = outRks(jm(jm(x, "neighbors"), "above"))
	m["be"] = outRks(jm(jm(x, "neighbors"), "below"))
	m["bf"] = []interface{}{}
	if p := jm(x, "previous_rank"); p != nil {
		m["bf"] = []interface{}{outRk(p)}
	}
	m["lft"], m["lfb"] = -1, -1
	if p := jm(x, "local_from_top"); p != nil {
		m["lft"] = jint(p)
	}
	if p := jm(x, "local_from_bottom"); p != nil {
		m["lfb"] = jint(p)
	}
	return m
}

func outTiny(x interface{}) []interface{} {
	r := []interface{}{}
	for _, v := range jarr(x) {
		r = append(r, map[string]interface{}{"e": []interface{}{jtab(idTab, jm(v, "id")), jtab(scTab, jm(v, "score")), jpay(jm(v, "payload"))},
			"ft": jint(jm(v, "from_top")), "fb": jint(jm(v, "from_bottom"))})
	}
	return r
}

func outMeta(x interface{}) []interface{} {
	r := []interface{}{}
	m, _ := x.(map[string]interface{})
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return indexOf(apiKeys, ks[i]) < indexOf(apiKeys, ks[j]) })
	for _, k := range ks {
		v := -1
		for i, s := range apiVals {
			if i > 0 && s == jstr(m[k]) {
				v = i
			}
		}
		r = append(r, []interface{}{indexOf(apiKeys, k), v})
	}
	return r
}

func outList(x interface{}) map[string]interface{} {
	li, _ := jm(x, "load_index").(bool)
	return map[string]interface{}{"l": listNo(jstr(jm(x, "id"))), "set": indexOf(apiSets, jstr(jm(x, "set"))), "meta": outMeta(jm(x, "metadata")),
		"ss": jint(jm(x, "split_size")), "ms": jint(jm(x, "merge_size")), "li": li}
}

func outListFull(x interface{}) map[string]interface{} {
	m := outList(x)
	m["n"] = jint(jm(x, "elements"))
	m["segs"] = jint(jm(x, "segments"))
	m["top"], m["bot"] = []interface{}{}, []interface{}{}
	if p := jm(x, "top_element"); p != nil {
		m["top"] = []interface{}{outRk(p)}
	}
	if p := jm(x, "bottom_element"); p != nil {
		m["bot"] = []interface{}{outRk(p)}
	}
	return m
}

func outMulti(x interface{}) map[string]interface{} {
	suc, errs := []interface{}{}, []int{}
	s, _ := jm(x, "success").(map[string]interface{})
	e, _ := jm(x, "errors").(map[string]interface{})
	for _, k := range sortedKeys(s) {
		suc = append(suc, map[string]interface{}{"l": listNo(k), "res": outTiny(jm(s[k], "results"))})
	}
	for _, k := range sortedKeys(e) {
		errs = append(errs, listNo(k))
	}
	return map[string]interface{}{"suc": suc, "err": errs}
}

func sortedKeys(m map[string]interface{}) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (d *apiDrv) answer(c *aCall, r apiRes) interface{} {
	if r.st != 200 {
		return map[string]interface{}{}
	}
	b := r.body
	switch c.Op {
	case "elc", "elg", "ela", "elp", "lpct":
		return outFull(b)
	case "bks":
		done, _ := jm(b, "done").(bool)
		cut, _ := jm(b, "cancelled").(bool)
		return map[string]interface{}{"done": done, "cancelled": cut, "id": d.backups[max(0, c.Slot-1)] == strings.TrimPrefix(jstr(jm(b, "uri")), "/backup/")}
	case "root":
		ok, _ := jm(b, "running").(bool)
		return map[string]interface{}{"running": ok}
	case "elm":
		nf := []int{}
		for _, x := range jarr(jm(b, "not_found")) {
			nf = append(nf, jtab(idTab, x))
		}
		return map[string]interface{}{"found": outRks(jm(b, "found")), "nf": nf}
	case "elpm":
		return map[string]interface{}{"found": outRks(jm(b, "found")), "nf": []int{}}
	case "lc", "lg", "lrix", "lcl":
		return outListFull(b)
	case "lrng":
		return outRks(b)
	case "lall":
		l := []interface{}{}
		for _, x := range jarr(jm(b, "lists")) {
			l = append(l, outList(x))
		}
		return map[string]interface{}{"lists": l, "nb": jint(jm(b, "lists_before")), "na": jint(jm(b, "lists_after"))}
	case "lrep", "lver":
		m := map[string]interface{}{"err": jm(b, "error") != nil, "list": []interface{}{}}
		if p := jm(b, "list"); p != nil {
			m["list"] = []interface{}{outList(p)}
		}
		return m
	case "mc", "mp", "md", "mg", "mv", "mr":
		return outMulti(b)
	case "rs":
		errs := []int{}
		e, _ := jm(b, "errors").(map[string]interface{})
		for _, k := range sortedKeys(e) {
			errs = append(errs, listNo(k))
		}
		return map[string]interface{}{"n": jint(jm(b, "restored")), "skip": jint(jm(b, "skipped")), "err": errs}
	}
	return map[string]interface{}{}
}

// dump reads all lists.
func (d *apiDrv) dump() []map[string]interface{} {
	res := []map[string]interface{}{}
	r := d.s.send(context.Background(), "GET", "/lists?limit=1000", nil, d.s.admin)
	if r.st != 200 {
		return []map[string]interface{}{{"k": -1, "st": r.st}}
	}
	for _, x := range jarr(jm(r.body, "lists")) {
		m := outList(x)
		m["k"] = m["l"]
		delete(m, "l")
		name := jstr(jm(x, "id"))
		e := d.s.send(context.Background(), "GET", "/lists/"+url.PathEscape(name)+"/range?from_top=0&limit=1000", nil, d.s.admin)
		els, ranks := []interface{}{}, e.st == 200 || e.st == 404
		a := jarr(e.body)
		for i, v := range a {
			els = append(els, outEl(v))
			ranks = ranks && jint(jm(v, "from_top")) == i && jint(jm(v, "from_bottom")) == len(a)-1-i
		}
		m["els"], m["ranks"] = els, ranks
		res = append(res, m)
	}
	return res
}

// aRun is a request to be made, or made.
type aRun struct {
	c            *aCall
	method, path string
	body         []byte
	tok          string
	lists        []int
	ev           Ev
	r            apiRes
}

func (d *apiDrv) prepare(c *aCall) *aRun {
	x := &aRun{c: c, lists: c.touches()}
	x.method, x.path, x.body = d.request(c)
	x.tok = d.token(c.Tk)
	x.ev = Ev{"ev": "call", "lo": upd(uint32(time.Now().Unix()))}
	b, err := json.Marshal(c)
	must(err)
	var m map[string]interface{}
	must(json.Unmarshal(b, &m))
	for k, v := range m {
		x.ev[k] = v
	}
	return x
}

func (d *apiDrv) send(x *aRun) {
	x.r = d.s.send(context.Background(), x.method, x.path, x.body, x.tok)
	x.ev["hi"] = upd(uint32(time.Now().Unix()))
	x.ev["st"] = x.r.st
}

func (d *apiDrv) note(x *aRun) {
	if x.c.Op != "bk" {
		x.ev["out"] = d.answer(x.c, x.r)
	}
	if x.r.st < 0 || x.r.st >= 500 && d.fs == nil && !(x.r.st == 503 && shutdown.Started()) {
		fmt.Fprintln(os.Stderr, "FAILED", x.method, x.path, string(x.body), "->", x.r.st, clip(string(x.r.raw), 600))
		x.ev["raw"] = clip(string(x.r.raw), 200)
	}
	x.ev["http"] = clip(x.method+" "+x.path, 200)
	x.ev["post"], x.ev["mut"] = []interface{}{}, false
}

// call performs a request and records it.
func (d *apiDrv) call(c *aCall) {
	x := d.prepare(c)
	curOp.Store(x.method + " " + x.path)
	if c.Fset > 0 {
		d.fs.set.Store(apiSets[c.Fset])
		atomic.StoreInt32(&d.fs.p, int32(pick(d.rng, []int{10, 30, 100})))
	}
	d.send(x)
	if d.fs != nil {
		d.fs.set.Store("")
	}
	if c.Op == "bk" {
		if x.r.st == 200 || x.r.st == 201 {
			d.plain[c.Slot] = true
			for _, k := range d.known() {
				if !slices.Contains(apiBase, apiLists[k]) {
					d.plain[c.Slot] = false
				}
			}
		}
		x.ev["out"] = d.backupDone(c, &x.r)
	}
	d.note(x)
	if x.method != "GET" {
		d.last = d.dump()
		x.ev["post"] = d.last
		x.ev["mut"] = true
	}
	d.tr.add(x.ev)
}

// touches returns the lists a request is about, nil if that is not known beforehand.
func (c *aCall) touches() []int {
	switch c.Op {
	case "lall", "bk", "rs", "bks", "bkc", "root", "hlt", "jwt":
		return nil
	case "mc", "mp", "md", "mg", "mv", "mr":
		if len(c.Sel.Meta)+len(c.Sel.Sets) > 0 || len(c.Sel.Ls) == 0 {
			return nil
		}
		return c.Sel.Ls
	case "lcl":
		return []int{c.L, c.Dst}
	}
	return []int{c.L}
}

// together performs requests about different lists at the same time. They are recorded one after the other,
// with the lists as they would be after each of them.
func (d *apiDrv) together(n int, next func() *aCall) {
	runs := d.disjoint(n, next)
	curOp.Store("requests at the same time")
	var wg sync.WaitGroup
	for _, x := range runs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			d.send(x)
		}()
	}
	wg.Wait()
	before := d.last
	d.last = d.dump()
	for _, x := range runs {
		d.note(x)
		x.ev["with"] = len(runs)
	}
	blend(before, d.last, runs)
	for _, x := range runs {
		d.tr.add(x.ev)
	}
}

// disjoint prepares requests about different lists.
func (d *apiDrv) disjoint(n int, next func() *aCall) (runs []*aRun) {
	used := map[int]bool{}
	for tries := 0; len(runs) < n && tries < 6*n; tries++ {
		c := next()
		ls := c.touches()
		free := len(ls) > 0
		for _, l := range ls {
			free = free && !used[l]
		}
		if !free {
			continue
		}
		for _, l := range ls {
			used[l] = true
		}
		runs = append(runs, d.prepare(c))
	}
	return runs
}

func listOf(m map[string]interface{}) int {
	switch k := m["k"].(type) {
	case int:
		return k
	case float64:
		return int(k)
	}
	return -1
}

// blend adds the lists after each of some requests about different lists to their events.
func blend(before, after []map[string]interface{}, runs []*aRun) {
	now, end := map[int]map[string]interface{}{}, map[int]map[string]interface{}{}
	for _, m := range before {
		now[listOf(m)] = m
	}
	for _, m := range after {
		end[listOf(m)] = m
	}
	for i, x := range runs {
		if x.method == "GET" {
			continue
		}
		for _, l := range x.lists {
			if m, ok := end[l]; ok {
				now[l] = m
			} else {
				delete(now, l)
			}
		}
		if i == len(runs)-1 {
			now = end
		}
		ks := []int{}
		for k := range now {
			ks = append(ks, k)
		}
		slices.Sort(ks)
		post := []map[string]interface{}{}
		for _, k := range ks {
			post = append(post, now[k])
		}
		x.ev["post"], x.ev["mut"] = post, true
	}
}

// backupDone waits until a backup is complete, and reports what it says about itself.
func (d *apiDrv) backupDone(c *aCall, r *apiRes) interface{} {
	out := map[string]interface{}{"done": false, "cancelled": false, "n": -1, "ndone": -1, "err": []int{}}
	if c.Via == "download" && r.st == 200 {
		must(os.WriteFile(d.slotFile(c.Slot), r.raw, 0o644))
	}
	id := ""
	if r.st == 201 {
		id = jstr(jm(r.body, "id"))
	} else if r.st == 200 {
		id = r.hdr.Get("X-Backup-ID")
	} else {
		return out
	}
	d.backups = append(d.backups, id)
	for i := 0; i < 3000; i++ {
		s := d.s.send(context.Background(), "GET", "/backup/"+url.PathEscape(id), nil, d.s.admin)
		if s.st != 200 {
			out["st"] = s.st
			return out
		}
		if done, _ := jm(s.body, "done").(bool); done {
			out["done"] = true
			out["cancelled"], _ = jm(s.body, "cancelled").(bool)
			out["n"], out["ndone"] = jint(jm(s.body, "lists")), jint(jm(s.body, "lists_done"))
			errs := []int{}
			e, _ := jm(s.body, "errors").(map[string]interface{})
			for _, k := range sortedKeys(e) {
				errs = append(errs, listNo(k))
			}
			out["err"] = errs
			if fi, err := os.Stat(d.slotFile(c.Slot)); err == nil && c.Via == "file" {
				out["size"] = int64(jint(jm(s.body, "size"))) == fi.Size()
			} else {
				out["size"] = true
			}
			return out
		}
		time.Sleep(10 * time.Millisecond)
	}
	return out
}

func clip(s string, n int) string {
	s = strings.Map(func(r rune) rune {
		if r < 32 || r > 126 || r == '"' || r == '\\' {
			return ' '
		}
		return r
	}, s)
	if len(s) > n {
		return s[:n]
	}
	return s
}

// ---------------------------------------------------------------- random histories

func (d *apiDrv) rndEl(id int) [4]int {
	return [4]int{id, pick(d.rng, d.scs), pick(d.rng, d.tis), pick(d.rng, []int{0, 0, 1, 2, 3})}
}
func (d *apiDrv) rndEls(max int) [][4]int {
	r := [][4]int{}
	n := d.rng.Intn(max + 1)
	for i := 0; i < n; i++ {
		r = append(r, d.rndEl(pick(d.rng, d.ids)))
	}
	if n > 0 && d.rng.Intn(4) == 0 { // the same id again
		e := d.rndEl(r[0][0])
		r = append(r, e)
	}
	return r
}
func (d *apiDrv) rndIds(max int) []int {
	r := []int{}
	for i := d.rng.Intn(max + 1); i > 0; i-- {
		r = append(r, pick(d.rng, d.ids))
	}
	return r
}
func (d *apiDrv) rndMeta() [][2]int {
	r := [][2]int{}
	for k := 1; k < len(apiKeys); k++ {
		if d.rng.Intn(2) == 0 {
			r = append(r, [2]int{k, 1 + d.rng.Intn(2)})
		}
	}
	return r
}
func (d *apiDrv) known() []int {
	r := []int{}
	for _, m := range d.last {
		if k, ok := m["k"].(int); ok && k > 0 {
			r = append(r, k)
		}
	}
	return r
}
func (d *apiDrv) rndList() int {
	if d.wide && d.rng.Intn(2) == 0 {
		return listNo(pick(d.rng, apiMany))
	}
	if k := d.known(); len(k) > 0 && d.rng.Intn(10) > 0 {
		return pick(d.rng, k)
	}
	return listNo(pick(d.rng, append([]string{"nolist"}, apiBase...)))
}
func (d *apiDrv) rndSel() aSel {
	s := aSel{Ls: []int{}, Meta: [][2]int{}, Sets: []int{}}
	for {
		if d.rng.Intn(2) == 0 {
			n := 1 + d.rng.Intn(3)
			if d.wide && d.rng.Intn(3) > 0 {
				n = 20 + d.rng.Intn(100)
			}
			for ; n > 0; n-- {
				s.Ls = append(s.Ls, d.rndList())
			}
		}
		if d.rng.Intn(3) == 0 {
			s.Meta = d.rndMeta()
		}
		if d.rng.Intn(3) == 0 {
			for i := 1 + d.rng.Intn(2); i > 0; i-- {
				s.Sets = append(s.Sets, 1+d.rng.Intn(len(apiSets)-1))
			}
		}
		if len(s.Ls)+len(s.Meta)+len(s.Sets) > 0 || d.rng.Intn(6) == 0 {
			return s
		}
	}
}

var apiBad = map[string][]string{
	"elc": {"range", "list", "body", "score", "noid", "neg", "tie", "big", "type"}, "elg": {"range", "list", "elem"},
	"elm": {"list", "body", "neg", "type"}, "ela": {"range", "list", "elem", "body", "neg"},
	"elp":  {"range", "list", "elem", "body", "score", "noid", "neg", "tie", "big", "mismatch", "type"},
	"elpm": {"list", "body", "neg", "tie", "big", "type"}, "eld": {"list", "elem"}, "eldm": {"list", "elem"},
	"lc": {"body", "size", "merge", "set", "lid", "nolid"}, "ld": {"list"}, "lg": {"list"}, "lpct": {"list", "range", "pct"},
	"lrng": {"list", "limit", "from", "off"}, "lall": {"limit"}, "lrix": {"list"}, "lrep": {"list"}, "lver": {"list"},
	"lcl": {"list", "body", "size", "merge", "set", "lid", "nolid", "pop"},
	"mc":  {"body", "neg", "tie", "big", "type"}, "mp": {"body", "neg", "tie", "big", "type"}, "md": {"elem", "meta"}, "mg": {"elem", "meta"},
	"mv": {"body"}, "mr": {"body"}, "bk": {"body", "dest", "path"}, "rs": {"data", "nofile"}, "jwt": {"expire"},
}

type wOp struct {
	op string
	w  int
}

var apiMix = map[string][]wOp{
	"plain": {{"elc", 12}, {"elg", 6}, {"elm", 5}, {"ela", 5}, {"elp", 10}, {"elpm", 10}, {"eld", 5}, {"eldm", 4}, {"lc", 7}, {"ld", 2}, {"lg", 4},
		{"lpct", 5}, {"lrng", 8}, {"lall", 4}, {"lrix", 1}, {"lrep", 2}, {"lver", 2}, {"lcl", 4}, {"mc", 7}, {"mp", 8}, {"md", 5}, {"mg", 5}, {"mv", 2}, {"mr", 1}, {"root", 1}, {"hlt", 1}, {"jwt", 1}, {"bks", 1}},
	"auth": {{"elc", 8}, {"elg", 8}, {"elm", 8}, {"ela", 8}, {"elp", 8}, {"elpm", 8}, {"eld", 6}, {"eldm", 6}, {"lc", 7}, {"ld", 3}, {"lg", 6},
		{"lpct", 5}, {"lrng", 6}, {"lall", 4}, {"lrix", 2}, {"lrep", 2}, {"lver", 2}, {"lcl", 3}, {"mc", 10}, {"mp", 10}, {"md", 10}, {"mg", 10}, {"mv", 2}, {"mr", 2}, {"bk", 2}, {"bks", 3}, {"bkc", 3}, {"root", 1}, {"hlt", 1}, {"jwt", 3}},
	"faulty":  {{"elc", 6}, {"elg", 3}, {"elm", 3}, {"ela", 2}, {"elp", 6}, {"elpm", 8}, {"eld", 4}, {"lc", 8}, {"ld", 4}, {"lrng", 3}, {"mc", 12}, {"mp", 14}, {"md", 12}, {"mg", 12}, {"mv", 8}, {"mr", 3}},
	"bkfault": {{"elp", 3}, {"elpm", 12}, {"eld", 3}, {"lc", 14}, {"ld", 4}, {"mp", 6}, {"bk", 14}, {"rs", 20}, {"lver", 3}, {"lrng", 3}},
	"restart": {{"elc", 6}, {"elp", 8}, {"elpm", 14}, {"eld", 5}, {"eldm", 4}, {"lc", 16}, {"ld", 4}, {"lg", 2}, {"lcl", 5}, {"lrng", 2}, {"mc", 6}, {"mp", 10}, {"md", 5}, {"lrep", 1}, {"lver", 1}, {"elm", 2}},
	"backup":  {{"elc", 4}, {"elp", 6}, {"elpm", 12}, {"eld", 4}, {"lc", 10}, {"ld", 6}, {"lg", 4}, {"lcl", 4}, {"mp", 6}, {"md", 3}, {"bk", 12}, {"rs", 16}, {"lver", 4}, {"bks", 3}, {"bkc", 3}},
}

var scopeOf = map[string]int{"elc": 2, "elg": 1, "elm": 1, "ela": 1, "elp": 2, "elpm": 2, "eld": 3, "eldm": 3, "lc": 4, "ld": 4, "lg": 1, "lpct": 1, "lrng": 1,
	"lall": 4, "lrix": 4, "lrep": 4, "lver": 4, "lcl": 4, "mc": 2, "mp": 2, "md": 3, "mg": 1, "mv": 4, "mr": 4, "bk": 4, "rs": 4, "bks": 4, "bkc": 4, "root": 4, "hlt": 4, "jwt": 4}

func (d *apiDrv) rndToken(c *aCall) aTok {
	t := aTok{Kind: "ok", Sc: []int{}, Ls: []int{}, Es: []int{}}
	all := func() {
		for i := 1; i < len(apiScope); i++ {
			t.Sc = append(t.Sc, i)
		}
	}
	switch x := d.rng.Intn(20); {
	case x < 2:
		t.Kind = pick(d.rng, []string{"none", "garbage", "otherkey", "expired", "early", "hmac", "unsigned", "changed"})
		if t.Kind == "changed" {
			t.Sc = []int{1 + d.rng.Intn(4)}
			t.LL, t.Ls = true, []int{d.rndList()}
		} else {
			all()
		}
		return t
	case x < 4: // scopes at random
		for i := 1; i < len(apiScope); i++ {
			if d.rng.Intn(2) == 0 {
				t.Sc = append(t.Sc, i)
			}
		}
	case x < 6: // all but the one needed
		for i := 1; i < len(apiScope); i++ {
			if i != scopeOf[c.Op] {
				t.Sc = append(t.Sc, i)
			}
		}
	case x < 12:
		t.Sc = append(t.Sc, scopeOf[c.Op])
	default:
		all()
	}
	if d.rng.Intn(3) > 0 {
		if d.rng.Intn(2) == 0 {
			t.LL = true
			// mostly the lists of the request, sometimes one less or others
			for _, l := range append([]int{c.L}, c.Sel.Ls...) {
				if l > 0 && d.rng.Intn(5) > 0 {
					t.Ls = append(t.Ls, l)
				}
			}
			if d.rng.Intn(3) == 0 {
				for _, l := range d.known() {
					if d.rng.Intn(4) > 0 {
						t.Ls = append(t.Ls, l)
					}
				}
			}
			if d.rng.Intn(4) == 0 {
				t.Ls = append(t.Ls, d.rndList())
			}
		}
		if d.rng.Intn(2) == 0 {
			t.EL = true
			es := append([]int{c.ID}, c.Ids...)
			for _, e := range c.Els {
				es = append(es, e[0])
			}
			for _, e := range es {
				if e >= 0 && d.rng.Intn(7) > 0 {
					t.Es = append(t.Es, e)
				}
			}
			if d.rng.Intn(4) == 0 {
				t.Es = append(t.Es, pick(d.rng, d.ids))
			}
		}
	}
	return t
}

func (d *apiDrv) rndCall(mix []wOp) *aCall {
	tot := 0
	for _, w := range mix {
		tot += w.w
	}
	x := d.rng.Intn(tot)
	op := ""
	for _, w := range mix {
		if x < w.w {
			op = w.op
			break
		}
		x -= w.w
	}
	if len(d.known()) < 2 && d.rng.Intn(2) == 0 {
		op = "lc"
	}
	c := blankCall(op)
	c.ID = -1
	radius := func() {
		if d.rng.Intn(4) > 0 {
			c.Rng = pick(d.rng, []int{0, 1, 2, 3, 100})
		}
	}
	newList := func() {
		c.Set, c.Meta, c.LI = 1+d.rng.Intn(3), d.rndMeta(), d.rng.Intn(2) == 0
		if d.rng.Intn(3) > 0 {
			c.SS = 11 + d.rng.Intn(4)
			c.MS = 10
		}
	}
	switch op {
	case "elc":
		c.L = d.rndList()
		c.Els = [][4]int{d.rndEl(pick(d.rng, d.ids))}
		radius()
	case "elg", "eld":
		c.L, c.ID = d.rndList(), pick(d.rng, d.ids)
		if op == "elg" {
			radius()
		}
	case "elm", "eldm":
		c.L, c.Ids = d.rndList(), d.rndIds(6)
	case "ela":
		c.L, c.ID, c.Ids = d.rndList(), pick(d.rng, d.ids), d.rndIds(6)
		radius()
	case "elp":
		c.L = d.rndList()
		c.Els = [][4]int{d.rndEl(pick(d.rng, d.ids))}
		c.ID = c.Els[0][0]
		radius()
	case "elpm":
		c.L, c.Els, c.Results = d.rndList(), d.rndEls(pick(d.rng, []int{2, 5, 14})), d.rng.Intn(2) == 0
	case "lc":
		c.L = listNo(pick(d.rng, apiBase))
		if d.wide {
			c.L = listNo(pick(d.rng, apiMany))
		}
		newList()
		c.Replace = d.rng.Intn(3) == 0
		if d.rng.Intn(2) == 0 {
			c.Els = d.rndEls(14)
		}
	case "ld", "lrix", "lrep", "lver":
		c.L = d.rndList()
		c.Clear, c.Repair = d.rng.Intn(2) == 0, d.rng.Intn(2) == 0
	case "lg":
		c.L, c.TopBot = d.rndList(), d.rng.Intn(2) == 0
	case "lpct":
		c.L = d.rndList()
		c.Pct = pick(d.rng, []int{-1, 0, 1, 4, 7, 8, 9, 12, 15, 16})
		radius()
	case "lrng":
		c.L = d.rndList()
		if d.rng.Intn(2) == 0 {
			c.FromTop = pick(d.rng, []int{0, 1, 2, 5, 9, 30})
		} else {
			c.FromBot = pick(d.rng, []int{0, 1, 2, 5, 9, 30})
		}
		c.Limit = pick(d.rng, []int{-1, 1, 2, 3, 10, 1000})
	case "lall":
		if d.rng.Intn(2) == 0 {
			c.After = pick(d.rng, []int{0, d.rndList()})
		} else {
			c.Before = pick(d.rng, []int{0, d.rndList()})
		}
		c.Limit = pick(d.rng, []int{-1, 1, 2, 3, 10, 1000})
	case "lcl":
		c.L = d.rndList()
		c.Dst = listNo(pick(d.rng, apiBase))
		newList()
	case "mc", "mp":
		c.Sel, c.Els = d.rndSel(), d.rndEls(4)
		c.Results, c.ErrOnly = d.rng.Intn(2) == 0, d.rng.Intn(4) == 0
	case "md", "mg":
		c.Sel, c.ID = d.rndSel(), pick(d.rng, d.ids)
		c.ErrOnly = op == "md" && d.rng.Intn(4) == 0
	case "mv", "mr":
		c.Sel = d.rndSel()
		c.WithEls, c.Repair, c.Clear, c.ErrOnly = d.rng.Intn(2) == 0, d.rng.Intn(2) == 0, d.rng.Intn(2) == 0, d.rng.Intn(4) == 0
	case "bks", "bkc":
		if n := len(d.backups); n > 0 && d.rng.Intn(3) > 0 {
			c.Slot = n - d.rng.Intn(min(n, 4))
		}
	case "bk":
		c.Sel, c.Slot, c.Via = d.rndSel(), 1+d.rng.Intn(3), pick(d.rng, []string{"file", "download"})
	case "rs":
		c.Slot, c.Via = 1+d.rng.Intn(3), pick(d.rng, []string{"src_file", "body"})
		if _, err := os.Stat(d.slotFile(c.Slot)); err != nil {
			return d.rndCall(mix)
		}
		c.Keep = d.rng.Intn(3) == 0
		if d.plain[c.Slot] {
			c.Pre, c.Suf = d.rng.Intn(4) == 0, d.rng.Intn(4) == 0
		}
	}
	if len(apiBad[op]) > 0 && d.rng.Intn(12) == 0 {
		k := pick(d.rng, apiBad[op])
		hasEls := k == "neg" || k == "tie" || k == "big" || k == "type"
		if !(hasEls && (op == "elpm" || op == "mc" || op == "mp") && len(c.Els) == 0) {
			c.Bad = k
		}
	}
	return c
}

func (d *apiDrv) reset() {
	r := d.s.send(context.Background(), "GET", "/lists?limit=1000", nil, d.s.admin)
	for _, x := range jarr(jm(r.body, "lists")) {
		d.s.send(context.Background(), "DELETE", "/lists/"+url.PathEscape(jstr(jm(x, "id"))), nil, d.s.admin)
	}
	for i := 1; i <= 3; i++ {
		os.Remove(d.slotFile(i))
	}
	d.last = nil
	d.vocabulary()
}

// vocabulary chooses the values that occur in an episode.
func (d *apiDrv) vocabulary() {
	d.ids, d.scs, d.tis = nil, nil, nil
	for i := 0; i < 8+d.rng.Intn(16); i++ {
		d.ids = append(d.ids, d.rng.Intn(len(idTab.vals)))
	}
	for i := 0; i < 3+d.rng.Intn(6); i++ {
		d.scs = append(d.scs, d.rng.Intn(len(scTab.vals)))
	}
	for i := 0; i < 2+d.rng.Intn(2); i++ {
		d.tis = append(d.tis, d.rng.Intn(len(tiTab.vals)))
	}
}

func init() {
	modes["api"] = func(tr *Trace) {
		d := &apiDrv{tr: tr, dir: *fDir, rng: rand.New(rand.NewSource(*fSeed)), toks: map[string]string{}, plain: map[int]bool{}}
		o := apiOpts{storage: pick(d.rng, []string{"Memory", "Memory", "BoltDB", "Badger"}), jwt: *fProf == "auth"}
		if d.rng.Intn(2) == 0 {
			o.cache, o.cacheType = 8+d.rng.Intn(50), pick(d.rng, []string{"ARC", "LRU", "LRU2Q"})
		}
		o.lazy = d.rng.Intn(3) == 0
		if d.rng.Intn(3) == 0 {
			o.maxUpdates = 1 + d.rng.Intn(2)
		}
		if *fProf == "faulty" || *fProf == "bkfault" {
			o.lazy = false // it takes failed writes as done
		}
		d.s = startAPI(*fDir, o)
		if *fProf == "faulty" || *fProf == "bkfault" {
			d.fs = &failSet{Store: d.s.db.Storage, rng: rand.New(rand.NewSource(*fSeed + 1))}
			d.s.db.Storage = d.fs
		}
		tr.add(Ev{"ev": "tables", "jwt": o.jwt, "scopes": scopeOf, "cfg": fmt.Sprintf("%+v", o),
			"names": apiLists, "suffixed": renames(false, true), "prefixed": renames(true, false), "both": renames(true, true)})
		mix := apiMix[*fProf]
		for ep := 0; ep < *fN; ep++ {
			d.reset()
			tr.add(Ev{"ev": "begin", "post": []int{}})
			d.wide = d.rng.Intn(6) == 0 && (*fProf == "plain" || *fProf == "auth")
			for i := 0; d.wide && i < 45; i++ {
				c := d.rndCall([]wOp{{"lc", 1}})
				c.Tk.Sc = []int{1, 2, 3, 4}
				d.call(c)
			}
			next := func() *aCall {
				c := d.rndCall(mix)
				if o.jwt {
					c.Tk = d.rndToken(c)
				}
				return c
			}
			for i := 0; i < *fOps; i++ {
				if d.rng.Intn(7) == 0 {
					n := 2 + d.rng.Intn(5)
					d.together(n, next)
					i += n - 1
					continue
				}
				c := next()
				if d.fs != nil && d.rng.Intn(3) == 0 && !strings.Contains("lc ld lcl lver", c.Op) && (*fProf == "faulty" || strings.Contains("bk rs", c.Op)) {
					c.Fset = 1 + d.rng.Intn(3)
				}
				d.call(c)
			}
		}
	}
}

// renames gives the number of a list after its name was changed, or 0.
func renames(pre, suf bool) []int {
	r := []int{}
	for _, n := range apiLists[1:] {
		if pre {
			n = "p-" + n
		}
		if suf {
			n += ".r"
		}
		k := listNo(n)
		if k < 0 {
			k = 0
		}
		r = append(r, k)
	}
	return r
}
