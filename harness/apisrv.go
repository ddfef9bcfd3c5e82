//go:build go1.22

package main

import (
	"bytes"
	"context"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	stdlog "log"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/api"
	"github.com/Vivino/rankdb/log"
	"github.com/Vivino/rankdb/log/loggoa"
	jwtgo "github.com/dgrijalva/jwt-go"
	"github.com/goadesign/goa"
)

// apiSrv is the HTTP server of RankDB, running in this process.
type apiSrv struct {
	base   string
	cl     *http.Client
	db     *rankdb.Manager
	jwt    bool
	key    *rsa.PrivateKey
	key2   *rsa.PrivateKey
	pubPEM []byte
	admin  string
	ctx    context.Context
}

type apiOpts struct {
	storage    string
	cache      int
	cacheType  string
	lazy       bool
	jwt        bool
	maxUpdates int

	save, prune string // intervals, "": never
	lazyTime    string // time until a lazy save, "": 200ms
	lazyItems   int    // items kept by the lazy saver, 0: 100
	backup      string // storage of the backup of the registry, "": none
	every       int    // saves for each backup
	retry       string // timeout of operations that are retried, "": not retried
}

func or[T comparable](v, d T) T {
	var zero T
	if v == zero {
		return d
	}
	return v
}

func newKey() *rsa.PrivateKey {
	k, err := rsa.GenerateKey(rand.Reader, 1024)
	must(err)
	return k
}

func pubPEM(k *rsa.PrivateKey) []byte {
	b, err := x509.MarshalPKIXPublicKey(&k.PublicKey)
	must(err)
	return pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b})
}

// startAPI starts the server. Only one can be started in a process.
func startAPI(dir string, o apiOpts) *apiSrv {
	s := &apiSrv{jwt: o.jwt}
	var cfg strings.Builder
	p := func(f string, a ...interface{}) { fmt.Fprintf(&cfg, f+"\n", a...) }
	p("MasterSet = %q", "master")
	p("Storage = %q", o.storage)
	p("ListenAddress = %q", "127.0.0.1:0")
	p("SaveEvery = %q", or(o.save, "10h"))
	p("PruneEvery = %q", or(o.prune, "10h"))
	if o.backup != "" {
		p("BackupStorage = %q\nBackupSet = %q\nBackupEvery = %d", o.backup, "saved", o.every)
	}
	p("ShutdownStageWait = %q", "5m")
	p("ShutdownRequestWait = %q", "5m")
	p("CacheEntries = %d", o.cache)
	p("CacheType = %q", o.cacheType)
	p("MaxUpdates = %d", o.maxUpdates)
	p("LogInfo = false")
	if o.jwt {
		kd := filepath.Join(dir, "keys")
		must(os.MkdirAll(kd, 0o755))
		s.key, s.key2 = newKey(), newKey()
		s.pubPEM = pubPEM(s.key)
		must(os.WriteFile(filepath.Join(kd, "a.pub"), pubPEM(newKey()), 0o644))
		must(os.WriteFile(filepath.Join(kd, "b.pub"), s.pubPEM, 0o644))
		p("JwtKeyPath = %q", kd)
	}
	p("[Badger]\nPath = %q", filepath.Join(dir, "badger"))
	p("[BoltDB]\nFilePath = %q\nNoSync = true\nNoGrowSync = true", filepath.Join(dir, "bolt.db"))
	if o.lazy {
		p("[LazySaver]\nEnabled = true\nLimitItems = %d\nFlushAtItems = %d\nSavers = 2\nMaxTime = %q\nSaveTimeout = %q",
			or(o.lazyItems, 100), or(o.lazyItems, 100)*3/4, or(o.lazyTime, "200ms"), "5m")
	}
	if o.retry != "" {
		p("[StorageRetry]\nEnabled = true\nOpTimeout = %q", o.retry)
	}
	logger := goa.NewLogger(stdlog.New(io.Discard, "", 0))
	s.ctx = log.WithLogger(context.Background(), loggoa.Wrap(logger))
	must(api.StartServer(s.ctx, strings.NewReader(cfg.String()), nil))
	s.db = api.VerifManager()
	go api.StartServices(logger, s.ctx, nil)
	s.base = "http://" + api.VerifAddr().String()
	s.cl = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 64, DisableCompression: false}}
	if o.jwt {
		s.admin = s.sign(s.key, jwtgo.SigningMethodRS512, jwtgo.MapClaims{"exp": time.Now().Add(100 * time.Hour).Unix(), "nbf": 2,
			"scopes": "api:read api:update api:delete api:manage"})
	}
	return s
}

func (s *apiSrv) sign(key interface{}, m jwtgo.SigningMethod, c jwtgo.MapClaims) string {
	t := jwtgo.NewWithClaims(m, c)
	r, err := t.SignedString(key)
	must(err)
	return r
}

type apiRes struct {
	st   int // -1: no answer
	body interface{}
	raw  []byte
	hdr  http.Header
}

// send performs a request. The token is sent if it is not empty.
func (s *apiSrv) send(ctx context.Context, method, path string, body []byte, token string, hdr ...string) apiRes {
	var rd io.Reader
	if body != nil {
		rd = bytes.NewReader(body)
	}
	req, err := http.NewRequestWithContext(ctx, method, s.base+path, rd)
	must(err)
	req.Header.Set("Accept", "application/json")
	if body != nil {
		req.Header.Set("Content-Type", "application/json")
	}
	if token != "" {
		req.Header.Set("Authorization", "Bearer "+token)
	}
	for i := 0; i+1 < len(hdr); i += 2 {
		req.Header.Set(hdr[i], hdr[i+1])
	}
	resp, err := s.cl.Do(req)
	if err != nil {
		return apiRes{st: -1, raw: []byte(err.Error())}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return apiRes{st: -1, raw: []byte(err.Error())}
	}
	r := apiRes{st: resp.StatusCode, raw: b, hdr: resp.Header}
	if strings.Contains(resp.Header.Get("Content-Type"), "json") {
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		if d.Decode(&r.body) != nil {
			r.body = nil
		}
	}
	return r
}
