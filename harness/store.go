//go:build go1.22

package main

import (
	"context"
	"errors"
	"sort"
	"sync"

	"github.com/Vivino/rankdb/blobstore"
)

var errInjected = errors.New("injected storage failure")

// errLate is a failure reported although the operation had its effect.
var errLate = errors.New("injected storage failure after the effect")

// recStore is a plain map store used below the code under test.
type recStore struct {
	mu   sync.Mutex
	m    map[string]map[string][]byte
	gets int
	sets int
	dels int
	// fault decides whether an operation fails. Called with mu held.
	fault func(op, set, key string) error
	// hook is called before an operation, without locks
	hook func(op, set, key string)
}

func newRecStore() *recStore { return &recStore{m: map[string]map[string][]byte{}} }

func (s *recStore) Get(ctx context.Context, set, key string) ([]byte, error) {
	// Like most real stores, this one observes its context.
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if s.hook != nil {
		s.hook("get", set, key)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.gets++
	if s.fault != nil {
		if err := s.fault("get", set, key); err != nil {
			return nil, err
		}
	}
	b, ok := s.m[set][key]
	if !ok {
		return nil, blobstore.ErrBlobNotFound
	}
	return append([]byte{}, b...), nil
}

func (s *recStore) Set(ctx context.Context, set, key string, val []byte) error {
	// Like most real stores, this one observes its context.
	if err := ctx.Err(); err != nil {
		return err
	}
	if s.hook != nil {
		s.hook("set", set, key)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.sets++
	var err error
	if s.fault != nil {
		if err = s.fault("set", set, key); err != nil && err != errLate {
			return err
		}
	}
	if s.m[set] == nil {
		s.m[set] = map[string][]byte{}
	}
	s.m[set][key] = append([]byte{}, val...)
	return err
}

func (s *recStore) Delete(ctx context.Context, set, key string) error {
	// Like most real stores, this one observes its context.
	if err := ctx.Err(); err != nil {
		return err
	}
	if s.hook != nil {
		s.hook("del", set, key)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.dels++
	var err error
	if s.fault != nil {
		if err = s.fault("del", set, key); err != nil && err != errLate {
			return err
		}
	}
	delete(s.m[set], key)
	return err
}

// raw access, never faulted and never counted.
type rawStore struct{ s *recStore }

func (r rawStore) Get(ctx context.Context, set, key string) ([]byte, error) {
	r.s.mu.Lock()
	defer r.s.mu.Unlock()
	b, ok := r.s.m[set][key]
	if !ok {
		return nil, blobstore.ErrBlobNotFound
	}
	return append([]byte{}, b...), nil
}
func (r rawStore) Set(ctx context.Context, set, key string, val []byte) error {
	r.s.mu.Lock()
	defer r.s.mu.Unlock()
	if r.s.m[set] == nil {
		r.s.m[set] = map[string][]byte{}
	}
	r.s.m[set][key] = append([]byte{}, val...)
	return nil
}
func (r rawStore) Delete(ctx context.Context, set, key string) error {
	r.s.mu.Lock()
	defer r.s.mu.Unlock()
	delete(r.s.m[set], key)
	return nil
}

func (s *recStore) keys() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var res []string
	for set, m := range s.m {
		for k := range m {
			res = append(res, set+"\x00"+k)
		}
	}
	sort.Strings(res)
	return res
}

func (s *recStore) setFault(f func(op, set, key string) error) {
	s.mu.Lock()
	s.fault = f
	s.mu.Unlock()
}
