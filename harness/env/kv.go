// Package env is the environment the keepers run in: an in-memory store, a
// bank ledger and the few collaborators that live outside the repository.
package env

import (
	"context"
	"io"

	corestore "cosmossdk.io/core/store"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
)

// KV is one ordered key-value namespace.
type KV struct {
	keys []string
	vals [][]byte
}

func (s *KV) find(k string) (int, bool) {
	lo, hi := 0, len(s.keys)
	for lo < hi {
		m := (lo + hi) / 2
		if s.keys[m] < k {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return lo, lo < len(s.keys) && s.keys[lo] == k
}

func (s *KV) clone() *KV {
	n := &KV{}
	n.keys = append(n.keys, s.keys...)
	n.vals = append(n.vals, s.vals...)
	return n
}

func (s *KV) Get(key []byte) ([]byte, error) {
	if i, ok := s.find(string(key)); ok {
		return s.vals[i], nil
	}
	return nil, nil
}

func (s *KV) Has(key []byte) (bool, error) {
	_, ok := s.find(string(key))
	return ok, nil
}

func (s *KV) Set(key, value []byte) error {
	if value == nil {
		panic("value is nil")
	}
	k := string(key)
	i, ok := s.find(k)
	if ok {
		vals := append([][]byte{}, s.vals...)
		vals[i] = value
		s.vals = vals
		return nil
	}
	keys := append([]string{}, s.keys[:i]...)
	keys = append(keys, k)
	keys = append(keys, s.keys[i:]...)
	vals := append([][]byte{}, s.vals[:i]...)
	vals = append(vals, value)
	vals = append(vals, s.vals[i:]...)
	s.keys, s.vals = keys, vals
	return nil
}

func (s *KV) Delete(key []byte) error {
	i, ok := s.find(string(key))
	if !ok {
		return nil
	}
	keys := append([]string{}, s.keys[:i]...)
	keys = append(keys, s.keys[i+1:]...)
	vals := append([][]byte{}, s.vals[:i]...)
	vals = append(vals, s.vals[i+1:]...)
	s.keys, s.vals = keys, vals
	return nil
}

func (s *KV) iter(start, end []byte, rev bool) *Iter {
	it := &Iter{start: start, end: end}
	lo := 0
	if start != nil {
		lo, _ = s.find(string(start))
	}
	hi := len(s.keys)
	if end != nil {
		hi, _ = s.find(string(end))
	}
	if lo < hi {
		it.keys = append(it.keys, s.keys[lo:hi]...)
		it.vals = append(it.vals, s.vals[lo:hi]...)
	}
	if rev {
		for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			it.vals[i], it.vals[j] = it.vals[j], it.vals[i]
		}
	}
	return it
}

func (s *KV) Iterator(start, end []byte) (corestore.Iterator, error) {
	return s.iter(start, end, false), nil
}

func (s *KV) ReverseIterator(start, end []byte) (corestore.Iterator, error) {
	return s.iter(start, end, true), nil
}

type Iter struct {
	keys       []string
	vals       [][]byte
	i          int
	start, end []byte
}

func (it *Iter) Domain() ([]byte, []byte) { return it.start, it.end }
func (it *Iter) Valid() bool              { return it.i < len(it.keys) }
func (it *Iter) Next() {
	if !it.Valid() {
		panic("iterator is invalid")
	}
	it.i++
}
func (it *Iter) Key() []byte {
	if !it.Valid() {
		panic("iterator is invalid")
	}
	return []byte(it.keys[it.i])
}
func (it *Iter) Value() []byte {
	if !it.Valid() {
		panic("iterator is invalid")
	}
	return it.vals[it.i]
}
func (it *Iter) Error() error { return nil }
func (it *Iter) Close() error { return nil }

// MS is the multistore behind a context.
type MS struct {
	names  []string
	stores []*KV
	parent *MS
}

func (m *MS) store(name string) *KV {
	for i, n := range m.names {
		if n == name {
			return m.stores[i]
		}
	}
	s := &KV{}
	m.names = append(m.names, name)
	m.stores = append(m.stores, s)
	return s
}

func (m *MS) fork() *MS {
	n := &MS{parent: m}
	n.names = append(n.names, m.names...)
	for _, s := range m.stores {
		n.stores = append(n.stores, s.clone())
	}
	return n
}

func (m *MS) CacheMultiStore() storetypes.CacheMultiStore { return m.fork() }

func (m *MS) Write() {
	for i, n := range m.names {
		p := m.parent.store(n)
		p.keys, p.vals = m.stores[i].keys, m.stores[i].vals
	}
}

// The rest of the multistore interface is not used by the code under test.

func (m *MS) GetStoreType() storetypes.StoreType { panic("MS") }
func (m *MS) CacheWrap() storetypes.CacheWrap    { panic("MS") }
func (m *MS) CacheWrapWithTrace(io.Writer, storetypes.TraceContext) storetypes.CacheWrap {
	panic("MS")
}
func (m *MS) CacheMultiStoreWithVersion(int64) (storetypes.CacheMultiStore, error) { panic("MS") }
func (m *MS) GetStore(storetypes.StoreKey) storetypes.Store                        { panic("MS") }
func (m *MS) GetKVStore(storetypes.StoreKey) storetypes.KVStore                    { panic("MS") }
func (m *MS) TracingEnabled() bool                                                 { return false }
func (m *MS) SetTracer(io.Writer) storetypes.MultiStore                            { return m }
func (m *MS) SetTracingContext(storetypes.TraceContext) storetypes.MultiStore      { return m }
func (m *MS) LatestVersion() int64                                                 { return 1 }

// Service opens one namespace of the context's multistore.
type Service struct{ Name string }

func msOf(ctx context.Context) *MS { return sdk.UnwrapSDKContext(ctx).MultiStore().(*MS) }

func (s Service) OpenKVStore(ctx context.Context) corestore.KVStore {
	return msOf(ctx).store(s.Name)
}
