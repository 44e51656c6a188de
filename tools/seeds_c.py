N,T,C,L,S,SL='radix/node.go','radix/trie.go','radix/cvter.go','radix/load.go','store.go','load.go'
HDR='package radix\n\nimport "testing"\n\n'
SEEDS=[
dict(id='s08-int64-via-float',prop='P08',subs=[(C,'''func (s *trieS[T]) MustInt64(path string, defaultVal ...int64) (ret int64) {
	data, _, found, err := s.Query(path, nil)
	if found && err == nil {
		ret = converter.Int(data)''','''func (s *trieS[T]) MustInt64(path string, defaultVal ...int64) (ret int64) {
	data, _, found, err := s.Query(path, nil)
	if found && err == nil {
		ret = int64(converter.Float64(data))''')],
 needs='an integer that needs more than 53 bits',breaks='MustInt64 rounds large integers',
 test=HDR+'''func TestVerifDemo(t *testing.T) {
	tr := newTrie[any]()
	const big = int64(1)<<60 + 1
	tr.Set("app.big", big)
	if v := tr.MustInt64("app.big"); v != big {
		t.Fatalf("stored %d, got %d", big, v)
	}
}
'''),
dict(id='s09-nil-value-announced-new',prop='P09',subs=[(S,'''	node, oldData = s.setKV(path, data, !found, nil)''','''	node, oldData = s.setKV(path, data, oldData == nil, nil)''')],
 pkg='.',needs='setting a key that exists but holds a nil value',breaks='the new-key handlers run, and the change handlers do not, for a key that existed',
 test='''package store

import "testing"

func TestVerifDemo(t *testing.T) {
	var created, changed int
	s := New(
		WithOnNewHandlers(func(path string, value any, loading bool) { created++ }),
		WithOnChangeHandlers(func(path string, value, old any, loading bool) { changed++ }),
	)
	s.Set("app.name", nil)
	if !s.Has("app.name") {
		t.Fatal("not set")
	}
	created, changed = 0, 0
	s.Set("app.name", "x")
	if created != 0 || changed != 1 {
		t.Fatalf("existing key: %d new, %d change notifications", created, changed)
	}
}
'''),
dict(id='s10-loading-mark-stuck',prop='P10',subs=[(SL,'''		defer func() { atomic.CompareAndSwapInt32(&s.loading, 1, 0) }()
		fn()
''','''		fn()
		atomic.CompareAndSwapInt32(&s.loading, 1, 0)
''')],
 pkg='.',needs='a function run under the loading mark that panics, and a caller that recovers',breaks='the loading mark stays set: every later load silently does nothing',
 test='''package store

import "testing"

func TestVerifDemo(t *testing.T) {
	s := newStore()
	func() {
		defer func() { _ = recover() }()
		s.WithinLoading(func() { panic("source broken") })
	}()
	ran := false
	s.WithinLoading(func() { ran = true })
	if !ran {
		t.Fatal("nothing can be loaded any more")
	}
}
'''),
]
