N,T,C,L,S,SL='radix/node.go','radix/trie.go','radix/cvter.go','radix/load.go','store.go','load.go'
HDR='package radix\n\nimport "testing"\n\n'
SHDR='package store\n\nimport "testing"\n\n'
SEEDS=[
dict(id='s14-long-join-leftover',prop='P14',pkg='.',subs=[(S,'''	bb.Reset()
	prefixJointPool.Put(bb)''','''	if bb.Len() < 1024 { // long ones are rare
		bb.Reset()
	}
	prefixJointPool.Put(bb)''')],
 needs='a path of more than 1 KB is joined, then another path',breaks='the second path is joined behind what is left of the first',
 test=SHDR.replace('import "testing"','import (\n\t"strings"\n\t"testing"\n)')+'''func TestVerifDemo(t *testing.T) {
	s := newStore()
	for i := 0; i < 200; i++ {
		long := strings.Repeat("k", 4096)
		if got := s.join("a", long); got != "a."+long {
			t.Fatalf("long: %d bytes", len(got))
		}
		if got := s.join("a", "b"); got != "a.b" {
			t.Fatalf("short: %d bytes", len(got))
		}
	}
}
'''),
dict(id='s15-removal-stops-at-missing',prop='P15',pkg='.',subs=[(SL,'''			s.Remove(key)
			logz.Debug("removed: "''','''			if !s.Remove(key) {
				break // nothing there any more
			}
			logz.Debug("removed: "''')],
 needs='a removal event that carries several keys, one of which (not the last) the store does not have',breaks='the keys behind the missing one are not removed',
 test='''package store

import (
	"testing"
	"time"
)

type demoChange struct {
	op   Op
	keys []string
	i    int
}

func (c *demoChange) Next() (string, any, bool) {
	if c.i >= len(c.keys) {
		return "", nil, false
	}
	c.i++
	return c.keys[c.i-1], nil, true
}
func (c *demoChange) Path() string         { return "" }
func (c *demoChange) Op() Op               { return c.op }
func (c *demoChange) Has(op Op) bool       { return c.op&op == op }
func (c *demoChange) Timestamp() time.Time { return time.Time{} }
func (c *demoChange) Provider() Provider   { return nil }

func TestVerifDemo(t *testing.T) {
	s := newStore()
	s.Set("x.a", 1)
	s.Set("y.b", 2)
	s.applyExternalChanges(&demoChange{op: OpRemove, keys: []string{"q.nope", "y.b"}}, nil)
	if s.Has("y.b") {
		t.Fatal("y.b is still there")
	}
	if !s.Has("x.a") {
		t.Fatal("x.a is gone")
	}
}
'''),
dict(id='s16-ttl-on-partial-branch',prop='P16',subs=[(T,'''	found := node != nil && !partialMatched // && !node.isBranch()
	state = -1''','''	found := node != nil && (!partialMatched || node.isBranch())
	state = -1''')],
 needs='a time-to-live set on a path that is only the beginning of a branch in the tree',breaks='success is reported and the branch, with all its keys, is dropped when the time has passed',
 test='''package radix

import (
	"testing"
	"time"
)

func TestVerifDemo(t *testing.T) {
	tr := NewTrie[any]()
	tr.Set("app.logging.file", 1)
	tr.Set("app.logging.level", 2)
	tr.Set("app.other", 3)
	defer tr.Close()
	if st := tr.SetTTL("app.log", 20*time.Millisecond, nil); st == 0 {
		t.Error("success is reported for a key that is not there")
	}
	time.Sleep(300 * time.Millisecond)
	if !tr.Has("app.logging.file") || !tr.Has("app.logging.level") {
		t.Error("keys are gone")
	}
}
'''),
dict(id='s17-yaml-partial-document',prop='P17',pkg='codecs/yaml',subs=[('codecs/yaml/yaml.go','''	err = yamlv3.Unmarshal(b, &data)
	return''','''	if err = yamlv3.Unmarshal(b, &data); err != nil && len(data) > 0 {
		err = nil // keep what could be read
	}
	return''')],
 needs='a yaml document the decoder rejects after having filled in some of its keys (an alias of an unknown anchor, say)',breaks='the partial document is returned as a success, the error is lost',
 test='''package yaml

import "testing"

func TestVerifDemo(t *testing.T) {
	p := New()
	for _, s := range []string{"a: 1\\nb: [x\\n", "a: 1\\nb: 2\\na: 3\\n", "a: 1\\nb: 2\\nc: {x: 1, x: 2}\\n", "a: 1\\nb: !!int zzz\\n"} {
		if m, err := p.Unmarshal([]byte(s)); err == nil {
			t.Errorf("%q decoded as %v without an error", s, m)
		}
	}
	if m, err := p.Unmarshal([]byte("a: 1\\nb: 2\\n")); err != nil || len(m) != 2 {
		t.Error(m, err)
	}
}
'''),
dict(id='s18-env-empty-value-dropped',prop='P18',pkg='providers/env',subs=[('providers/env/env.go','''		if pos > 0 {
''','''		if pos > 0 && pos+1 < len(p) {
''')],
 needs='a variable of the environment that is set to the empty text',breaks='the variable is not delivered at all',
 test='''package env

import (
	"os"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	os.Setenv("VDEMO_A", "x=y=z")
	os.Setenv("VDEMO_B", "")
	s := New(WithPrefix("vdemo_"))
	m, err := s.Read()
	if err != nil || len(m) != 2 || s.Count() != 2 {
		t.Fatal(m, err, s.Count())
	}
	if v, ok := s.Value("vdemo_a"); !ok || v != "x=y=z" {
		t.Error(v, ok)
	}
	if v, ok := s.Value("vdemo_b"); !ok || v != "" {
		t.Error(v, ok)
	}
}
'''),
dict(id='s19-last-entry-change-lost',prop='P19',pkg='providers/consul',subs=[('providers/consul/change.go','''			for ix := 0; ix < len(pairs); ix++ {
''','''			for ix := 0; ix < len(pairs)-1; ix++ {
''')],
 needs='a watched key prefix of which only the last key (in the order of the list) changes',breaks='the change is announced as a removal of nothing, and the new value is lost',
 test='''package consul

import (
	"testing"

	"github.com/hashicorp/consul/api"

	"github.com/hedzr/store"
)

func TestVerifDemo(t *testing.T) {
	p := New(WithRecursive(true))
	c := &changeS{provider: p}
	kv := func(k, v string, cr, mod uint64) *api.KVPair {
		return &api.KVPair{Key: k, Value: []byte(v), CreateIndex: cr, ModifyIndex: mod}
	}
	collect := func(val any, idx uint64) (m map[string]any, op store.Op) {
		m = map[string]any{}
		done := c.Set(val, idx)
		op = c.Op()
		for i := 0; i < 10; i++ {
			k, v, ok := c.Next()
			if !ok {
				break
			}
			m[k] = v
		}
		if done != nil {
			done()
		}
		return
	}
	for i, x := range []struct {
		val  api.KVPairs
		idx  uint64
		op   store.Op
		k, v string
	}{
		{api.KVPairs{kv("a", "1", 5, 5)}, 5, store.OpCreate, "a", "1"},
		{api.KVPairs{kv("a", "1", 5, 5), kv("b", "2", 6, 6)}, 6, store.OpCreate, "b", "2"},
		{api.KVPairs{kv("a", "3", 5, 7), kv("b", "2", 6, 6)}, 7, store.OpWrite, "a", "3"},
		{api.KVPairs{kv("a", "3", 5, 7), kv("b", "4", 6, 8)}, 8, store.OpWrite, "b", "4"},
		{api.KVPairs{kv("a", "3", 5, 7)}, 9, store.OpRemove, "b", "4"},
	} {
		m, op := collect(x.val, x.idx)
		if op != x.op || len(m) != 1 || m[x.k] != x.v {
			t.Errorf("event %d: %v %v, expected %v %s=%s", i, op, m, x.op, x.k, x.v)
		}
	}
}
'''),
dict(id='s20-set-under-shared-lock',prop='P20',subs=[('radix/node.go','''	s.lockFor(func(s *nodeS[T]) {
		s.data = data
''','''	s.readLockFor(func(s *nodeS[T]) {
		s.data = data
''')],
 needs='a value set on a node while another goroutine is reading the same node, which has a time-to-live',breaks='the value changes under the reader, which holds the lock',
 test='''package radix

import (
	"sync"
	"testing"
	"time"
)

func TestVerifDemo(t *testing.T) {
	tr := NewTrie[any]()
	tr.Set("app.one", 1)
	n := tr.root.children[0]
	n.rw = &sync.RWMutex{}
	done := make(chan struct{})
	bad := false
	n.readLockFor(func(n *nodeS[any]) {
		go func() { n.SetData(2); close(done) }()
		select {
		case <-done:
			bad = true
		case <-time.After(300 * time.Millisecond):
		}
	})
	<-done
	if bad {
		t.Error("the value was set while a reader held the lock")
	}
	if v := n.Data(); v != 2 {
		t.Error(v)
	}
}
'''),
dict(id='s21-source-keeps-its-codec',prop='P21',pkg='.',subs=[(SL,'''			loader.codec = loader.provider.GetCodec()
		} else {
			loader.provider.WithCodec(loader.codec)''','''			loader.codec = loader.provider.GetCodec()
		} else if loader.provider.GetCodec() == nil { // a source that has one already needs none
			loader.provider.WithCodec(loader.codec)''')],
 needs='a source made with a codec of its own is loaded with another codec given as an option',breaks='the source keeps its own codec and decodes with it, the option has no effect there',
 test='''package store

import "testing"

type demoCodec struct{ id int }

func (demoCodec) Marshal(map[string]any) ([]byte, error)     { return nil, nil }
func (demoCodec) Unmarshal([]byte) (map[string]any, error)   { return nil, nil }

type demoSource struct {
	Provider
	codec Codec
	pos   string
}

func (d *demoSource) GetCodec() Codec       { return d.codec }
func (d *demoSource) WithCodec(c Codec)     { d.codec = c }
func (d *demoSource) GetPosition() string   { return d.pos }
func (d *demoSource) WithPosition(p string) { d.pos = p }

func TestVerifDemo(t *testing.T) {
	src := &demoSource{codec: demoCodec{1}}
	l := newLoader(newStore(), WithProvider(src), WithCodec(demoCodec{2}))
	if l.codec != (demoCodec{2}) || src.codec != (demoCodec{2}) {
		t.Fatalf("loader has %v, source has %v", l.codec, src.codec)
	}
	src = &demoSource{}
	newLoader(newStore(), WithProvider(src), WithCodec(demoCodec{2}))
	if src.codec != (demoCodec{2}) {
		t.Fatalf("source has %v", src.codec)
	}
	src = &demoSource{codec: demoCodec{1}}
	if l = newLoader(newStore(), WithProvider(src)); l.codec != (demoCodec{1}) {
		t.Fatalf("loader has %v", l.codec)
	}
}
'''),
]
