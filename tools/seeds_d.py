N,T,C,L,S,SL='radix/node.go','radix/trie.go','radix/cvter.go','radix/load.go','store.go','load.go'
HDR='package radix\n\nimport "testing"\n\n'
SEEDS=[
dict(id='s11-null-elements-skipped',prop='P11',subs=[(SL,'''			for i, mm := range vv {
				// if s.prefix''','''			for i, mm := range vv {
				if mm == nil {
					continue
				}
				// if s.prefix''')],
 pkg='.',needs='lists taken apart, and a list with a null element',breaks='the null element is never stored',
 test='''package store

import "testing"

func TestVerifDemo(t *testing.T) {
	s := New(WithFlattenSlice(true))
	if err := s.Merge("app", map[string]any{"args": []any{"a", nil, "b"}}); err != nil {
		t.Fatal(err)
	}
	for _, k := range []string{"app.args.0", "app.args.1", "app.args.2"} {
		if !s.Has(k) {
			t.Fatalf("no %s\\n%s", k, s.Dump())
		}
	}
}
'''),
dict(id='s12-cleared-key-not-saved',prop='P12',subs=[(SL,'''				return node.Modified() // && !strings.HasPrefix(node.Key(), "app.cmd.")
			}),
			// WithKeepPrefix[any](true),
			WithoutFlattenKeys[any](true),
		); err == nil && m != nil && len(m) > 0 {
			logz.DebugContext(ctx, "Write-Back ch''','''				return node.Modified() && node.Data() != nil
			}),
			// WithKeepPrefix[any](true),
			WithoutFlattenKeys[any](true),
		); err == nil && m != nil && len(m) > 0 {
			logz.DebugContext(ctx, "Write-Back ch''')],
 pkg='.',needs='a modified key whose new value is nil',breaks='Save leaves the key out, so the source keeps its old value',
 test='''package store

import (
	"context"
	"testing"
)

type demoProv struct{ data []byte }

func (p *demoProv) Read() (map[string]ValPkg, error)     { return nil, ErrNotImplemented }
func (p *demoProv) ReadBytes() ([]byte, error)           { return nil, nil }
func (p *demoProv) Write(data []byte) error              { p.data = data; return nil }
func (p *demoProv) GetCodec() Codec                      { return nil }
func (p *demoProv) WithCodec(Codec)                      {}
func (p *demoProv) GetPosition() string                  { return "" }
func (p *demoProv) WithPosition(string)                  {}

type demoCodec struct{ m map[string]any }

func (c *demoCodec) Marshal(m map[string]any) ([]byte, error)   { c.m = m; return []byte("x"), nil }
func (c *demoCodec) Unmarshal(b []byte) (map[string]any, error) { return nil, nil }

func TestVerifDemo(t *testing.T) {
	s := newStore()
	cd := &demoCodec{}
	l := &Loader{storeS: s, codec: cd, provider: &demoProv{}}
	s.Set("name", "x")
	s.Set("proxy", nil)
	if err := l.Save(context.Background()); err != nil {
		t.Fatal(err)
	}
	if _, ok := cd.m["proxy"]; !ok || cd.m["name"] != "x" {
		t.Fatalf("saved: %v", cd.m)
	}
}
'''),
dict(id='s13-deep-keys-stay-flat',prop='P13',subs=[(C,'''			a := strings.Split(k, string(s.delimiter))
			s.submap''','''			a := strings.SplitN(k, string(s.delimiter), 8)
			s.submap''')],
 needs='a key of more than eight levels exported as nested maps',breaks='the levels beyond the eighth stay one dotted key',
 test=HDR+'''func TestVerifDemo(t *testing.T) {
	tr := newTrie[any]()
	tr.Set("a.b.c.d.e.f.g.h.i.j", 1)
	m, err := tr.GetM("", WithoutFlattenKeys[any](true))
	if err != nil {
		t.Fatal(err)
	}
	for _, k := range []string{"a", "b", "c", "d", "e", "f", "g", "h", "i"} {
		n, ok := m[k].(map[string]any)
		if !ok {
			t.Fatalf("no level %q in %v", k, m)
		}
		m = n
	}
	if m["j"] != 1 {
		t.Fatalf("%v", m)
	}
}
'''),
]
