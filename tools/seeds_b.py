N,T,S='radix/node.go','radix/trie.go','store.go'
HDR='package radix\n\nimport "testing"\n\n'
SEEDS=[
dict(id='s03-split-keeps-comment',prop='P03',subs=[(N,'''		comment:     s.comment,
		tag:         s.tag,
		nType:       s.nType,
		rw: ''','''		comment:     s.comment,
		tag:         iif(pos > 0, s.tag, any(nil)),
		nType:       s.nType,
		rw: ''')],
 needs='a key that carries a tag, then a key that shares no leading character with its fragment inserted below the same node (a split at position zero)',breaks='splitting a node drops the tag of the key that moves down',
 test=HDR+'''func TestVerifDemo(t *testing.T) {
	tr := newTrie[any]()
	tr.Set("app.name", "x")
	tr.SetTag("app.name", 42)
	tr.Set("zone", 1) // splits at position zero or becomes a sibling
	tr.Set("", 7)
	tr2 := newTrie[any]()
	tr2.root.path, tr2.root.pathS = []rune("app.name"), "app.name"
	tr2.root.nType = NTLeaf | NTData
	tr2.root.data, tr2.root.tag = "x", 42
	tr2.Set("zone", 1)
	tag, _ := tr2.GetTag("app.name")
	if tag != 42 {
		t.Fatalf("tag lost by a split: %v", tag)
	}
}
'''),
dict(id='s05-query-err-branch',prop='P05',subs=[(T,'''	node, _, partialMatched = s.search(path, kvpair)
	found := node != nil && !partialMatched
	if found {
		if node.isBranch() {
			if !node.endsWith(s.delimiter) {
				found = false
			}
		}
	}
	err = iif''','''	node, _, partialMatched = s.search(path, kvpair)
	found := node != nil && !partialMatched
	if found {
		if node.isBranch() && len(node.children) > 2 {
			if !node.endsWith(s.delimiter) {
				found = false
			}
		}
	}
	err = iif''')],
 needs='a branch that is a mere split point (no delimiter at its end) with one or two children, asked for its description, comment or tag',breaks='GetDesc/GetTag/GetComment answer without error for a key that Query says does not exist',
 test=HDR+'''func TestVerifDemo(t *testing.T) {
	tr := newTrie[any]()
	tr.Set("app.logging", 1)
	tr.Set("app.lite", 2)
	_, _, found, err := tr.Query("app.l", nil)
	_, err2 := tr.GetDesc("app.l")
	if found || (err == nil) != (err2 == nil) {
		t.Fatalf("Query says %v, GetDesc says %v", err, err2)
	}
}
'''),
dict(id='s06-remove-range',prop='P06',subs=[(N,'''			removed, s.children = true, append(s.children[:i], s.children[i+1:]...)
			break''','''			removed = true
			if last := len(s.children) - 1; last > 4 { // long list, no need to shift it
				s.children[i] = s.children[last-1]
				s.children = s.children[:last]
			} else {
				s.children = append(s.children[:i], s.children[i+1:]...)
			}
			break''')],
 needs='removing a key from a node with six or more children',breaks='a sibling of the removed key disappears and another one is duplicated',
 test=HDR.replace('"testing"','(\n	"strings"\n	"testing"\n)')+'''func TestVerifDemo(t *testing.T) {
	tr := newTrie[any]()
	keys := strings.Split("a,b,c,d,e,f,g", ",")
	for _, k := range keys {
		tr.Set("app."+k, k)
	}
	if !tr.Remove("app.b") {
		t.Fatal("not removed")
	}
	for _, k := range keys {
		if want := k != "b"; tr.Has("app."+k) != want {
			t.Fatalf("app.%s: Has = %v after removing app.b", k, !want)
		}
	}
}
'''),
dict(id='s07-setempty-keeps-tag',prop='P07',subs=[(N,'''		var t T
		s.data = t
		s.tag = nil
	})''','''		var t T
		s.data = t
		if s.comment == "" {
			s.tag = nil
		}
	})''')],
 needs='emptying a node that carries a comment and a tag',breaks='emptying a node leaves its tag behind',
 test=HDR+'''func TestVerifDemo(t *testing.T) {
	tr := newTrie[any]()
	tr.SetNode("app.name", "x", 42, "desc", "comment")
	tr.SetEmpty("app.name")
	if tag, _ := tr.GetTag("app.name"); tag != nil {
		t.Fatalf("tag survives: %v", tag)
	}
}
'''),
]
