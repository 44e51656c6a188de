N,T='radix/node.go','radix/trie.go'
HDR='package radix\n\nimport "testing"\n\n'
SEEDS=[
dict(id='s01-move-to-front',prop='P01',subs=[(N,'''		for _, child = range base.children {
			matched, partialMatched, child, parent = child.matchR(mctx, restPart, lastRuneIsDelimiter, s, kvpair)
			if matched || partialMatched {
				return''','''		for i := range base.children {
			matched, partialMatched, child, parent = base.children[i].matchR(mctx, restPart, lastRuneIsDelimiter, s, kvpair)
			if matched || partialMatched {
				if i >= 16 { // hot key far down the list, move it up a bit
					base.children[i-1], base.children[i] = base.children[i], base.children[i-1]
				}
				return''')],
 needs='a node with seventeen or more children and a read of a late one',breaks='looking a key up reorders the children of the live tree',
 test=HDR.replace('"testing"','(\n	"strings"\n	"testing"\n)')+'''func TestVerifDemo(t *testing.T) {
	tr := newTrie[any]()
	for _, k := range strings.Split("abcdefghijklmnopqrstuvw", "") {
		tr.Set(k, k)
	}
	order := func() (out string) {
		tr.Walk("", func(path, fragment string, node Node[any]) { out += path + "|" })
		return
	}
	a := order()
	for _, k := range strings.Split("abcdefghijklmnopqrstuvw", "") {
		if v := tr.MustGet(k); v != k {
			t.Fatal(k, v)
		}
	}
	if b := order(); a != b {
		t.Fatalf("walk order changed by reads: %s -> %s", a, b)
	}
}
'''),
dict(id='s02-dup-shares-plain',prop='P02',subs=[(N,'''	for _, ch := range s.children {
		newNode.children = append(newNode.children, ch.Dup())
	}''','''	for _, ch := range s.children {
		if ch.isEmpty() && len(ch.children) > 1 { // a pure junction holds nothing worth cloning
			newNode.children = append(newNode.children, ch)
			continue
		}
		newNode.children = append(newNode.children, ch.Dup())
	}''')],
 needs='a junction node below the top level, then a write to either copy',breaks='the clone shares whole subtrees with the original',
 test=HDR+'''func TestVerifDemo(t *testing.T) {
	tr := newTrie[any]()
	tr.Set("app.name", "a")
	tr.Set("zoo.name", "z")
	tr.Set("app.node", "b")
	d := tr.Dup()
	tr.Set("app.name", "changed")
	if v := d.MustGet("app.name"); v != "a" {
		t.Fatalf("clone sees the original's write: %v", v)
	}
}
'''),
dict(id='s04-update-prefix-guess',prop='P04',subs=[(T,'''func (s *trieS[T]) Update(path string, cb func(node Node[T], old any)) {
	if s.prefix != "" {''','''func (s *trieS[T]) Update(path string, cb func(node Node[T], old any)) {
	if s.prefix != "" && !strings.HasPrefix(path, s.prefix) { // tolerate full keys''')],
 needs='a prefixed view and a relative key that happens to start with the prefix',breaks='Update through the view addresses the key without its prefix',
 test=HDR+'''func TestVerifDemo(t *testing.T) {
	tr := newTrie[any]()
	v := tr.withPrefixImpl("app")
	v.Update("apple", func(node Node[any], old any) { node.SetData(7) })
	if got := tr.MustGet("app.apple"); got != 7 {
		t.Fatalf("app.apple = %v", got)
	}
}
'''),
]
