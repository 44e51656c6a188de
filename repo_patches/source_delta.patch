From 8b6daad464976d9e6c1e781948a93bfb53837b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:44 +0000
Subject: [PATCH 01/54] fix: storeS.RecursiveMode called itself forever instead
 of the tree's

---
 store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 78b5ab8..1959d4b 100644
--- a/store.go
+++ b/store.go
@@ -485,7 +485,7 @@ func (s *storeS) SetPrefix(newPrefix ...string) {
 func (s *storeS) N() (newStore Store)               { return s.dupS(s.Trie.N()) }
 func (s *storeS) R() (newStore Store)               { return s.dupS(s.Trie.R()) }
 func (s *storeS) BR() (newStore Store)              { return s.dupS(s.Trie.BR()) }
-func (s *storeS) RecursiveMode() radix.RecusiveMode { return s.RecursiveMode() }
+func (s *storeS) RecursiveMode() radix.RecusiveMode { return s.Trie.RecursiveMode() }
 
 // To finds a given path and loads the subtree into
 // 'holder', typically 'holder' could be a struct.
-- 
2.43.0


From 3c880eb9124c205f7a87475f990836eb285da91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:53 +0000
Subject: [PATCH 02/54] fix: cloning a tree dropped the description, comment
 and tag of every node

---
 radix/node.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index bf86cf2..e70cd2b 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -558,9 +558,12 @@ func (s *nodeS[T]) dumpR(sb *strings.Builder, lvl int, noColor bool) string { //
 // The cost of cloneing a large tree or node is expensive.
 func (s *nodeS[T]) Dup() (newNode *nodeS[T]) { //nolint:revive
 	newNode = &nodeS[T]{
-		path:  s.path,
-		pathS: s.pathS,
-		nType: s.nType,
+		path:        s.path,
+		pathS:       s.pathS,
+		description: s.description,
+		comment:     s.comment,
+		tag:         s.tag,
+		nType:       s.nType,
 	}
 
 	newNode.children = make([]*nodeS[T], 0, len(s.children))
-- 
2.43.0


From 639559df2ffab7a8f0328f2d80ddc3dc795c63fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:02 +0000
Subject: [PATCH 03/54] fix: SetNode ignored its tag argument

---
 radix/trie.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radix/trie.go b/radix/trie.go
index 606e87f..8eb6198 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -411,6 +411,7 @@ func (s *trieS[T]) SetNode(path string, data T, tag any, descriptionAndComments
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, old := s.root.insertInternal([]rune(path), path, data, s, nil)
+	node.tag = tag
 	switch len(descriptionAndComments) {
 	case 0:
 	case 1:
-- 
2.43.0


From 39d38f3a4fa9f2153cf29355c87b42df66c289c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:11 +0000
Subject: [PATCH 04/54] fix: a value set on an intermediate node could not be
 read back

---
 radix/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix/node.go b/radix/node.go
index e70cd2b..b1a183b 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -246,7 +246,7 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 		}
 	} else {
 		// hit this node,
-		base.nType |= NTData
+		base.nType |= NTLeaf | NTData
 		node, oldData, base.data = base, base.data, data
 		if cb != nil {
 			cb(fullPath, oldData, node, trie)
-- 
2.43.0


From 0f33c866b57cd0d378b61594fb8b4d174f35a40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:45 +0000
Subject: [PATCH 05/54] fix: overwriting a value raced with the TTL worker that
 clears it under the node lock

---
 radix/node.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index b1a183b..7676be5 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -246,8 +246,10 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 		}
 	} else {
 		// hit this node,
-		base.nType |= NTLeaf | NTData
-		node, oldData, base.data = base, base.data, data
+		base.lockFor(func(n *nodeS[T]) {
+			n.nType |= NTLeaf | NTData
+			node, oldData, n.data = n, n.data, data
+		})
 		if cb != nil {
 			cb(fullPath, oldData, node, trie)
 		}
-- 
2.43.0


From 6de5750f41c41debfdf9e368cb59ca31c393d878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:54 +0000
Subject: [PATCH 06/54] fix: Dump took a node's read lock twice and could
 deadlock with a waiting writer

---
 radix/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix/node.go b/radix/node.go
index 7676be5..a5788e0 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -526,7 +526,7 @@ func (s *nodeS[T]) dumpR(sb *strings.Builder, lvl int, noColor bool) string { //
 				_, _ = sb.WriteString(" ")
 				_, _ = sb.WriteString(s.pathS)
 				_, _ = sb.WriteString(" => ")
-				_, _ = sb.WriteString(ColorToDim(fmt.Sprint(s.Data())))
+				_, _ = sb.WriteString(ColorToDim(fmt.Sprint(s.data)))
 			}
 
 			if s.comment != "" {
-- 
2.43.0


From 861f9004472312eacdc4990d8ee2adc20589cd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:02 +0000
Subject: [PATCH 07/54] fix: splitting a node cut its full key by runes instead
 of bytes

---
 radix/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix/node.go b/radix/node.go
index a5788e0..88895fe 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -267,7 +267,7 @@ func (s *nodeS[T]) split(pos int, word []rune) (newNode *nodeS[T]) {
 	// 	}()
 	// }
 
-	d := len(s.path) - pos
+	d := len(string(s.path[pos:])) // pathS is measured in bytes
 	_ = word
 
 	newNode = &nodeS[T]{
-- 
2.43.0


From 609eb58f0239a74d6a965b04188b2c0b0381fcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:35 +0000
Subject: [PATCH 08/54] fix: every view or clone of a tree with TTLs started a
 worker goroutine nobody stops, bound to the original tree

---
 radix/trie.go | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index 8eb6198..272bc99 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -111,18 +111,6 @@ func newttls[T any](t *trieS[T]) *TTL[T] {
 	return s
 }
 
-func (s *TTL[T]) dupS() *TTL[T] {
-	ctx, cancel := context.WithCancel(context.Background())
-	n := &TTL[T]{
-		treevec: []*trieS[T]{s.treevec[0]},
-		cancel:  cancel,
-		done:    ctx.Done(),
-		adder:   make(chan ttljobS[T]),
-	}
-	go n.run()
-	return n
-}
-
 func (s *TTL[T]) Close() {
 	s.cancel()
 }
@@ -248,10 +236,6 @@ func (s *trieS[T]) dupS(root *nodeS[T], prefix string) (newTrie *trieS[T]) { //n
 		delimiter:     s.delimiter,
 		recursiveMode: s.recursiveMode,
 	}
-	if s.ttlpresent.Load() > 0 {
-		newTrie.ttls = s.ttls.dupS()
-		newTrie.ttlpresent.Add(1)
-	}
 	return
 }
 
-- 
2.43.0


From 98d67752e3a2fba4e0dc5c95c63c6fe0b0b878d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:44 +0000
Subject: [PATCH 09/54] fix: an expiring branch was looked up with the view's
 prefix applied twice

---
 radix/trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix/trie.go b/radix/trie.go
index 272bc99..c926688 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -145,7 +145,7 @@ func (s *TTL[T]) run() {
 						job.action(s, job.node)
 					}
 					if job.node.isBranch() {
-						s.treevec[0].Remove(job.node.pathS)
+						s.treevec[0].withPrefixReplacedImpl().Remove(job.node.pathS) // pathS is a full path already
 					} else {
 						job.node.SetEmpty()
 					}
-- 
2.43.0


From 1a41070a2fe87ab326ea957a9ffa1c8dd2e59588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:53 +0000
Subject: [PATCH 10/54] fix: Close left the TTL worker running

---
 store.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/store.go b/store.go
index 1959d4b..2dbba91 100644
--- a/store.go
+++ b/store.go
@@ -221,6 +221,9 @@ func (s *storeS) Close() {
 	for _, c := range s.closers {
 		c.Close()
 	}
+	if c, ok := s.Trie.(Peripheral); ok {
+		c.Close() // stop the TTL worker, if any
+	}
 }
 
 // MustGet is a shortcut to Get without error returning.
-- 
2.43.0


From 7f13f6151788a4593c468ce0c8cbc28c159565a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:02 +0000
Subject: [PATCH 11/54] fix: radix Merge lost or doubled the target path for
 nested maps and slices

---
 radix/load.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/radix/load.go b/radix/load.go
index 5d1896c..791eaf0 100644
--- a/radix/load.go
+++ b/radix/load.go
@@ -68,7 +68,7 @@ func (s *trieS[T]) loadMap(m map[string]any) (err error) {
 func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k string, v any) { //nolint:revive,unparam
 	switch vv := v.(type) {
 	case map[string]any:
-		ec.Attach(s.withPrefixReplacedImpl(k).loadMap(vv))
+		ec.Attach(s.withPrefixImpl(k).loadMap(vv))
 	case []map[string]any:
 		buf := make([]byte, 0, len(k)+16)
 		for i, mm := range vv {
@@ -81,10 +81,6 @@ func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k strin
 	case []any:
 		buf := make([]byte, 0, len(k)+16)
 		for i, mm := range vv {
-			if s.prefix != "" {
-				buf = append(buf, s.prefix...)
-				buf = append(buf, byte(s.delimiter))
-			}
 			buf = append(buf, k...)
 			buf = append(buf, byte(s.delimiter))
 			buf = strconv.AppendInt(buf, int64(i), 10)
-- 
2.43.0


From d37bd9ac7ceaed372300cb451825f1ae6699db70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:12 +0000
Subject: [PATCH 12/54] fix: radix Merge panicked on a nil or foreign-typed
 value

---
 radix/load.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/radix/load.go b/radix/load.go
index 791eaf0..ea6b322 100644
--- a/radix/load.go
+++ b/radix/load.go
@@ -88,6 +88,10 @@ func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k strin
 			buf = buf[:0]
 		}
 	default:
-		s.Set(k, v.(T))
+		if data, ok := v.(T); ok || v == nil {
+			s.Set(k, data)
+		} else {
+			ec.Attach(errors.New("[radix] Merge: the value of %q is a %T, not storable in this tree", k, v))
+		}
 	}
 }
-- 
2.43.0


From 04b06bb683bf27781a49056516a380255dffd166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:51 +0000
Subject: [PATCH 13/54] fix: Walk ignored the view's prefix

---
 radix/trie.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/radix/trie.go b/radix/trie.go
index c926688..3c26499 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -846,6 +846,9 @@ func (s *trieS[T]) Dup() (newTrie *trieS[T]) { //nolint:revive
 func (s *trieS[T]) Walk(path string, cb func(path, fragment string, node Node[T])) { //nolint:revive
 	root := s.root
 	if path != "" {
+		if s.prefix != "" {
+			path = s.Join(s.prefix, path) //nolint:revive
+		}
 		node, parent, partialMatched := s.search(path, nil)
 		if !partialMatched {
 			root = parent
-- 
2.43.0


From 6ea71d8a609684f2b51715beefb0420edc1615d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:01 +0000
Subject: [PATCH 14/54] fix: GetM of a prefixed view's root cut one character
 too many and included foreign keys

---
 radix/cvter.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index 9a0f345..d33e508 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -420,9 +420,9 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 		for _, opt := range opts {
 			opt(&putter)
 		}
-		prelen := -1
-		if l := len(s.Prefix()); l > 0 {
-			prelen = l + 1 // s.prefix + '.'
+		var lead string
+		if s.prefix != "" {
+			lead = s.prefix + string(s.delimiter)
 		}
 		s.root.Walk(func(path, fragment string, node Node[T]) {
 			if (path == "" || !s.simpleEndsWith(path, s.delimiter)) && !node.IsBranch() {
@@ -433,8 +433,8 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 				}
 				if putter.keepPrefix {
 					ret[path] = node.Data()
-				} else if prelen <= len(path) {
-					ret[path[prelen+1:]] = node.Data()
+				} else if rest, ok := strings.CutPrefix(path, lead); ok {
+					ret[rest] = node.Data()
 				}
 			}
 		})
-- 
2.43.0


From 7e242d6c2a7517b5fa7fcd8f8bbf06e8961f55ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:11 +0000
Subject: [PATCH 15/54] fix: a lookup could report a partial match without a
 node, crashing GetM, GetR and To on an empty tree

---
 radix/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix/node.go b/radix/node.go
index 88895fe..b849273 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -450,7 +450,7 @@ masterLoop:
 	}
 	if minL < wl {
 		if len(base.children) == 0 {
-			matched, partialMatched = false, true
+			matched, partialMatched = false, child != nil
 			return
 		}
 
-- 
2.43.0


From 8d2ba52518e4186ee8beff004a7c8ed6fc5227db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:21 +0000
Subject: [PATCH 16/54] fix: Locate returned a non-nil Node holding a nil
 pointer for an absent key

---
 store.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 2dbba91..786d710 100644
--- a/store.go
+++ b/store.go
@@ -420,7 +420,11 @@ func (s *storeS) Has(path string) (found bool) {
 
 // Locate provides an advanced interface for locating a path.
 func (s *storeS) Locate(path string, kvpair radix.KVPair) (node radix.Node[any], branch, partialMatched, found bool) {
-	return s.Trie.Locate(path, kvpair)
+	nd, branch, partialMatched, found := s.Trie.Locate(path, kvpair)
+	if nd != nil { // never wrap a nil pointer into the interface
+		node = nd
+	}
+	return
 }
 
 // Dump prints internal data tree for debugging
-- 
2.43.0


From 21a80d5d71c13f1be145fb482bb7452d53f31b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:31 +0000
Subject: [PATCH 17/54] fix: GetEx never delivered the matched :ident values to
 its callback

---
 radix/trie.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radix/trie.go b/radix/trie.go
index 3c26499..4725148 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -598,6 +598,7 @@ func (s *trieS[T]) getNode(path string) (node *nodeS[T], data T, kvpair KVPair,
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
+	kvpair = make(KVPair)
 	node, _, partialMatched := s.search(path, kvpair)
 	found := node != nil && !partialMatched
 	if found {
-- 
2.43.0


From 24ff4b9dde7d660ab6f4f4fd32fd69250edaa81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:01 +0000
Subject: [PATCH 18/54] fix: a non-ASCII delimiter was truncated to one byte
 when joining keys

---
 load.go       | 7 ++++---
 radix/load.go | 5 +++--
 radix/trie.go | 6 +++---
 store.go      | 2 +-
 4 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/load.go b/load.go
index e7afe7e..0a86eeb 100644
--- a/load.go
+++ b/load.go
@@ -7,6 +7,7 @@ import (
 	"strconv"
 	"sync/atomic"
 	"time"
+	"unicode/utf8"
 
 	"gopkg.in/hedzr/errors.v3"
 
@@ -194,7 +195,7 @@ func (s *storeS) loadMapByValueType(ec errors.Error, position, k string, v any,
 			buf := make([]byte, 0, len(k)+16)
 			for i, mm := range vv {
 				buf = append(buf, k...)
-				buf = append(buf, byte(s.Delimiter()))
+				buf = utf8.AppendRune(buf, s.Delimiter())
 				buf = strconv.AppendInt(buf, int64(i), 10)
 				ec.Attach(s.loadMap(mm, s.join(position, string(buf)), creating, onSet))
 				buf = buf[:0]
@@ -214,7 +215,7 @@ func (s *storeS) loadMapByValueType(ec errors.Error, position, k string, v any,
 			buf := make([]byte, 0, len(k)+16)
 			for i, mm := range vv {
 				buf = append(buf, k...)
-				buf = append(buf, byte(s.Delimiter()))
+				buf = utf8.AppendRune(buf, s.Delimiter())
 				buf = strconv.AppendInt(buf, int64(i), 10)
 				ec.Attach(s.loadMapAny(mm, s.join(position, string(buf)), creating, onSet))
 				buf = buf[:0]
@@ -238,7 +239,7 @@ func (s *storeS) loadMapByValueType(ec errors.Error, position, k string, v any,
 				// 	buf = append(buf, byte(s.Delimiter()))
 				// }
 				buf = append(buf, k...)
-				buf = append(buf, byte(s.Delimiter()))
+				buf = utf8.AppendRune(buf, s.Delimiter())
 				buf = strconv.AppendInt(buf, int64(i), 10)
 				s.loadMapByValueType(ec, position, string(buf), mm, creating, onSet)
 				buf = buf[:0]
diff --git a/radix/load.go b/radix/load.go
index ea6b322..2bff313 100644
--- a/radix/load.go
+++ b/radix/load.go
@@ -2,6 +2,7 @@ package radix
 
 import (
 	"strconv"
+	"unicode/utf8"
 
 	"gopkg.in/hedzr/errors.v3"
 )
@@ -73,7 +74,7 @@ func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k strin
 		buf := make([]byte, 0, len(k)+16)
 		for i, mm := range vv {
 			buf = append(buf, k...)
-			buf = append(buf, byte(s.delimiter))
+			buf = utf8.AppendRune(buf, s.delimiter)
 			buf = strconv.AppendInt(buf, int64(i), 10)
 			ec.Attach(s.withPrefixImpl(string(buf)).loadMap(mm))
 			buf = buf[:0]
@@ -82,7 +83,7 @@ func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k strin
 		buf := make([]byte, 0, len(k)+16)
 		for i, mm := range vv {
 			buf = append(buf, k...)
-			buf = append(buf, byte(s.delimiter))
+			buf = utf8.AppendRune(buf, s.delimiter)
 			buf = strconv.AppendInt(buf, int64(i), 10)
 			s.loadMapByValueType(ec, m, string(buf), mm)
 			buf = buf[:0]
diff --git a/radix/trie.go b/radix/trie.go
index 4725148..a7bdcf2 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -313,7 +313,7 @@ func (s *trieS[T]) join1(pre string, args ...string) (ret string) {
 
 	for _, it := range args {
 		if it != "" {
-			_ = bb.WriteByte(byte(s.delimiter))
+			_, _ = bb.WriteRune(s.delimiter)
 			_, _ = bb.WriteString(it)
 			i++
 		}
@@ -337,7 +337,7 @@ func (s *trieS[T]) Join(args ...string) (ret string) {
 		for _, it := range args {
 			if it != "" {
 				if bytes > 0 {
-					_ = bb.WriteByte(byte(s.delimiter))
+					_, _ = bb.WriteRune(s.delimiter)
 				}
 				_, _ = bb.WriteString(it)
 				bytes++ //nolint:revive
@@ -351,7 +351,7 @@ func (s *trieS[T]) Join(args ...string) (ret string) {
 	// for _, it := range args {
 	// 	if it != "" {
 	// 		if i > 0 {
-	// 			_ = bb.WriteByte(byte(s.delimiter))
+	// 			_, _ = bb.WriteRune(s.delimiter)
 	// 		}
 	// 		_, _ = bb.WriteString(it)
 	// 		i++
diff --git a/store.go b/store.go
index 786d710..7971bb4 100644
--- a/store.go
+++ b/store.go
@@ -206,7 +206,7 @@ func (s *storeS) join(args ...string) (ret string) {
 	for _, it := range args {
 		if it != "" {
 			if i > 0 {
-				bb.WriteByte(byte(s.Delimiter()))
+				bb.WriteRune(s.Delimiter())
 			}
 			bb.WriteString(it)
 			i++
-- 
2.43.0


From 45e0bbc69f4904c9d53da45467eaf39a281e7682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:10 +0000
Subject: [PATCH 19/54] fix: Load dropped the description, comment and tag
 delivered by a provider

---
 store.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/store.go b/store.go
index 7971bb4..b8e3daf 100644
--- a/store.go
+++ b/store.go
@@ -333,14 +333,14 @@ func (s *storeS) setKV(path string, data any, createOrModify bool, onSet lmOnSet
 	node, oldData = s.Trie.Set(path, data)
 	loading := s.inLoading()
 	user := !loading
+	if node != nil && onSet != nil {
+		onSet(node)
+	}
 	if user {
 		if oldData != nil {
 			createOrModify = false // set it to is-modifying instead of is-creating
 		}
 		if node != nil {
-			if onSet != nil {
-				onSet(node)
-			}
 			node.SetModified(true)
 		}
 	}
-- 
2.43.0


From be1c1b8984c17e1f65ce177c5c907c5f23cf91e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:19 +0000
Subject: [PATCH 20/54] fix: loading from a stream provider always failed by
 decoding an empty document

---
 load.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/load.go b/load.go
index 0a86eeb..08e530f 100644
--- a/load.go
+++ b/load.go
@@ -520,13 +520,13 @@ func (s *Loader) tryLoad(ctx context.Context) (data map[string]ValPkg, bin map[s
 		case OnceProvider:
 			b, err = fp.ReadBytes()
 		case StreamProvider:
-			err = nil
+			data = make(map[string]ValPkg)
 			for {
 				k, eol := fp.Next()
 				if eol {
-					break
+					return data, nil, nil // nothing to decode for a stream
 				}
-				s.setKV(k, fp.MustValue(k), true, nil)
+				data[k] = ValPkg{Value: fp.MustValue(k)}
 			}
 		}
 	}
-- 
2.43.0


From db990e8ba9565d5c3041096cc0e5e74fc1439f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:28 +0000
Subject: [PATCH 21/54] fix: Load with WithStorePrefix left its view in loading
 state and its watcher out of reach of Close

---
 load.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/load.go b/load.go
index 08e530f..6dc68d3 100644
--- a/load.go
+++ b/load.go
@@ -94,6 +94,12 @@ func (s *storeS) Load(ctx context.Context, opts ...LoadOpt) (wr Writeable, err e
 		defer func() { atomic.CompareAndSwapInt32(&s.loading, 1, 0) }()
 
 		loader := newLoader(s, opts...)
+		if loader.storeS != s { // WithStorePrefix gave it a view of its own
+			defer func() {
+				atomic.StoreInt32(&loader.storeS.loading, 0)
+				s.closers, loader.storeS.closers = append(s.closers, loader.storeS.closers...), nil
+			}()
+		}
 
 		if loader.copy != nil {
 			*loader.copy = loader
-- 
2.43.0


From 640e5ec7ed5381e0e9f159818441bcc679a91885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:26 +0000
Subject: [PATCH 22/54] fix: handlers were told the opposite of whether a load
 is in progress

---
 store.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/store.go b/store.go
index b8e3daf..65fcccd 100644
--- a/store.go
+++ b/store.go
@@ -344,18 +344,18 @@ func (s *storeS) setKV(path string, data any, createOrModify bool, onSet lmOnSet
 			node.SetModified(true)
 		}
 	}
-	s.tryOnSet(path, user, oldData, data, createOrModify)
+	s.tryOnSet(path, loading, oldData, data, createOrModify)
 	return
 }
 
-func (s *storeS) tryOnSet(path string, user bool, oldData, data any, createOrModify bool) {
+func (s *storeS) tryOnSet(path string, loading bool, oldData, data any, createOrModify bool) {
 	ptr := s
 
 	if createOrModify {
 	retryPN:
 		for _, cb := range ptr.onNewHandlers {
 			if cb != nil {
-				cb(path, data, user)
+				cb(path, data, loading)
 			}
 		}
 		if ptr.parent != nil {
@@ -368,7 +368,7 @@ func (s *storeS) tryOnSet(path string, user bool, oldData, data any, createOrMod
 retryPM:
 	for _, cb := range ptr.onChangeHandlers {
 		if cb != nil {
-			cb(path, data, oldData, user)
+			cb(path, data, oldData, loading)
 		}
 	}
 	if ptr.parent != nil {
@@ -377,13 +377,13 @@ retryPM:
 	}
 }
 
-func (s *storeS) tryOnDelete(path string, user bool, oldData any, node, np radix.Node[any]) {
+func (s *storeS) tryOnDelete(path string, loading bool, oldData any, node, np radix.Node[any]) {
 	ptr := s
 	_, _ = node, np
 retryPD:
 	for _, cb := range ptr.OnDeleteHandlers {
 		if cb != nil {
-			cb(path, oldData, user)
+			cb(path, oldData, loading)
 		}
 	}
 	if ptr.parent != nil {
@@ -398,7 +398,7 @@ func (s *storeS) Remove(path string) (removed bool) {
 	if removed {
 		loading := s.inLoading()
 		data := rmn.Data()
-		s.tryOnDelete(path, !loading, data, rmn, np)
+		s.tryOnDelete(path, loading, data, rmn, np)
 	}
 	return
 }
@@ -408,7 +408,7 @@ func (s *storeS) RemoveEx(path string) (nodeRemoved, nodeParent radix.Node[any],
 	if removed {
 		loading := s.inLoading()
 		data := nodeRemoved.Data()
-		s.tryOnDelete(path, !loading, data, nodeRemoved, nodeParent)
+		s.tryOnDelete(path, loading, data, nodeRemoved, nodeParent)
 	}
 	return
 }
-- 
2.43.0


From 75801edd68b1b608b7f97ddff3cfa4358f0bd858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:41 +0000
Subject: [PATCH 23/54] fix: the gob codec reused its first buffer and never
 returned the encoded bytes

---
 codecs/gob/gob.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/codecs/gob/gob.go b/codecs/gob/gob.go
index bf39032..1a7fc57 100644
--- a/codecs/gob/gob.go
+++ b/codecs/gob/gob.go
@@ -17,27 +17,19 @@ func New() store.Codec {
 	return &ldr{}
 }
 
-type ldr struct {
-	dec *gob.Decoder
-	enc *gob.Encoder
-}
+type ldr struct{}
 
 // Unmarshal parses the given bytes.
 func (p *ldr) Unmarshal(b []byte) (data map[string]any, err error) {
-	if p.dec == nil {
-		r := bytes.NewReader(b)
-		p.dec = gob.NewDecoder(r)
-	}
-	err = p.dec.Decode(&data)
+	err = gob.NewDecoder(bytes.NewReader(b)).Decode(&data)
 	return
 }
 
 // Marshal marshals the given config map to bytes.
 func (p *ldr) Marshal(m map[string]any) (data []byte, err error) {
-	if p.enc == nil {
-		sb := bytes.NewBuffer(data)
-		p.enc = gob.NewEncoder(sb)
+	var buf bytes.Buffer
+	if err = gob.NewEncoder(&buf).Encode(m); err == nil {
+		data = buf.Bytes()
 	}
-	err = p.enc.Encode(m)
 	return
 }
-- 
2.43.0


From 314f0d47d241ece3a8194dbfc4801964772ecfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:47 +0000
Subject: [PATCH 24/54] fix: the json codec discarded its pretty output and
 leaked the file it loads

---
 codecs/json/json.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codecs/json/json.go b/codecs/json/json.go
index d2fa6d4..65a756a 100644
--- a/codecs/json/json.go
+++ b/codecs/json/json.go
@@ -44,7 +44,7 @@ func (p *ldr) Unmarshal(b []byte) (data map[string]any, err error) {
 // Marshal marshals the given config map to JSON bytes.
 func (p *ldr) Marshal(m map[string]any) (data []byte, err error) {
 	if p.pretty {
-		json.MarshalIndent(m, "", "  ")
+		return json.MarshalIndent(m, "", "  ")
 	}
 	return json.Marshal(m)
 }
@@ -57,6 +57,7 @@ func (l *ldr) Load(file string) (data map[string]any, err error) {
 	if f, err = os.Open(file); err != nil {
 		return
 	}
+	defer f.Close()
 	dec := json.NewDecoder(f)
 	if err = dec.Decode(&data); err != nil {
 		return
-- 
2.43.0


From ec19064918b61c964e7279c8d855038fb95ccbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:54 +0000
Subject: [PATCH 25/54] fix: yaml Load decoded into a nil map and Load/Save
 leaked their files

---
 codecs/yaml/yaml.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/codecs/yaml/yaml.go b/codecs/yaml/yaml.go
index 9d26376..5e16e6a 100644
--- a/codecs/yaml/yaml.go
+++ b/codecs/yaml/yaml.go
@@ -33,8 +33,9 @@ func (l *ldr) Load(file string) (data map[string]any, err error) {
 	if f, err = os.Open(file); err != nil {
 		return
 	}
+	defer f.Close()
 	dec := yamlv3.NewDecoder(f)
-	if err = dec.Decode(data); err != nil {
+	if err = dec.Decode(&data); err != nil {
 		return
 	}
 	return
@@ -45,9 +46,14 @@ func (l *ldr) Save(file string, data map[string]any) (err error) {
 	if f, err = os.Create(file); err != nil {
 		return
 	}
+	defer func() {
+		if e := f.Close(); err == nil {
+			err = e
+		}
+	}()
 	enc := yamlv3.NewEncoder(f)
 	if err = enc.Encode(data); err != nil {
 		return
 	}
-	return
+	return enc.Close()
 }
-- 
2.43.0


From cdc00bc8557e7a63c532e4465c3e7377c8249f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:00 +0000
Subject: [PATCH 26/54] fix: hcl Marshal dropped encoding errors

---
 codecs/hcl/hcl.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/codecs/hcl/hcl.go b/codecs/hcl/hcl.go
index 5e48d85..c604eab 100644
--- a/codecs/hcl/hcl.go
+++ b/codecs/hcl/hcl.go
@@ -95,11 +95,11 @@ func ctyValue(v any) (ret cty.Value, err error) {
 				var values []cty.Value
 				for ix := 0; ix < l; ix++ {
 					iv := rv.Index(ix)
-					if val, err := ctyValue(iv.Interface()); err == nil {
-						values = append(values, val)
-					} else {
-						err = fmt.Errorf("[hcl-write][ctyValue] unprocessed v: v = %+v\n", v)
+					val, e := ctyValue(iv.Interface())
+					if e != nil {
+						return ret, e
 					}
+					values = append(values, val)
 				}
 				ret = cty.ListVal(values)
 			} else {
@@ -112,33 +112,40 @@ func ctyValue(v any) (ret cty.Value, err error) {
 	return
 }
 
-func fill(p *ldr, body *hclwrite.Body, k string, v any) {
+func fill(p *ldr, body *hclwrite.Body, k string, v any) (err error) {
 	switch z := v.(type) {
 	case map[string]any:
 		bazBlock := body.AppendNewBlock(k, nil)
 		bazBody := bazBlock.Body()
-		p.fill(bazBody, z)
+		err = p.fill(bazBody, z)
 
 	default:
-		val, err := ctyValue(z)
+		var val cty.Value
+		val, err = ctyValue(z)
 		if err != nil {
-			err = fmt.Errorf("[hcl-write][fill] unprocessed k: k = %v, err: %w\n", k, err)
+			return fmt.Errorf("[hcl-write][fill] unprocessed k: k = %v, err: %w\n", k, err)
 		}
 		body.SetAttributeValue(k, val)
 	}
+	return
 }
 
-func (p *ldr) fill(body *hclwrite.Body, m map[string]any) {
+func (p *ldr) fill(body *hclwrite.Body, m map[string]any) (err error) {
 	for k, v := range m {
-		fill(p, body, k, v)
+		if err = fill(p, body, k, v); err != nil {
+			return
+		}
 	}
+	return
 }
 
 // Marshal marshals the given config map to hcl bytes.
 func (p *ldr) Marshal(m map[string]any) (data []byte, err error) {
 	f := hclwrite.NewEmptyFile()
 	rootBody := f.Body()
-	p.fill(rootBody, m)
+	if err = p.fill(rootBody, m); err != nil {
+		return
+	}
 
 	// rootBody.SetAttributeValue("string", cty.StringVal("bar")) // this is overwritten later
 	// rootBody.AppendNewline()
-- 
2.43.0


From b2e10cb8b895507dfca67e662dd304f461fea5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:07 +0000
Subject: [PATCH 27/54] fix: a nested hjson decoding error was overwritten by
 the next sibling

---
 codecs/hjson/hjson.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/codecs/hjson/hjson.go b/codecs/hjson/hjson.go
index a9486ce..4b17564 100644
--- a/codecs/hjson/hjson.go
+++ b/codecs/hjson/hjson.go
@@ -83,7 +83,9 @@ func (p *ldr) decode(data map[string]store.ValPkg, node *hjson.Node) (err error)
 		switch v.(type) {
 		case *hjson.OrderedMap:
 			nm := make(map[string]store.ValPkg)
-			err = p.decode(nm, n)
+			if err = p.decode(nm, n); err != nil {
+				return
+			}
 			data[k] = store.ValPkg{Value: nm,
 				Desc: cm.Before, Comment: cm.Key + cm.After, Tag: nil}
 			continue
@@ -98,7 +100,9 @@ func (p *ldr) decode(data map[string]store.ValPkg, node *hjson.Node) (err error)
 			// k = strconv.Itoa(i)
 			data[k] = store.ValPkg{Value: nm,
 				Desc: cm.Before, Comment: cm.Key + cm.After, Tag: nil}
-			err = p.decode(nm, n)
+			if err = p.decode(nm, n); err != nil {
+				return
+			}
 			continue
 		default:
 			data[k] = store.ValPkg{Value: v,
-- 
2.43.0


From 52652b321e91453bc843d881f2429445858d7534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:13 +0000
Subject: [PATCH 28/54] fix: env and flags providers reported end of keys
 inverted, panicking past the last key

---
 providers/env/env.go     | 2 +-
 providers/flags/flags.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/providers/env/env.go b/providers/env/env.go
index 8478937..82768fc 100644
--- a/providers/env/env.go
+++ b/providers/env/env.go
@@ -150,7 +150,7 @@ func (s *pvdr) Has(key string) bool {
 }
 
 func (s *pvdr) Next() (key string, eol bool) {
-	if eol = s.pos < len(s.keys); !eol {
+	if eol = s.pos >= len(s.keys); !eol {
 		key = s.keys[s.pos]
 		s.pos++
 	}
diff --git a/providers/flags/flags.go b/providers/flags/flags.go
index b6700b9..45215b8 100644
--- a/providers/flags/flags.go
+++ b/providers/flags/flags.go
@@ -144,7 +144,7 @@ func (s *pvdr) Has(key string) bool {
 }
 
 func (s *pvdr) Next() (key string, eol bool) {
-	if eol = s.pos < len(s.keys); !eol {
+	if eol = s.pos >= len(s.keys); !eol {
 		key = s.keys[s.pos]
 		s.pos++
 	}
-- 
2.43.0


From 6873e83973cc1e86ce8fff94b828168057d684d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:20 +0000
Subject: [PATCH 29/54] fix: env and flags providers panicked on a key that is
 empty after stripping

---
 providers/env/env.go     | 2 +-
 providers/flags/flags.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/providers/env/env.go b/providers/env/env.go
index 82768fc..40f8627 100644
--- a/providers/env/env.go
+++ b/providers/env/env.go
@@ -122,7 +122,7 @@ func (s *pvdr) prepare() (err error) {
 			if s.stripped != "" {
 				k = strings.TrimPrefix(k, s.stripped)
 			}
-			if s.underline2dot {
+			if s.underline2dot && k != "" {
 				k = k[:1] + re.ReplaceAllString(k[1:], "$1.$2")
 			}
 			if s.cb != nil {
diff --git a/providers/flags/flags.go b/providers/flags/flags.go
index 45215b8..167bd9c 100644
--- a/providers/flags/flags.go
+++ b/providers/flags/flags.go
@@ -106,7 +106,7 @@ func (s *pvdr) prepare() (err error) {
 		if s.stripped != "" {
 			k = strings.TrimPrefix(k, s.stripped)
 		}
-		if s.underline2dot {
+		if s.underline2dot && k != "" {
 			k = k[:1] + re.ReplaceAllString(k[1:], "$1.$2")
 		}
 		if s.cb != nil {
-- 
2.43.0


From f27db168ac237b1377f9a26c244d27d002468669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:34 +0000
Subject: [PATCH 30/54] fix: building a nested map wrote into the map values
 stored in the tree

---
 radix/cvter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/radix/cvter.go b/radix/cvter.go
index d33e508..cc748ac 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -2,6 +2,7 @@ package radix
 
 import (
 	"fmt"
+	"maps"
 	"strconv"
 	"strings"
 	"time"
@@ -513,6 +514,8 @@ func (s *trieS[T]) submap(src map[string]any, keys []string, v any) {
 	k, rest := keys[0], keys[1:]
 	if m1, ok := src[k]; ok {
 		if m2, ok := m1.(map[string]any); ok {
+			m2 = maps.Clone(m2) // it may be a value in the tree
+			src[k] = m2
 			s.submap(m2, rest, v)
 		}
 	} else {
@@ -661,6 +664,8 @@ func (s *prefixPutter[T]) putKeys(m map[string]any, keys []string, v any) {
 	k, rest := keys[0], keys[1:]
 	if c, ok := m[k]; ok {
 		if cm, ok := c.(map[string]any); ok {
+			cm = maps.Clone(cm) // it may be a value in the tree
+			m[k] = cm
 			s.putKeys(cm, rest, v)
 			// } else {
 			// 	// ? panic
-- 
2.43.0


From 50762236c02408e272a3adbe2c587ea1006b0dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:45 +0000
Subject: [PATCH 31/54] fix: size strings with a multi-byte character before
 the unit panicked

---
 radix/cvter.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index cc748ac..24fb202 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -6,6 +6,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 
 	logz "github.com/hedzr/logg/slog"
 
@@ -1557,12 +1558,12 @@ func (s *trieS[T]) FromKibiBytes(sz string) (ir64 uint64) {
 	var err error
 	if strings.ContainsRune(szr, '.') {
 		if if64, err = strconv.ParseFloat(szr, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 = uint64(if64 * float64(s.fromKibiBytes(r)))
 		}
 	} else {
 		if ir64, err = strconv.ParseUint(szr, 0, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 *= s.fromKibiBytes(r)
 		}
 	}
@@ -1643,12 +1644,12 @@ func (s *trieS[T]) FromKiloBytes(sz string) (ir64 uint64) {
 	var err error
 	if strings.ContainsRune(szr, '.') {
 		if if64, err = strconv.ParseFloat(szr, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 = uint64(if64 * float64(s.fromKilobytes(r)))
 		}
 	} else {
 		if ir64, err = strconv.ParseUint(szr, 0, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 *= s.fromKilobytes(r)
 		}
 	}
-- 
2.43.0


From 2187395394424ed75adba9793b3ad8927ba8586a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:55 +0000
Subject: [PATCH 32/54] fix: Op text written by MarshalText could not be read
 by UnmarshalText

---
 op.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op.go b/op.go
index 7244e83..cbfe872 100644
--- a/op.go
+++ b/op.go
@@ -33,7 +33,7 @@ var opStringsRev = map[string]Op{
 
 func (s *Op) UnmarshalText(text []byte) error {
 	// panic("implement me")
-	op, ok := opStringsRev[string(text)]
+	op, ok := opStringsRev[strings.ToLower(string(text))]
 	if ok {
 		*s = op
 		return nil
@@ -46,7 +46,7 @@ func (s *Op) MarshalText() (text []byte, err error) {
 	if ok {
 		return []byte(strings.ToUpper(sz)), nil
 	}
-	return []byte(fmt.Sprintf("Op(%d)", s)), nil
+	return []byte(fmt.Sprintf("Op(%d)", uint32(*s))), nil
 }
 
 func (s *Op) Marshal() []byte {
-- 
2.43.0


From b7b0df0e6a784e9e61da57076129597ffe3c4c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:03 +0000
Subject: [PATCH 33/54] fix: the file watcher leaked its fsnotify handle and
 stayed marked as watching

---
 providers/file/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/providers/file/file.go b/providers/file/file.go
index d77c43e..65771ba 100644
--- a/providers/file/file.go
+++ b/providers/file/file.go
@@ -157,9 +157,11 @@ func (s *pvdr) watchRunner(ctx context.Context, cb func(event any, err error), w
 		lastChange = changeS{provider: s}
 	)
 
+	defer w.Close()
 	if !atomic.CompareAndSwapInt32(&s.watching, 0, 1) {
 		return
 	}
+	defer atomic.StoreInt32(&s.watching, 0)
 
 	var ok bool
 	var err error
@@ -228,6 +230,4 @@ loop:
 			break loop
 		}
 	}
-
-	w.Close()
 }
-- 
2.43.0


From db3133c67ddc91607265fc47ca1ae3082201a3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:11 +0000
Subject: [PATCH 34/54] fix: watching a file given without directory always
 failed

---
 providers/file/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/providers/file/file.go b/providers/file/file.go
index 65771ba..caaaedf 100644
--- a/providers/file/file.go
+++ b/providers/file/file.go
@@ -136,7 +136,7 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 
 	// Although only a single file is being watched, fsnotify has to watch
 	// the whole parent directory to pick up all events such as symlink changes.
-	fDir, _ := filepath.Split(s.file)
+	fDir := filepath.Dir(s.file)
 
 	var w *fsnotify.Watcher
 	w, err = fsnotify.NewWatcher()
@@ -190,7 +190,7 @@ loop:
 
 			// Since the event is triggered on a directory, is this
 			// one on the file being watched?
-			if evFile != realPath && evFile != s.file {
+			if evFile != realPath && evFile != filepath.Clean(s.file) {
 				continue
 			}
 
-- 
2.43.0


From 9a2b56ce165e7f38798318779d065c6dfc4c2dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:18 +0000
Subject: [PATCH 35/54] fix: the etcd watcher spun on a closed channel and
 ignored its context

---
 providers/etcd/etcd.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/providers/etcd/etcd.go b/providers/etcd/etcd.go
index bf1e380..84309ec 100644
--- a/providers/etcd/etcd.go
+++ b/providers/etcd/etcd.go
@@ -235,16 +235,19 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) error {
 
 	go func() {
 		if s.prefixOrKey {
-			w = s.Client.Watch(context.Background(), s.storePrefix, clientv3.WithPrefix())
+			w = s.Client.Watch(ctx, s.storePrefix, clientv3.WithPrefix())
 		} else {
-			w = s.Client.Watch(context.Background(), s.storePrefix)
+			w = s.Client.Watch(ctx, s.storePrefix)
 		}
 
 		for {
 			select {
 			case <-ctx.Done():
 				return
-			case wresp := <-w:
+			case wresp, ok := <-w:
+				if !ok {
+					return
+				}
 				for _, ev := range wresp.Events {
 					lastChange.Set(ev)
 					cb(&lastChange, nil)
-- 
2.43.0


From f98e3d4ae3df4256a515196842ecec4b95ff1bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:24 +0000
Subject: [PATCH 36/54] fix: the consul provider crashed on a missing key and
 its watcher wrote the returned error

---
 providers/consul/consul.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/providers/consul/consul.go b/providers/consul/consul.go
index 05f43c5..287d5ce 100644
--- a/providers/consul/consul.go
+++ b/providers/consul/consul.go
@@ -205,7 +205,7 @@ func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
 	}
 
 	pair, _, err = kv.Get(s.position, nil)
-	if err != nil {
+	if err != nil || pair == nil {
 		return
 	}
 
@@ -312,7 +312,7 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 		// no need to try to shutdown from ctx triggering. because the
 		// plan will be stopped while consul Client.Close() called.
 
-		err = s.plan.Run(s.config.Address)
+		err := s.plan.Run(s.config.Address)
 		if err != nil {
 			slog.Error("consul watching plan has error", "err", err)
 			return
-- 
2.43.0


From dc7389fc3912bb96f9385b5b92195a1b9b6012a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:26 +0000
Subject: [PATCH 37/54] fix: Merge ignored the prefix of the view it is called
 on

---
 store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 65fcccd..5cc2576 100644
--- a/store.go
+++ b/store.go
@@ -301,7 +301,7 @@ func (s *storeS) Merge(pathAt string, data map[string]any) (err error) {
 	// 	return
 	// }
 
-	err = s.loadMap(data, pathAt, false, nil)
+	err = s.loadMap(data, s.join(s.Prefix(), pathAt), false, nil) // loadMap takes a full path
 	// s.tryOnSet(pathAt, true, old, data)
 	return
 }
-- 
2.43.0


From 148a78afd921257554cfb2b7522cd0ecdafdece6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:07 +0000
Subject: [PATCH 38/54] fix: SetEx calls its callback exactly once per
 insertion

---
 radix/node.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index b849273..bc250d4 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -207,6 +207,9 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 	if ourLen == 0 {
 		if wordLen > 0 && len(s.children) == 0 {
 			node = base.insertAsLeaf(word, fullPath, data)
+			if cb != nil {
+				cb(fullPath, nil, node, trie)
+			}
 			return
 		}
 	}
@@ -233,10 +236,7 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 			var n Node[T]
 			n, oldData = child.insert(word, fullPath, data, trie, cb)
 			if nn, ok := n.(*nodeS[T]); ok {
-				node = nn
-				if cb != nil {
-					cb(fullPath, oldData, node, trie)
-				}
+				node = nn // cb has been called for it already
 			}
 		} else {
 			node = base.insertAsLeaf(word, fullPath, data)
-- 
2.43.0


From 1c297a83f7c02e449c380438f097251eb9bc1968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:39 +0000
Subject: [PATCH 39/54] fix: a TTL follows its key when the node is split by a
 later insertion

---
 radix/node.go |  1 +
 radix/trie.go | 10 +++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/radix/node.go b/radix/node.go
index bc250d4..d92b30b 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -279,6 +279,7 @@ func (s *nodeS[T]) split(pos int, word []rune) (newNode *nodeS[T]) {
 		comment:     s.comment,
 		tag:         s.tag,
 		nType:       s.nType,
+		rw:          s.rw,
 	}
 	assert(strings.HasSuffix(newNode.pathS, string(newNode.path)), "newNode: pathS should end with path")
 
diff --git a/radix/trie.go b/radix/trie.go
index a7bdcf2..e745cb2 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -93,6 +93,7 @@ type wheelAction func(ctx context.Context, w *wheelS)
 
 type ttljobS[T any] struct {
 	node     *nodeS[T]
+	key      string // full path of the node when the job was added
 	duration time.Duration
 	action   OnTTLRinging[T]
 }
@@ -121,7 +122,7 @@ func (s *TTL[T]) Add(nd *nodeS[T], duration time.Duration, action OnTTLRinging[T
 	if nd.rw == nil {
 		nd.rw = &sync.RWMutex{}
 	}
-	s.adder <- ttljobS[T]{node: nd, duration: duration, action: action}
+	s.adder <- ttljobS[T]{node: nd, key: nd.pathS, duration: duration, action: action}
 }
 
 func (s *TTL[T]) run() {
@@ -141,6 +142,13 @@ func (s *TTL[T]) run() {
 			for {
 				select {
 				case <-timer.C:
+					if job.node.pathS != job.key { // the node was split, its contents moved down
+						nd, _, partialMatched := s.treevec[0].withPrefixReplacedImpl().search(job.key, nil)
+						if nd == nil || partialMatched {
+							return
+						}
+						job.node = nd
+					}
 					if job.action != nil {
 						job.action(s, job.node)
 					}
-- 
2.43.0


From 16c8520fa4cdb3ddcee1950b4e9daa28f8997fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:49 +0000
Subject: [PATCH 40/54] fix: SetComment and SetTag leave other keys alone on a
 partial match

---
 radix/trie.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index e745cb2..b210105 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -445,8 +445,8 @@ func (s *trieS[T]) SetComment(path, description, comment string) (ok bool) { //n
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, _ := s.search(path, nil)
-	if ok = node != nil; ok {
+	node, _, partialMatched := s.search(path, nil)
+	if ok = node != nil && !partialMatched; ok {
 		node.description, node.comment = description, comment
 	}
 	return
@@ -459,8 +459,8 @@ func (s *trieS[T]) SetTag(path string, tag any) (ok bool) { //nolint:revive// se
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, _ := s.search(path, nil)
-	if ok = node != nil; ok {
+	node, _, partialMatched := s.search(path, nil)
+	if ok = node != nil && !partialMatched; ok {
 		node.tag = tag
 	}
 	return
-- 
2.43.0


From 44a5c0851df54e55bb5827d057f8aeeb417116c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:12 +0000
Subject: [PATCH 41/54] fix: lookup through a :ident failed when ident and
 value differ in length

---
 radix/node.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index d92b30b..d9c19f8 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -449,16 +449,16 @@ masterLoop:
 	} else if minL >= l && srcMatchedL == minL && minL > 0 && srcMatchedL > 0 && !partialMatched {
 		matched, child, parent = true, base, parentNode
 	}
-	if minL < wl {
+	if dstMatchedL == 0 {
+		dstMatchedL = minL
+	}
+	if dstMatchedL < wl { // an ident and its value might be different in length
 		if len(base.children) == 0 {
 			matched, partialMatched = false, child != nil
 			return
 		}
 
 		// restPart := word[minL:]
-		if dstMatchedL == 0 {
-			dstMatchedL = minL
-		}
 		restPart := word[dstMatchedL:]
 		for _, child = range base.children {
 			matched, partialMatched, child, parent = child.matchR(mctx, restPart, lastRuneIsDelimiter, s, kvpair)
-- 
2.43.0


From 5c2bcf610085b3d60327089cc4925707b1e4f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:52 +0000
Subject: [PATCH 42/54] fix: GetM lost levels below a path of two or more
 segments

---
 radix/cvter.go | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index 24fb202..4cf2013 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -449,16 +449,11 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 	nodeX, branch, partialMatched, found = s.Locate(path, nil)
 	if found || partialMatched {
 		_, _, ret = branch, partialMatched, make(map[string]any)
-		putter := prefixPutter[T]{prefix: strings.Split(s.Join(s.prefix, path), string(s.delimiter))}
+		delimiter := string(s.delimiter)
+		putter := prefixPutter[T]{prefix: strings.Split(strings.TrimSuffix(s.Join(s.prefix, path), delimiter), delimiter)}
 		for _, opt := range opts {
 			opt(&putter)
 		}
-		prelen := -1
-		if l := len(s.Prefix()); l > 0 {
-			prelen = l + 1
-		}
-		prelen += len(path) + 1
-		prelen--
 		logz.Verbose("[GetM] loop subtree and return as a map", "path", putter.prefix)
 		nodeX.Walk(func(path, fragment string, node Node[T]) {
 			if !s.simpleEndsWith(path, s.delimiter) && !node.IsBranch() {
@@ -468,13 +463,7 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 						return
 					}
 				}
-				if putter.keepPrefix {
-					putter.put(ret, path, string(s.delimiter), node.Data())
-				} else if prelen+1 == len(path) {
-					putter.put(ret, fragment, string(s.delimiter), node.Data())
-				} else if prelen < len(path) {
-					putter.put(ret, path[prelen+1:], string(s.delimiter), node.Data())
-				}
+				putter.put(ret, path, delimiter, node.Data())
 			}
 		})
 		logz.Verbose("[GetM] ", "ret", ret)
-- 
2.43.0


From 961be8cb4f604e270e1478838fd81e503329f12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:03 +0000
Subject: [PATCH 43/54] fix: TTL expiry in upward mode never ends another key

When the key of a pending TTL job is gone, the lookup at expiry (in a tree
of the upward recursive mode) went on with shortened keys and the job ended
whatever those located.
---
 radix/trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix/trie.go b/radix/trie.go
index b210105..e309b32 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -144,7 +144,7 @@ func (s *TTL[T]) run() {
 				case <-timer.C:
 					if job.node.pathS != job.key { // the node was split, its contents moved down
 						nd, _, partialMatched := s.treevec[0].withPrefixReplacedImpl().search(job.key, nil)
-						if nd == nil || partialMatched {
+						if nd == nil || partialMatched || nd.pathS != job.key {
 							return
 						}
 						job.node = nd
-- 
2.43.0


From 813a6f9d43ebb093ed35afc82e7e94ea017dd41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:26 +0000
Subject: [PATCH 44/54] fix: maps provider lost entries when a dotted key and
 its parent both occur

---
 internal/cvt/cvt.go | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/internal/cvt/cvt.go b/internal/cvt/cvt.go
index 5c9778a..891746a 100644
--- a/internal/cvt/cvt.go
+++ b/internal/cvt/cvt.go
@@ -2,6 +2,7 @@ package cvt
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/hedzr/evendeep"
@@ -70,8 +71,14 @@ func normalize(m map[string]any, key string, val any, worker func(k string, v an
 func Deflate(m map[string]any, delimiter string) (data map[string]any) {
 	data = make(map[string]any)
 
-	// Iterate through the flat conf map.
-	for k, v := range m {
+	// Iterate through the flat conf map, parents before their children.
+	flat := make([]string, 0, len(m))
+	for k := range m {
+		flat = append(flat, k)
+	}
+	sort.Strings(flat)
+
+	for _, k := range flat {
 		var (
 			keys = strings.Split(k, delimiter)
 			next = data
@@ -79,20 +86,35 @@ func Deflate(m map[string]any, delimiter string) (data map[string]any) {
 
 		// Iterate through key parts, for eg:, parent.child.key
 		// will be ["parent", "child", "key"]
-		for _, kk := range keys[:len(keys)-1] {
-			sub, ok := next[kk]
+		for len(keys) > 1 {
+			sub, ok := next[keys[0]]
 			if !ok {
 				// If the key does not exist in the map, create it.
 				sub = make(map[string]any)
-				next[kk] = sub
+				next[keys[0]] = sub
 			}
-			if n, ok1 := sub.(map[string]any); ok1 {
-				next = n
+			n, ok1 := sub.(map[string]any)
+			if !ok1 {
+				break // the parent holds a value, keep the rest of the key as it is
 			}
+			next, keys = n, keys[1:]
 		}
 
 		// Assign the value.
-		next[keys[len(keys)-1]] = v
+		merge(next, strings.Join(keys, delimiter), m[k])
 	}
 	return
 }
+
+// merge assigns val to key; the entries of a map go into a map being there already.
+func merge(m map[string]any, key string, val any) {
+	if src, ok := val.(map[string]any); ok {
+		if dst, ok := m[key].(map[string]any); ok {
+			for k, v := range src {
+				merge(dst, k, v)
+			}
+			return
+		}
+	}
+	m[key] = val
+}
-- 
2.43.0


From c85429aa64c2087391d0f9a066c0d9c28dee1f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:45 +0000
Subject: [PATCH 45/54] fix: consul change events carry the value as a string,
 as Read does

---
 providers/consul/change.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/providers/consul/change.go b/providers/consul/change.go
index 9b2e5c0..7a58507 100644
--- a/providers/consul/change.go
+++ b/providers/consul/change.go
@@ -37,7 +37,7 @@ func (s *changeS) Next() (key string, val any, ok bool) {
 			if s.idx < len(pairs) {
 				kvp := pairs[s.idx]
 				if s.lastOp == store.OpRemove || s.checkOpIndex(kvp) {
-					key, val, ok = s.provider.(*pvdr).NormalizeKey(kvp.Key), kvp.Value, true
+					key, val, ok = s.provider.(*pvdr).NormalizeKey(kvp.Key), string(kvp.Value), true
 				} else {
 					s.idx++
 					goto RetryNextPair
@@ -49,7 +49,7 @@ func (s *changeS) Next() (key string, val any, ok bool) {
 		if kvp, yes := s.val.(*api.KVPair); yes {
 			if s.idx == 0 {
 				if s.checkOpIndex(kvp) {
-					key, val, ok = s.provider.(*pvdr).NormalizeKey(kvp.Key), kvp.Value, true
+					key, val, ok = s.provider.(*pvdr).NormalizeKey(kvp.Key), string(kvp.Value), true
 				}
 				s.idx++
 			}
-- 
2.43.0


From 26af2b0ab3379649eeb6a46ecbbbf4fb293ee101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:52 +0000
Subject: [PATCH 46/54] fix: consul watch of a single key never announced its
 removal

---
 providers/consul/change.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/providers/consul/change.go b/providers/consul/change.go
index 7a58507..398088b 100644
--- a/providers/consul/change.go
+++ b/providers/consul/change.go
@@ -25,7 +25,7 @@ type changeS struct {
 // func (s *changeS) Key() string              { return string(s.ev.Kv.Key) }
 // func (s *changeS) Val() any                 { return s.val }
 
-func (s *changeS) Path() string             { return s.val.(string) }
+func (s *changeS) Path() string             { return "" }
 func (s *changeS) Op() store.Op             { return s.lastOp }
 func (s *changeS) Has(op store.Op) bool     { return uint64(s.lastOp)&uint64(op) != 0 }
 func (s *changeS) Timestamp() time.Time     { return s.lastEventTime }
@@ -48,7 +48,7 @@ func (s *changeS) Next() (key string, val any, ok bool) {
 	} else {
 		if kvp, yes := s.val.(*api.KVPair); yes {
 			if s.idx == 0 {
-				if s.checkOpIndex(kvp) {
+				if s.lastOp == store.OpRemove || s.checkOpIndex(kvp) {
 					key, val, ok = s.provider.(*pvdr).NormalizeKey(kvp.Key), string(kvp.Value), true
 				}
 				s.idx++
@@ -101,13 +101,14 @@ func (s *changeS) findOpIndex(idx uint64, val any) (df func()) {
 	} else {
 		if kvp, ok := val.(*api.KVPair); ok {
 			if !s.checkOpIndex(kvp) {
-				s.lastOp = store.OpRemove
-				df = func() { s.val = val }
-				return
+				s.lastOp = store.OpNone
 			}
 			s.val = val
 			return
 		}
+		// the key was removed, s.val is what it was
+		s.lastOp = store.OpRemove
+		df = func() { s.val = val }
 	}
 	return
 }
-- 
2.43.0


From bad060d2885a6b8dbfe557f4607aa379b7560508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:31 +0000
Subject: [PATCH 47/54] fix: env and flags providers returned the filter prefix
 as the position

---
 providers/env/env.go     | 2 +-
 providers/flags/flags.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/providers/env/env.go b/providers/env/env.go
index 40f8627..dfd5f32 100644
--- a/providers/env/env.go
+++ b/providers/env/env.go
@@ -200,6 +200,6 @@ func (s *pvdr) Write(data []byte) (err error) {
 }
 
 func (s *pvdr) GetCodec() (codec store.Codec) { return s.codec }
-func (s *pvdr) GetPosition() (pos string)     { return s.prefix }
+func (s *pvdr) GetPosition() (pos string)     { return s.storePrefix }
 func (s *pvdr) WithCodec(codec store.Codec)   { s.codec = codec }
 func (s *pvdr) WithPosition(prefix string)    { s.storePrefix = prefix }
diff --git a/providers/flags/flags.go b/providers/flags/flags.go
index 167bd9c..c8e9b77 100644
--- a/providers/flags/flags.go
+++ b/providers/flags/flags.go
@@ -202,6 +202,6 @@ func (s *pvdr) Write(data []byte) (err error) {
 }
 
 func (s *pvdr) GetCodec() (codec store.Codec) { return s.codec }
-func (s *pvdr) GetPosition() (pos string)     { return s.prefix }
+func (s *pvdr) GetPosition() (pos string)     { return s.storePrefix }
 func (s *pvdr) WithCodec(codec store.Codec)   { s.codec = codec }
 func (s *pvdr) WithPosition(prefix string)    { s.storePrefix = prefix }
-- 
2.43.0


From 917f6b43b38c3e26f07f1f610d70cf033e499ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:24 +0000
Subject: [PATCH 48/54] fix: the flags provider's name filter was upper-cased
 and never matched

---
 providers/flags/flags.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/providers/flags/flags.go b/providers/flags/flags.go
index c8e9b77..f4aa195 100644
--- a/providers/flags/flags.go
+++ b/providers/flags/flags.go
@@ -40,7 +40,7 @@ func WithCodec(codec store.Codec) Opt {
 	}
 }
 
-// WithPrefix gives a filter prefix for env var name.
+// WithPrefix gives a filter prefix for flag name.
 //
 // Only names which have given prefix are available.
 // Such as app.Name()+"_".
@@ -48,7 +48,7 @@ func WithCodec(codec store.Codec) Opt {
 // The filtered names will be stripped by strippedPrefix.
 func WithPrefix(prefix string, strippedPrefix ...string) Opt {
 	return func(s *pvdr) {
-		s.prefix = strings.ToUpper(prefix)
+		s.prefix = prefix
 		for _, ss := range strippedPrefix {
 			s.stripped = ss
 		}
-- 
2.43.0


From d250858ed6cc3fa6075f3c8837b4047daa6508e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:53 +0000
Subject: [PATCH 49/54] fix: etcd and consul Read dereferenced a missing client
 and its error was lost

---
 providers/consul/consul.go | 13 ++++++++++---
 providers/etcd/etcd.go     |  7 ++++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/providers/consul/consul.go b/providers/consul/consul.go
index 287d5ce..efb0312 100644
--- a/providers/consul/consul.go
+++ b/providers/consul/consul.go
@@ -2,6 +2,7 @@ package consul
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"strconv"
 	"strings"
@@ -19,7 +20,7 @@ func New(opts ...Opt) *pvdr {
 	for _, opt := range opts {
 		opt(s)
 	}
-	_ = s.prepare()
+	s.err = s.prepare()
 	return s
 }
 
@@ -27,6 +28,7 @@ type Opt func(s *pvdr)
 type pvdr struct {
 	*api.Client
 	config *api.Config
+	err    error // why there is no client
 
 	watchEnabled          bool
 	codec                 store.Codec
@@ -111,9 +113,10 @@ func WithConsulConfig(cfg *api.Config) Opt {
 // type OnUpdated func()
 
 func (s *pvdr) prepare() (err error) {
-	if s.config != nil {
-		s.Client, err = api.NewClient(s.config)
+	if s.config == nil {
+		return errors.New("consul config is not specified")
 	}
+	s.Client, err = api.NewClient(s.config)
 	return
 }
 
@@ -150,6 +153,10 @@ func (s *pvdr) Reader() (r store.Reader, err error) {
 }
 
 func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
+	if s.Client == nil {
+		return nil, s.err
+	}
+
 	var kv = s.Client.KV()
 	var pairs api.KVPairs
 	var pair *api.KVPair
diff --git a/providers/etcd/etcd.go b/providers/etcd/etcd.go
index 84309ec..92b877c 100644
--- a/providers/etcd/etcd.go
+++ b/providers/etcd/etcd.go
@@ -15,7 +15,7 @@ func New(opts ...Opt) *pvdr {
 	for _, opt := range opts {
 		opt(s)
 	}
-	_ = s.prepare()
+	s.err = s.prepare()
 	return s
 }
 
@@ -23,6 +23,7 @@ type Opt func(s *pvdr)
 type pvdr struct {
 	*clientv3.Client
 	config clientv3.Config
+	err    error // why there is no client
 	// endpoints   []string
 	// dialTimeout time.Duration
 	watchEnabled               bool
@@ -167,6 +168,10 @@ func (s *pvdr) NormalizeKey(key string) string {
 }
 
 func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
+	if s.Client == nil {
+		return nil, s.err
+	}
+
 	ctx, cancel := context.WithTimeout(context.Background(), s.config.DialTimeout)
 	defer cancel()
 
-- 
2.43.0


From 1881cca808b850cb47135e2590173f15eaa0cd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:30 +0000
Subject: [PATCH 50/54] fix: etcd watch dereferenced a missing client

---
 providers/etcd/etcd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/providers/etcd/etcd.go b/providers/etcd/etcd.go
index 92b877c..67f0710 100644
--- a/providers/etcd/etcd.go
+++ b/providers/etcd/etcd.go
@@ -234,6 +234,9 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) error {
 	if s.watchEnabled == false {
 		return nil
 	}
+	if s.Client == nil {
+		return s.err
+	}
 
 	var w clientv3.WatchChan
 	var lastChange = changeS{provider: s}
-- 
2.43.0


From b96e6ccbcc8e3033c2f2644391b7b60d22d8929b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:08 +0000
Subject: [PATCH 51/54] fix: splitting a node read and reset its value without
 the node's lock

---
 radix/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix/node.go b/radix/node.go
index d9c19f8..1cf3898 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -222,7 +222,7 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 
 	if cpl < ourLen {
 		// eg: insert 'apple' into 'appZ', or insert 'appZ' into 'apple'
-		base.split(cpl, word) // split this as 'app' and 'Z'/'le'
+		base.lockFor(func(n *nodeS[T]) { n.split(cpl, word) }) // split this as 'app' and 'Z'/'le'
 		// eg2: insert '/app/:client/tokens' into '/app/:client/tokens/:token',
 	}
 
-- 
2.43.0


From 124c58e1274a372c2d2f7c697dbb496c29581472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:40 +0000
Subject: [PATCH 52/54] fix: consul watch without a configuration crashed in
 its goroutine instead of reporting why

---
 providers/consul/consul.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/providers/consul/consul.go b/providers/consul/consul.go
index efb0312..55602f8 100644
--- a/providers/consul/consul.go
+++ b/providers/consul/consul.go
@@ -285,6 +285,9 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 	if s.watchEnabled == false {
 		return nil
 	}
+	if s.Client == nil {
+		return s.err
+	}
 
 	p := make(map[string]any)
 
-- 
2.43.0


From 06eb4de59c4ec1c0298998a166c0671f90f6cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:47 +0000
Subject: [PATCH 53/54] fix: a consul watch that could not run never told its
 callback

---
 providers/consul/consul.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/providers/consul/consul.go b/providers/consul/consul.go
index 55602f8..9ec220f 100644
--- a/providers/consul/consul.go
+++ b/providers/consul/consul.go
@@ -325,6 +325,7 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 		err := s.plan.Run(s.config.Address)
 		if err != nil {
 			slog.Error("consul watching plan has error", "err", err)
+			cb(nil, err)
 			return
 		}
 	}()
-- 
2.43.0


From 19eba09eff1620c96d7989dfcf3a5ed9a1211d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:21 +0000
Subject: [PATCH 54/54] fix: the hcl codec panicked on a list of values of
 different types

---
 codecs/hcl/hcl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs/hcl/hcl.go b/codecs/hcl/hcl.go
index c604eab..72fcf71 100644
--- a/codecs/hcl/hcl.go
+++ b/codecs/hcl/hcl.go
@@ -101,7 +101,7 @@ func ctyValue(v any) (ret cty.Value, err error) {
 					}
 					values = append(values, val)
 				}
-				ret = cty.ListVal(values)
+				ret = cty.TupleVal(values) // a list cannot hold values of different types
 			} else {
 				ret = cty.ListValEmpty(cty.Type{})
 			}
-- 
2.43.0

