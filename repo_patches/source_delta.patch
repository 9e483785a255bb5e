From bb319cc59c564620d4d20a0055370f1e1c2866cc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:55 +0000
Subject: [PATCH 01/29] fix: Input.Advance must only fail, and must not move,
 when the data ends

Advance reported failure when the skipped bytes crossed the boundary of the
cached chunk, and it moved the read position even when it failed, which
TestAny relies on it not to do.
---
 input/input.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/input/input.go b/input/input.go
index 909ed37..7adc678 100644
--- a/input/input.go
+++ b/input/input.go
@@ -87,19 +87,26 @@ func (i *Input) SeekTo(pos int) bool {
 // Advance moves the offset forward by 'n' bytes. Returns true if the advance
 // was successful (n chars were successfully skipped) and false otherwise. Note
 // that even if Advance returns true the next call to Peek may return false if
-// the advance went to the exact end of the data.
+// the advance went to the exact end of the data. If Advance returns false the
+// read position is unchanged.
 func (i *Input) Advance(n int) bool {
 	if i.nchunk == 0 {
-		return false
+		return n == 0
+	}
+
+	if i.coff+n < i.nchunk {
+		i.coff += n
+		return true
 	}
 
-	i.coff += n
-	if i.coff > i.nchunk {
-		i.refill(i.base + i.coff)
+	// the advance leaves the chunk: there are enough bytes if the last one
+	// that is skipped exists.
+	pos := i.Pos()
+	if !i.SeekTo(pos + n - 1) {
+		i.SeekTo(pos)
 		return false
-	} else if i.coff == i.nchunk {
-		i.refill(i.base + i.coff)
 	}
+	i.SeekTo(pos + n)
 	return true
 }
 
-- 
2.43.0


From 843102372e0df24f139e9c741d580293667ff99a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 02/29] fix: Input.Advance must count the bytes it skips as
 read

Any and TestAny decide a match by whether Advance succeeds. The bytes they
tested were not part of the furthest read position, so memoized results that
depend on them survived edits to those bytes.
---
 input/input.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/input/input.go b/input/input.go
index 7adc678..1c8ae46 100644
--- a/input/input.go
+++ b/input/input.go
@@ -90,6 +90,12 @@ func (i *Input) SeekTo(pos int) bool {
 // the advance went to the exact end of the data. If Advance returns false the
 // read position is unchanged.
 func (i *Input) Advance(n int) bool {
+	// whether the skipped bytes exist has been determined, so the result of
+	// the advance depends on them.
+	if last := i.Pos() + n - 1; last > i.furthest {
+		i.furthest = last
+	}
+
 	if i.nchunk == 0 {
 		return n == 0
 	}
-- 
2.43.0


From 3ad233c7931450d1a67cd93286df30af7c40932f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:20 +0000
Subject: [PATCH 03/29] fix: a reused memo entry's lookahead belongs to the
 enclosing entries

When a memo entry was found in the table the bytes that had been examined to
create it were not counted as read, so the entries created around it claimed
to have examined less than they depend on, and were not invalidated by an edit
there.
---
 input/input.go | 8 ++++++++
 vm/vm.go       | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/input/input.go b/input/input.go
index 1c8ae46..a2ab009 100644
--- a/input/input.go
+++ b/input/input.go
@@ -135,6 +135,14 @@ func (i *Input) Furthest() int {
 	return i.furthest
 }
 
+// Examined records that the data up to and including pos has an influence on
+// the parse, as if it had been read.
+func (i *Input) Examined(pos int) {
+	if pos > i.furthest {
+		i.furthest = pos
+	}
+}
+
 // ResetFurthest resets the furthest read tracker to zero.
 func (i *Input) ResetFurthest() {
 	i.furthest = 0
diff --git a/vm/vm.go b/vm/vm.go
index 51a7faf..23c69a5 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -292,6 +292,7 @@ loop:
 
 			ment, ok := memtbl.Get(int(id), src.Pos())
 			if ok {
+				src.Examined(src.Pos() + ment.Examined() - 1)
 				if ment.Length() == -1 {
 					goto fail
 				}
@@ -323,6 +324,7 @@ loop:
 
 			ment, ok := memtbl.Get(int(id), src.Pos())
 			if ok {
+				src.Examined(src.Pos() + ment.Examined() - 1)
 				if ment.Length() == -1 {
 					goto fail
 				}
-- 
2.43.0


From 4c0520e504fdbe66d6c28e2eab10139f2400ee8c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:21 +0000
Subject: [PATCH 04/29] fix: do not append in place to a capture list shared
 with a memo entry

---
 vm/stack.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vm/stack.go b/vm/stack.go
index 9bd0352..d54d120 100644
--- a/vm/stack.go
+++ b/vm/stack.go
@@ -58,7 +58,9 @@ func (se *stackEntry) addCapt(capt []*memo.Capture) {
 		return
 	}
 	if len(se.capt) == 0 {
-		se.capt = capt
+		// limit the capacity: capt may be shared with a memo entry or an
+		// existing capture node, so it must not be appended to in place.
+		se.capt = capt[:len(capt):len(capt)]
 	} else {
 		se.capt = append(se.capt, capt...)
 	}
-- 
2.43.0


From e4ab15990dd517c79145af6332e2d2187be56119 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:23 +0000
Subject: [PATCH 05/29] fix: lazylog must keep the intervals of the successor
 of a removed node

When a node with two children was removed its successor's intervals were
copied into a slice of length zero, which drops them, and their position
handles kept referring to the removed node.
---
 memo/interval/lazylog/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memo/interval/lazylog/tree.go b/memo/interval/lazylog/tree.go
index 1682bf0..2e45a7b 100644
--- a/memo/interval/lazylog/tree.go
+++ b/memo/interval/lazylog/tree.go
@@ -209,7 +209,7 @@ func (n *node) remove(key key) *node {
 			rightMinNode := n.right.findSmallest()
 
 			n.key = rightMinNode.key
-			copy(n.interval.ins, rightMinNode.interval.ins)
+			n.interval = rightMinNode.interval
 			n.interval.n = n
 			n.tstamp = rightMinNode.tstamp
 			// delete smallest node that we replaced
-- 
2.43.0


From bc055a247cb4fe8b9520bf7d216a74eb1c695408 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 06/29] fix: Size of an interval tree must count intervals, not
 nodes

---
 memo/interval/lazy/tree.go    | 2 +-
 memo/interval/lazylog/tree.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/memo/interval/lazy/tree.go b/memo/interval/lazy/tree.go
index 9dc84a1..2bd0b97 100644
--- a/memo/interval/lazy/tree.go
+++ b/memo/interval/lazy/tree.go
@@ -324,7 +324,7 @@ func (n *node) getSize() int {
 	if n == nil {
 		return 0
 	}
-	return n.left.getSize() + n.right.getSize() + 1
+	return n.left.getSize() + n.right.getSize() + len(n.iv.ivs)
 }
 
 func (n *node) updateHeightAndMax() {
diff --git a/memo/interval/lazylog/tree.go b/memo/interval/lazylog/tree.go
index 2e45a7b..66d5c3a 100644
--- a/memo/interval/lazylog/tree.go
+++ b/memo/interval/lazylog/tree.go
@@ -313,7 +313,7 @@ func (n *node) size() int {
 	if n == nil {
 		return 0
 	}
-	return n.left.size() + n.right.size() + 1
+	return n.left.size() + n.right.size() + len(n.interval.ins)
 }
 
 func (n *node) recalculateHeight() {
-- 
2.43.0


From 8ebf8fd71a0bb595207b1e600a5548db2c5d5989 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 07/29] fix: linerope Rebuild must turn the node into a leaf

The node stayed an inner node without children, so the next access panicked.
---
 input/linerope/rope.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/input/linerope/rope.go b/input/linerope/rope.go
index 40a53f0..bc5572b 100644
--- a/input/linerope/rope.go
+++ b/input/linerope/rope.go
@@ -387,6 +387,7 @@ func (n *Node) Rebuild() {
 		n.value = concat(n.left.Value(), n.right.Value())
 		n.left = nil
 		n.right = nil
+		n.kind = tLeaf
 		n.adjust()
 	}
 }
-- 
2.43.0


From d2ba51ea1701c4e1c85a29ce6038653c6488931e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 08/29] fix: linerope line 0 starts at offset 0 for every
 length of LineSep

---
 input/linerope/util.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/input/linerope/util.go b/input/linerope/util.go
index 596afa4..22e68bf 100644
--- a/input/linerope/util.go
+++ b/input/linerope/util.go
@@ -4,7 +4,8 @@ import (
 	"bytes"
 )
 
-// indexN finds the index of n-th sep in b.
+// indexN finds the index of n-th sep in b. The 0-th sep is the imaginary one
+// that ends right before b.
 func indexN(b, sep []byte, n int) (index int) {
 	index, idx, sepLen := 0, -1, len(sep)
 	for i := 0; i < n; i++ {
@@ -16,7 +17,7 @@ func indexN(b, sep []byte, n int) (index int) {
 	}
 
 	if idx == -1 {
-		index = -1
+		index = -sepLen
 	} else {
 		index += (n - 1) * sepLen
 	}
-- 
2.43.0


From ed0af97dab6ea1a30ad7f8bd881df1a3b96b94a0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 09/29] fix: re octal escapes denote bytes up to 0377

Escapes above 0177 overflowed a signed byte and all became 0177.
---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index dcae4fe..99d127a 100644
--- a/re/re.go
+++ b/re/re.go
@@ -147,7 +147,7 @@ func parseChar(char string) byte {
 			}
 		}
 
-		i, _ := strconv.ParseInt(string(char[1:]), 8, 8)
+		i, _ := strconv.ParseUint(string(char[1:]), 8, 8)
 		return byte(i)
 	default:
 		return char[0]
-- 
2.43.0


From 1fa3871b8a06ecf25d1cd1e48d215020148cdcc4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 10/29] fix: re must compile an empty class

[] produced a nil pattern, which panics when it is compiled. It matches no
character.
---
 re/re.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/re/re.go b/re/re.go
index 99d127a..0e3101d 100644
--- a/re/re.go
+++ b/re/re.go
@@ -100,11 +100,8 @@ func compile(root *memo.Capture, s string, capg bool, ids map[string]int) patter
 		p = pattern.Literal(lit.String())
 	case idClass:
 		var set charset.Set
-		if root.NumChildren() <= 0 {
-			break
-		}
 		complement := false
-		if root.Child(0).Id() == idCARAT {
+		if root.NumChildren() > 0 && root.Child(0).Id() == idCARAT {
 			complement = true
 		}
 		it := root.ChildIterator(0)
-- 
2.43.0


From dab68589274fcd4597e85b6546e8137aa3d37dcc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:40 +0000
Subject: [PATCH 11/29] fix: back references must survive serialization of the
 code

A *BackReference could not be decoded because only the value type, which is
not a Checker, was registered. A back reference that is used several times was
also decoded into several unrelated ones.
---
 isa/checker.go |  4 ++++
 vm/code.go     | 14 +++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/isa/checker.go b/isa/checker.go
index 53863b6..481b64d 100644
--- a/isa/checker.go
+++ b/isa/checker.go
@@ -50,6 +50,10 @@ func NewBackRef() *BackReference {
 func (r *BackReference) Check(b []byte, src *input.Input, id, flag int) int {
 	switch RefKind(flag) {
 	case RefDef:
+		if r.Symbols == nil {
+			// a back reference that was loaded from serialized code
+			r.Symbols = make(map[int]string)
+		}
 		r.Symbols[id] = string(b)
 		return 0
 	case RefUse:
diff --git a/vm/code.go b/vm/code.go
index 06d568b..3379cde 100644
--- a/vm/code.go
+++ b/vm/code.go
@@ -7,6 +7,7 @@ import (
 	"encoding/gob"
 	"encoding/json"
 	"fmt"
+	"reflect"
 
 	"github.com/zyedidia/gpeg/charset"
 	"github.com/zyedidia/gpeg/isa"
@@ -36,7 +37,7 @@ func (c *Code) Size() int {
 
 func init() {
 	gob.Register(isa.MapChecker{})
-	gob.Register(isa.BackReference{})
+	gob.Register(&isa.BackReference{})
 }
 
 // ToBytes serializes and compresses this Code.
@@ -304,7 +305,18 @@ func addError(code *Code, msg string) uint {
 	return uint(len(code.data.Errors) - 1)
 }
 
+// Adds the checker to the code's list of checkers. A checker that is used in
+// several places (such as a back reference) is added once so that it is still
+// shared after the code has been serialized.
 func addChecker(code *Code, checker isa.Checker) uint {
+	if t := reflect.TypeOf(checker); t != nil && t.Comparable() {
+		for i, c := range code.data.Checkers {
+			if checker == c {
+				return uint(i)
+			}
+		}
+	}
+
 	code.data.Checkers = append(code.data.Checkers, checker)
 	return uint(len(code.data.Checkers) - 1)
 }
-- 
2.43.0


From 7abc1d3fa2b126fbebe9aa6264f72190115df983 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:42 +0000
Subject: [PATCH 12/29] fix: TreeTable must hold its lock in AllValues and Size

---
 memo/tree.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/memo/tree.go b/memo/tree.go
index d24dfae..ca8a641 100644
--- a/memo/tree.go
+++ b/memo/tree.go
@@ -61,7 +61,9 @@ func (t *TreeTable) ApplyEdit(e Edit) {
 }
 
 func (t *TreeTable) AllValues() []*Entry {
+	t.lock.Lock()
 	vals := t.Map.AllValues()
+	t.lock.Unlock()
 	entries := make([]*Entry, len(vals))
 	for i, v := range vals {
 		entries[i] = v.(*Entry)
@@ -69,6 +71,13 @@ func (t *TreeTable) AllValues() []*Entry {
 	return entries
 }
 
+// Size returns the number of entries in the table.
+func (t *TreeTable) Size() int {
+	t.lock.Lock()
+	defer t.lock.Unlock()
+	return t.Map.Size()
+}
+
 func max(a, b int) int {
 	if a > b {
 		return a
-- 
2.43.0


From 3381c7876ad1dd0b057af1a02f84323442939a12 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:12 +0000
Subject: [PATCH 13/29] fix: Compile must report undefined non-terminals
 instead of crashing

A grammar without its start definition crashed the compiler and a non-terminal
outside of any grammar crashed Encode.
---
 pattern/compile.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pattern/compile.go b/pattern/compile.go
index 09047eb..0c6f0f8 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -24,6 +24,15 @@ func Compile(p Pattern) (isa.Program, error) {
 		return nil, err
 	}
 
+	// any call that is still open is not inside a grammar that defines it
+	for _, insn := range c {
+		if oc, ok := insn.(openCall); ok {
+			return nil, &NotFoundError{
+				Name: oc.name,
+			}
+		}
+	}
+
 	Optimize(c)
 	return c, nil
 }
@@ -366,6 +375,12 @@ func (p *EmptyOpNode) Compile() (isa.Program, error) {
 
 // Compile this node.
 func (p *GrammarNode) Compile() (isa.Program, error) {
+	if _, ok := p.Defs[p.Start]; !ok {
+		return nil, &NotFoundError{
+			Name: p.Start,
+		}
+	}
+
 	p.Inline()
 
 	used := make(map[string]bool)
-- 
2.43.0


From c36aff8e2049e3e868beae1d6d28cc5a1cf09a27 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:12 +0000
Subject: [PATCH 14/29] fix: a nested grammar may use the non-terminals of the
 enclosing one

This includes the grammar that a Search is compiled to, so searching for a
non-terminal that is not inlined failed to compile, as did the conversion of
every regular expression with nested repetition.
---
 pattern/compile.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pattern/compile.go b/pattern/compile.go
index 0c6f0f8..95cac51 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -425,9 +425,8 @@ func (p *GrammarNode) Compile() (isa.Program, error) {
 		if oc, ok := insn.(openCall); ok {
 			lbl, ok := labels[oc.name]
 			if !ok {
-				return nil, &NotFoundError{
-					Name: oc.name,
-				}
+				// an enclosing grammar may define this non-terminal
+				continue
 			}
 
 			// replace this placeholder instruction with a normal call
-- 
2.43.0


From 7d63bd338669f074ed6398b8e6e1748c7c1bd168 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:36 +0000
Subject: [PATCH 15/29] fix: do not inline a definition into a nested grammar
 that redefines it

---
 pattern/optimize.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pattern/optimize.go b/pattern/optimize.go
index 669d8d6..53b2a84 100644
--- a/pattern/optimize.go
+++ b/pattern/optimize.go
@@ -120,11 +120,27 @@ func (p *GrammarNode) inline() bool {
 		leaves[n] = leaf
 	}
 
+	// non-terminals that refer to the definitions of a grammar nested in this one
+	bound := make(map[*NonTermNode]bool)
+	WalkPattern(p, true, func(sub Pattern) {
+		g, ok := sub.(*GrammarNode)
+		if !ok || g == p {
+			return
+		}
+		WalkPattern(g, true, func(s Pattern) {
+			if t, ok := s.(*NonTermNode); ok {
+				if _, ok := g.Defs[t.Name]; ok {
+					bound[t] = true
+				}
+			}
+		})
+	})
+
 	didInline := false
 	WalkPattern(p, true, func(sub Pattern) {
 		switch t := sub.(type) {
 		case *NonTermNode:
-			if sz, ok := sizes[t.Name]; ok && t.Inlined == nil {
+			if sz, ok := sizes[t.Name]; ok && t.Inlined == nil && !bound[t] {
 				// We only inline nodes if they are small enough and don't use
 				// any non-terminals themselves.
 				if sz < InlineThreshold && leaves[t.Name] {
-- 
2.43.0


From fed8dec713aaa4755490fdc5e2726c72e62a6b1c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 16/29] fix: searching must not capture the user's non-terminal
 S

---
 pattern/compile.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pattern/compile.go b/pattern/compile.go
index 95cac51..a85fd24 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -324,6 +324,10 @@ func (p *CheckNode) Compile() (isa.Program, error) {
 	return code, err
 }
 
+// searchStart is the non-terminal of the grammar that a search is compiled to.
+// It must not hide a non-terminal that is used in the pattern to search for.
+const searchStart = "<search>"
+
 // Compile this node.
 func (p *SearchNode) Compile() (isa.Program, error) {
 	var rsearch Pattern
@@ -354,13 +358,13 @@ func (p *SearchNode) Compile() (isa.Program, error) {
 	}
 
 	if opt {
-		rsearch = Concat(Star(Set(set)), NonTerm("S"))
+		rsearch = Concat(Star(Set(set)), NonTerm(searchStart))
 	} else {
-		rsearch = NonTerm("S")
+		rsearch = NonTerm(searchStart)
 	}
 
-	return Grammar("S", map[string]Pattern{
-		"S": Or(Get(p.Patt), Concat(Any(1), rsearch)),
+	return Grammar(searchStart, map[string]Pattern{
+		searchStart: Or(Get(p.Patt), Concat(Any(1), rsearch)),
 	}).Compile()
 }
 
-- 
2.43.0


From c3b5fb0715b83f8d20494bcf801540e964229fde Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 17/29] fix: rxconv must encode class members from U+0080 to
 U+00FF as UTF-8

They were matched as single bytes, unlike literals.
---
 rxconv/rxconv.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index 3ea34e0..ffdcfec 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"regexp/syntax"
 	"strconv"
+	"unicode/utf8"
 
 	"github.com/zyedidia/gpeg/charset"
 	p "github.com/zyedidia/gpeg/pattern"
@@ -38,7 +39,7 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 			start := e.Rune[i]
 			end := e.Rune[i+1]
 			var patt p.Pattern
-			if start < 256 && end < 256 {
+			if start < utf8.RuneSelf && end < utf8.RuneSelf {
 				patt = p.Set(charset.Range(byte(start), byte(end)))
 				lits = append(lits, p.Concat(patt, k))
 			} else {
-- 
2.43.0


From 0b77907f040302837f228bee304ff64833cf0d83 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 18/29] fix: rxconv must honour case-insensitive literals

---
 rxconv/rxconv.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index ffdcfec..db07f4b 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"regexp/syntax"
 	"strconv"
+	"unicode"
 	"unicode/utf8"
 
 	"github.com/zyedidia/gpeg/charset"
@@ -26,12 +27,28 @@ func star(r *syntax.Regexp, k p.Pattern) p.Pattern {
 	return p.Grammar(nterm, nonterms)
 }
 
+// foldLiteral matches the literal regardless of case.
+func foldLiteral(runes []rune) p.Pattern {
+	patts := make([]p.Pattern, 0, len(runes))
+	for _, r := range runes {
+		folds := []p.Pattern{p.Literal(string(r))}
+		for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
+			folds = append(folds, p.Literal(string(f)))
+		}
+		patts = append(patts, p.Or(folds...))
+	}
+	return p.Concat(patts...)
+}
+
 // continuation-based conversion
 func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	switch e.Op {
 	case syntax.OpEmptyMatch:
 		return k
 	case syntax.OpLiteral:
+		if e.Flags&syntax.FoldCase != 0 {
+			return p.Concat(foldLiteral(e.Rune), k)
+		}
 		return p.Concat(p.Literal(string(e.Rune)), k)
 	case syntax.OpCharClass:
 		lits := make([]p.Pattern, 0, len(e.Rune))
-- 
2.43.0


From 328dd23b9fce97019aaa7a130e6c9c93dec728aa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 19/29] fix: rxconv must honour non-greedy repetition

---
 rxconv/rxconv.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index db07f4b..c46eac9 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -20,10 +20,18 @@ func uniq() string {
 	return "a" + strconv.Itoa(num)
 }
 
-func star(r *syntax.Regexp, k p.Pattern) p.Pattern {
+// alt chooses between another repetition and the continuation.
+func alt(again, k p.Pattern, greedy bool) p.Pattern {
+	if greedy {
+		return p.Or(again, k)
+	}
+	return p.Or(k, again)
+}
+
+func star(r *syntax.Regexp, k p.Pattern, greedy bool) p.Pattern {
 	nterm := uniq()
 	nonterms := make(map[string]p.Pattern)
-	nonterms[nterm] = p.Or(pi(r, p.NonTerm(nterm)), k)
+	nonterms[nterm] = alt(pi(r, p.NonTerm(nterm)), k, greedy)
 	return p.Grammar(nterm, nonterms)
 }
 
@@ -42,6 +50,7 @@ func foldLiteral(runes []rune) p.Pattern {
 
 // continuation-based conversion
 func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
+	greedy := e.Flags&syntax.NonGreedy == 0
 	switch e.Op {
 	case syntax.OpEmptyMatch:
 		return k
@@ -86,11 +95,11 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	case syntax.OpCapture:
 		return pi(e.Sub[0], k)
 	case syntax.OpStar:
-		return star(e.Sub[0], k)
+		return star(e.Sub[0], k, greedy)
 	case syntax.OpPlus:
-		return pi(e.Sub[0], star(e.Sub[0], k))
+		return pi(e.Sub[0], star(e.Sub[0], k, greedy))
 	case syntax.OpQuest:
-		return p.Or(pi(e.Sub[0], k), k)
+		return alt(pi(e.Sub[0], k), k, greedy)
 	case syntax.OpBeginLine:
 		return p.Concat(p.EmptyOp(syntax.EmptyBeginLine), k)
 	case syntax.OpEndLine:
-- 
2.43.0


From dd40d3a9b117fb4b78e835dbdd2e17a7f709fef9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:14 +0000
Subject: [PATCH 20/29] fix: rxconv must reject repetitions that it cannot
 convert

Repeating an expression that matches the empty string was converted to a left
recursive grammar, which never terminates.
---
 rxconv/rxconv.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index c46eac9..8c9a14a 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -144,8 +144,39 @@ func verify(e *syntax.Regexp) bool {
 			yes = yes && verify(s)
 		}
 		return yes
-	case syntax.OpCapture, syntax.OpStar, syntax.OpPlus, syntax.OpQuest:
+	case syntax.OpStar, syntax.OpPlus:
+		// repeating something that matches the empty string would be left
+		// recursive.
+		return !nullable(e.Sub[0]) && verify(e.Sub[0])
+	case syntax.OpCapture, syntax.OpQuest:
 		return verify(e.Sub[0])
 	}
 	return false
 }
+
+// nullable returns true if e may match without consuming input.
+func nullable(e *syntax.Regexp) bool {
+	switch e.Op {
+	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
+		return false
+	case syntax.OpLiteral:
+		return len(e.Rune) == 0
+	case syntax.OpConcat:
+		for _, s := range e.Sub {
+			if !nullable(s) {
+				return false
+			}
+		}
+		return true
+	case syntax.OpAlternate:
+		for _, s := range e.Sub {
+			if nullable(s) {
+				return true
+			}
+		}
+		return false
+	case syntax.OpCapture, syntax.OpPlus:
+		return nullable(e.Sub[0])
+	}
+	return true
+}
-- 
2.43.0


From 1f04425093d5d805b1e3093b314b630b2e543791 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:16 +0000
Subject: [PATCH 21/29] fix: a zero-width assertion must satisfy all of its
 conditions

A mixture of assertions was satisfied by any one of them, unlike in Go's
regexp package.
---
 vm/vm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm/vm.go b/vm/vm.go
index 23c69a5..6196642 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -181,7 +181,7 @@ loop:
 				r2 = rune(b2)
 			}
 			sat := syntax.EmptyOpContext(r1, r2)
-			if (sat & op) != 0 {
+			if op&^sat == 0 {
 				ip += szEmpty
 			} else {
 				goto fail
-- 
2.43.0


From 4f9ab0feff5d02439df5848741ebbea12d047dc1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 22/29] fix: Input.ReadAt and Input.Slice must count as reading

A checker that looks at the data through them influences the parse, so memo
entries must depend on that data.
---
 input/input.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/input/input.go b/input/input.go
index a2ab009..b3dfe0e 100644
--- a/input/input.go
+++ b/input/input.go
@@ -117,11 +117,13 @@ func (i *Input) Advance(n int) bool {
 }
 
 func (i *Input) ReadAt(b []byte, pos int64) (n int, err error) {
+	i.Examined(int(pos) + len(b) - 1)
 	return i.r.ReadAt(b, pos)
 }
 
 // Slice returns a slice of the reader corresponding to the range [low:high).
 func (i *Input) Slice(low, high int) []byte {
+	i.Examined(high - 1)
 	return Slice(i.r, low, high)
 }
 
-- 
2.43.0


From 0552563e3c8a3d002bf8a0dd83f3ec39bddada84 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:25 +0000
Subject: [PATCH 23/29] fix: a failure must discard memo tree entries above the
 backtrack entry

---
 vm/vm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm/vm.go b/vm/vm.go
index 6196642..52cbfe4 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -463,7 +463,7 @@ fail:
 		memoize(int(ent.memo.id), ent.memo.pos, -1, 0, nil)
 		ent.capt = nil
 		goto fail
-	case stRet, stCapt, stCheck:
+	case stRet, stCapt, stCheck, stMemoTree:
 		ent.capt = nil
 		goto fail
 	}
-- 
2.43.0


From 005a31e88ffcecb920622db3c3a1051f7f2400ef Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:58 +0000
Subject: [PATCH 24/29] fix: report no error when a wrapped reader has all
 requested bytes

---
 input/reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/input/reader.go b/input/reader.go
index fca7d53..dbf312b 100644
--- a/input/reader.go
+++ b/input/reader.go
@@ -47,6 +47,11 @@ func (r *readerWrapper) ReadAt(b []byte, off int64) (n int, err error) {
 	if off >= int64(len(r.buf)) {
 		return 0, err
 	}
+	if int64(len(r.buf))-off >= blen {
+		// an error that came with more data than requested does not concern
+		// this range.
+		err = nil
+	}
 
 	return copy(b, r.buf[off:]), err
 }
-- 
2.43.0


From 7746c12ce3fa6a25329ac716f82dcbcd440c8c0f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:11 +0000
Subject: [PATCH 25/29] fix: maximum of lazy tree nodes must not drop below
 intervals that do not move

---
 memo/interval/lazy/tree.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/memo/interval/lazy/tree.go b/memo/interval/lazy/tree.go
index 2bd0b97..a0e8353 100644
--- a/memo/interval/lazy/tree.go
+++ b/memo/interval/lazy/tree.go
@@ -114,15 +114,17 @@ func (n *node) applyShifts() {
 		return
 	}
 	for _, sh := range n.shifts {
-		if n.max >= sh.idx {
-			if n.key.pos >= sh.idx {
-				n.key.pos += sh.amt
-				for i, iv := range n.iv.ivs {
-					n.iv.ivs[i].interval = iv.interval.Shift(sh.amt)
-				}
+		if n.key.pos >= sh.idx {
+			n.key.pos += sh.amt
+			for i, iv := range n.iv.ivs {
+				n.iv.ivs[i].interval = iv.interval.Shift(sh.amt)
 			}
+		}
+		if n.max > sh.idx || n.max == sh.idx && sh.amt > 0 {
+			// intervals that start before sh.idx do not move, so the maximum
+			// must not drop below where they end
 			n.max += sh.amt
-			// n.updateMax()
+			n.updateMax()
 		}
 
 		n.left.addShift(sh)
-- 
2.43.0


From ba62faf8756cbc3d8e57a0993958340b7eec1e75 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:22 +0000
Subject: [PATCH 26/29] fix: rxconv: an empty character class matches nothing

---
 rxconv/rxconv.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index 8c9a14a..4ddc530 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -74,6 +74,10 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 				}
 			}
 		}
+		if len(lits) == 0 {
+			// matches no character at all
+			return p.Set(charset.Set{})
+		}
 		return p.Or(lits...)
 	case syntax.OpAnyChar:
 		// TODO: unicode
-- 
2.43.0


From a956a7cb3541651cf8e9c127591ff3f080179a57 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:26 +0000
Subject: [PATCH 27/29] fix: FromBytes reports data that is truncated or fails
 its checksum

---
 vm/code.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vm/code.go b/vm/code.go
index 3379cde..bd8e3ac 100644
--- a/vm/code.go
+++ b/vm/code.go
@@ -7,6 +7,7 @@ import (
 	"encoding/gob"
 	"encoding/json"
 	"fmt"
+	"io"
 	"reflect"
 
 	"github.com/zyedidia/gpeg/charset"
@@ -46,7 +47,9 @@ func (c *Code) ToBytes() ([]byte, error) {
 	fz := gzip.NewWriter(&buf)
 	enc := gob.NewEncoder(fz)
 	err := enc.Encode(c.data)
-	fz.Close()
+	if cerr := fz.Close(); err == nil {
+		err = cerr
+	}
 	return buf.Bytes(), err
 }
 
@@ -59,7 +62,13 @@ func FromBytes(b []byte) (Code, error) {
 	}
 	dec := gob.NewDecoder(fz)
 	err = dec.Decode(&c)
-	fz.Close()
+	if err == nil {
+		// the decoder stops before the checksum at the end
+		_, err = io.Copy(io.Discard, fz)
+	}
+	if cerr := fz.Close(); err == nil {
+		err = cerr
+	}
 	return Code{
 		data: c,
 	}, err
-- 
2.43.0


From 05b1c76306e0b30e591c2d285d896a252cc9d3f1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:14 +0000
Subject: [PATCH 28/29] fix: a space after the caret of a character class
 belongs to the class

---
 re/grammar.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/re/grammar.go b/re/grammar.go
index 5466a70..5c859e2 100644
--- a/re/grammar.go
+++ b/re/grammar.go
@@ -39,7 +39,7 @@ import (
 // STAR       <- '*' Spacing_
 // PLUS       <- '+' Spacing_
 // DOT        <- '.' Spacing_
-// CARAT      <- '^' Spacing_
+// CARAT      <- '^'
 // BRACEO     <- '{' Spacing_
 // BRACEC     <- '}' Spacing_
 // BRACEPO    <- '{{' Spacing_
@@ -246,10 +246,7 @@ var grammar = map[string]p.Pattern{
 		p.Literal("."),
 		p.NonTerm("Spacing"),
 	), idDOT),
-	"CARAT": p.Cap(p.Concat(
-		p.Literal("^"),
-		p.NonTerm("Spacing"),
-	), idCARAT),
+	"CARAT": p.Cap(p.Literal("^"), idCARAT),
 	"OPEN": p.Cap(p.Concat(
 		p.Literal("("),
 		p.NonTerm("Spacing"),
-- 
2.43.0


From bab51e9fa3ca97a9f8efd3a5caf14eed1a62b17e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:14 +0000
Subject: [PATCH 29/29] fix: report braces as a syntax error instead of
 panicking on them

---
 re/grammar.go | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/re/grammar.go b/re/grammar.go
index 5c859e2..aa95319 100644
--- a/re/grammar.go
+++ b/re/grammar.go
@@ -17,7 +17,6 @@ import (
 // 			/ '(' Expression ')'
 // 			/ Literal / Class
 // 			/ BRACEPO Expression BRACEPC
-// 			/ BRACEO Expression BRACEC
 // 			/ DOT
 //
 // Identifier <- IdentStart IdentCont* Spacing_
@@ -40,8 +39,6 @@ import (
 // PLUS       <- '+' Spacing_
 // DOT        <- '.' Spacing_
 // CARAT      <- '^'
-// BRACEO     <- '{' Spacing_
-// BRACEC     <- '}' Spacing_
 // BRACEPO    <- '{{' Spacing_
 // BRACEPC    <- '}}' Spacing_
 // LEFTARROW  <- '<-' Spacing_
@@ -79,7 +76,6 @@ const (
 	idDOT
 	idCARAT
 	idOPEN
-	idBRACEO
 	idBRACEPO
 )
 
@@ -137,11 +133,6 @@ var grammar = map[string]p.Pattern{
 			p.NonTerm("Expression"),
 			p.NonTerm("BRACEPC"),
 		),
-		p.Concat(
-			p.NonTerm("BRACEO"),
-			p.NonTerm("Expression"),
-			p.NonTerm("BRACEC"),
-		),
 		p.NonTerm("Literal"),
 		p.NonTerm("Class"),
 		p.NonTerm("DOT"),
@@ -255,14 +246,6 @@ var grammar = map[string]p.Pattern{
 		p.Literal(")"),
 		p.NonTerm("Spacing"),
 	),
-	"BRACEO": p.Cap(p.Concat(
-		p.Literal("{"),
-		p.NonTerm("Spacing"),
-	), idBRACEO),
-	"BRACEC": p.Concat(
-		p.Literal("}"),
-		p.NonTerm("Spacing"),
-	),
 	"BRACEPO": p.Cap(p.Concat(
 		p.Literal("{{"),
 		p.NonTerm("Spacing"),
-- 
2.43.0

