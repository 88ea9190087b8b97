From d2977be4d6f1adb5b972b2bd918e3a2c8e65359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 01/26] fix: Advance succeeds exactly when that many bytes
 remain

A move that crossed a chunk boundary failed although data remained, a move
by zero at the end of input failed, a failed move left the position past the
end (a failed TestAny then continued from there), and the bytes a move
depended on were not counted as examined.
---
 input/input.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/input/input.go b/input/input.go
index 909ed37..ba2f29f 100644
--- a/input/input.go
+++ b/input/input.go
@@ -87,17 +87,33 @@ func (i *Input) SeekTo(pos int) bool {
 // Advance moves the offset forward by 'n' bytes. Returns true if the advance
 // was successful (n chars were successfully skipped) and false otherwise. Note
 // that even if Advance returns true the next call to Peek may return false if
-// the advance went to the exact end of the data.
+// the advance went to the exact end of the data. If Advance returns false the
+// position is unchanged.
 func (i *Input) Advance(n int) bool {
-	if i.nchunk == 0 {
-		return false
+	if n <= 0 {
+		return n == 0
+	}
+
+	// whether the advance succeeds depends on the last skipped byte
+	pos := i.base + i.coff
+	last := pos + n - 1
+	if last > i.furthest {
+		i.furthest = last
+	}
+
+	if i.coff+n > i.nchunk {
+		// the last skipped byte is not in the cache
+		if i.nchunk == 0 {
+			return false
+		} else if !i.SeekTo(last) {
+			i.SeekTo(pos)
+			return false
+		}
+		n = 1
 	}
 
 	i.coff += n
-	if i.coff > i.nchunk {
-		i.refill(i.base + i.coff)
-		return false
-	} else if i.coff == i.nchunk {
+	if i.coff == i.nchunk {
 		i.refill(i.base + i.coff)
 	}
 	return true
-- 
2.43.0


From cc7bd4433a72b72568abe8b94aa61b73e7460609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:35 +0000
Subject: [PATCH 02/26] fix: resolve names of nested grammars and searches in
 the enclosing grammars

A nested grammar or a search now leaves references it does not define to its
enclosing grammars, whatever has been inlined, and no longer captures names of
the searched pattern or has its own names replaced by outer definitions.
References nobody defines and missing start symbols give a NotFoundError.
---
 pattern/compile.go  | 32 +++++++++++++++++++++++++-------
 pattern/optimize.go | 18 +++++++++++++++++-
 2 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/pattern/compile.go b/pattern/compile.go
index 09047eb..a53f379 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -24,6 +24,15 @@ func Compile(p Pattern) (isa.Program, error) {
 		return nil, err
 	}
 
+	// any reference that is still open is not defined by an enclosing grammar
+	for _, insn := range c {
+		if oc, ok := insn.(openCall); ok {
+			return nil, &NotFoundError{
+				Name: oc.name,
+			}
+		}
+	}
+
 	Optimize(c)
 	return c, nil
 }
@@ -315,6 +324,10 @@ func (p *CheckNode) Compile() (isa.Program, error) {
 	return code, err
 }
 
+// Name of the non-terminal that a search is compiled to. It must not be the name
+// of a non-terminal that the searched pattern uses.
+const searchName = "\x00search"
+
 // Compile this node.
 func (p *SearchNode) Compile() (isa.Program, error) {
 	var rsearch Pattern
@@ -345,13 +358,13 @@ func (p *SearchNode) Compile() (isa.Program, error) {
 	}
 
 	if opt {
-		rsearch = Concat(Star(Set(set)), NonTerm("S"))
+		rsearch = Concat(Star(Set(set)), NonTerm(searchName))
 	} else {
-		rsearch = NonTerm("S")
+		rsearch = NonTerm(searchName)
 	}
 
-	return Grammar("S", map[string]Pattern{
-		"S": Or(Get(p.Patt), Concat(Any(1), rsearch)),
+	return Grammar(searchName, map[string]Pattern{
+		searchName: Or(Get(p.Patt), Concat(Any(1), rsearch)),
 	}).Compile()
 }
 
@@ -366,6 +379,12 @@ func (p *EmptyOpNode) Compile() (isa.Program, error) {
 
 // Compile this node.
 func (p *GrammarNode) Compile() (isa.Program, error) {
+	if _, ok := p.Defs[p.Start]; !ok {
+		return nil, &NotFoundError{
+			Name: p.Start,
+		}
+	}
+
 	p.Inline()
 
 	used := make(map[string]bool)
@@ -410,9 +429,8 @@ func (p *GrammarNode) Compile() (isa.Program, error) {
 		if oc, ok := insn.(openCall); ok {
 			lbl, ok := labels[oc.name]
 			if !ok {
-				return nil, &NotFoundError{
-					Name: oc.name,
-				}
+				// not defined here: leave it to the enclosing grammar
+				continue
 			}
 
 			// replace this placeholder instruction with a normal call
diff --git a/pattern/optimize.go b/pattern/optimize.go
index 669d8d6..b0dfa25 100644
--- a/pattern/optimize.go
+++ b/pattern/optimize.go
@@ -120,11 +120,27 @@ func (p *GrammarNode) inline() bool {
 		leaves[n] = leaf
 	}
 
+	// Non-terminals that refer to a definition of a nested grammar.
+	shadowed := make(map[*NonTermNode]bool)
+	WalkPattern(p, true, func(sub Pattern) {
+		g, ok := sub.(*GrammarNode)
+		if !ok || g == p {
+			return
+		}
+		WalkPattern(g, true, func(s Pattern) {
+			if t, ok := s.(*NonTermNode); ok {
+				if _, ok := g.Defs[t.Name]; ok {
+					shadowed[t] = true
+				}
+			}
+		})
+	})
+
 	didInline := false
 	WalkPattern(p, true, func(sub Pattern) {
 		switch t := sub.(type) {
 		case *NonTermNode:
-			if sz, ok := sizes[t.Name]; ok && t.Inlined == nil {
+			if sz, ok := sizes[t.Name]; ok && t.Inlined == nil && !shadowed[t] {
 				// We only inline nodes if they are small enough and don't use
 				// any non-terminals themselves.
 				if sz < InlineThreshold && leaves[t.Name] {
-- 
2.43.0


From 1ddfba901ce2701201c6b208f3c2eaf9ccc1bcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:37 +0000
Subject: [PATCH 03/26] fix: inlining no longer changes non-terminals shared
 with other grammars

Compile and Prettify stored the inlined definition in the NonTermNode itself,
so a node used in two grammars kept the definition of the first.
---
 pattern/compile.go |  2 ++
 pattern/nodes.go   | 40 ++++++++++++++++++++++++++++++++++++++++
 pattern/string.go  |  1 +
 3 files changed, 43 insertions(+)

diff --git a/pattern/compile.go b/pattern/compile.go
index a53f379..f2e7996 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -385,6 +385,8 @@ func (p *GrammarNode) Compile() (isa.Program, error) {
 		}
 	}
 
+	// inline in a copy: the nodes may also be part of other grammars
+	p = clone(p).(*GrammarNode)
 	p.Inline()
 
 	used := make(map[string]bool)
diff --git a/pattern/nodes.go b/pattern/nodes.go
index 44613ad..ed04aac 100644
--- a/pattern/nodes.go
+++ b/pattern/nodes.go
@@ -177,3 +177,43 @@ func WalkPattern(p Pattern, followInline bool, fn WalkFunc) {
 		}
 	}
 }
+
+// clone returns a copy of p in which every node that occurs several times is
+// copied for each occurrence.
+func clone(p Pattern) Pattern {
+	switch t := p.(type) {
+	case *AltNode:
+		return &AltNode{Left: clone(t.Left), Right: clone(t.Right)}
+	case *SeqNode:
+		return &SeqNode{Left: clone(t.Left), Right: clone(t.Right)}
+	case *StarNode:
+		return &StarNode{Patt: clone(t.Patt)}
+	case *PlusNode:
+		return &PlusNode{Patt: clone(t.Patt)}
+	case *OptionalNode:
+		return &OptionalNode{Patt: clone(t.Patt)}
+	case *NotNode:
+		return &NotNode{Patt: clone(t.Patt)}
+	case *AndNode:
+		return &AndNode{Patt: clone(t.Patt)}
+	case *CapNode:
+		return &CapNode{Patt: clone(t.Patt), Id: t.Id}
+	case *MemoNode:
+		return &MemoNode{Patt: clone(t.Patt), Id: t.Id}
+	case *SearchNode:
+		return &SearchNode{Patt: clone(t.Patt)}
+	case *CheckNode:
+		return &CheckNode{Patt: clone(t.Patt), Checker: t.Checker, Id: t.Id, Flag: t.Flag}
+	case *ErrorNode:
+		return &ErrorNode{Message: t.Message, Recover: clone(t.Recover)}
+	case *GrammarNode:
+		defs := make(map[string]Pattern, len(t.Defs))
+		for name, def := range t.Defs {
+			defs[name] = clone(def)
+		}
+		return &GrammarNode{Defs: defs, Start: t.Start}
+	case *NonTermNode:
+		return &NonTermNode{Name: t.Name, Inlined: t.Inlined}
+	}
+	return p
+}
diff --git a/pattern/string.go b/pattern/string.go
index 6acbe68..222981b 100644
--- a/pattern/string.go
+++ b/pattern/string.go
@@ -43,6 +43,7 @@ func Prettify(p Pattern) string {
 		return fmt.Sprintf("empty(%v)", t.Op)
 	case *GrammarNode:
 		s := fmt.Sprintf("%s\n", t.Start)
+		t = clone(t).(*GrammarNode)
 		t.Inline()
 		for name, patt := range t.Defs {
 			s += fmt.Sprintf("%s <- %s\n", name, Prettify(Get(patt)))
-- 
2.43.0


From e06952cf31348b726833cfe0f6634fd707d5dc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:50 +0000
Subject: [PATCH 04/26] fix: memo entries limit the capacity of their capture
 slices

Captures appended after combining two memoized runs could overwrite the array another entry still used.
---
 vm/vm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vm/vm.go b/vm/vm.go
index 51a7faf..d859add 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -77,7 +77,9 @@ func (vm *Code) exec(ip int, st *stack, src *input.Input, memtbl memo.Table, int
 			capt = nil
 		}
 		mexam := max(src.Furthest(), src.Pos()) - pos + 1
-		memtbl.Put(id, pos, mlen, mexam, count, capt)
+		// limit the capacity so that appending to the captures of an entry
+		// never writes into an array that other uses of the entry share
+		memtbl.Put(id, pos, mlen, mexam, count, capt[:len(capt):len(capt)])
 	}
 
 	success := true
-- 
2.43.0


From b4eb620db50bd7239618fa123a08f1cd217657d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:03 +0000
Subject: [PATCH 05/26] fix: a memo hit counts the text its entry examined

An entry created after another entry was reused did not record the text the reused entry had examined, so it survived edits that invalidate it.
---
 input/input.go | 8 ++++++++
 vm/vm.go       | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/input/input.go b/input/input.go
index ba2f29f..a5fc5f3 100644
--- a/input/input.go
+++ b/input/input.go
@@ -138,6 +138,14 @@ func (i *Input) Furthest() int {
 	return i.furthest
 }
 
+// Examined records that the n bytes following the current position have been
+// examined, without moving the position.
+func (i *Input) Examined(n int) {
+	if last := i.Pos() + n - 1; last > i.furthest {
+		i.furthest = last
+	}
+}
+
 // ResetFurthest resets the furthest read tracker to zero.
 func (i *Input) ResetFurthest() {
 	i.furthest = 0
diff --git a/vm/vm.go b/vm/vm.go
index d859add..463f15e 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -294,6 +294,9 @@ loop:
 
 			ment, ok := memtbl.Get(int(id), src.Pos())
 			if ok {
+				// the memoized result depends on everything that was
+				// examined to determine it
+				src.Examined(ment.Examined())
 				if ment.Length() == -1 {
 					goto fail
 				}
@@ -325,6 +328,9 @@ loop:
 
 			ment, ok := memtbl.Get(int(id), src.Pos())
 			if ok {
+				// the memoized result depends on everything that was
+				// examined to determine it
+				src.Examined(ment.Examined())
 				if ment.Length() == -1 {
 					goto fail
 				}
-- 
2.43.0


From 159fa35ac116ab3baf9d9dcb4222042a58216ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:21 +0000
Subject: [PATCH 06/26] fix: lazylog tree keeps the successor's intervals when
 a node with two children is removed

The successor's intervals were copied into an empty slice and lost, and its position handle went stale.
---
 memo/interval/lazylog/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memo/interval/lazylog/tree.go b/memo/interval/lazylog/tree.go
index 1682bf0..2e45a7b 100644
--- a/memo/interval/lazylog/tree.go
+++ b/memo/interval/lazylog/tree.go
@@ -209,7 +209,7 @@ func (n *node) remove(key key) *node {
 			rightMinNode := n.right.findSmallest()
 
 			n.key = rightMinNode.key
-			copy(n.interval.ins, rightMinNode.interval.ins)
+			n.interval = rightMinNode.interval
 			n.interval.n = n
 			n.tstamp = rightMinNode.tstamp
 			// delete smallest node that we replaced
-- 
2.43.0


From 778e67471cfca9b591e5afadfc2d08bb5994bb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:21 +0000
Subject: [PATCH 07/26] fix: lazy tree keeps the maximum of a subtree above
 intervals a negative shift does not move

---
 memo/interval/lazy/tree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memo/interval/lazy/tree.go b/memo/interval/lazy/tree.go
index 9dc84a1..49c9b3e 100644
--- a/memo/interval/lazy/tree.go
+++ b/memo/interval/lazy/tree.go
@@ -122,7 +122,10 @@ func (n *node) applyShifts() {
 				}
 			}
 			n.max += sh.amt
-			// n.updateMax()
+			if n.max < sh.idx {
+				// intervals that are not shifted may end anywhere up to idx
+				n.max = sh.idx
+			}
 		}
 
 		n.left.addShift(sh)
-- 
2.43.0


From 1b0fb6a6449aabf690f7fcc15429bd73ca23b314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:59 +0000
Subject: [PATCH 08/26] fix: rebuilding a rope no longer leaves an internal
 node without children

---
 input/linerope/rope.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/input/linerope/rope.go b/input/linerope/rope.go
index 40a53f0..bc5572b 100644
--- a/input/linerope/rope.go
+++ b/input/linerope/rope.go
@@ -387,6 +387,7 @@ func (n *Node) Rebuild() {
 		n.value = concat(n.left.Value(), n.right.Value())
 		n.left = nil
 		n.right = nil
+		n.kind = tLeaf
 		n.adjust()
 	}
 }
-- 
2.43.0


From 150cd654a9ee96c080cc4020795e4a7aacfe7ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:01 +0000
Subject: [PATCH 09/26] fix: line and column positions with separators of
 several bytes

---
 input/linerope/util.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/input/linerope/util.go b/input/linerope/util.go
index 596afa4..99572b9 100644
--- a/input/linerope/util.go
+++ b/input/linerope/util.go
@@ -4,9 +4,10 @@ import (
 	"bytes"
 )
 
-// indexN finds the index of n-th sep in b.
+// indexN finds the index of n-th sep in b. The zeroth separator is taken to end
+// where b starts.
 func indexN(b, sep []byte, n int) (index int) {
-	index, idx, sepLen := 0, -1, len(sep)
+	index, idx, sepLen := 0, 0, len(sep)
 	for i := 0; i < n; i++ {
 		if idx = bytes.Index(b, sep); idx == -1 {
 			break
@@ -31,7 +32,7 @@ func lineCol(b, sep []byte, pos int) loc {
 		idx := bytes.Index(b[last:], sep)
 		if idx < 0 {
 			break
-		} else if last+idx >= pos {
+		} else if last+idx+len(sep) > pos {
 			return loc{line, pos - last}
 		}
 		last += idx + len(sep)
-- 
2.43.0


From b8eb56bc3c1f408ada3126712a5a66cc59f6ea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:47 +0000
Subject: [PATCH 10/26] fix: octal escapes above \177 denote the byte they name

---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index dcae4fe..99d127a 100644
--- a/re/re.go
+++ b/re/re.go
@@ -147,7 +147,7 @@ func parseChar(char string) byte {
 			}
 		}
 
-		i, _ := strconv.ParseInt(string(char[1:]), 8, 8)
+		i, _ := strconv.ParseUint(string(char[1:]), 8, 8)
 		return byte(i)
 	default:
 		return char[0]
-- 
2.43.0


From 446b3a841f8927b935a0238e38c5cd9fe528bf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:47 +0000
Subject: [PATCH 11/26] fix: an empty class denotes the empty set instead of a
 nil pattern

---
 re/re.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/re/re.go b/re/re.go
index 99d127a..0e3101d 100644
--- a/re/re.go
+++ b/re/re.go
@@ -100,11 +100,8 @@ func compile(root *memo.Capture, s string, capg bool, ids map[string]int) patter
 		p = pattern.Literal(lit.String())
 	case idClass:
 		var set charset.Set
-		if root.NumChildren() <= 0 {
-			break
-		}
 		complement := false
-		if root.Child(0).Id() == idCARAT {
+		if root.NumChildren() > 0 && root.Child(0).Id() == idCARAT {
 			complement = true
 		}
 		it := root.ChildIterator(0)
-- 
2.43.0


From 5ea7ffa62005b45558568494fa2c3a677ec8e3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:47 +0000
Subject: [PATCH 12/26] fix: an expression in single braces is compiled instead
 of yielding a nil pattern

---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index 0e3101d..6ecaa84 100644
--- a/re/re.go
+++ b/re/re.go
@@ -84,7 +84,7 @@ func compile(root *memo.Capture, s string, capg bool, ids map[string]int) patter
 		switch root.Child(0).Id() {
 		case idIdentifier, idLiteral, idClass:
 			p = compile(root.Child(0), s, capg, ids)
-		case idOPEN:
+		case idOPEN, idBRACEO:
 			p = compile(root.Child(1), s, capg, ids)
 		case idBRACEPO:
 			p = pattern.Memo(compile(root.Child(1), s, capg, ids))
-- 
2.43.0


From d3761cd42363d5a191f394fdb7098897e1915a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:00 +0000
Subject: [PATCH 13/26] fix: character classes are converted as UTF-8 byte
 ranges

---
 rxconv/rxconv.go | 54 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index 3ea34e0..207e2ee 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -33,21 +33,11 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	case syntax.OpLiteral:
 		return p.Concat(p.Literal(string(e.Rune)), k)
 	case syntax.OpCharClass:
-		lits := make([]p.Pattern, 0, len(e.Rune))
+		alts := make([]p.Pattern, 0, len(e.Rune)/2)
 		for i := 0; i < len(e.Rune); i += 2 {
-			start := e.Rune[i]
-			end := e.Rune[i+1]
-			var patt p.Pattern
-			if start < 256 && end < 256 {
-				patt = p.Set(charset.Range(byte(start), byte(end)))
-				lits = append(lits, p.Concat(patt, k))
-			} else {
-				for ; start <= end; start++ {
-					lits = append(lits, p.Concat(p.Literal(string(start)), k))
-				}
-			}
+			alts = append(alts, runes(e.Rune[i], e.Rune[i+1])...)
 		}
-		return p.Or(lits...)
+		return p.Concat(p.Or(alts...), k)
 	case syntax.OpAnyChar:
 		// TODO: unicode
 		return p.Concat(p.Any(1), k)
@@ -89,6 +79,44 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	panic(fmt.Sprintf("unimplemented %s", e.Op))
 }
 
+// runes returns patterns for the UTF-8 encodings of the runes in [lo, hi], of
+// which at most one matches any text.
+func runes(lo, hi rune) []p.Pattern {
+	const surrogateMin, surrogateMax = 0xd800, 0xdfff
+	if lo <= surrogateMax && hi >= surrogateMin {
+		return append(runes(lo, surrogateMin-1), runes(surrogateMax+1, hi)...)
+	}
+	if lo > hi {
+		return nil
+	}
+	// split until all encodings have the same length...
+	for _, max := range []rune{0x7f, 0x7ff, 0xffff} {
+		if lo <= max && hi > max {
+			return append(runes(lo, max), runes(max+1, hi)...)
+		}
+	}
+	// ...and are the product of a range for each byte
+	if lo > 0x7f {
+		for m := rune(0x3f); m <= 0x3ffff; m = m<<6 | 0x3f {
+			if lo&^m == hi&^m {
+				continue
+			}
+			if lo&m != 0 {
+				return append(runes(lo, lo|m), runes((lo|m)+1, hi)...)
+			}
+			if hi&m != m {
+				return append(runes(lo, hi&^m-1), runes(hi&^m, hi)...)
+			}
+		}
+	}
+	l, h := string(lo), string(hi)
+	sets := make([]p.Pattern, 0, len(l))
+	for i := range []byte(l) {
+		sets = append(sets, p.Set(charset.Range(l[i], h[i])))
+	}
+	return []p.Pattern{p.Concat(sets...)}
+}
+
 func convert(r *syntax.Regexp) p.Pattern {
 	return pi(r, &p.EmptyNode{})
 }
-- 
2.43.0


From a17a536f866a7007f95b560343d869eee661f6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:00 +0000
Subject: [PATCH 14/26] fix: converted regular expressions ignore case where
 asked to

---
 rxconv/rxconv.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index 207e2ee..610a89a 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"regexp/syntax"
 	"strconv"
+	"unicode"
 
 	"github.com/zyedidia/gpeg/charset"
 	p "github.com/zyedidia/gpeg/pattern"
@@ -31,6 +32,13 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	case syntax.OpEmptyMatch:
 		return k
 	case syntax.OpLiteral:
+		if e.Flags&syntax.FoldCase != 0 {
+			patt := k
+			for i := len(e.Rune) - 1; i >= 0; i-- {
+				patt = p.Concat(fold(e.Rune[i]), patt)
+			}
+			return patt
+		}
 		return p.Concat(p.Literal(string(e.Rune)), k)
 	case syntax.OpCharClass:
 		alts := make([]p.Pattern, 0, len(e.Rune)/2)
@@ -117,6 +125,15 @@ func runes(lo, hi rune) []p.Pattern {
 	return []p.Pattern{p.Concat(sets...)}
 }
 
+// fold returns a pattern for the runes that equal r when case is ignored.
+func fold(r rune) p.Pattern {
+	alts := []p.Pattern{p.Literal(string(r))}
+	for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
+		alts = append(alts, p.Literal(string(f)))
+	}
+	return p.Or(alts...)
+}
+
 func convert(r *syntax.Regexp) p.Pattern {
 	return pi(r, &p.EmptyNode{})
 }
-- 
2.43.0


From 20bab4d9f37f0e153a380a2a7895843c9021affb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:00 +0000
Subject: [PATCH 15/26] fix: non-greedy operators of regular expressions are
 converted as such

---
 rxconv/rxconv.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index 610a89a..5b77493 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -19,13 +19,21 @@ func uniq() string {
 	return "a" + strconv.Itoa(num)
 }
 
-func star(r *syntax.Regexp, k p.Pattern) p.Pattern {
+func star(r *syntax.Regexp, k p.Pattern, flags syntax.Flags) p.Pattern {
 	nterm := uniq()
 	nonterms := make(map[string]p.Pattern)
-	nonterms[nterm] = p.Or(pi(r, p.NonTerm(nterm)), k)
+	nonterms[nterm] = prefer(pi(r, p.NonTerm(nterm)), k, flags)
 	return p.Grammar(nterm, nonterms)
 }
 
+// prefer tries more before k, or after k for non-greedy operators.
+func prefer(more, k p.Pattern, flags syntax.Flags) p.Pattern {
+	if flags&syntax.NonGreedy != 0 {
+		return p.Or(k, more)
+	}
+	return p.Or(more, k)
+}
+
 // continuation-based conversion
 func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	switch e.Op {
@@ -66,11 +74,11 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	case syntax.OpCapture:
 		return pi(e.Sub[0], k)
 	case syntax.OpStar:
-		return star(e.Sub[0], k)
+		return star(e.Sub[0], k, e.Flags)
 	case syntax.OpPlus:
-		return pi(e.Sub[0], star(e.Sub[0], k))
+		return pi(e.Sub[0], star(e.Sub[0], k, e.Flags))
 	case syntax.OpQuest:
-		return p.Or(pi(e.Sub[0], k), k)
+		return prefer(pi(e.Sub[0], k), k, e.Flags)
 	case syntax.OpBeginLine:
 		return p.Concat(p.EmptyOp(syntax.EmptyBeginLine), k)
 	case syntax.OpEndLine:
-- 
2.43.0


From 7b517b6fb667b997326129a0581a4faae4c9702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:00 +0000
Subject: [PATCH 16/26] fix: reject regular expressions that repeat an empty
 match

---
 rxconv/rxconv.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index 5b77493..8403399 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -170,8 +170,36 @@ func verify(e *syntax.Regexp) bool {
 			yes = yes && verify(s)
 		}
 		return yes
-	case syntax.OpCapture, syntax.OpStar, syntax.OpPlus, syntax.OpQuest:
+	case syntax.OpStar, syntax.OpPlus:
+		// repeating an empty match would never end
+		return verify(e.Sub[0]) && !nullable(e.Sub[0])
+	case syntax.OpCapture, syntax.OpQuest:
 		return verify(e.Sub[0])
 	}
 	return false
 }
+
+// nullable reports whether e can match without consuming anything.
+func nullable(e *syntax.Regexp) bool {
+	switch e.Op {
+	case syntax.OpLiteral, syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
+		return false
+	case syntax.OpConcat:
+		for _, s := range e.Sub {
+			if !nullable(s) {
+				return false
+			}
+		}
+		return true
+	case syntax.OpAlternate:
+		for _, s := range e.Sub {
+			if nullable(s) {
+				return true
+			}
+		}
+		return false
+	case syntax.OpCapture, syntax.OpPlus:
+		return nullable(e.Sub[0])
+	}
+	return true
+}
-- 
2.43.0


From 2375f785bf0161c7db49aca5032586fcdcf3a330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:21 +0000
Subject: [PATCH 17/26] fix: interval parses keep captures made by a lookahead
 behind their parent

---
 vm/vm.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vm/vm.go b/vm/vm.go
index 463f15e..29ecd7c 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -282,6 +282,10 @@ loop:
 				caprange.High = max(caprange.High, end)
 				capt := memo.NewCaptureNode(int(ent.memo.id), ent.memo.pos, end-ent.memo.pos, ent.capt)
 				st.addCapt(capt)
+			} else {
+				// captures made by a lookahead may overlap the interval
+				// although this one ends before it
+				st.addCapt(ent.capt...)
 			}
 			ip += szCaptureEnd
 		case opEnd:
-- 
2.43.0


From b5801b6366994d1934b82599eed5885f6869d4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:42 +0000
Subject: [PATCH 18/26] fix: the root of an interval parse spans only the
 captures kept

---
 vm/vm.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/vm/vm.go b/vm/vm.go
index 29ecd7c..b0ca5b8 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -58,10 +58,7 @@ func (vm *Code) exec(ip int, st *stack, src *input.Input, memtbl memo.Table, int
 		return true, 0, memo.NewCaptureDummy(0, 0, nil), nil
 	}
 
-	var caprange Interval
-
 	if intrvl != nil {
-		caprange = *intrvl
 		// Apply an edit that clears all memoized entries in the interval
 		// we are capturing. This ensures that we find all captures in the
 		// requested interval.
@@ -262,8 +259,6 @@ loop:
 			pos := src.Pos()
 
 			if overlaps(intrvl, pos-back, pos) {
-				caprange.Low = min(caprange.Low, pos-back)
-				caprange.High = max(caprange.High, pos)
 				capt := memo.NewCaptureNode(int(id), pos-back, back, nil)
 				st.addCapt(capt)
 			}
@@ -278,8 +273,6 @@ loop:
 
 			end := src.Pos()
 			if overlaps(intrvl, ent.memo.pos, end) {
-				caprange.Low = min(caprange.Low, ent.memo.pos)
-				caprange.High = max(caprange.High, end)
 				capt := memo.NewCaptureNode(int(ent.memo.id), ent.memo.pos, end-ent.memo.pos, ent.capt)
 				st.addCapt(capt)
 			} else {
@@ -452,6 +445,10 @@ loop:
 	}
 
 	if intrvl != nil {
+		caprange := *intrvl
+		for _, c := range st.capt {
+			cover(&caprange, c)
+		}
 		return success, src.Pos(), memo.NewCaptureDummy(caprange.Low, caprange.High-caprange.Low, st.capt), errs
 	}
 	return success, src.Pos(), memo.NewCaptureDummy(0, src.Pos(), st.capt), errs
@@ -516,6 +513,16 @@ func overlaps(i *Interval, low2, high2 int) bool {
 	return i.Low < high2 && i.High > low2
 }
 
+// cover extends an interval to a capture and all captures below it.
+func cover(i *Interval, c *memo.Capture) {
+	i.Low = min(i.Low, c.Start())
+	i.High = max(i.High, c.End())
+	it := c.ChildIterator(0)
+	for ch := it(); ch != nil; ch = it() {
+		cover(i, ch)
+	}
+}
+
 func min(a, b int) int {
 	if a < b {
 		return a
-- 
2.43.0


From 05670cef98f3b146d86d900de5d7889bd13dbfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:01 +0000
Subject: [PATCH 19/26] fix: reading the position of a memoized result holds
 the table's lock

---
 memo/tree.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/memo/tree.go b/memo/tree.go
index d24dfae..8a96af2 100644
--- a/memo/tree.go
+++ b/memo/tree.go
@@ -45,9 +45,24 @@ func (t *TreeTable) Put(id, start, length, examined, count int, captures []*Capt
 	}
 	t.lock.Lock()
 	e.setPos(t.Map.Add(id, start, start+examined, e))
+	// e and its captures may be read while other threads use the table.
+	e.pos = &lockedPos{t: t, pos: e.pos}
 	t.lock.Unlock()
 }
 
+// A lockedPos is a position in the tree of a table. Reading it applies pending
+// shifts to the tree, so it holds the table's lock.
+type lockedPos struct {
+	t   *TreeTable
+	pos interval.Pos
+}
+
+func (p *lockedPos) Pos() int {
+	p.t.lock.Lock()
+	defer p.t.lock.Unlock()
+	return p.pos.Pos()
+}
+
 func (t *TreeTable) ApplyEdit(e Edit) {
 	low, high := e.Start, e.End
 	if low == high {
-- 
2.43.0


From a421e3278254dd57c172cfe0046e869fa708fc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:01 +0000
Subject: [PATCH 20/26] fix: programs with back-references can be loaded again

---
 vm/code.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vm/code.go b/vm/code.go
index 06d568b..810ad36 100644
--- a/vm/code.go
+++ b/vm/code.go
@@ -36,7 +36,7 @@ func (c *Code) Size() int {
 
 func init() {
 	gob.Register(isa.MapChecker{})
-	gob.Register(isa.BackReference{})
+	gob.Register(&isa.BackReference{})
 }
 
 // ToBytes serializes and compresses this Code.
@@ -305,6 +305,16 @@ func addError(code *Code, msg string) uint {
 }
 
 func addChecker(code *Code, checker isa.Checker) uint {
+	// Uses of one back-reference must still share it when the code has been
+	// saved and loaded again.
+	if ref, ok := checker.(*isa.BackReference); ok {
+		for i, c := range code.data.Checkers {
+			if c == isa.Checker(ref) {
+				return uint(i)
+			}
+		}
+	}
+
 	code.data.Checkers = append(code.data.Checkers, checker)
 	return uint(len(code.data.Checkers) - 1)
 }
-- 
2.43.0


From 09a86f6c17628a405854b04e5455ae66ff8e90d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:01 +0000
Subject: [PATCH 21/26] fix: FromBytes reports damaged data

---
 vm/code.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vm/code.go b/vm/code.go
index 810ad36..9568bdc 100644
--- a/vm/code.go
+++ b/vm/code.go
@@ -7,6 +7,7 @@ import (
 	"encoding/gob"
 	"encoding/json"
 	"fmt"
+	"io"
 
 	"github.com/zyedidia/gpeg/charset"
 	"github.com/zyedidia/gpeg/isa"
@@ -58,6 +59,10 @@ func FromBytes(b []byte) (Code, error) {
 	}
 	dec := gob.NewDecoder(fz)
 	err = dec.Decode(&c)
+	if err == nil {
+		// the checksum is at the end of the data
+		_, err = io.Copy(io.Discard, fz)
+	}
 	fz.Close()
 	return Code{
 		data: c,
-- 
2.43.0


From 54e1600f5e0ab5d05c00706c59796d9b3d728697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:52 +0000
Subject: [PATCH 22/26] fix: identifiers of labels, memo entries and converted
 loops are taken atomically

Patterns put together, compiled or converted on several goroutines at once
could share an identifier within one program.
---
 isa/isa.go         |  6 +++---
 pattern/compile.go |  6 +++---
 pattern/pattern.go | 22 +++++++++++++++++++---
 rxconv/rxconv.go   |  6 +++---
 4 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/isa/isa.go b/isa/isa.go
index 80f4952..4f0b5f4 100644
--- a/isa/isa.go
+++ b/isa/isa.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"regexp/syntax"
 	"strconv"
+	"sync/atomic"
 
 	"github.com/zyedidia/gpeg/charset"
 )
@@ -37,7 +38,7 @@ type JumpType interface {
 	jumpt()
 }
 
-var uniqId int
+var uniqId int64
 
 // Label is used for marking a location in the instruction code with
 // a unique ID
@@ -48,9 +49,8 @@ type Label struct {
 
 // NewLabel returns a new label with a unique ID
 func NewLabel() Label {
-	uniqId++
 	return Label{
-		Id: uniqId,
+		Id: int(atomic.AddInt64(&uniqId, 1)),
 	}
 }
 
diff --git a/pattern/compile.go b/pattern/compile.go
index f2e7996..e7ec806 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -153,10 +153,10 @@ func (p *StarNode) Compile() (isa.Program, error) {
 		L2 := isa.NewLabel()
 		L3 := isa.NewLabel()
 		NoJump := isa.NewLabel()
-		memoId++
+		id := newMemoId()
 
 		code = append(code, L1)
-		code = append(code, isa.MemoTreeOpen{Id: memoId, Lbl: L3})
+		code = append(code, isa.MemoTreeOpen{Id: id, Lbl: L3})
 		code = append(code, isa.Choice{Lbl: L2})
 		code = append(code, sub...)
 		code = append(code, isa.Commit{Lbl: NoJump})
@@ -166,7 +166,7 @@ func (p *StarNode) Compile() (isa.Program, error) {
 		code = append(code, isa.MemoTree{})
 		code = append(code, isa.Jump{Lbl: L1})
 		code = append(code, L2)
-		code = append(code, isa.MemoTreeClose{Id: memoId})
+		code = append(code, isa.MemoTreeClose{Id: id})
 		return code, err
 	}
 
diff --git a/pattern/pattern.go b/pattern/pattern.go
index 7cd1a8a..d2d3162 100644
--- a/pattern/pattern.go
+++ b/pattern/pattern.go
@@ -4,6 +4,7 @@ package pattern
 
 import (
 	"regexp/syntax"
+	"sync"
 
 	"github.com/zyedidia/gpeg/charset"
 	"github.com/zyedidia/gpeg/isa"
@@ -34,7 +35,21 @@ func CheckFlags(p Pattern, c isa.Checker, id, flag int) Pattern {
 	}
 }
 
-var memoId = 0
+// The next memoization ID that is not in use. Patterns may be constructed and
+// compiled by several threads at once.
+var (
+	memoId   = 0
+	memoLock sync.Mutex
+)
+
+// newMemoId returns a memoization ID that is not in use.
+func newMemoId() int {
+	memoLock.Lock()
+	defer memoLock.Unlock()
+	id := memoId
+	memoId++
+	return id
+}
 
 // MemoId marks a pattern as memoizable with a particular ID.
 func MemoId(p Pattern, id int) Pattern {
@@ -42,7 +57,9 @@ func MemoId(p Pattern, id int) Pattern {
 		Patt: p,
 		Id:   id,
 	}
+	memoLock.Lock()
 	memoId = max(memoId, id) + 1
+	memoLock.Unlock()
 	return m
 }
 
@@ -50,9 +67,8 @@ func MemoId(p Pattern, id int) Pattern {
 func Memo(p Pattern) Pattern {
 	m := &MemoNode{
 		Patt: p,
-		Id:   memoId,
+		Id:   newMemoId(),
 	}
-	memoId++
 	return m
 }
 
diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index 8403399..8661c33 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -6,17 +6,17 @@ import (
 	"fmt"
 	"regexp/syntax"
 	"strconv"
+	"sync/atomic"
 	"unicode"
 
 	"github.com/zyedidia/gpeg/charset"
 	p "github.com/zyedidia/gpeg/pattern"
 )
 
-var num = 0
+var num int64
 
 func uniq() string {
-	num++
-	return "a" + strconv.Itoa(num)
+	return "a" + strconv.FormatInt(atomic.AddInt64(&num, 1), 10)
 }
 
 func star(r *syntax.Regexp, k p.Pattern, flags syntax.Flags) p.Pattern {
-- 
2.43.0


From d0dd6b0c344e375775b3fe7bf9b945c800a239ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:22 +0000
Subject: [PATCH 23/26] fix: listing and counting a table's entries holds its
 lock

---
 memo/tree.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/memo/tree.go b/memo/tree.go
index 8a96af2..8d8dfc8 100644
--- a/memo/tree.go
+++ b/memo/tree.go
@@ -76,7 +76,9 @@ func (t *TreeTable) ApplyEdit(e Edit) {
 }
 
 func (t *TreeTable) AllValues() []*Entry {
+	t.lock.Lock()
 	vals := t.Map.AllValues()
+	t.lock.Unlock()
 	entries := make([]*Entry, len(vals))
 	for i, v := range vals {
 		entries[i] = v.(*Entry)
@@ -84,6 +86,13 @@ func (t *TreeTable) AllValues() []*Entry {
 	return entries
 }
 
+// Size returns the number of entries in the table.
+func (t *TreeTable) Size() int {
+	t.lock.Lock()
+	defer t.lock.Unlock()
+	return t.Map.Size()
+}
+
 func max(a, b int) int {
 	if a > b {
 		return a
-- 
2.43.0


From 009f9043c10a8e3584923f1a9f301aea27025879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:24 +0000
Subject: [PATCH 24/26] fix: the size of an interval map counts its values, not
 their positions

---
 memo/interval/lazy/tree.go    | 2 +-
 memo/interval/lazylog/tree.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/memo/interval/lazy/tree.go b/memo/interval/lazy/tree.go
index 49c9b3e..c5f61a4 100644
--- a/memo/interval/lazy/tree.go
+++ b/memo/interval/lazy/tree.go
@@ -327,7 +327,7 @@ func (n *node) getSize() int {
 	if n == nil {
 		return 0
 	}
-	return n.left.getSize() + n.right.getSize() + 1
+	return n.left.getSize() + n.right.getSize() + len(n.iv.ivs)
 }
 
 func (n *node) updateHeightAndMax() {
diff --git a/memo/interval/lazylog/tree.go b/memo/interval/lazylog/tree.go
index 2e45a7b..66d5c3a 100644
--- a/memo/interval/lazylog/tree.go
+++ b/memo/interval/lazylog/tree.go
@@ -313,7 +313,7 @@ func (n *node) size() int {
 	if n == nil {
 		return 0
 	}
-	return n.left.size() + n.right.size() + 1
+	return n.left.size() + n.right.size() + len(n.interval.ins)
 }
 
 func (n *node) recalculateHeight() {
-- 
2.43.0


From 5ae25b467f22108ff02ab9bf9ad037ed644b5805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:24 +0000
Subject: [PATCH 25/26] fix: the JSON grammars accept exactly JSON texts

---
 grammars/json.peg      | 6 +++---
 grammars/json_memo.peg | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/grammars/json.peg b/grammars/json.peg
index 9073074..99a90be 100644
--- a/grammars/json.peg
+++ b/grammars/json.peg
@@ -2,9 +2,9 @@ doc           <- JSON !.
 JSON          <- S_ (Number / Object / Array / String / True / False / Null) S_
 Object        <- '{' (String ':' JSON (',' String ':' JSON)* / S_) '}'
 Array         <- '[' (JSON (',' JSON)* / S_) ']'
-StringBody    <- Escape? ((!["\\\00-\37] .)+ Escape*)*
+StringBody    <- (Escape / !["\\\00-\37] .)*
 String        <- S_ '"' StringBody '"' S_
-Escape        <- '\\' (["{|\\bfnrt] / UnicodeEscape)
+Escape        <- '\\' (["/\\bfnrt] / UnicodeEscape)
 UnicodeEscape <- 'u' [0-9A-Fa-f][0-9A-Fa-f][0-9A-Fa-f][0-9A-Fa-f]
 Number        <- Minus? IntPart FractPart? ExpPart?
 Minus         <- '-'
@@ -14,4 +14,4 @@ ExpPart       <- [eE] [+\-]? [0-9]+
 True          <- 'true'
 False         <- 'false'
 Null          <- 'null'
-S_            <- [\11-\15\40]*
+S_            <- [\11\12\15\40]*
diff --git a/grammars/json_memo.peg b/grammars/json_memo.peg
index 0e75955..324dc31 100644
--- a/grammars/json_memo.peg
+++ b/grammars/json_memo.peg
@@ -2,9 +2,9 @@ doc           <- JSON !.
 JSON          <- S_ (Number / Object / Array / String / True / False / Null) S_
 Object        <- '{' (String ':' JSON (',' String ':' JSON)* / S_) '}'
 Array         <- '[' (JSON ({{',' JSON}})* / S_) ']'
-StringBody    <- Escape? ((!["\\\00-\37] .)+ Escape*)*
+StringBody    <- (Escape / !["\\\00-\37] .)*
 String        <- S_ '"' StringBody '"' S_
-Escape        <- '\\' (["{|\\bfnrt] / UnicodeEscape)
+Escape        <- '\\' (["/\\bfnrt] / UnicodeEscape)
 UnicodeEscape <- 'u' [0-9A-Fa-f][0-9A-Fa-f][0-9A-Fa-f][0-9A-Fa-f]
 Number        <- Minus? IntPart FractPart? ExpPart?
 Minus         <- '-'
@@ -14,4 +14,4 @@ ExpPart       <- [eE] [+\-]? [0-9]+
 True          <- 'true'
 False         <- 'false'
 Null          <- 'null'
-S_            <- [\11-\15\40]*
+S_            <- [\11\12\15\40]*
-- 
2.43.0


From 0d735e99cea7d89b7df84890d05aa726d99a1063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:24 +0000
Subject: [PATCH 26/26] fix: re.peg describes the notation re.Compile reads

---
 grammars/re.peg | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/grammars/re.peg b/grammars/re.peg
index 940e92c..bc8807c 100644
--- a/grammars/re.peg
+++ b/grammars/re.peg
@@ -1,16 +1,16 @@
-Pattern    <- Spacing_ (Expression / Grammar) EndOfFile_
+Pattern    <- Spacing_ (Grammar / Expression) EndOfFile_
 Grammar    <- Definition+
-Definition <- Identifier '<-' Expression
+Definition <- Identifier LEFTARROW Expression
 
-Expression <- Sequence ('/' Sequence)*
+Expression <- Sequence (SLASH Sequence)*
 Sequence   <- Prefix*
 Prefix     <- (AND / NOT)? Suffix
 Suffix     <- Primary (QUESTION / STAR / PLUS)?
-Primary    <- Identifier !'<-'
-            / '(' Expression ')'
+Primary    <- Identifier !LEFTARROW
+            / OPEN Expression CLOSE
             / Literal / Class
-            / '{' Expression '}'
-            / '{+' Expression '+}'
+            / BRACEPO Expression BRACEPC
+            / BRACEO Expression BRACEC
             / DOT
 
 # Lexical syntax
@@ -22,7 +22,7 @@ Literal    <- ['] (!['] Char)* ['] Spacing_
             / ["] (!["] Char)* ["] Spacing_
 Class      <- '[' CARAT? (!']' Range)* ']' Spacing_
 Range      <- Char '-' Char / Char
-Char       <- '\\' [nrt'"\[\]\\]
+Char       <- '\\' [nrt'"\[\]\\\-]
             / '\\' [0-2][0-7][0-7]
             / '\\' [0-7][0-7]?
             / !'\\' .
@@ -34,6 +34,14 @@ STAR       <- '*' Spacing_
 PLUS       <- '+' Spacing_
 DOT        <- '.' Spacing_
 CARAT      <- '^' Spacing_
+LEFTARROW  <- '<-' Spacing_
+SLASH      <- '/' Spacing_
+OPEN       <- '(' Spacing_
+CLOSE      <- ')' Spacing_
+BRACEO     <- '{' Spacing_
+BRACEC     <- '}' Spacing_
+BRACEPO    <- '{{' Spacing_
+BRACEPC    <- '}}' Spacing_
 
 Spacing_   <- (Space_ / Comment_)*
 Comment_   <- '#' (!EndOfLine_ .)* EndOfLine_
-- 
2.43.0

