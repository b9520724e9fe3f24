From d547f82bf0d9c228ea3f4aacfc96946db7a8a92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 01/31] fix: source.Queue.Skip no longer overflows for huge
 sizes

---
 source/source.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/source.go b/source/source.go
index 52d45d9..3b9c4f5 100755
--- a/source/source.go
+++ b/source/source.go
@@ -308,9 +308,10 @@ func (q *Queue) Skip(size int) {
 		return
 	}
 
-	q.pos += size
-	if q.pos >= q.source.Len() {
+	if size >= q.source.Len()-q.pos {
 		q.pos = q.source.Len()
+	} else {
+		q.pos += size
 	}
 }
 
-- 
2.43.0


From 9af48bc861f1420d35fc96769aa819c77848b1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 02/31] fix: lexer.EofToken accepts nil source as documented

---
 lexer/token.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer/token.go b/lexer/token.go
index 2eb1aea..7d86f5c 100755
--- a/lexer/token.go
+++ b/lexer/token.go
@@ -92,6 +92,10 @@ const (
 // EofToken creates a token of EofTokenType.
 // s may be nil.
 func EofToken(s *source.Source) *Token {
+	if s == nil {
+		return &Token{tokenType: EofTokenType, typeName: EofTokenName}
+	}
+
 	return &Token{tokenType: EofTokenType, typeName: EofTokenName, pos: source.NewPos(s, s.Len())}
 }
 
-- 
2.43.0


From bf0e404f0cb844ded82d04ac12c7f39edb0c89e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 03/31] fix: lexer restores queue position when no token is
 fetched, as documented

---
 lexer/lexer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 3d954ae..58ad16c 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -145,8 +145,12 @@ func (l *Lexer) fetch(q *source.Queue, tSet TokenTypeSet) (*Token, bool, error)
 // Returns EoI token if queue is empty.
 // Returns EoF token and discards current source if current position is beyond the end of current source.
 func (l *Lexer) Next(q *source.Queue) (*Token, error) {
+	pos := q.Pos()
 	for {
 		t, _, e := l.fetch(q, AllTokenTypes)
+		if e != nil {
+			q.Seek(pos)
+		}
 		if t != nil || e != nil {
 			return t, e
 		}
@@ -163,8 +167,12 @@ func (l *Lexer) NextOf(q *source.Queue, tts TokenTypeSet) (*Token, error) {
 		return nil, nil
 	}
 
+	pos := q.Pos()
 	for {
 		t, advanced, e := l.fetch(q, tts)
+		if t == nil && !advanced {
+			q.Seek(pos)
+		}
 		if t != nil || e != nil || !advanced {
 			return t, e
 		}
-- 
2.43.0


From ce60c3e57ea38e15bc013149d1ed70f598fddd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 04/31] fix: parser reports what is expected instead of
 panicking when only end of input fits

---
 parser/parser.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index aa31717..4a01d57 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -553,20 +553,29 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 
 func (pc *ParseContext) getExpectedToken(s grammar.State) string {
 	g := pc.parser.grammar
-	index := 0
-	if s.HighRule > s.LowRule {
-		index = g.Rules[s.LowRule].Token
-		if index < 0 && s.HighRule > s.LowRule+1 {
-			index = g.Rules[s.LowRule+1].Token
+	index := grammar.AnyToken
+	for _, r := range g.Rules[s.LowRule:s.HighRule] {
+		if r.Token != grammar.AnyToken {
+			index = r.Token
+		}
+		if index >= 0 {
+			break
 		}
 	}
 	if s.HighMultiRule > s.LowMultiRule {
 		i := g.MultiRules[s.LowMultiRule].Token
-		if i < index {
+		if index < 0 || i < index {
 			index = i
 		}
 	}
 
+	switch {
+	case index == lexer.EoiTokenType:
+		return "end of input"
+	case index < 0 || index >= len(g.Tokens):
+		return "any token"
+	}
+
 	token := g.Tokens[index]
 	if (token.Flags & grammar.LiteralToken) != 0 {
 		return token.Name
-- 
2.43.0


From 98e59e0416cdd7623fae8854ac8ab0fed1cd80eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 05/31] fix: langdef lets the parser fetch tokens in states
 expecting only end of input

---
 langdef/parser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index b9444ea..f73adab 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -1105,11 +1105,14 @@ func assignStateTokenTypes(g *parseResult, e error) error {
 		return e
 	}
 
-	var defaultTypes grammar.BitSet
+	var defaultTypes, fetchedTypes grammar.BitSet
 	for i, t := range g.Tokens {
 		if t.Flags&grammar.SideToken != 0 {
 			defaultTypes |= 1 << i
 		}
+		if t.Re != "" && t.Flags&grammar.ErrorToken == 0 {
+			fetchedTypes |= 1 << i
+		}
 	}
 
 	totalNts := len(g.Nodes)
@@ -1129,6 +1132,10 @@ func assignStateTokenTypes(g *parseResult, e error) error {
 					types |= g.TTypes[k]
 				}
 			}
+			if _, has := st.Rules[lexer.EoiTokenType]; has && types&fetchedTypes == 0 {
+				// no lexer is used unless some of its token types is expected
+				types |= fetchedTypes
+			}
 
 			g.States[j].Types = types
 		}
-- 
2.43.0


From 93ed0bf332879dfbbeb5cfcb068b0160976cf64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 06/31] fix: langdef no longer shares rules between states when
 renumbering them

---
 langdef/result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/result.go b/langdef/result.go
index 6158acb..d697857 100644
--- a/langdef/result.go
+++ b/langdef/result.go
@@ -118,7 +118,7 @@ func (se *stateEntry) CopyRules(from *stateEntry) {
 		if k >= 0 {
 			se.Rules[k] = append(se.Rules[k], rs...)
 		} else {
-			se.Rules[k] = rs
+			se.Rules[k] = append([]grammar.Rule(nil), rs...)
 		}
 	}
 }
-- 
2.43.0


From 2088b9f4637d4f290529482dbb82b341c9f8b96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:17 +0000
Subject: [PATCH 07/31] fix: parser no longer loses branches when tracing
 conflicting rules

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 4a01d57..ac72a5a 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -947,7 +947,7 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 
 	for {
 		branches = nextBranches
-		nextBranches = nextBranches[:0]
+		nextBranches = nil
 		tokens = append(tokens, tok)
 		lastSuccess = nil
 
-- 
2.43.0


From 43b2b6b771dacdf149b5e5bf3505c43c2517ee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 08/31] fix: langdef builds no state that loops without
 consuming tokens

---
 langdef/chunks.go | 3 +++
 langdef/result.go | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/langdef/chunks.go b/langdef/chunks.go
index f660d21..c8e3188 100755
--- a/langdef/chunks.go
+++ b/langdef/chunks.go
@@ -113,6 +113,9 @@ func (c *groupChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) {
 	if needExtraRule {
 		g.States[stateIndex].CopyRules(g.States[states[0]])
 	}
+	if c.isRepeated {
+		g.States[stateIndex].DropLoop(stateIndex)
+	}
 }
 
 type eoiChunk struct{}
diff --git a/langdef/result.go b/langdef/result.go
index d697857..e6d8b84 100644
--- a/langdef/result.go
+++ b/langdef/result.go
@@ -113,6 +113,14 @@ func (se *stateEntry) BypassRule(nextState int) {
 	se.AddRule(nextState, grammar.SameNode, grammar.AnyToken)
 }
 
+// DropLoop removes the rule leading back to the same state without consuming a token, if any.
+func (se *stateEntry) DropLoop(stateIndex int) {
+	rs := se.Rules[grammar.AnyToken]
+	if len(rs) != 0 && rs[0].State == stateIndex && rs[0].Node == grammar.SameNode {
+		delete(se.Rules, grammar.AnyToken)
+	}
+}
+
 func (se *stateEntry) CopyRules(from *stateEntry) {
 	for k, rs := range from.Rules {
 		if k >= 0 {
-- 
2.43.0


From e39239709394a65831c66244a8da7a0951634798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:24 +0000
Subject: [PATCH 09/31] fix: parser no longer panics on missing tokens recorded
 while tracing conflicting rules

---
 parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index ac72a5a..e889ca7 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -496,7 +496,7 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 		for !tokenConsumed && node != nil {
 			rule, found := pc.nextRule(ctx, tok, gr.States[node.state])
 			if !found {
-				if tok == nil {
+				for tok == nil {
 					tok, e = pc.nextToken(ctx, lexer.AllTokenTypes)
 					if e != nil {
 						return nil, e
@@ -537,6 +537,10 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 				return nil, e
 			}
 
+			if tok == nil {
+				continue
+			}
+
 			tt := tok.Type()
 			if tt == lexer.EoiTokenType {
 				break
-- 
2.43.0


From 20dbfa138cef48fdaa6a4f34a859356e13f839ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:24 +0000
Subject: [PATCH 10/31] fix: parser detects the end of input even if the
 grammar defines no fetchable tokens

---
 parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index e889ca7..90a2fc1 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -825,7 +825,11 @@ func (pc *ParseContext) fetchToken(types grammar.BitSet) (*Token, error) {
 	var e error
 
 	for _, l := range pc.parser.lexers {
-		result, e = l.NextOf(pc.sources, types)
+		if types == lexer.AllTokenTypes {
+			result, e = l.Next(pc.sources)
+		} else {
+			result, e = l.NextOf(pc.sources, types)
+		}
 		if e == nil && result != nil {
 			return result, nil
 		}
-- 
2.43.0


From 00bbb6770fc15e72b5c129345ef8c2b24596dc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:11 +0000
Subject: [PATCH 11/31] fix: parser matches rules against the token fetched
 after none of the expected types fits

---
 parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 90a2fc1..f1a305e 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -496,11 +496,12 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 		for !tokenConsumed && node != nil {
 			rule, found := pc.nextRule(ctx, tok, gr.States[node.state])
 			if !found {
-				for tok == nil {
+				if tok == nil {
 					tok, e = pc.nextToken(ctx, lexer.AllTokenTypes)
 					if e != nil {
 						return nil, e
 					}
+					continue
 				}
 				expected := pc.getExpectedToken(gr.States[node.state])
 				if tok.Type() == lexer.EoiTokenType {
-- 
2.43.0


From 0cb6f646dc3d9994c395ae56fdc18d2624f15a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:21 +0000
Subject: [PATCH 12/31] fix: look for the next or previous token past nodes
 without tokens

---
 tree/tree.go | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index 3aeeea8..f8d2b64 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -99,17 +99,23 @@ func NextTokenElement(n Element) Element {
 		return nil
 	}
 
-	nn := n.Next()
-	for nn == nil {
-		n = n.Parent()
-		if n == nil {
-			return nil
+	for {
+		nn := n.Next()
+		if nn == nil {
+			n = n.Parent()
+			if n == nil {
+				return nil
+			}
+
+			continue
 		}
 
-		nn = n.Next()
+		n = nn
+		nn = FirstTokenElement(n)
+		if nn != nil {
+			return nn
+		}
 	}
-
-	return FirstTokenElement(nn)
 }
 
 // PrevTokenElement returns the last token element before given one, if there are any.
@@ -119,17 +125,23 @@ func PrevTokenElement(n Element) Element {
 		return nil
 	}
 
-	nn := n.Prev()
-	for nn == nil {
-		n = n.Parent()
-		if n == nil {
-			return nil
+	for {
+		nn := n.Prev()
+		if nn == nil {
+			n = n.Parent()
+			if n == nil {
+				return nil
+			}
+
+			continue
 		}
 
-		nn = n.Prev()
+		n = nn
+		nn = LastTokenElement(n)
+		if nn != nil {
+			return nn
+		}
 	}
-
-	return LastTokenElement(nn)
 }
 
 // Children returns child elements (if there are any) or nil if given element is not a node.
-- 
2.43.0


From de24fbc8556bf0c59baaef17fe1a3d07b3092e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:36 +0000
Subject: [PATCH 13/31] fix: tree.Replace with the next sibling as the new
 element or with the tree root as the old one

---
 tree/tree.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree/tree.go b/tree/tree.go
index f8d2b64..76f2a2e 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -171,6 +171,7 @@ func Detach(n Element) {
 }
 
 // Replace replaces old element with new one or simply removes old element if the new one is nil.
+// Does nothing if old element is the tree root.
 func Replace(old, n Element) {
 	if n == nil || old == nil {
 		Detach(old)
@@ -178,9 +179,13 @@ func Replace(old, n Element) {
 	}
 
 	pa := old.Parent()
+	if pa == nil || n == old {
+		return
+	}
+
+	Detach(n)
 	ne := old.Next()
 	Detach(old)
-	Detach(n)
 	pa.AddChild(n, ne)
 }
 
-- 
2.43.0


From ce885928090e505b134362e92c028dca92b7a400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:36 +0000
Subject: [PATCH 14/31] fix: placing a tree element next to itself

---
 tree/tree.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index 76f2a2e..bf76ca9 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -191,9 +191,9 @@ func Replace(old, n Element) {
 
 // AppendSibling places new element after target one.
 // Target becomes new element's previous sibling, target's next sibling (if any) becomes new element's next sibling.
-// Does nothing if either new or target element is nil.
+// Does nothing if either new or target element is nil or if they are the same.
 func AppendSibling(prev, el Element) {
-	if el == nil || prev == nil {
+	if el == nil || prev == nil || el == prev {
 		return
 	}
 
@@ -214,9 +214,9 @@ func AppendSibling(prev, el Element) {
 
 // PrependSibling places new element before target one.
 // Target becomes new element's next sibling, target's previous sibling (if any) becomes new element's previous sibling.
-// Does nothing if either new or target element is nil.
+// Does nothing if either new or target element is nil or if they are the same.
 func PrependSibling(next, el Element) {
-	if el == nil || next == nil {
+	if el == nil || next == nil || el == next {
 		return
 	}
 
-- 
2.43.0


From ba91d36148fe92ac3d981b92546faabd573c11bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:17 +0000
Subject: [PATCH 15/31] fix: indent layer must not write to the source when it
 joins space tokens

---
 parser/layers/indent/indent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index aad3122..b5a1b18 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -285,7 +285,7 @@ func (ls *layerState) adjustIndent(content []byte) state {
 	} else { // fetching multiple space tokens in a row, just in case...
 		tmp := make([]byte, len(ls.currentIndent), len(ls.currentIndent)+len(content))
 		copy(tmp, ls.currentIndent) // avoid spoiling source file
-		ls.currentIndent = append(ls.currentIndent, content...)
+		ls.currentIndent = append(tmp, content...)
 	}
 
 	currentLen := len(ls.currentIndent)
-- 
2.43.0


From 4a9f7c0afc470fd0dc0812244ec1ea5446eb91d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:17 +0000
Subject: [PATCH 16/31] fix: layer name in the message about a wrong number of
 layer command arguments

---
 parser/layers/common/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/layers/common/errors.go b/parser/layers/common/errors.go
index 62a211c..a1f7d3d 100644
--- a/parser/layers/common/errors.go
+++ b/parser/layers/common/errors.go
@@ -36,7 +36,7 @@ func MakeMissingCommandError(layer, command string) *llx.Error {
 
 func MakeNumberOfArgumentsError(layer, command string, expected, got int) *llx.Error {
 	return llx.FormatError(NumberOfArgumentsError,
-		"wrong number of arguments for %q command for %q layer: expecting %d, got %d", command, expected, got)
+		"wrong number of arguments for %q command for %q layer: expecting %d, got %d", command, layer, expected, got)
 }
 
 func MakeInvalidArgumentError(layer, command, arg, reason string) *llx.Error {
-- 
2.43.0


From 08fb2867b5a500f8a1e693b93e3ee10283fc81fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:36 +0000
Subject: [PATCH 17/31] fix: report wrong hooks of hook layers instead of
 dropping the rest of the layer

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index f1a305e..69bb0a5 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -268,7 +268,10 @@ func newParseContext(ctx context.Context, p *Parser, q *source.Queue, hs Hooks)
 
 	for i := len(p.layers) - 1; i >= 0; i-- {
 		hooks := p.layers[i].Init(ctx, result)
-		newHookLayer(p, result, hooks)
+		e = newHookLayer(p, result, hooks)
+		if e != nil {
+			return nil, e
+		}
 	}
 
 	firstToken := lexer.NewToken(grammar.AnyToken, "", nil, q.SourcePos())
-- 
2.43.0


From 14609f0e5fb4ab073d673c24db8854233927623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:46 +0000
Subject: [PATCH 18/31] fix: indent layer setup must reject unknown commands,
 repeated space command and special token types

---
 parser/layers/indent/indent.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index b5a1b18..1c63a2e 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -386,6 +386,10 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 		switch command.Command {
 
 		case spaceCommand:
+			if gotSpaces {
+				return nil, common.MakeCommandAlreadyUsedError(layerName, command.Command)
+			}
+
 			gotSpaces = true
 			if len(command.Arguments) == 0 {
 				return nil, common.MakeNumberOfArgumentsError(layerName, command.Command, 1, 0)
@@ -393,7 +397,7 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 
 			for _, ttn := range command.Arguments {
 				tt, valid := p.TokenType(ttn)
-				if !valid {
+				if !valid || tt < 0 {
 					return nil, common.MakeUnknownTokenTypeError(layerName, command.Command, ttn)
 				}
 
@@ -425,6 +429,9 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 			if prevType != "" {
 				return nil, common.MakeCommandAlreadyUsedError(layerName, command.Command)
 			}
+
+		default:
+			return nil, common.MakeUnknownCommandError(layerName, command.Command)
 		}
 	}
 
-- 
2.43.0


From 8febe788eefd43a1a500e67e519a2bcb21028c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:46 +0000
Subject: [PATCH 19/31] fix: convert layer setup must reject arguments of
 save-position

---
 parser/layers/convert/convert.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/layers/convert/convert.go b/parser/layers/convert/convert.go
index df403f7..ca2c684 100644
--- a/parser/layers/convert/convert.go
+++ b/parser/layers/convert/convert.go
@@ -125,6 +125,10 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 			}
 
 		case savePositionCommand:
+			if len(command.Arguments) != 0 {
+				return nil, common.MakeNumberOfArgumentsError(layerName, command.Command, 0, len(command.Arguments))
+			}
+
 			savePosition = true
 
 		default:
-- 
2.43.0


From fbb9fe96fac5dd5bb39436ac30fab09b86271d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:16 +0000
Subject: [PATCH 20/31] fix: keep looking for tokens of the outer node after an
 ambiguity inside a nested one

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 69bb0a5..23720dc 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1014,6 +1014,10 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 		b = nextBranches[0]
 	} else if lastSuccess != nil {
 		b = lastSuccess
+		if tok == nil && len(tokens) > 1 {
+			// none of the types other branches expected, the outer node may expect different ones
+			tokens = tokens[:len(tokens)-1]
+		}
 	} else {
 		b = lastError
 	}
-- 
2.43.0


From ef889adeaac39e7caedc4b9808951afdea726068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:57 +0000
Subject: [PATCH 21/31] fix: langdef no longer hangs when a definition ends
 within a list of tokens

---
 langdef/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/langdef/parser.go b/langdef/parser.go
index f73adab..675653f 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -427,6 +427,11 @@ func (c *parseContext) fetchAll(types []string, e error) ([]*lexer.Token, error)
 			break
 		}
 
+		if isEof(t) {
+			c.put(t)
+			break
+		}
+
 		result = append(result, t)
 	}
 
-- 
2.43.0


From 05e5b55d6a31ef0368103287eb8d5f0d829c9e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:59 +0000
Subject: [PATCH 22/31] fix: langdef does not take names for token types of the
 same name

---
 langdef/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 675653f..8d5af89 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -327,7 +327,7 @@ func (c *parseContext) fetch(types []string, strict bool, e error) (*lexer.Token
 	}
 
 	for _, typ := range types {
-		if token.TypeName() == typ || token.Text() == typ {
+		if token.TypeName() == typ || (token.TypeName() == opTok && token.Text() == typ) {
 			return token, nil
 		}
 	}
-- 
2.43.0


From 0889b100254737995507c59bbd8de6737f611d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:43 +0000
Subject: [PATCH 23/31] fix: langdef treats \x## in strings as a byte, as
 documented

---
 langdef/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 8d5af89..1791181 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -399,7 +399,11 @@ func processStringToken(token *lexer.Token) (*lexer.Token, error) {
 				return nil, e
 			}
 
-			result = utf8.AppendRune(result, r)
+			if entry.hexLen == 2 {
+				result = append(result, byte(r))
+			} else {
+				result = utf8.AppendRune(result, r)
+			}
 			content = content[entry.hexLen+2:]
 		}
 	}
-- 
2.43.0


From 7f05ec95fcbb5b75ab225f1c4e5c1735b3aeb1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:51 +0000
Subject: [PATCH 24/31] fix: langdef keeps repeated variants apart from other
 variants

---
 langdef/chunks.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/langdef/chunks.go b/langdef/chunks.go
index c8e3188..3b19b4f 100755
--- a/langdef/chunks.go
+++ b/langdef/chunks.go
@@ -38,7 +38,19 @@ func (c *variantChunk) Append(ch chunk) {
 
 func (c *variantChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) {
 	for _, chunk := range c.chunks {
-		chunk.BuildStates(g, stateIndex, nextIndex)
+		group, isGroup := chunk.(*groupChunk)
+		if !isGroup || !group.startsWithLoop() {
+			chunk.BuildStates(g, stateIndex, nextIndex)
+			continue
+		}
+
+		// other variants must not be available inside the loop
+		loopIndex, loop := g.AddState()
+		chunk.BuildStates(g, loopIndex, nextIndex)
+		g.States[stateIndex].CopyRules(loop)
+		if group.isRepeated {
+			loop.BypassRule(nextIndex)
+		}
 	}
 }
 
@@ -80,10 +92,24 @@ func (c *groupChunk) Append(ch chunk) {
 	c.chunks = append(c.chunks, ch)
 }
 
+// startsWithLoop returns true if BuildStates adds rules leading back to the starting state.
+func (c *groupChunk) startsWithLoop() bool {
+	if c.isRepeated {
+		return true
+	}
+
+	first, isGroup := c.chunks[0].(*groupChunk)
+	return isGroup && first.startsWithLoop()
+}
+
 func (c *groupChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) {
 	tailIndex := nextIndex
 	totalChunks := len(c.chunks)
 	needExtraRule := (c.isRepeated && totalChunks > 1)
+	if first, isGroup := c.chunks[0].(*groupChunk); isGroup && c.isRepeated && !first.isRepeated {
+		// it must not be possible to leave in the middle of the nested group
+		needExtraRule = needExtraRule || first.startsWithLoop()
+	}
 	states := make([]int, totalChunks+1)
 	if c.isRepeated {
 		tailIndex = stateIndex
-- 
2.43.0


From d185b4072ad6f7f98ae96a7f3b250af98084564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:00 +0000
Subject: [PATCH 25/31] fix: langdef counts token types mentioned before their
 definitions once

---
 langdef/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 1791181..6234798 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -239,7 +239,7 @@ func (c *parseContext) Parse(s *source.Source) (*parseResult, error) {
 		return nil, e
 	}
 
-	if len(c.result.Tokens)+len(c.extraTokens) >= grammar.MaxTokenType {
+	if len(c.result.Tokens)+len(c.extraIndex) >= grammar.MaxTokenType {
 		return nil, tokenTypeNumberError(t)
 	}
 
-- 
2.43.0


From bd05d76967828b4ce1818a9a6997d9a60b73da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:17 +0000
Subject: [PATCH 26/31] fix: langdef reserves literals that were allowed by a
 directive before

---
 langdef/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 6234798..060985d 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -469,8 +469,10 @@ func (c *parseContext) addToken(name, re string, flags grammar.TokenFlags) int {
 }
 
 func (c *parseContext) addLiteralToken(name string, flags grammar.TokenFlags) {
-	_, has := c.literalIndex[name]
-	if !has {
+	i, has := c.literalIndex[name]
+	if has {
+		c.literals[i].flags |= flags
+	} else {
 		c.literalIndex[name] = len(c.literals)
 		c.literals = append(c.literals, literalToken{name, flags})
 	}
-- 
2.43.0


From c1a4bfafcb5637eda73d9369c24593247f16e8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:47 +0000
Subject: [PATCH 27/31] fix: langdef does not ignore a wrong first argument of
 a layer command

---
 langdef/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 060985d..e35cb73 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -643,7 +643,11 @@ func (c *parseContext) parseLayerDef(t *lexer.Token) error {
 			return e
 		}
 
-		token, _ = c.fetchOne(rBraceTok, false, e)
+		token, e = c.fetchOne(rBraceTok, false, e)
+		if e != nil {
+			return e
+		}
+
 		if token != nil {
 			layer.Commands = append(layer.Commands, command)
 			continue
-- 
2.43.0


From 4b58d6cdc776ae764181b4663940f0cfd10beeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:35 +0000
Subject: [PATCH 28/31] fix: langdef checks grammars for left recursion in
 polynomial time

---
 langdef/parser.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index e35cb73..707f82e 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -1041,8 +1041,9 @@ func findRecursions(g *parseResult, e error) error {
 	}
 
 	ntis := ints.NewSet()
+	clean := ints.NewSet()
 	for i := range g.Nodes {
-		if ntIsRecursive(g, i, ints.NewSet()) {
+		if ntIsRecursive(g, i, ints.NewSet(), clean) {
 			ntis.Add(i)
 		}
 	}
@@ -1054,16 +1055,23 @@ func findRecursions(g *parseResult, e error) error {
 	}
 }
 
-func ntIsRecursive(g *parseResult, index int, visited *ints.Set) bool {
+// ntIsRecursive adds nodes that cannot lead to a left recursion to the clean set, these are not checked again.
+func ntIsRecursive(g *parseResult, index int, visited, clean *ints.Set) bool {
 	visited.Add(index)
 	st := g.States[g.Nodes[index].FirstState]
 	for _, rs := range st.Rules {
 		for _, r := range rs {
-			if r.Node != grammar.SameNode && (visited.Contains(r.Node) || ntIsRecursive(g, r.Node, visited.Copy())) {
+			if r.Node == grammar.SameNode || clean.Contains(r.Node) {
+				continue
+			}
+
+			if visited.Contains(r.Node) || ntIsRecursive(g, r.Node, visited, clean) {
 				return true
 			}
 		}
 	}
+	visited.Remove(index)
+	clean.Add(index)
 	return false
 }
 
-- 
2.43.0


From 06a1a3d6dfcd19aebd42b65869bb7ea16b0d4c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:17 +0000
Subject: [PATCH 29/31] fix: langdef accepts line feeds in single-quoted
 literals, as documented

---
 langdef/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 707f82e..e5f7e39 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -166,7 +166,7 @@ func init() {
 
 	re := regexp.MustCompile(
 		`^(?:\s+|#[^\n]*|` +
-			`((?:"(?:[^\\"]|\\.)*")|(?:'.*?'))|` +
+			`((?:"(?:[^\\"]|\\.)*")|(?:'[^']*'))|` +
 			`([a-zA-Z_][a-zA-Z_0-9-]*)|` +
 			`(![a-z]+)|` +
 			`(\$\$[a-zA-Z_][a-zA-Z_0-9-]*)|` +
-- 
2.43.0


From 9936dbf7dcf466a58e645519893c9732be789947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:20 +0000
Subject: [PATCH 30/31] fix: langdef does not move a token type to another
 group twice before its definition

---
 langdef/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/langdef/parser.go b/langdef/parser.go
index e5f7e39..372cb5d 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -574,6 +574,10 @@ func (c *parseContext) parseGroupDir() error {
 			c.result.Tokens[i].Group = c.currentGroup
 		} else {
 			i = c.addExtraToken(name)
+			if c.extraTokens[i].group != 0 {
+				return reassignedGroupError(name)
+			}
+
 			c.extraTokens[i].group = c.currentGroup
 		}
 	}
-- 
2.43.0


From 71405b675ba1a8c58e905a7de7604c33423a4307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:14 +0000
Subject: [PATCH 31/31] fix: langdef reports where a definition ends
 unexpectedly

---
 langdef/parser.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 372cb5d..f461b89 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -336,6 +336,7 @@ func (c *parseContext) fetch(types []string, strict bool, e error) (*lexer.Token
 		if strict {
 			return nil, eofError(token)
 		} else {
+			c.put(token)
 			return token, nil
 		}
 	}
@@ -427,12 +428,7 @@ func (c *parseContext) fetchAll(types []string, e error) ([]*lexer.Token, error)
 			return nil, e
 		}
 
-		if t == nil {
-			break
-		}
-
-		if isEof(t) {
-			c.put(t)
+		if t == nil || isEof(t) {
 			break
 		}
 
-- 
2.43.0

