From 87c46717103d8946b8c8a4a722ab6d399eef9a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 01/45] fix: do not overwrite lookahead branches that are not
 examined yet

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index aa31717..c90b49c 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -938,7 +938,7 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 
 	for {
 		branches = nextBranches
-		nextBranches = nextBranches[:0]
+		nextBranches = nil
 		tokens = append(tokens, tok)
 		lastSuccess = nil
 
-- 
2.43.0


From 4f3ccdc3b7b3d2f020bc4422aa03027d33520817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 02/45] fix: report errors of token hooks and layers met while
 looking ahead

---
 parser/parser.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index c90b49c..6861048 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -494,7 +494,11 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 		}
 
 		for !tokenConsumed && node != nil {
-			rule, found := pc.nextRule(ctx, tok, gr.States[node.state])
+			rule, found, e := pc.nextRule(ctx, tok, gr.States[node.state])
+			if e != nil {
+				return nil, e
+			}
+
 			if !found {
 				if tok == nil {
 					tok, e = pc.nextToken(ctx, lexer.AllTokenTypes)
@@ -723,7 +727,7 @@ func (pc *ParseContext) pullToken(ctx context.Context, types grammar.BitSet, lay
 	}
 }
 
-func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State) (r grammar.Rule, found bool) {
+func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State) (r grammar.Rule, found bool, e error) {
 	r, found = pc.appliedRules.First()
 	if found {
 		return
@@ -739,7 +743,11 @@ func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State)
 		r = rules[0]
 	} else {
 		//		tokens, rules := pc.resolve(ctx, t, rules)
-		tokens, rules := pc.resolveConflict(ctx, t)
+		tokens, rules, e := pc.resolveConflict(ctx, t)
+		if e != nil {
+			return r, false, e
+		}
+
 		r = rules[0]
 		for i := len(tokens) - 1; i >= 1; i-- {
 			pc.tokens.Prepend(tokens[i])
@@ -914,7 +922,7 @@ func (pc *ParseContext) applyRule(ctx context.Context, tok *lexer.Token, rule gr
 	return tokenConsumed, e
 }
 
-func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Token, []grammar.Rule) {
+func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Token, []grammar.Rule, error) {
 	var tokens []*lexer.Token
 	nextBranches := []*parsingBranch{pc.newParsingBranch()}
 	var branches []*parsingBranch
@@ -985,7 +993,7 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 		var e error
 		tok, e = pc.nextToken(ctx, types)
 		if e != nil {
-			break
+			return nil, nil, e
 		}
 	}
 
@@ -997,5 +1005,5 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 		b = lastError
 	}
 
-	return tokens, b.AppliedRules
+	return tokens, b.AppliedRules, nil
 }
-- 
2.43.0


From a6b0634bd267ca50fdf37cc4563e921ffab817d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 03/45] fix: return looked-ahead tokens to the sources when the
 root node ends before them

---
 parser/parser.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6861048..8d94c5d 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -524,15 +524,10 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 		}
 	}
 
-	if !tokenConsumed && tok.Type() != lexer.EoiTokenType {
-		s := tok.Source()
-		if s != nil {
-			if s != pc.sources.Source() {
-				pc.sources.Prepend(s)
-			}
-			pc.sources.Seek(tok.Pos().Pos())
-		}
+	if !tokenConsumed {
+		pc.tokens.Prepend(tok)
 	}
+	pc.returnTokens()
 
 	if pc.fullSource && (tok == nil || tok.Type() != lexer.EoiTokenType) {
 		for {
@@ -555,6 +550,25 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 	return pc.lastResult, nil
 }
 
+// returnTokens rewinds sources to the first of the tokens that were fetched but not used.
+func (pc *ParseContext) returnTokens() {
+	for {
+		tok, fetched := pc.tokens.Last()
+		if !fetched {
+			return
+		}
+
+		if tok == nil || tok.Source() == nil || tok.Type() == lexer.EoiTokenType {
+			continue
+		}
+
+		if tok.Source() != pc.sources.Source() {
+			pc.sources.Prepend(tok.Source())
+		}
+		pc.sources.Seek(tok.Pos().Pos())
+	}
+}
+
 func (pc *ParseContext) getExpectedToken(s grammar.State) string {
 	g := pc.parser.grammar
 	index := 0
-- 
2.43.0


From e13542efbe7fae25def3a66e1b35f8374eb641eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 04/45] fix: describe the expected token when only fallback,
 end-of-input or ambiguous rules are left

---
 parser/parser.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 8d94c5d..58b3c9f 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -571,11 +571,11 @@ func (pc *ParseContext) returnTokens() {
 
 func (pc *ParseContext) getExpectedToken(s grammar.State) string {
 	g := pc.parser.grammar
-	index := 0
-	if s.HighRule > s.LowRule {
-		index = g.Rules[s.LowRule].Token
-		if index < 0 && s.HighRule > s.LowRule+1 {
-			index = g.Rules[s.LowRule+1].Token
+	index := len(g.Tokens)
+	for _, r := range g.Rules[s.LowRule:s.HighRule] {
+		if r.Token >= 0 {
+			index = r.Token
+			break
 		}
 	}
 	if s.HighMultiRule > s.LowMultiRule {
@@ -585,6 +585,10 @@ func (pc *ParseContext) getExpectedToken(s grammar.State) string {
 		}
 	}
 
+	if index >= len(g.Tokens) {
+		return "end of input"
+	}
+
 	token := g.Tokens[index]
 	if (token.Flags & grammar.LiteralToken) != 0 {
 		return token.Name
-- 
2.43.0


From efbe72e28e21469a00715f9af49155a85dce0b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 05/45] fix: return end-of-file and end-of-input tokens when no
 token type is expected

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 3d954ae..4a11240 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -159,7 +159,7 @@ func (l *Lexer) Next(q *source.Queue) (*Token, error) {
 // Returns EoI token if queue is empty.
 // Returns EoF token and discards current source if current position is beyond the end of current source.
 func (l *Lexer) NextOf(q *source.Queue, tts TokenTypeSet) (*Token, error) {
-	if tts&l.typeMask == 0 {
+	if tts&l.typeMask == 0 && !q.Eof() {
 		return nil, nil
 	}
 
-- 
2.43.0


From d9e2ce21ce646088b34a03fd2887db53a60f2a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 06/45] fix: report error tokens as bad tokens

---
 parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 58b3c9f..ae9ce4d 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -86,7 +86,11 @@ func New(g *grammar.Grammar, opts ...Option) (*Parser, error) {
 
 		lr := &lrs[t.Group]
 		pattern := "(" + t.Re + ")"
-		lr.types = append(lr.types, lexer.TokenType{i, t.Name})
+		tokenType := i
+		if t.Flags&grammar.ErrorToken != 0 {
+			tokenType = lexer.ErrorTokenType
+		}
+		lr.types = append(lr.types, lexer.TokenType{tokenType, t.Name})
 		lr.patterns = append(lr.patterns, pattern)
 	}
 
-- 
2.43.0


From d812c41bcf5fd44090c748dcee2022ef0a204510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 07/45] fix: do not loop forever over an empty pass of a
 repeated group with optional content

---
 langdef/parser.go | 4 ++++
 langdef/result.go | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/langdef/parser.go b/langdef/parser.go
index b9444ea..9e8ad2b 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -1017,6 +1017,10 @@ func buildStates(g *parseResult, e error) error {
 		item.Chunk.BuildStates(g, firstState, grammar.FinalState)
 	}
 
+	for i, st := range g.States {
+		st.DropLoop(i)
+	}
+
 	return nil
 }
 
diff --git a/langdef/result.go b/langdef/result.go
index 6158acb..0bc5153 100644
--- a/langdef/result.go
+++ b/langdef/result.go
@@ -113,6 +113,15 @@ func (se *stateEntry) BypassRule(nextState int) {
 	se.AddRule(nextState, grammar.SameNode, grammar.AnyToken)
 }
 
+// DropLoop removes fallback rule leading to the same state: such a rule skips an empty pass
+// of a repeated group with optional content and would be applied endlessly.
+func (se *stateEntry) DropLoop(index int) {
+	rs := se.Rules[grammar.AnyToken]
+	if len(rs) > 0 && rs[0].State == index && rs[0].Node == grammar.SameNode {
+		delete(se.Rules, grammar.AnyToken)
+	}
+}
+
 func (se *stateEntry) CopyRules(from *stateEntry) {
 	for k, rs := range from.Rules {
 		if k >= 0 {
-- 
2.43.0


From bc615da751dc598a6d6df39e04bbcb218e2a63ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 08/45] fix: keep fallback rules of states separate when unused
 states are dropped

---
 langdef/result.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/langdef/result.go b/langdef/result.go
index 0bc5153..30f7e3e 100644
--- a/langdef/result.go
+++ b/langdef/result.go
@@ -1,6 +1,7 @@
 package langdef
 
 import (
+	"slices"
 	"sort"
 
 	"github.com/ava12/llx/grammar"
@@ -127,7 +128,7 @@ func (se *stateEntry) CopyRules(from *stateEntry) {
 		if k >= 0 {
 			se.Rules[k] = append(se.Rules[k], rs...)
 		} else {
-			se.Rules[k] = rs
+			se.Rules[k] = slices.Clone(rs)
 		}
 	}
 }
-- 
2.43.0


From 17da053092ffa5f631fb3374d2e230bbc226e88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 09/45] fix: do not let token hooks emit literals and error
 tokens

---
 parser/parser.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index ae9ce4d..8979545 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -732,7 +732,7 @@ func (pc *ParseContext) pullToken(ctx context.Context, types grammar.BitSet, lay
 		}
 
 		for _, tok := range extra {
-			if !pc.parser.IsValidType(tok.Type()) {
+			if !pc.canEmit(tok.Type()) {
 				return nil, emitWrongTokenError(tok)
 			}
 			queue.Append(tok)
@@ -749,6 +749,17 @@ func (pc *ParseContext) pullToken(ctx context.Context, types grammar.BitSet, lay
 	}
 }
 
+// canEmit returns true if token hooks are allowed to emit tokens of given type,
+// i.e. it is a special type or a defined type other than literals and error tokens.
+func (pc *ParseContext) canEmit(tt int) bool {
+	if !pc.parser.IsValidType(tt) {
+		return false
+	}
+
+	const wrongFlags = grammar.LiteralToken | grammar.ErrorToken
+	return tt < 0 || pc.parser.grammar.Tokens[tt].Flags&wrongFlags == 0
+}
+
 func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State) (r grammar.Rule, found bool, e error) {
 	r, found = pc.appliedRules.First()
 	if found {
-- 
2.43.0


From b33824caa4043e5d2c50ebf65612fb32901a2a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 10/45] fix: report unknown token types and nodes hooked by
 hook layers

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 8979545..2e77ea5 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -272,7 +272,10 @@ func newParseContext(ctx context.Context, p *Parser, q *source.Queue, hs Hooks)
 
 	for i := len(p.layers) - 1; i >= 0; i-- {
 		hooks := p.layers[i].Init(ctx, result)
-		newHookLayer(p, result, hooks)
+		e = newHookLayer(p, result, hooks)
+		if e != nil {
+			return nil, e
+		}
 	}
 
 	firstToken := lexer.NewToken(grammar.AnyToken, "", nil, q.SourcePos())
-- 
2.43.0


From 266e424bb8cd6e12e4f62ef54179bb8857a0d751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 11/45] fix: keep the result of a hooked nested node when next
 nested nodes have no hooks

---
 parser/hooks.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/hooks.go b/parser/hooks.go
index fa65640..419fa38 100644
--- a/parser/hooks.go
+++ b/parser/hooks.go
@@ -49,7 +49,9 @@ func (dhi *defaultHookInstance) NewNode(node string, token *Token) error {
 }
 
 func (dhi *defaultHookInstance) HandleNode(node string, result any) error {
-	dhi.result = result
+	if result != nil {
+		dhi.result = result
+	}
 	return nil
 }
 
-- 
2.43.0


From 67773b960dc8de97ab1b46b6903f3d01479baee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 12/45] fix: pass results of nested nodes to node hooks of hook
 layers

---
 parser/parser.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2e77ea5..e69c3b8 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -266,10 +266,6 @@ func newParseContext(ctx context.Context, p *Parser, q *source.Queue, hs Hooks)
 		return nil, e
 	}
 
-	if result.watchNodes && result.nodeHooks[0][0] == nil {
-		result.nodeHooks[0][0] = defaultNodeHook
-	}
-
 	for i := len(p.layers) - 1; i >= 0; i-- {
 		hooks := p.layers[i].Init(ctx, result)
 		e = newHookLayer(p, result, hooks)
@@ -338,6 +334,9 @@ func newHookLayer(p *Parser, pc *ParseContext, hs Hooks) error {
 
 			nodeHooks[i+nodeHooksOffset] = nth
 		}
+		if nodeHooks[anyOffset+nodeHooksOffset] == nil {
+			nodeHooks[anyOffset+nodeHooksOffset] = defaultNodeHook
+		}
 		pc.nodeHooks = append(pc.nodeHooks, nodeHooks)
 	}
 
-- 
2.43.0


From 914e5ae29ddeea9726e4222e81281ad55ac58d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 13/45] fix: do not overwrite source content when an
 indentation is made of several tokens

---
 parser/layers/indent/indent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index aad3122..b5a1b18 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -285,7 +285,7 @@ func (ls *layerState) adjustIndent(content []byte) state {
 	} else { // fetching multiple space tokens in a row, just in case...
 		tmp := make([]byte, len(ls.currentIndent), len(ls.currentIndent)+len(content))
 		copy(tmp, ls.currentIndent) // avoid spoiling source file
-		ls.currentIndent = append(ls.currentIndent, content...)
+		ls.currentIndent = append(tmp, content...)
 	}
 
 	currentLen := len(ls.currentIndent)
-- 
2.43.0


From 73a50d33dcf4cd10ae2eed92aa11186060d2f1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 14/45] fix: name the layer in errors about a wrong number of
 arguments

---
 parser/layers/common/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/layers/common/errors.go b/parser/layers/common/errors.go
index 62a211c..a1f7d3d 100644
--- a/parser/layers/common/errors.go
+++ b/parser/layers/common/errors.go
@@ -36,7 +36,7 @@ func MakeMissingCommandError(layer, command string) *llx.Error {
 
 func MakeNumberOfArgumentsError(layer, command string, expected, got int) *llx.Error {
 	return llx.FormatError(NumberOfArgumentsError,
-		"wrong number of arguments for %q command for %q layer: expecting %d, got %d", command, expected, got)
+		"wrong number of arguments for %q command for %q layer: expecting %d, got %d", command, layer, expected, got)
 }
 
 func MakeInvalidArgumentError(layer, command, arg, reason string) *llx.Error {
-- 
2.43.0


From d7b0b143031f17aa978cec3dad20e62cc4d1ea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 15/45] fix: reject unknown and repeated commands and special
 token types in indent layer definitions

---
 parser/layers/indent/indent.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index b5a1b18..1c63a2e 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -386,6 +386,10 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 		switch command.Command {
 
 		case spaceCommand:
+			if gotSpaces {
+				return nil, common.MakeCommandAlreadyUsedError(layerName, command.Command)
+			}
+
 			gotSpaces = true
 			if len(command.Arguments) == 0 {
 				return nil, common.MakeNumberOfArgumentsError(layerName, command.Command, 1, 0)
@@ -393,7 +397,7 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 
 			for _, ttn := range command.Arguments {
 				tt, valid := p.TokenType(ttn)
-				if !valid {
+				if !valid || tt < 0 {
 					return nil, common.MakeUnknownTokenTypeError(layerName, command.Command, ttn)
 				}
 
@@ -425,6 +429,9 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 			if prevType != "" {
 				return nil, common.MakeCommandAlreadyUsedError(layerName, command.Command)
 			}
+
+		default:
+			return nil, common.MakeUnknownCommandError(layerName, command.Command)
 		}
 	}
 
-- 
2.43.0


From 7c24b296e3266dee2a5d422e6a992e5ae4c26db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 16/45] fix: reject arguments of save-position command

---
 parser/layers/convert/convert.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/layers/convert/convert.go b/parser/layers/convert/convert.go
index df403f7..ca2c684 100644
--- a/parser/layers/convert/convert.go
+++ b/parser/layers/convert/convert.go
@@ -125,6 +125,10 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 			}
 
 		case savePositionCommand:
+			if len(command.Arguments) != 0 {
+				return nil, common.MakeNumberOfArgumentsError(layerName, command.Command, 0, len(command.Arguments))
+			}
+
 			savePosition = true
 
 		default:
-- 
2.43.0


From e4185132ac606be172ea822c3e1a09c7cf500e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 17/45] fix: do not read past the end of a grammar description

A directive or a regular expression list cut by the end of a description was collected forever.
---
 langdef/parser.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 9e8ad2b..1f42831 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -332,15 +332,11 @@ func (c *parseContext) fetch(types []string, strict bool, e error) (*lexer.Token
 		}
 	}
 
-	if isEof(token) {
-		if strict {
+	if strict {
+		if isEof(token) {
 			return nil, eofError(token)
-		} else {
-			return token, nil
 		}
-	}
 
-	if strict {
 		return nil, unexpectedTokenError(token)
 	}
 
-- 
2.43.0


From f26cf5b8e4b41fe4d3670fc20b1eb82f9a1ca418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 18/45] fix: report errors in the first argument of a layer
 command

---
 langdef/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 1f42831..f4663da 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -628,7 +628,11 @@ func (c *parseContext) parseLayerDef(t *lexer.Token) error {
 			return e
 		}
 
-		token, _ = c.fetchOne(rBraceTok, false, e)
+		token, e = c.fetchOne(rBraceTok, false, e)
+		if e != nil {
+			return e
+		}
+
 		if token != nil {
 			layer.Commands = append(layer.Commands, command)
 			continue
-- 
2.43.0


From 76cb104000bb67cbca87ec25810281b28618a530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:33 +0000
Subject: [PATCH 19/45] fix: do not mix up names and token kinds in grammar
 descriptions

Names like "string" or "token-name" were taken as tokens of that kind in directives.
---
 langdef/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index f4663da..3ded417 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -327,7 +327,7 @@ func (c *parseContext) fetch(types []string, strict bool, e error) (*lexer.Token
 	}
 
 	for _, typ := range types {
-		if token.TypeName() == typ || token.Text() == typ {
+		if token.TypeName() == typ || (token.TypeName() == opTok && token.Text() == typ) {
 			return token, nil
 		}
 	}
-- 
2.43.0


From 5c78a73f633f91f68900b2df1b3f70ac67d1dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:33 +0000
Subject: [PATCH 20/45] fix: keep reserved flag of literals that are also
 listed in literal directives

---
 langdef/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 3ded417..e295d2b 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -456,8 +456,10 @@ func (c *parseContext) addToken(name, re string, flags grammar.TokenFlags) int {
 }
 
 func (c *parseContext) addLiteralToken(name string, flags grammar.TokenFlags) {
-	_, has := c.literalIndex[name]
-	if !has {
+	i, has := c.literalIndex[name]
+	if has {
+		c.literals[i].flags |= flags
+	} else {
 		c.literalIndex[name] = len(c.literals)
 		c.literals = append(c.literals, literalToken{name, flags})
 	}
-- 
2.43.0


From dfc42010f950b9579947184899a1aee18e048bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:34 +0000
Subject: [PATCH 21/45] fix: count every token type once when checking their
 number

---
 langdef/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index e295d2b..adca98c 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -239,7 +239,7 @@ func (c *parseContext) Parse(s *source.Source) (*parseResult, error) {
 		return nil, e
 	}
 
-	if len(c.result.Tokens)+len(c.extraTokens) >= grammar.MaxTokenType {
+	if len(c.result.Tokens)+len(c.extraIndex) >= grammar.MaxTokenType {
 		return nil, tokenTypeNumberError(t)
 	}
 
-- 
2.43.0


From c9582d86705a5d9592619fdd74b2f293864fc129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:34 +0000
Subject: [PATCH 22/45] fix: report reassigned groups of token types that are
 not defined yet

---
 langdef/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/langdef/parser.go b/langdef/parser.go
index adca98c..5624574 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -561,6 +561,10 @@ func (c *parseContext) parseGroupDir() error {
 			c.result.Tokens[i].Group = c.currentGroup
 		} else {
 			i = c.addExtraToken(name)
+			if c.extraTokens[i].group != 0 {
+				return reassignedGroupError(name)
+			}
+
 			c.extraTokens[i].group = c.currentGroup
 		}
 	}
-- 
2.43.0


From a8ca5db7629b70cf5d4e5c5c3329eb5fbf143716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:13 +0000
Subject: [PATCH 23/45] fix: examine every node once when looking for left
 recursion

The time was exponential in the depth of nesting.
---
 langdef/parser.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 5624574..cccc814 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -1036,8 +1036,9 @@ func findRecursions(g *parseResult, e error) error {
 	}
 
 	ntis := ints.NewSet()
+	known := make(map[int]bool, len(g.Nodes))
 	for i := range g.Nodes {
-		if ntIsRecursive(g, i, ints.NewSet()) {
+		if ntIsRecursive(g, i, known) {
 			ntis.Add(i)
 		}
 	}
@@ -1049,16 +1050,23 @@ func findRecursions(g *parseResult, e error) error {
 	}
 }
 
-func ntIsRecursive(g *parseResult, index int, visited *ints.Set) bool {
-	visited.Add(index)
+func ntIsRecursive(g *parseResult, index int, known map[int]bool) bool {
+	recursive, has := known[index]
+	if has {
+		return recursive
+	}
+
+	known[index] = true // a node is recursive if it is met again while being examined
 	st := g.States[g.Nodes[index].FirstState]
 	for _, rs := range st.Rules {
 		for _, r := range rs {
-			if r.Node != grammar.SameNode && (visited.Contains(r.Node) || ntIsRecursive(g, r.Node, visited.Copy())) {
+			if r.Node != grammar.SameNode && ntIsRecursive(g, r.Node, known) {
 				return true
 			}
 		}
 	}
+
+	known[index] = false
 	return false
 }
 
-- 
2.43.0


From 1d18e5120648f45146ff8cf8ab19a5ec9268430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 24/45] fix: do not accept an empty literal that no token type
 can match

---
 langdef/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index cccc814..cd67684 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -1106,7 +1106,7 @@ func assignTokenGroups(g *parseResult, e error) error {
 		caseless := (lt.Name == strings.ToUpper(lt.Name))
 		for j, re := range res {
 			rt := rts[j]
-			if (rt.Flags&grammar.CaselessToken == 0 || caseless) && re.FindString(lt.Name) == lt.Name {
+			if (rt.Flags&grammar.CaselessToken == 0 || caseless) && lt.Name != "" && re.FindString(lt.Name) == lt.Name {
 				g.TTypes[rcnt+i] |= 1 << j
 			}
 		}
-- 
2.43.0


From a108a2a657c676ad11365d34608d85a1fe7ba212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 25/45] fix: accept line feeds in single-quoted literals as
 documented

---
 langdef/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index cd67684..1223a97 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -166,7 +166,7 @@ func init() {
 
 	re := regexp.MustCompile(
 		`^(?:\s+|#[^\n]*|` +
-			`((?:"(?:[^\\"]|\\.)*")|(?:'.*?'))|` +
+			`((?:"(?:[^\\"]|\\.)*")|(?:'[^']*'))|` +
 			`([a-zA-Z_][a-zA-Z_0-9-]*)|` +
 			`(![a-z]+)|` +
 			`(\$\$[a-zA-Z_][a-zA-Z_0-9-]*)|` +
-- 
2.43.0


From 76211f142ac5d451b826f2ec58edaef2960a6f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 26/45] fix: make \\x escapes in literals denote bytes as
 documented

---
 langdef/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 1223a97..e8f689b 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -395,7 +395,11 @@ func processStringToken(token *lexer.Token) (*lexer.Token, error) {
 				return nil, e
 			}
 
-			result = utf8.AppendRune(result, r)
+			if entry.hexLen == 2 {
+				result = append(result, byte(r)) // any byte, not a rune
+			} else {
+				result = utf8.AppendRune(result, r)
+			}
 			content = content[entry.hexLen+2:]
 		}
 	}
-- 
2.43.0


From e11d3ae40b728ca81e42839e1ceccbdf636b2af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:40 +0000
Subject: [PATCH 27/45] fix: do not fetch looked-ahead tokens again when
 checking for remaining source

---
 parser/parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e69c3b8..1dac14f 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -530,12 +530,12 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 		}
 	}
 
-	if !tokenConsumed {
+	if !tokenConsumed && tok != nil {
 		pc.tokens.Prepend(tok)
 	}
-	pc.returnTokens()
-
-	if pc.fullSource && (tok == nil || tok.Type() != lexer.EoiTokenType) {
+	if !pc.fullSource {
+		pc.returnTokens()
+	} else if tok == nil || tok.Type() != lexer.EoiTokenType {
 		for {
 			tok, e = pc.nextToken(ctx, lexer.AllTokenTypes)
 			if e != nil {
-- 
2.43.0


From a16b7cc63d5937e6b9bc38b625511d713f7c7c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 28/45] fix: reject expressions that cannot be put in a group

---
 langdef/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/langdef/parser.go b/langdef/parser.go
index e8f689b..6ae467a 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -734,6 +734,10 @@ func (c *parseContext) fetchRegexp(e error) (string, error) {
 
 	re := string(contents)
 	_, e = regexp.Compile(re)
+	if e == nil {
+		// an open \Q sequence is correct by itself, but swallows the closing bracket of a group
+		_, e = regexp.Compile(`(?s:` + re + `)`)
+	}
 	if e != nil {
 		return "", regexpError(tokens[0], e)
 	}
-- 
2.43.0


From 60e034148851a6571f6725a44e1e7b21cbe9074c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:41 +0000
Subject: [PATCH 29/45] fix: crash on any text if a grammar defines external
 and error token types only

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 1dac14f..e8d0331 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -866,6 +866,11 @@ func (pc *ParseContext) fetchToken(types grammar.BitSet) (*Token, error) {
 	}
 
 	if types == lexer.AllTokenTypes {
+		if firstError == nil {
+			// no lexer is able to return a token, let the default one make an error
+			return pc.parser.lexers[0].Next(pc.sources)
+		}
+
 		return nil, firstError
 	}
 
-- 
2.43.0


From d5241feab1c7b15a3d5f161cb0bb9d693b7747b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:42 +0000
Subject: [PATCH 30/45] fix: failed token fetch skips insignificant lexemes

---
 lexer/lexer.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 4a11240..af88d64 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -145,10 +145,16 @@ func (l *Lexer) fetch(q *source.Queue, tSet TokenTypeSet) (*Token, bool, error)
 // Returns EoI token if queue is empty.
 // Returns EoF token and discards current source if current position is beyond the end of current source.
 func (l *Lexer) Next(q *source.Queue) (*Token, error) {
+	pos := q.Pos()
 	for {
 		t, _, e := l.fetch(q, AllTokenTypes)
-		if t != nil || e != nil {
-			return t, e
+		if e != nil {
+			q.Seek(pos)
+			return nil, e
+		}
+
+		if t != nil {
+			return t, nil
 		}
 	}
 }
@@ -163,10 +169,16 @@ func (l *Lexer) NextOf(q *source.Queue, tts TokenTypeSet) (*Token, error) {
 		return nil, nil
 	}
 
+	pos := q.Pos()
 	for {
 		t, advanced, e := l.fetch(q, tts)
-		if t != nil || e != nil || !advanced {
-			return t, e
+		if t != nil {
+			return t, nil
+		}
+
+		if e != nil || !advanced {
+			q.Seek(pos)
+			return nil, e
 		}
 	}
 }
-- 
2.43.0


From ef8a06ff60b6506ca0b2d5c44963405b434e5e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:39 +0000
Subject: [PATCH 31/45] fix: crash in full source mode if lookahead at the end
 of root node fails to fetch a token

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index e8d0331..dbe25e0 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -542,6 +542,11 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 				return nil, e
 			}
 
+			if tok == nil {
+				// lookahead has fetched no token of suitable type
+				continue
+			}
+
 			tt := tok.Type()
 			if tt == lexer.EoiTokenType {
 				break
-- 
2.43.0


From 7eeea219e2c68a24280fe0c8610b86242d01f60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:08 +0000
Subject: [PATCH 32/45] fix: NextTokenElement and PrevTokenElement stop at a
 node without tokens

---
 tree/tree.go | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index 3aeeea8..6f83880 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -99,17 +99,24 @@ func NextTokenElement(n Element) Element {
 		return nil
 	}
 
-	nn := n.Next()
-	for nn == nil {
-		n = n.Parent()
-		if n == nil {
-			return nil
+	for {
+		nn := n.Next()
+		for nn == nil {
+			n = n.Parent()
+			if n == nil {
+				return nil
+			}
+
+			nn = n.Next()
 		}
 
-		nn = n.Next()
-	}
+		res := FirstTokenElement(nn)
+		if res != nil {
+			return res
+		}
 
-	return FirstTokenElement(nn)
+		n = nn
+	}
 }
 
 // PrevTokenElement returns the last token element before given one, if there are any.
@@ -119,17 +126,24 @@ func PrevTokenElement(n Element) Element {
 		return nil
 	}
 
-	nn := n.Prev()
-	for nn == nil {
-		n = n.Parent()
-		if n == nil {
-			return nil
+	for {
+		nn := n.Prev()
+		for nn == nil {
+			n = n.Parent()
+			if n == nil {
+				return nil
+			}
+
+			nn = n.Prev()
 		}
 
-		nn = n.Prev()
-	}
+		res := LastTokenElement(nn)
+		if res != nil {
+			return res
+		}
 
-	return LastTokenElement(nn)
+		n = nn
+	}
 }
 
 // Children returns child elements (if there are any) or nil if given element is not a node.
-- 
2.43.0


From 97258c2b88d57f17ac618d9940ae2a9902708f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 33/45] fix: moving an element that has siblings but no parent
 leaves links to old siblings

---
 tree/tree.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index 6f83880..d8145db 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -165,11 +165,26 @@ func Children(n Element) []Element {
 // Detach removes element from tree. Parent and sibling references are removed, but descendants are kept.
 // Does nothing if the element is the tree root.
 func Detach(n Element) {
-	if n == nil || n.Parent() == nil {
+	if n == nil {
+		return
+	}
+
+	parent := n.Parent()
+	if parent != nil {
+		parent.RemoveChild(n)
 		return
 	}
 
-	n.Parent().RemoveChild(n)
+	prev := n.Prev()
+	next := n.Next()
+	n.SetPrev(nil)
+	n.SetNext(nil)
+	if prev != nil {
+		prev.SetNext(next)
+	}
+	if next != nil {
+		next.SetPrev(prev)
+	}
 }
 
 // Replace replaces old element with new one or simply removes old element if the new one is nil.
-- 
2.43.0


From c3d2e2ce443b8bf5f1927827b3251cc1b26c7dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 34/45] fix: Replace loses the new element if it is next to the
 old one and crashes if the old one has no parent

---
 tree/tree.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index d8145db..060c048 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -194,11 +194,10 @@ func Replace(old, n Element) {
 		return
 	}
 
-	pa := old.Parent()
-	ne := old.Next()
-	Detach(old)
-	Detach(n)
-	pa.AddChild(n, ne)
+	if n != old {
+		PrependSibling(old, n)
+		Detach(old)
+	}
 }
 
 // AppendSibling places new element after target one.
-- 
2.43.0


From 9db7366ee9eedef3299d7268282fd0e7aa763706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 35/45] fix: AppendSibling and PrependSibling lose an element
 placed next to itself

---
 tree/tree.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index 060c048..2ab6735 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -202,9 +202,9 @@ func Replace(old, n Element) {
 
 // AppendSibling places new element after target one.
 // Target becomes new element's previous sibling, target's next sibling (if any) becomes new element's next sibling.
-// Does nothing if either new or target element is nil.
+// Does nothing if either new or target element is nil or they are the same element.
 func AppendSibling(prev, el Element) {
-	if el == nil || prev == nil {
+	if el == nil || prev == nil || el == prev {
 		return
 	}
 
@@ -225,9 +225,9 @@ func AppendSibling(prev, el Element) {
 
 // PrependSibling places new element before target one.
 // Target becomes new element's next sibling, target's previous sibling (if any) becomes new element's previous sibling.
-// Does nothing if either new or target element is nil.
+// Does nothing if either new or target element is nil or they are the same element.
 func PrependSibling(next, el Element) {
-	if el == nil || next == nil {
+	if el == nil || next == nil || el == next {
 		return
 	}
 
-- 
2.43.0


From 446831e656ce0106a318c96400b45926a7ad1104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 36/45] fix: llxgen reports the package name instead of wrong
 variable name

---
 cmd/llxgen/llxgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index 64aa7ca..aa7b4fd 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -109,7 +109,7 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 		return nil, fmt.Errorf("invalid package name: %s", packageName)
 	}
 	if !re.MatchString(varName) {
-		return nil, fmt.Errorf("invalid variable name: %s", packageName)
+		return nil, fmt.Errorf("invalid variable name: %s", varName)
 	}
 
 	var buffer bytes.Buffer
-- 
2.43.0


From ed9d523cdbce7f639c5d2dc9c1cc661072b84994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 37/45] fix: llxgen generates wrong Go code for layers

---
 cmd/llxgen/llxgen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index aa7b4fd..cadc060 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -126,7 +126,7 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 	buffer.WriteString("\t},\n")
 
 	if len(gr.Layers) != 0 {
-		buffer.WriteString("\tLayers: []grammar.Layer{\n}")
+		buffer.WriteString("\tLayers: []grammar.Layer{\n")
 		for _, layer := range gr.Layers {
 			buffer.WriteString(fmt.Sprintf("\t\t{Type: %q", layer.Type))
 			if len(layer.Commands) == 0 {
@@ -140,6 +140,7 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 						for _, arg := range command.Arguments[1:] {
 							buffer.WriteString(fmt.Sprintf(", %q", arg))
 						}
+						buffer.WriteString("}")
 					}
 					buffer.WriteString("},\n")
 				}
-- 
2.43.0


From a09224c91300ef6a936fd3d46d96fc14ff8dba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 38/45] fix: llxgen accepts package and variable names that
 make generated code wrong

---
 cmd/llxgen/llxgen.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index cadc060..c625f7a 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -21,6 +21,7 @@ import (
 	"encoding/json"
 	"flag"
 	"fmt"
+	"go/token"
 	"os"
 	"path/filepath"
 	"regexp"
@@ -105,10 +106,10 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 	}
 
 	re := regexp.MustCompile("^[A-Za-z_][A-Za-z_0-9]*$")
-	if !re.MatchString(packageName) {
+	if !re.MatchString(packageName) || token.IsKeyword(packageName) || packageName == "_" {
 		return nil, fmt.Errorf("invalid package name: %s", packageName)
 	}
-	if !re.MatchString(varName) {
+	if !re.MatchString(varName) || token.IsKeyword(varName) || isReservedName(varName) {
 		return nil, fmt.Errorf("invalid variable name: %s", varName)
 	}
 
@@ -206,6 +207,15 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 	return buffer.Bytes(), nil
 }
 
+// isReservedName tells if generated file will not compile (or will be of no use) with this variable name.
+func isReservedName(name string) bool {
+	switch name {
+	case "_", "init", "main", "grammar", "string":
+		return true
+	}
+	return false
+}
+
 func findMultiRuleState(gr *grammar.Grammar, state int) (nextIndex, nextItem int) {
 	for i := state; i < len(gr.States); i++ {
 		if gr.States[i].HighMultiRule != 0 {
-- 
2.43.0


From ca09ff5ae6445721713b4dd780eebe37244b14be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 39/45] fix: llxgen silently replaces invalid UTF-8 in JSON
 output

---
 cmd/llxgen/llxgen.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index c625f7a..9608517 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -25,6 +25,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"unicode/utf8"
 
 	"github.com/ava12/llx/grammar"
 	"github.com/ava12/llx/langdef"
@@ -88,6 +89,21 @@ func main() {
 }
 
 func makeJson(gr *grammar.Grammar) ([]byte, error) {
+	for _, t := range gr.Tokens {
+		if !utf8.ValidString(t.Name) || !utf8.ValidString(t.Re) {
+			return nil, fmt.Errorf("cannot output JSON: token %q is not valid UTF-8", t.Name)
+		}
+	}
+	for _, layer := range gr.Layers {
+		for _, command := range layer.Commands {
+			for _, arg := range command.Arguments {
+				if !utf8.ValidString(arg) {
+					return nil, fmt.Errorf("cannot output JSON: argument %q is not valid UTF-8", arg)
+				}
+			}
+		}
+	}
+
 	return json.MarshalIndent(gr, "", "  ")
 }
 
-- 
2.43.0


From c7359f499e45cf36dbdb9b9764bfdf5d1d32a912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:58 +0000
Subject: [PATCH 40/45] fix: lexer.EofToken panics on nil source

---
 lexer/token.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lexer/token.go b/lexer/token.go
index 2eb1aea..83dc787 100755
--- a/lexer/token.go
+++ b/lexer/token.go
@@ -92,7 +92,11 @@ const (
 // EofToken creates a token of EofTokenType.
 // s may be nil.
 func EofToken(s *source.Source) *Token {
-	return &Token{tokenType: EofTokenType, typeName: EofTokenName, pos: source.NewPos(s, s.Len())}
+	pos := 0
+	if s != nil {
+		pos = s.Len()
+	}
+	return &Token{tokenType: EofTokenType, typeName: EofTokenName, pos: source.NewPos(s, pos)}
 }
 
 // EoiToken creates a token of EoiTokenType.
-- 
2.43.0


From 7de8442596056e15003c9433fe39c4dbaa82b2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 41/45] fix: keep position within the source when skipping huge
 number of bytes

---
 source/source.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/source.go b/source/source.go
index 52d45d9..ea32357 100755
--- a/source/source.go
+++ b/source/source.go
@@ -308,10 +308,11 @@ func (q *Queue) Skip(size int) {
 		return
 	}
 
-	q.pos += size
-	if q.pos >= q.source.Len() {
-		q.pos = q.source.Len()
+	left := q.source.Len() - q.pos
+	if size > left {
+		size = left
 	}
+	q.pos += size
 }
 
 // Rewind decreases current source position by given amount of bytes.
-- 
2.43.0


From 1c4a690c2ffc424b17e1aaa0b82ebfb38fce932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:28 +0000
Subject: [PATCH 42/45] fix: lookahead loses a finished branch if a side token
 or no token follows

---
 parser/misc.go   |  2 ++
 parser/parser.go | 22 ++++++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/parser/misc.go b/parser/misc.go
index 10f2b8b..bcf501f 100644
--- a/parser/misc.go
+++ b/parser/misc.go
@@ -64,6 +64,7 @@ func (s *nodeStack) Indexes() []int {
 type parsingBranch struct {
 	NodeStack    *nodeStack
 	AppliedRules []grammar.Rule
+	TokensUsed   int
 }
 
 func (pc *ParseContext) newParsingBranch() *parsingBranch {
@@ -86,6 +87,7 @@ func (b *parsingBranch) Split(count int) []*parsingBranch {
 		nb := &parsingBranch{
 			NodeStack:    b.NodeStack.Copy(),
 			AppliedRules: make([]grammar.Rule, len(b.AppliedRules)),
+			TokensUsed:   b.TokensUsed,
 		}
 		copy(nb.AppliedRules, b.AppliedRules)
 		result[i] = nb
diff --git a/parser/parser.go b/parser/parser.go
index dbe25e0..9bef35a 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"maps"
 	"regexp"
+	"slices"
 	"sort"
 	"strings"
 
@@ -980,6 +981,7 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 		consumed, _ := pc.applyRule(ctx, tok, rule, b.NodeStack, false)
 		if b.NodeStack.Len() == 0 || consumed {
 			if consumed {
+				b.TokensUsed = len(tokens)
 				nextBranches = append(nextBranches, b)
 			} else {
 				lastSuccess = b
@@ -1001,7 +1003,11 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 			for !q.IsEmpty() {
 				b, _ = q.First()
 				if b.NodeStack.IsEmpty() {
-					lastSuccess = b
+					if tok == nil || pc.isSideToken(tok) {
+						nextBranches = append(nextBranches, b)
+					} else {
+						lastSuccess = b
+					}
 					continue
 				}
 
@@ -1044,11 +1050,19 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 
 	if len(nextBranches) != 0 {
 		b = nextBranches[0]
-	} else if lastSuccess != nil {
-		b = lastSuccess
 	} else {
-		b = lastError
+		if lastSuccess != nil {
+			b = lastSuccess
+		} else {
+			b = lastError
+		}
 	}
 
+	// drop failed attempts to fetch a token not made by this branch, let the parser fetch a token suitable for its state
+	tokensUsed := max(b.TokensUsed, 1)
+	tokens = append(tokens[:tokensUsed], slices.DeleteFunc(tokens[tokensUsed:], func(t *lexer.Token) bool {
+		return t == nil
+	})...)
+
 	return tokens, b.AppliedRules, nil
 }
-- 
2.43.0


From 8a1bf542078c53ca0c3ef6e7695c62b834c82d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:17 +0000
Subject: [PATCH 43/45] fix: text included after an unused token is read twice
 by the next parser

---
 parser/parser.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 9bef35a..cfb8f88 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -575,12 +575,25 @@ func (pc *ParseContext) returnTokens() {
 		}
 
 		if tok.Source() != pc.sources.Source() {
-			pc.sources.Prepend(tok.Source())
+			pc.returnSource(tok.Source())
 		}
 		pc.sources.Seek(tok.Pos().Pos())
 	}
 }
 
+// returnSource makes given source current again, whether it is finished or interrupted by sources added later.
+func (pc *ParseContext) returnSource(s *source.Source) {
+	saved := pc.sources.Snapshot()
+	for pc.sources.NextSource() {
+		if pc.sources.Source() == s {
+			return
+		}
+	}
+
+	pc.sources.Restore(saved)
+	pc.sources.Prepend(s)
+}
+
 func (pc *ParseContext) getExpectedToken(s grammar.State) string {
 	g := pc.parser.grammar
 	index := len(g.Tokens)
-- 
2.43.0


From 082b7834b9f0ecaadeda17063a1e4ef27ad1e2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:21 +0000
Subject: [PATCH 44/45] fix: errors about unexpected indents have no position

---
 parser/layers/indent/indent.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index 1c63a2e..d8563d8 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -39,7 +39,7 @@ Does nothing if current line indentation is valid.
 Otherwise (current indentation is shorter than the valid one and matches none of stack entries) emits an error.
 Emits on-dedent token for each indentation stack item if the peeked token is an end-of-input.
 On-indent and on-dedent tokens are emitted first, followed by newline and space tokens
-which caused indentation level change.
+which caused indentation level change. Emitted tokens have the position of the peeked one.
 */
 package indent
 
@@ -148,10 +148,20 @@ func (ls *layerState) role(tok *parser.Token) tokenRole {
 	return commonRole
 }
 
-func (ls *layerState) indent(tokens ...*parser.Token) ([]*parser.Token, error) {
+// makeToken makes a token to be emitted before the given one, with its position.
+func (ls *layerState) makeToken(typeName string, next *parser.Token) (*parser.Token, error) {
+	tok, e := ls.parser.MakeToken(typeName, nil)
+	if e != nil {
+		return nil, e
+	}
+
+	return lexer.NewToken(tok.Type(), typeName, nil, next.Pos()), nil
+}
+
+func (ls *layerState) indent(next *parser.Token, tokens ...*parser.Token) ([]*parser.Token, error) {
 	ls.indentStack = append(ls.indentStack, ls.validIndent)
 	ls.validIndent = ls.currentIndent
-	indent, e := ls.parser.MakeToken(ls.indentType, nil)
+	indent, e := ls.makeToken(ls.indentType, next)
 	if e != nil {
 		return ls.pad(tokens...), e
 	}
@@ -159,12 +169,12 @@ func (ls *layerState) indent(tokens ...*parser.Token) ([]*parser.Token, error) {
 	return append([]*parser.Token{indent}, ls.pad(tokens...)...), nil
 }
 
-func (ls *layerState) dedent(tokens ...*parser.Token) ([]*parser.Token, error) {
+func (ls *layerState) dedent(next *parser.Token, tokens ...*parser.Token) ([]*parser.Token, error) {
 	var result []*parser.Token
 	l := len(ls.currentIndent)
 
 	for i := len(ls.indentStack) - 1; i >= 0; i-- {
-		dedent, e := ls.parser.MakeToken(ls.dedentType, nil)
+		dedent, e := ls.makeToken(ls.dedentType, next)
 		if e != nil {
 			return ls.pad(tokens...), e
 		}
@@ -202,13 +212,13 @@ func (ls *layerState) handleCommon(tok *parser.Token) (bool, []*parser.Token, er
 		ls.state = indented
 
 	case incIndent:
-		extra, e = ls.indent(tok)
+		extra, e = ls.indent(tok, tok)
 		if e == nil {
 			ls.state = indented
 		}
 
 	case decIndent:
-		extra, e = ls.dedent(tok)
+		extra, e = ls.dedent(tok, tok)
 		if e == nil {
 			ls.state = indented
 		}
@@ -258,9 +268,9 @@ func (ls *layerState) handleSpace(tok *parser.Token, tc *parser.TokenContext) (b
 		extra = ls.pad()
 		e = common.MakeWrongTokenError(layerName, tok, errInvalidIndent)
 	case incIndent:
-		extra, e = ls.indent()
+		extra, e = ls.indent(nextTok)
 	case decIndent:
-		extra, e = ls.dedent()
+		extra, e = ls.dedent(nextTok)
 	}
 
 	if e == nil {
-- 
2.43.0


From 52c7a986b95af7c0c751a40328a4c57d58f4194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:59 +0000
Subject: [PATCH 45/45] fix: self-definition in the documentation refers to an
 undefined node

---
 langdef/docs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/langdef/docs.go b/langdef/docs.go
index b8cf2a1..ea07dd6 100644
--- a/langdef/docs.go
+++ b/langdef/docs.go
@@ -22,8 +22,8 @@ A grammar is described using a language resembling EBNF. A self-definition of th
 //  langdef = {directive | template-definition | token-definition | layer-definition},
 //            node-definition, {node-definition | layer-definition};
 //  directive = $dir-name, {$token-name | $string}, ';';
-//  template-definition = $template-name, '=', $regexp | $name, {$regexp | name}, ';';
-//  token-definition = $token-name, '=', $regexp | $name, {$regexp | name}, ';';
+//  template-definition = $template-name, '=', $regexp | $name, {$regexp | $name}, ';';
+//  token-definition = $token-name, '=', $regexp | $name, {$regexp | $name}, ';';
 //  layer-definition = '@', $name, {layer-command}, ';';
 //  layer-command = $name, '(', [$name | $string, {',', $name | $string}], ')';
 //  node-definition = $name, '=', sequence, ';';
-- 
2.43.0

