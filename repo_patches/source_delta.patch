From 60c0098f06d57ef973aafc2e5499be5a9593eb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:05 +0000
Subject: [PATCH 01/23] fix: let a walk be stopped at any moment

The walkers closed the signal channel when the walk ended, so a consumer that
asked to stop after the last vertex panicked (send on closed channel), and they
blocked forever offering a vertex to a consumer that had asked to stop.
---
 pkg/dag/dag.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/dag/dag.go b/pkg/dag/dag.go
index 7e29c32..35d2f0e 100644
--- a/pkg/dag/dag.go
+++ b/pkg/dag/dag.go
@@ -437,7 +437,6 @@ func (g *AcyclicGraph[K, T]) AncestorsWalker(id K) (chan K, chan bool, error) {
 	go func() {
 		g.walkAncestors(id, ids, signal)
 		close(ids)
-		close(signal)
 	}()
 
 	return ids, signal, nil
@@ -473,7 +472,13 @@ func (g *AcyclicGraph[K, T]) walkAncestors(id K, ids chan K, signal chan bool) {
 		case <-signal:
 			return
 		default:
-			ids <- top
+		}
+
+		// The consumer may also ask to stop while this vertex is on offer.
+		select {
+		case <-signal:
+			return
+		case ids <- top:
 		}
 	}
 }
@@ -496,7 +501,6 @@ func (g *AcyclicGraph[K, T]) DescendantsWalker(id K) (chan K, chan bool, error)
 	go func() {
 		g.walkDescendants(id, ids, signal)
 		close(ids)
-		close(signal)
 	}()
 
 	return ids, signal, nil
@@ -532,7 +536,13 @@ func (g *AcyclicGraph[K, T]) walkDescendants(id K, ids chan K, signal chan bool)
 		case <-signal:
 			return
 		default:
-			ids <- top
+		}
+
+		// The consumer may also ask to stop while this vertex is on offer.
+		select {
+		case <-signal:
+			return
+		case ids <- top:
 		}
 	}
 }
-- 
2.43.0


From 3016ae7858fa66d670b7c815349a65f3efbc5242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 02/23] fix: clone the fragments of a heredoc value

Value.Clone replaced the deep clone of its heredoc by a shallow copy, so the
clone shared fragments (and parent reference) with the original.
---
 pkg/etx/value.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index 0e39ef0..d7eae7d 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -34,7 +34,7 @@ func (v *Value) Clone() *Value {
 		return nil
 	}
 
-	out := Value{
+	return &Value{
 		ASTNode: v.ASTNode.Clone(),
 		Null:    v.Null,
 		Bool:    v.Bool.Clone(),
@@ -44,13 +44,6 @@ func (v *Value) Clone() *Value {
 		List:    v.List.Clone(),
 		Map:     v.Map.Clone(),
 	}
-
-	if v.Heredoc != nil {
-		s := *v.Heredoc
-		out.Heredoc = &s
-	}
-
-	return &out
 }
 
 func (v *Value) Children() (children []Node) {
-- 
2.43.0


From 366c5ad28f78cc987a4d0820128ee01797822dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:23 +0000
Subject: [PATCH 03/23] fix: clone the type of a function-level declaration

---
 pkg/etx/func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/etx/func.go b/pkg/etx/func.go
index 3f2bce4..c80d461 100644
--- a/pkg/etx/func.go
+++ b/pkg/etx/func.go
@@ -195,7 +195,7 @@ func (n *FuncDecl) Clone() *FuncDecl {
 		ASTNode:  n.ASTNode.Clone(),
 		DeclType: n.DeclType,
 		Label:    n.Label,
-		Type:     n.Type,
+		Type:     n.Type.Clone(),
 		Value:    n.Value.Clone(),
 	}
 }
-- 
2.43.0


From cd522df638b083e522d3eeba2aec9dd5ca26cf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 04/23] fix: report the member access of a postfix expression
 as a child

Without it the nodes below never got a parent reference.
---
 pkg/etx/expr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index ed89063..f852e86 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -774,6 +774,10 @@ func (e *ExprPostfix) Children() (children []Node) {
 		children = append(children, e.Index)
 	}
 
+	if e.Post != nil {
+		children = append(children, e.Post)
+	}
+
 	return
 }
 
-- 
2.43.0


From 0ded9fc71997c58937a71953f06ccd1940380ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:28 +0000
Subject: [PATCH 05/23] fix: keep every digit of a number literal

Values were parsed at the 53 bits of a float64, so 9007199254740993 was
silently rounded in what is documented as a number of arbitrary precision.
---
 pkg/etx/value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index d7eae7d..f7d922f 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -163,6 +163,10 @@ func (v *ValueNumber) Capture(values []string) error {
 	}
 
 	v.Value = big.NewFloat(0)
+	if prec := uint(len(v.Source)) * 4; prec > v.Value.Prec() { //nolint:gomnd // no digit carries more than 4 bits
+		v.Value.SetPrec(prec)
+	}
+
 	if _, _, err := v.Value.Parse(v.Source, 0); err != nil {
 		return fmt.Errorf("failed to parse number value '%s': %w", v.Source, err)
 	}
-- 
2.43.0


From 4ac0bcefed08b57823b857cabf6d1e908994ffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:11 +0000
Subject: [PATCH 06/23] fix: accept a lone $ or % in strings and heredocs

Text such as "$5" or "100%" made the whole document unparsable.
---
 pkg/etx/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/etx/lexer.go b/pkg/etx/lexer.go
index c0021a3..6c409fa 100644
--- a/pkg/etx/lexer.go
+++ b/pkg/etx/lexer.go
@@ -124,7 +124,7 @@ func lexRules() lexer.Rules {
 			{Name: "NonExpr", Pattern: `(\$\${|%%{)`},
 			{Name: "Expr", Pattern: `\${`, Action: lexer.Push(lexerStringExpr)},
 			{Name: "Directive", Pattern: `%{`, Action: lexer.Push(lexerStringExpr)},
-			{Name: "Char", Pattern: `[^$%"'\\]+`},
+			{Name: "Char", Pattern: `[^$%"'\\]+|[$%]`},
 		},
 		lexerUnicode: {
 			{Name: "UnicodeLong", Pattern: `[0-9a-fA-F]{8}`, Action: lexer.Pop()},
@@ -136,7 +136,7 @@ func lexRules() lexer.Rules {
 			{Name: "NonExpr", Pattern: `(\$\${|%%{)`},
 			{Name: "Expr", Pattern: `\${`, Action: lexer.Push(lexerStringExpr)},
 			{Name: "Directive", Pattern: `%{`, Action: lexer.Push(lexerStringExpr)},
-			{Name: "Body", Pattern: `[^\n$%]+`},
+			{Name: "Body", Pattern: `[^\n$%]+|[$%]`},
 		},
 		lexerStringExpr: {
 			{Name: "ExprEnd", Pattern: `}`, Action: lexer.Pop()},
-- 
2.43.0


From 1c15f3a71e63cb3f483a33cdeb3dc424c98da557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:14 +0000
Subject: [PATCH 07/23] fix: end a heredoc at its delimiter only, not at any
 line starting with it

---
 pkg/etx/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/etx/lexer.go b/pkg/etx/lexer.go
index 6c409fa..47c820b 100644
--- a/pkg/etx/lexer.go
+++ b/pkg/etx/lexer.go
@@ -131,7 +131,7 @@ func lexRules() lexer.Rules {
 			{Name: "UnicodeShort", Pattern: `[0-9a-fA-F]{4}`, Action: lexer.Pop()},
 		},
 		lexerHeredoc: {
-			{Name: "HeredocEnd", Pattern: `^\1`, Action: lexer.Pop()},
+			{Name: "HeredocEnd", Pattern: `^\1\b`, Action: lexer.Pop()},
 			{Name: "EOL", Pattern: `\n`},
 			{Name: "NonExpr", Pattern: `(\$\${|%%{)`},
 			{Name: "Expr", Pattern: `\${`, Action: lexer.Push(lexerStringExpr)},
-- 
2.43.0


From 8cf25ec8a928245a2300e15368ea0bd82bebeae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:16 +0000
Subject: [PATCH 08/23] fix: accept the documented `key: value` form of
 attributes and map items

The README and the samples write it, and the formatter prints it, but the
parser only knew `key = value`.
---
 pkg/etx/attribute.go | 2 +-
 pkg/etx/value.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/etx/attribute.go b/pkg/etx/attribute.go
index 658b1ea..a369935 100644
--- a/pkg/etx/attribute.go
+++ b/pkg/etx/attribute.go
@@ -9,7 +9,7 @@ type Attribute struct {
 	ASTNode
 
 	Key   string `parser:"@Ident"    json:"key"`
-	Value *Expr  `parser:"['=' @@ ]" json:"value,omitempty"`
+	Value *Expr  `parser:"[('='|':') @@ ]" json:"value,omitempty"`
 }
 
 func (n *Attribute) Clone() *Attribute {
diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index f7d922f..c077b30 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -568,7 +568,7 @@ type MapItem struct {
 	ASTNode
 
 	EmptyLine string   `parser:"(   @LF+             " json:"empty_line,omitempty"`
-	Key       *MapKey  `parser:"  | ( @@ '='         " json:"key"`
+	Key       *MapKey  `parser:"  | ( @@ ('='|':') " json:"key"`
 	Value     *Expr    `parser:"      @@ ','? LF? )  " json:"value"`
 	Comment   *Comment `parser:"  | @@              )" json:"comment,omitempty"`
 }
-- 
2.43.0


From 142262ee0d62e4f29db5e1a8bd2723c6ba9909b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:35 +0000
Subject: [PATCH 09/23] fix: format maps holding comments or blank lines

They made the formatter dereference a nil key.
---
 pkg/etx/value.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index c077b30..fee1098 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -554,6 +554,12 @@ func (v ValueMap) FormattedString() string {
 	sb.WriteString("{\n")
 
 	for _, e := range v.Items {
+		if e.Comment != nil || e.EmptyLine != "" {
+			sb.WriteString(indent(e.FormattedString(), indentationChar))
+
+			continue
+		}
+
 		sb.WriteString(indent(fmt.Sprintf("%s: %s", e.Key.FormattedString(), e.Value.FormattedString()), indentationChar))
 		sb.WriteString(",\n")
 	}
-- 
2.43.0


From 14cb0cc5eeb7db56ad7abaf6b630b77b699081e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 10/23] fix: do not double the backslash of escape sequences
 when formatting

---
 pkg/etx/value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index fee1098..4f18815 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -413,6 +413,9 @@ func (f *StringFragment) Children() (children []Node) {
 
 func (f StringFragment) FormattedString() string {
 	switch {
+	case len(f.Escaped) > 1 && f.Escaped[0] == '\\':
+		// Parsed escape sequences come with their backslash.
+		return f.Escaped
 	case f.Escaped != "":
 		return fmt.Sprintf("\\%s", f.Escaped)
 	case f.Unicode != "":
-- 
2.43.0


From 1387c3448a4ba381ef8f76c19b1d31a44b8c67f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:46 +0000
Subject: [PATCH 11/23] fix: format strings holding double quotes with single
 quotes

---
 pkg/etx/value.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index 4f18815..e28b10c 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -363,13 +363,23 @@ func (v *ValueString) Children() (children []Node) {
 func (v ValueString) FormattedString() string {
 	var sb strings.Builder
 
-	sb.WriteString(`"`)
+	quote := `"`
+
+	for _, f := range v.Fragment {
+		if f.Text == quote {
+			quote = `'`
+
+			break
+		}
+	}
+
+	sb.WriteString(quote)
 
 	for _, f := range v.Fragment {
 		sb.WriteString(f.FormattedString())
 	}
 
-	sb.WriteString(`"`)
+	sb.WriteString(quote)
 
 	return sb.String()
 }
-- 
2.43.0


From 505a8aece98f5736463dca01744eaf9fc65cb47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:15 +0000
Subject: [PATCH 12/23] fix: format type definitions holding comments or blank
 lines

They made the formatter panic, or print an entry without label.
---
 pkg/etx/type.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pkg/etx/type.go b/pkg/etx/type.go
index 0ee5399..dd2ba48 100644
--- a/pkg/etx/type.go
+++ b/pkg/etx/type.go
@@ -97,6 +97,17 @@ func (n TypeEnum) FormattedString() string {
 	}
 
 	for _, item := range n.Items {
+		switch {
+		case item.Comment != nil:
+			mustFprintf(&sb, "\n%s", strings.TrimSuffix(item.Comment.FormattedString(), "\n"))
+
+			continue
+		case item.EmptyLine != "":
+			sb.WriteString(item.EmptyLine)
+
+			continue
+		}
+
 		fillLength := maxLabelLength - len(item.Label)
 		mustFprintf(&sb, "\n%s:%s %s", item.Label, strings.Repeat(" ", fillLength), item.Value.FormattedString())
 	}
@@ -190,6 +201,17 @@ func (n TypeObject) FormattedString() string {
 	}
 
 	for _, item := range n.Items {
+		switch {
+		case item.Comment != nil:
+			mustFprintf(&sb, "\n%s", strings.TrimSuffix(item.Comment.FormattedString(), "\n"))
+
+			continue
+		case item.EmptyLine != "":
+			sb.WriteString(item.EmptyLine)
+
+			continue
+		}
+
 		fillLength := maxLabelLength - len(item.Label)
 		mustFprintf(&sb, "\n%s:%s %s", item.Label, strings.Repeat(" ", fillLength), item.Type.FormattedString())
 	}
-- 
2.43.0


From 4b01d17e807551a473417a9598cff237f9d3fdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:18 +0000
Subject: [PATCH 13/23] fix: keep the parentheses of sub-expressions when
 formatting

(1 + 2) * 3 was printed as 1 + 2 * 3, which is another expression.
---
 pkg/etx/expr.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index f852e86..3448576 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -53,6 +53,31 @@ func (e Expr) FormattedString() string {
 	}
 }
 
+// isLiteral returns true if the expression is a lone literal value.
+func (e *Expr) isLiteral() bool {
+	if e.Left == nil || e.Left.ConditionOp {
+		return false
+	}
+
+	or := e.Left.Condition
+	and := or.Left
+	bitOr := and.Left
+	bitXor := bitOr.Left
+	bitAnd := bitXor.Left
+	equality := bitAnd.Left
+	relational := equality.Left
+	shift := relational.Left
+	additive := shift.Left
+	multiplicative := additive.Left
+	unary := multiplicative.Left
+	postfix := unary.Right
+
+	operators := or.Op + and.Op + bitOr.Op + bitXor.Op + bitAnd.Op + equality.Op + relational.Op +
+		shift.Op + additive.Op + multiplicative.Op + unary.Op
+
+	return operators == "" && postfix.Value.Value != nil && postfix.Index == nil && postfix.Post == nil
+}
+
 // /////////////////////////////////////
 
 type ExprIf struct {
@@ -849,6 +874,10 @@ func (e *ExprPrimary) Children() (children []Node) {
 
 func (e ExprPrimary) FormattedString() string {
 	if e.SubExpression != nil {
+		if !e.SubExpression.isLiteral() {
+			return fmt.Sprintf("(%s)", e.SubExpression.FormattedString())
+		}
+
 		return e.SubExpression.FormattedString()
 	}
 
-- 
2.43.0


From c4bf23a77b77cd90e6fb9bad3c402be8748357d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:20 +0000
Subject: [PATCH 14/23] fix: print the else branch of an if with an empty body

---
 pkg/etx/expr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index 3448576..82bf8a3 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -117,6 +117,8 @@ func (e *ExprIf) Children() (children []Node) {
 
 func (e ExprIf) FormattedString() string {
 	switch {
+	case e.Left == nil && e.Right != nil:
+		return fmt.Sprintf("if %s { } else {\n%s\n}", e.Condition.FormattedString(), indent(e.Right.FormattedString(), indentationChar))
 	case e.Left == nil:
 		return fmt.Sprintf("if %s { }", e.Condition.FormattedString())
 	case e.Right == nil:
-- 
2.43.0


From 656fd262961edc7b773ead536f3daf137e5b3d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 15/23] fix: print parentheses around a lone function return
 type

Without them the formatted function does not parse.
---
 pkg/etx/func.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/etx/func.go b/pkg/etx/func.go
index c80d461..1e5ce42 100644
--- a/pkg/etx/func.go
+++ b/pkg/etx/func.go
@@ -55,6 +55,8 @@ func (n Func) FormattedString() string {
 	mustFprintf(&sb, "def %s(%s)", n.Label, strings.Join(params, ", "))
 
 	switch l := len(n.Return); {
+	case l == 1 && n.Return[0].Func != nil:
+		mustFprintf(&sb, " (%s)", n.Return[0].FormattedString())
 	case l == 1:
 		mustFprintf(&sb, " %s", n.Return[0].FormattedString())
 	case l > 1:
-- 
2.43.0


From 92669bc78e6ff263d607a0b46b876f08d56af2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:25 +0000
Subject: [PATCH 16/23] fix: print block items on lines of their own

They were run together, which could merge an attribute with the block after it.
---
 pkg/etx/block.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/etx/block.go b/pkg/etx/block.go
index da9c8ca..c22306e 100644
--- a/pkg/etx/block.go
+++ b/pkg/etx/block.go
@@ -51,10 +51,15 @@ func (n Block) FormattedString() string {
 		sb.WriteString(" {\n")
 
 		for _, item := range n.Body {
-			sb.WriteString(indent(item.FormattedString(), indentationChar))
+			text := item.FormattedString()
+			sb.WriteString(indent(text, indentationChar))
+
+			if !strings.HasSuffix(text, "\n") {
+				sb.WriteString("\n")
+			}
 		}
 
-		sb.WriteString("\n}")
+		sb.WriteString("}")
 	} else {
 		sb.WriteString(" {}")
 	}
@@ -116,6 +121,8 @@ func (n BlockItem) FormattedString() string {
 		sb.WriteString(n.Block.FormattedString())
 	case n.Attribute != nil:
 		sb.WriteString(n.Attribute.FormattedString())
+	case n.EmptyLine != "":
+		sb.WriteString(n.EmptyLine)
 	default:
 	}
 
-- 
2.43.0


From 3e1be0647af71c6335fe2dac27be2b3b9aea21f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 17/23] fix: keep the blank lines of function bodies as they
 are when formatting

Comments and blank lines already end their line: each formatting added one.
---
 pkg/etx/func.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/etx/func.go b/pkg/etx/func.go
index 1e5ce42..142df90 100644
--- a/pkg/etx/func.go
+++ b/pkg/etx/func.go
@@ -72,8 +72,12 @@ func (n Func) FormattedString() string {
 		sb.WriteString(" {\n")
 
 		for _, b := range n.Body {
-			sb.WriteString(indent(b.FormattedString(), indentationChar))
-			sb.WriteString("\n")
+			text := b.FormattedString()
+			sb.WriteString(indent(text, indentationChar))
+
+			if !strings.HasSuffix(text, "\n") {
+				sb.WriteString("\n")
+			}
 		}
 
 		sb.WriteString("}")
-- 
2.43.0


From 199f7b4ab05d927e7aea04b05eba2c3e8932bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:30 +0000
Subject: [PATCH 18/23] fix: print one blank line between top-level items

The blank lines of the source came on top of the separator, so each formatting
of a file spread its items further apart.
---
 pkg/etx/ast.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/etx/ast.go b/pkg/etx/ast.go
index e6a94cd..1ea8c2f 100644
--- a/pkg/etx/ast.go
+++ b/pkg/etx/ast.go
@@ -70,7 +70,9 @@ func (n AST) FormattedString() string {
 
 	items := make([]string, 0, len(n.Items))
 	for _, item := range n.Items {
-		items = append(items, item.FormattedString())
+		if text := strings.TrimRight(item.FormattedString(), "\r\n"); text != "" {
+			items = append(items, text)
+		}
 	}
 
 	return strings.Join(items, "\n\n") + "\n"
-- 
2.43.0


From 3179f0951b61b003a06b0f5fe9eac477c2098a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:45 +0000
Subject: [PATCH 19/23] fix: print the blank lines of types as line feeds

A blank line that ended in a carriage return had its line break read as the
end of the item before it, and each formatting added another.
---
 pkg/etx/type.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/etx/type.go b/pkg/etx/type.go
index dd2ba48..cfe041e 100644
--- a/pkg/etx/type.go
+++ b/pkg/etx/type.go
@@ -103,7 +103,7 @@ func (n TypeEnum) FormattedString() string {
 
 			continue
 		case item.EmptyLine != "":
-			sb.WriteString(item.EmptyLine)
+			sb.WriteString(strings.ReplaceAll(item.EmptyLine, "\r", "\n"))
 
 			continue
 		}
@@ -207,7 +207,7 @@ func (n TypeObject) FormattedString() string {
 
 			continue
 		case item.EmptyLine != "":
-			sb.WriteString(item.EmptyLine)
+			sb.WriteString(strings.ReplaceAll(item.EmptyLine, "\r", "\n"))
 
 			continue
 		}
-- 
2.43.0


From e68fb0f9d799147ba2bf06d5665527b6e91faae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:45 +0000
Subject: [PATCH 20/23] fix: drop all parentheses around a literal at once when
 formatting

The formatted program lost one pair each time, down to the literal itself.
---
 pkg/etx/expr.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index 82bf8a3..f277554 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -75,7 +75,11 @@ func (e *Expr) isLiteral() bool {
 	operators := or.Op + and.Op + bitOr.Op + bitXor.Op + bitAnd.Op + equality.Op + relational.Op +
 		shift.Op + additive.Op + multiplicative.Op + unary.Op
 
-	return operators == "" && postfix.Value.Value != nil && postfix.Index == nil && postfix.Post == nil
+	if operators != "" || postfix.Index != nil || postfix.Post != nil {
+		return false
+	}
+
+	return postfix.Value.Value != nil || postfix.Value.SubExpression != nil && postfix.Value.SubExpression.isLiteral()
 }
 
 // /////////////////////////////////////
-- 
2.43.0


From 59ad519e6ca6511ca6d31f4aed85c6970929bf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:18 +0000
Subject: [PATCH 21/23] fix: do not read the name of a broken block as an
 attribute

Every level of unfinished labelled blocks was parsed twice, once for the block
and once more after its name had been taken for an attribute: 20 levels took
minutes. An attribute can never be followed by the rest of a block's head.
---
 pkg/etx/ast.go   | 2 +-
 pkg/etx/block.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/etx/ast.go b/pkg/etx/ast.go
index 1ea8c2f..296189e 100644
--- a/pkg/etx/ast.go
+++ b/pkg/etx/ast.go
@@ -96,7 +96,7 @@ type RootItem struct {
 	Func      *Func      `parser:"  | @@ LF?  " json:"func,omitempty"`
 	Type      *Type      `parser:"  | @@ LF?  " json:"type,omitempty"`
 	Block     *Block     `parser:"  | @@ LF?  " json:"block,omitempty"`
-	Attribute *Attribute `parser:"  | @@ LF?  " json:"attribute,omitempty"`
+	Attribute *Attribute `parser:"  | (?! Ident ((String Char StringEnd) | Ident)* '{') @@ LF?  " json:"attribute,omitempty"`
 	Comment   *Comment   `parser:"  | @@     )" json:"comment,omitempty"`
 }
 
diff --git a/pkg/etx/block.go b/pkg/etx/block.go
index c22306e..51aab17 100644
--- a/pkg/etx/block.go
+++ b/pkg/etx/block.go
@@ -75,7 +75,7 @@ type BlockItem struct {
 
 	EmptyLine string     `parser:"(   @LF+      " json:"empty_line,omitempty"`
 	Block     *Block     `parser:"  | (@@ LF?)  " json:"block,omitempty"`
-	Attribute *Attribute `parser:"  | (@@ LF?)  " json:"attribute,omitempty"`
+	Attribute *Attribute `parser:"  | ((?! Ident ((String Char StringEnd) | Ident)* '{') @@ LF?)  " json:"attribute,omitempty"`
 	Comment   *Comment   `parser:"  | @@       )" json:"comment,omitempty"`
 }
 
-- 
2.43.0


From 8e2ce4416752a67f429f3bb5cb6415e4319f9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:15 +0000
Subject: [PATCH 22/23] fix: reject number literals beyond the range of the
 value

Their value silently became infinity.
---
 pkg/etx/value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index e28b10c..a99a8be 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -171,6 +171,10 @@ func (v *ValueNumber) Capture(values []string) error {
 		return fmt.Errorf("failed to parse number value '%s': %w", v.Source, err)
 	}
 
+	if v.Value.IsInf() {
+		return fmt.Errorf("number value '%s' is out of range", v.Source)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 6177690a2a41ab15d22cec62f080770ce35a472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:25 +0000
Subject: [PATCH 23/23] fix: do not end a heredoc in the middle of a line

A lone $ or %, an escaped $${ or %%{ followed by the delimiter ended
the heredoc there, because ^ matches at the position of the lexer.
---
 pkg/etx/lexer.go | 4 ++--
 pkg/etx/value.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/etx/lexer.go b/pkg/etx/lexer.go
index 47c820b..3e1948a 100644
--- a/pkg/etx/lexer.go
+++ b/pkg/etx/lexer.go
@@ -133,10 +133,10 @@ func lexRules() lexer.Rules {
 		lexerHeredoc: {
 			{Name: "HeredocEnd", Pattern: `^\1\b`, Action: lexer.Pop()},
 			{Name: "EOL", Pattern: `\n`},
-			{Name: "NonExpr", Pattern: `(\$\${|%%{)`},
+			{Name: "HeredocNonExpr", Pattern: `(\$\${|%%{)[^\n$%]*`},
 			{Name: "Expr", Pattern: `\${`, Action: lexer.Push(lexerStringExpr)},
 			{Name: "Directive", Pattern: `%{`, Action: lexer.Push(lexerStringExpr)},
-			{Name: "Body", Pattern: `[^\n$%]+|[$%]`},
+			{Name: "Body", Pattern: `[$%]?[^\n$%]+|[$%]`},
 		},
 		lexerStringExpr: {
 			{Name: "ExprEnd", Pattern: `}`, Action: lexer.Pop()},
diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index a99a8be..8955a8b 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -296,7 +296,7 @@ type HeredocFragment struct {
 
 	Expr      *Expr  `parser:"(  Expr @@ ExprEnd       " json:"expr,omitempty"`
 	Directive *Expr  `parser:" | Directive @@ ExprEnd  " json:"directive,omitempty"`
-	Text      string `parser:" | @(Body|EOL|NonExpr)+ )" json:"text,omitempty"`
+	Text      string `parser:" | @(Body|EOL|HeredocNonExpr)+ )" json:"text,omitempty"`
 }
 
 func (f *HeredocFragment) Clone() *HeredocFragment {
-- 
2.43.0

