From 0bcd0716a903f2ba840e86e8e1ac2cfdf6271eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 01/28] fix: report syntax errors from Parse

The error listener was inspected before the input was parsed, and lexer
errors went to a listener nobody looked at, so malformed paths compiled
to something else or caused a panic. "/", which Join() returns for an
empty list, denotes the document root.
---
 parser.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index a95c699..a91d292 100644
--- a/parser.go
+++ b/parser.go
@@ -2,6 +2,7 @@ package gojsonpath
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/antlr4-go/antlr/v4"
 
@@ -66,11 +67,19 @@ func Parse(input string) (Path, error) {
 	pr.RemoveErrorListeners()
 	errListener := errorListener{}
 	pr.AddErrorListener(&errListener)
-	if errListener.err != nil {
-		return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
+	if lexer, ok := pr.GetTokenStream().GetTokenSource().(antlr.Lexer); ok {
+		lexer.AddErrorListener(&errListener)
 	}
 	if len(input) > 0 && input[0] == '/' {
-		p, err := astSimplePath(pr.SimplePath().(*parser.SimplePathContext).SimplePathExpr())
+		if strings.TrimRight(input, " \n\t\r") == "/" {
+			// The document root, this is what Join() returns
+			return SelectRootPath, nil
+		}
+		simple := pr.SimplePath()
+		if errListener.err != nil {
+			return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
+		}
+		p, err := astSimplePath(simple.(*parser.SimplePathContext).SimplePathExpr())
 		if err != nil {
 			return p, err
 		}
@@ -78,6 +87,9 @@ func Parse(input string) (Path, error) {
 	}
 
 	c := pr.Path()
+	if errListener.err != nil {
+		return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
+	}
 	// Build a matcher from AST
 	return astPath(c.Expression())
 }
-- 
2.43.0


From dd3bea7e760ed0a817dc4455cc0d770e3c9e6819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 02/28] fix: MapModel.Key must not find keys the object does
 not have

$.missing returned a null node.
---
 docmodel.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/docmodel.go b/docmodel.go
index 8776056..7155418 100644
--- a/docmodel.go
+++ b/docmodel.go
@@ -62,7 +62,8 @@ func (MapModel) Key(in any, key string) (any, bool) {
 	if !ok {
 		return nil, false
 	}
-	return obj[key], true
+	value, ok := obj[key]
+	return value, ok
 }
 
 func (MapModel) Keys(in any) []string {
-- 
2.43.0


From c0a46a723371d52ea2fc09b9b6a0434ed9d60cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:42 +0000
Subject: [PATCH 03/28] fix: recursive descent must not visit value nodes twice

$..a on {"a":1} returned [1,1], and $..* on a scalar returned the scalar.
---
 path.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/path.go b/path.go
index 9033815..814b106 100644
--- a/path.go
+++ b/path.go
@@ -183,9 +183,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 		node := ctx.path.Last().Node
 		switch ctx.doc.Type(node) {
 		case ValueNode:
-			if err := evaluateAt(ctx, path, pathIx+1, capture); err != nil {
-				return err
-			}
+			// No descendants, and the node itself is already evaluated by the caller
 		case ObjectNode:
 			for _, key := range ctx.doc.Keys(node) {
 				value, _ := ctx.doc.Key(node, key)
-- 
2.43.0


From 74a0d9e25828e4b4e48b24343c9b1f44adbfa420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 04/28] fix: keep selectors and recursive flags aligned for
 paths ending with ..

"$.." panicked with index out of range when evaluated.
---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index a91d292..e6d9b93 100644
--- a/parser.go
+++ b/parser.go
@@ -143,7 +143,7 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 			return
 		}
 		path.selectors = append(path.selectors, wildcardSelector{})
-		path.recursive = append(path.recursive[:len(path.recursive)-1], true)
+		path.recursive = append(path.recursive[:len(path.recursive)-1], true, false)
 		return
 
 	case *parser.RecursiveDescentExpressionContext:
-- 
2.43.0


From fc48e6120f57fea780e7339cf777a8361ec68321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 05/28] fix: recursive descent to a bracketed slice

$..[0:1] was compiled as $..*[0:1] with misaligned recursive flags, and
panicked.
---
 parser.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/parser.go b/parser.go
index e6d9b93..0662f26 100644
--- a/parser.go
+++ b/parser.go
@@ -161,7 +161,14 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 		path.recursive = append(path.recursive, right.recursive...)
 		return
 
+	case *parser.RecursiveDescentMemberIndexExpressionContext:
+		return astRecursiveDescentMemberIndex(expr.Expression(), expr.AllIndexExpression())
+
 	case *parser.MemberIndexExpressionContext:
+		// expr..[index] is a recursive descent to the bracketed selector
+		if term, ok := expr.Expression().(*parser.RecursiveDescentTermExpressionContext); ok {
+			return astRecursiveDescentMemberIndex(term.Expression(), expr.AllIndexExpression())
+		}
 		var left, right Path
 		if left, err = astPath(expr.Expression()); err != nil {
 			return
@@ -219,6 +226,19 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 	return
 }
 
+// Builds the path for ctx..[indexes]
+func astRecursiveDescentMemberIndex(ctx parser.IExpressionContext, indexes []parser.IIndexExpressionContext) (path Path, err error) {
+	left, err := astPath(ctx)
+	if err != nil {
+		return
+	}
+	right, err := astBracketedSelector(indexes)
+	if err != nil {
+		return
+	}
+	return Append(RecursiveDescent(left), right), nil
+}
+
 func astKeySelectorFromLiteral(ctx *parser.LiteralExpressionContext) (selector, error) {
 	lit := ctx.Literal()
 	if str := lit.(*parser.LiteralContext).StringLiteral(); str != nil {
-- 
2.43.0


From 93082d3451f19c24be1e9c691a60573941b4bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:28 +0000
Subject: [PATCH 06/28] fix: keep the start of a slice with an empty step

$[1::] and $[1:3:] started from 0.
---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 0662f26..26445fb 100644
--- a/parser.go
+++ b/parser.go
@@ -369,7 +369,7 @@ func astSlice(ctx *parser.SliceContext) (selector, error) {
 	}
 	if expressions[2] == nil {
 		return &rangeSelector{
-			start: exprValue{value: 0},
+			start: expressions[0],
 			end:   expressions[1],
 		}, nil
 	}
-- 
2.43.0


From 153c3435c6ef865a58b79518c5131f7cef31f9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:29 +0000
Subject: [PATCH 07/28] fix: a negative index before the start of the array
 selects nothing

$[-5] on a three element array returned the first element.
---
 path.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/path.go b/path.go
index 814b106..9a3c739 100644
--- a/path.go
+++ b/path.go
@@ -313,6 +313,9 @@ func (sel *keySelector) match(ctx *context) bool {
 		if v := sel.intValue(ctx); v != nil {
 			if *v < 0 {
 				n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
+				if *v < -n {
+					return false
+				}
 				*v = normalizeIndex(*v, n)
 				if *v < 0 {
 					return false
@@ -341,6 +344,9 @@ func (sel *keySelector) selectChildNodes(ctx *context) (iterator, bool) {
 	if isArray(ctx.path) {
 		if v := sel.intValue(ctx); v != nil {
 			n := ctx.doc.Len(ctx.path.Last().Node)
+			if *v < -n {
+				return emptyIterator{}, true
+			}
 			index := normalizeIndex(*v, n)
 			if index < 0 {
 				return emptyIterator{}, true
-- 
2.43.0


From c843a28226679a0c8df656112cdf89d9a4a76cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:30 +0000
Subject: [PATCH 08/28] fix: slices with a negative step

sliceSelector.match rejected every element of a slice with a negative
step, and omitted or out of range bounds were not adjusted for the
direction, so $[3:0:-1] and $[::-1] always returned nothing.
---
 slice.go | 53 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/slice.go b/slice.go
index f9d2d23..253585d 100644
--- a/slice.go
+++ b/slice.go
@@ -150,11 +150,55 @@ type sliceSelector struct {
 	step  expression
 }
 
+// If the slice has a negative step, returns the first index, the
+// index to stop at (exclusive), and the step for an array of size n.
+// The start of the slice defaults to the end of the array, the end of
+// the slice defaults to the beginning of the array, and both are
+// clamped to the bounds of the array.
+func (sel *sliceSelector) descending(ctx *context, n int) (from, to, step int, ok bool) {
+	if sel.step == nil {
+		return 0, 0, 0, false
+	}
+	value, err := sel.step.evaluate(ctx)
+	if err != nil {
+		return 0, 0, 0, false
+	}
+	if step, ok = valueAsInt(value.value); !ok || step >= 0 {
+		return 0, 0, 0, false
+	}
+	bound := func(expr expression, defaultValue int) int {
+		if expr == nil {
+			return defaultValue
+		}
+		value, err := expr.evaluate(ctx)
+		if err != nil {
+			ok = false
+			return defaultValue
+		}
+		i, isInt := valueAsInt(value.value)
+		if !isInt {
+			ok = false
+			return defaultValue
+		}
+		if i < 0 {
+			i += n
+		}
+		return max(-1, min(i, n-1))
+	}
+	from = bound(sel.start, n-1)
+	to = bound(sel.end, -1)
+	return
+}
+
 func (sel *sliceSelector) match(ctx *context) bool {
 	if !isArrayElement(ctx.path) {
 		return false
 	}
 	n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
+	if from, to, step, ok := sel.descending(ctx, n); ok {
+		at := ctx.path.Last().Index
+		return at <= from && at > to && (from-at)%step == 0
+	}
 	start, end := getRange(ctx, sel.start, sel.end, n)
 	if start < 0 {
 		return false
@@ -200,6 +244,15 @@ func (sel *sliceSelector) selectChildNodes(ctx *context) (children iterator, can
 		return emptyIterator{}, true
 	}
 	n := ctx.doc.Len(ctx.path.Last().Node)
+	if from, to, step, ok := sel.descending(ctx, n); ok {
+		return &rangeIterator{
+			doc:  ctx.doc,
+			node: ctx.path.Last().Node,
+			from: from,
+			to:   to,
+			step: step,
+		}, true
+	}
 	start, end := getRange(ctx, sel.start, sel.end, n)
 	if start < 0 {
 		return emptyIterator{}, true
-- 
2.43.0


From 64aae621c31fef8d1ecb18629c2798dd3d762fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 09/28] fix: integer overflow in slices with a very large step

$[1:3:9223372036854775807] panicked with index out of range.
---
 itr.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/itr.go b/itr.go
index aecccef..8328fee 100644
--- a/itr.go
+++ b/itr.go
@@ -51,6 +51,11 @@ func (s *rangeIterator) next() bool {
 		return true
 
 	case 1: // iterating
+		if s.step > 0 && s.step >= s.to-s.at {
+			// There is no next, and adding a large step can overflow
+			s.state = 2
+			return false
+		}
 		s.at += s.step
 		if s.step > 0 {
 			if s.at >= s.to {
-- 
2.43.0


From 7d0e41a32d0330e966e5ac74b80d03774aaec442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:32 +0000
Subject: [PATCH 10/28] fix: $ in a filter refers to the document root

An absolute path in a filter was evaluated at the current node, so it
selected nothing, or it panicked comparing uncomparable nodes.
---
 expression.go | 4 ++++
 path.go       | 5 +----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/expression.go b/expression.go
index b874fcd..c40c2b5 100644
--- a/expression.go
+++ b/expression.go
@@ -248,6 +248,10 @@ type pathExpression struct {
 }
 
 func (expr pathExpression) evaluate(ctx *context) (exprValue, error) {
+	if _, ok := expr.path.selectors[0].(rootElementSelector); ok {
+		// Absolute path, evaluate starting from the document root
+		ctx = &context{doc: ctx.doc, path: DocPath{P: ctx.path.P[:1:1]}}
+	}
 	result := make([]any, 0)
 	err := evaluateAt(ctx, expr.path, 0, func(item DocPath) {
 		result = append(result, item.Last().Node)
diff --git a/path.go b/path.go
index 9a3c739..ecb7988 100644
--- a/path.go
+++ b/path.go
@@ -219,10 +219,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 type rootElementSelector struct{}
 
 func (rootElementSelector) match(ctx *context) bool {
-	if ctx.path.Len() == 1 {
-		return true
-	}
-	return ctx.path.Last().Node == ctx.doc.Root()
+	return ctx.path.Len() == 1
 }
 
 func (rootElementSelector) selectChildNodes(*context) (children iterator, canSelect bool) {
-- 
2.43.0


From 347c5eabf8eaa4f4b411742266b3072d00982b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:09 +0000
Subject: [PATCH 11/28] fix: a path that selects nothing is false in a filter

$[?(@.key)] selected the elements that do not have the key.
---
 expression.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expression.go b/expression.go
index c40c2b5..27c079e 100644
--- a/expression.go
+++ b/expression.go
@@ -99,6 +99,10 @@ func (c exprValue) asBool() bool {
 	if s, ok := value.(string); ok {
 		return len(s) != 0
 	}
+	if nodes, ok := c.value.([]any); ok {
+		// A path that selects nothing is false
+		return len(nodes) != 0
+	}
 	return c.value != nil
 }
 
-- 
2.43.0


From df4573b6e95fa34edc65a0d6275e07db05c6706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:10 +0000
Subject: [PATCH 12/28] fix: comparing an int to a float must not truncate the
 float

1==@.a was true and 1<@.a was false for 1.5.
---
 expression.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index 27c079e..f76a2ee 100644
--- a/expression.go
+++ b/expression.go
@@ -182,7 +182,7 @@ func (expr equalityExpression) evaluate(ctx *context) (exprValue, error) {
 			return exprValue{value: i == j}, nil
 		}
 		if f, ok := rightValue.(float64); ok {
-			return exprValue{value: i == int(f)}, nil
+			return exprValue{value: float64(i) == f}, nil
 		}
 		return exprValue{value: false}, nil
 	}
@@ -340,6 +340,16 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 	}
 
 	if i, ok := lvalue.(int); ok {
+		if f, ok := valueAsNumber(rvalue).(float64); ok {
+			// Compare as floats, do not truncate the right hand side
+			switch {
+			case float64(i) < f:
+				return -1, true, nil
+			case float64(i) > f:
+				return 1, true, nil
+			}
+			return 0, true, nil
+		}
 		j, ok := valueAsInt(rvalue)
 		if !ok {
 			return 0, false, nil
-- 
2.43.0


From d9475fe538545aeaee1245ea519e7ffabf7271ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:10 +0000
Subject: [PATCH 13/28] fix: unary minus of a non-constant expression

The expression wrapper was converted to a number instead of its value,
so -@.a had no value.
---
 expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index f76a2ee..2962fcf 100644
--- a/expression.go
+++ b/expression.go
@@ -123,7 +123,7 @@ func (u unaryMinusExpression) evaluate(ctx *context) (exprValue, error) {
 	if err != nil {
 		return exprValue{}, err
 	}
-	num := valueAsNumber(c)
+	num := valueAsNumber(c.value)
 	if num == nil {
 		return exprValue{}, nil
 	}
-- 
2.43.0


From f37b63cca0edf360c9d41c40cd43278266f32c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 14/28] fix: null equals null

@.key==null never matched, and @.key!=null always did.
---
 expression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expression.go b/expression.go
index 2962fcf..8ff70bb 100644
--- a/expression.go
+++ b/expression.go
@@ -177,6 +177,9 @@ func (expr equalityExpression) evaluate(ctx *context) (exprValue, error) {
 	leftValue := left.getValue()
 	rightValue := right.getValue()
 
+	if leftValue == nil && rightValue == nil {
+		return exprValue{value: true}, nil
+	}
 	if i, ok := leftValue.(int); ok {
 		if j, ok := rightValue.(int); ok {
 			return exprValue{value: i == j}, nil
@@ -223,6 +226,9 @@ func (expr equality3Expression) evaluate(ctx *context) (exprValue, error) {
 	}
 	leftValue := left.getValue()
 	rightValue := right.getValue()
+	if leftValue == nil && rightValue == nil {
+		return exprValue{value: true}, nil
+	}
 	if i, ok := leftValue.(int); ok {
 		if j, ok := rightValue.(int); ok {
 			return exprValue{value: i == j}, nil
-- 
2.43.0


From a627d8ca5436403e7d90dce27439ed5447c1e4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 15/28] fix: the in operator

It compared the expression wrapper to the values, which is never equal,
and an array in the document was not treated as a list.
---
 expression.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/expression.go b/expression.go
index 8ff70bb..ba65e3b 100644
--- a/expression.go
+++ b/expression.go
@@ -666,7 +666,7 @@ func (expr inExpression) evaluate(ctx *context) (exprValue, error) {
 	if r.value == nil {
 		return exprValue{}, err
 	}
-	arr, ok := r.value.([]any)
+	arr, ok := r.getValue().([]any)
 	if !ok {
 		arr = []any{r.value}
 	}
@@ -677,7 +677,11 @@ func (expr inExpression) evaluate(ctx *context) (exprValue, error) {
 		} else {
 			v = x
 		}
-		if l == v {
+		eq, err := equalityExpression{left: l, right: exprValue{value: v}}.evaluate(ctx)
+		if err != nil {
+			return exprValue{}, err
+		}
+		if eq.asBool() {
 			return exprValue{value: true}, nil
 		}
 	}
-- 
2.43.0


From cf722f0b6dbd1f707e962581650c0773d387bf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 16/28] fix: call DocModel.Value only for value nodes

Filters called Value for object and array nodes too, so they depended on
a document model returning []any from Value for an array node, which the
DocModel contract does not ask for.
---
 expression.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/expression.go b/expression.go
index ba65e3b..d6359ae 100644
--- a/expression.go
+++ b/expression.go
@@ -31,6 +31,23 @@ type nodeValue struct {
 	doc  DocModel
 }
 
+// getValue returns the value of a value node, the elements of an array
+// node, and the nodeValue itself for an object node. DocModel.Value
+// works only for value nodes.
+func (n nodeValue) getValue() any {
+	switch n.doc.Type(n.node) {
+	case ArrayNode:
+		arr := make([]any, n.doc.Len(n.node))
+		for i := range arr {
+			arr[i] = nodeValue{node: n.doc.Elem(n.node, i), doc: n.doc}
+		}
+		return arr
+	case ObjectNode:
+		return n
+	}
+	return n.doc.Value(n.node)
+}
+
 func (c exprValue) evaluate(*context) (exprValue, error) { return c, nil }
 
 // Return an int, float, bool, or string as int or float64. If not convertable, returns nil
@@ -59,6 +76,9 @@ func valueAsNumber(value any) any {
 		}
 	}
 	if n, ok := value.(nodeValue); ok {
+		if n.doc.Type(n.node) != ValueNode {
+			return nil
+		}
 		return valueAsNumber(n.doc.Value(n.node))
 	}
 	return nil
@@ -86,6 +106,9 @@ func (c exprValue) String() string {
 }
 
 func (c exprValue) asBool() bool {
+	if n, ok := c.value.(nodeValue); ok && n.doc.Type(n.node) != ValueNode {
+		return true
+	}
 	value := c.getValue()
 	if b, ok := value.(bool); ok {
 		return b
@@ -109,7 +132,7 @@ func (c exprValue) asBool() bool {
 func (c exprValue) getValue() any {
 	n, ok := c.value.(nodeValue)
 	if ok {
-		return n.doc.Value(n.node)
+		return n.getValue()
 	}
 	return c.value
 }
@@ -673,7 +696,7 @@ func (expr inExpression) evaluate(ctx *context) (exprValue, error) {
 	for _, x := range arr {
 		var v any
 		if n, ok := x.(nodeValue); ok {
-			v = n.doc.Value(n.node)
+			v = n.getValue()
 		} else {
 			v = x
 		}
-- 
2.43.0


From f91e0b249a9828fe9ebef201da7dffefd03fd447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 17/28] fix: escape sequences in string literals

\\, \t, \0, and escaped ordinary characters such as \/ were dropped,
\x80 and above became \x7f, \u{41} became the digits followed by NUL, and
surrogate pairs became two replacement characters.
---
 expression.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/expression.go b/expression.go
index d6359ae..8931589 100644
--- a/expression.go
+++ b/expression.go
@@ -5,6 +5,8 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf16"
 
 	"github.com/antlr4-go/antlr/v4"
 
@@ -1175,7 +1177,10 @@ var singleEscapeRunes = map[rune]rune{
 	'f':  '\f',
 	'n':  '\n',
 	'r':  '\r',
+	't':  '\t',
 	'v':  '\v',
+	'0':  0,
+	'\\': '\\',
 }
 
 func unescapeString(in string) string {
@@ -1191,7 +1196,7 @@ func unescapeString(in string) string {
 				if len(buf) == 2 {
 					hex = false
 					esc = false
-					v, _ := strconv.ParseInt(string(buf), 16, 8)
+					v, _ := strconv.ParseInt(string(buf), 16, 32)
 					out = append(out, rune(v))
 					buf = nil
 				}
@@ -1199,17 +1204,21 @@ func unescapeString(in string) string {
 				buf = append(buf, r)
 				if len(buf) > 1 && buf[0] == '{' {
 					if r == '}' {
-						v, _ := strconv.ParseInt(string(buf[1:]), 16, 32)
+						v, _ := strconv.ParseInt(string(buf[1:len(buf)-1]), 16, 32)
 						out = append(out, rune(v))
 						buf = nil
 						uni = false
 						esc = false
-					} else {
-						out = append(out, r)
 					}
 				} else if len(buf) == 4 {
 					v, _ := strconv.ParseInt(string(buf), 16, 32)
 					out = append(out, rune(v))
+					if n := len(out); n > 1 && utf16.IsSurrogate(out[n-2]) {
+						if x := utf16.DecodeRune(out[n-2], rune(v)); x != unicode.ReplacementChar {
+							// Surrogate pair
+							out = append(out[:n-2], x)
+						}
+					}
 					buf = nil
 					uni = false
 					esc = false
@@ -1223,6 +1232,9 @@ func unescapeString(in string) string {
 			} else {
 				if x, ok := singleEscapeRunes[r]; ok {
 					out = append(out, x)
+				} else if !strings.ContainsRune("\r\n\u2028\u2029", r) {
+					// Any other character stands for itself, unless this is a line continuation
+					out = append(out, r)
 				}
 				esc = false
 			}
-- 
2.43.0


From 10466b9d6270007fde9f8303258d5cb228bd1153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 18/28] fix: numeric literals with digit separators or an upper
 case exponent

1_000, 0x1_0, 0o1_0, and 1E3 had the value 0.
---
 expression.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expression.go b/expression.go
index 8931589..5adc784 100644
--- a/expression.go
+++ b/expression.go
@@ -1147,7 +1147,7 @@ func astLiteral(ctx *parser.LiteralContext) exprValue {
 
 func numericLiteral(ctx *parser.NumericLiteralContext) any {
 	if lit := ctx.DecimalLiteral(); lit != nil {
-		number := lit.GetText()
+		number := strings.ToLower(strings.Replace(lit.GetText(), "_", "", -1))
 		if strings.IndexRune(number, 'e') != -1 || strings.IndexRune(number, '.') != -1 {
 			v, _ := strconv.ParseFloat(number, 64)
 			return float64(v)
@@ -1157,12 +1157,12 @@ func numericLiteral(ctx *parser.NumericLiteralContext) any {
 	}
 
 	if lit := ctx.HexIntegerLiteral(); lit != nil {
-		v, _ := strconv.ParseInt(lit.GetText()[2:], 16, 64)
+		v, _ := strconv.ParseInt(strings.Replace(lit.GetText()[2:], "_", "", -1), 16, 64)
 		return int(v)
 	}
 
 	if lit := ctx.OctalIntegerLiteral2(); lit != nil {
-		v, _ := strconv.ParseInt(lit.GetText()[2:], 8, 64)
+		v, _ := strconv.ParseInt(strings.Replace(lit.GetText()[2:], "_", "", -1), 8, 64)
 		return int(v)
 	}
 	lit := ctx.BinaryIntegerLiteral().GetText()[2:]
-- 
2.43.0


From 78ae105a15d42ac9563929369bbf0e21a13029a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 19/28] fix: unquoted literals in simple paths

/null looked for the key "<nil>", /007 for the key "7", and /1.0 for the
key "1". The text of the literal is the key, as it is for $.null.
---
 simplepath.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simplepath.go b/simplepath.go
index 312a806..ebcc337 100644
--- a/simplepath.go
+++ b/simplepath.go
@@ -20,7 +20,9 @@ func astSimplePath(ctx parser.ISimplePathExprContext) (path Path, err error) {
 		}
 		path.selectors = []selector{
 			&keySelector{
-				key: v.String(),
+				// The key is the text of the literal, v is used for array indexes
+				key:  lit.GetText(),
+				expr: v,
 			},
 		}
 		path.recursive = []bool{false}
-- 
2.43.0


From 3f1ae71f4ddc495512cebdba0c68521f76b985fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:10 +0000
Subject: [PATCH 20/28] fix: a captured DocPath must not change during the rest
 of the search

All captured paths shared the array that keeps the current path, so
a path that capture keeps was overwritten as the traversal continued.
---
 path.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/path.go b/path.go
index ecb7988..a23d9cc 100644
--- a/path.go
+++ b/path.go
@@ -109,7 +109,10 @@ func Search(doc DocModel, path Path, capture func(DocPath)) error {
 	}
 	el.Type = doc.Type(el.Node)
 	ctx.path.P = append(ctx.path.P, el)
-	return evaluateAt(ctx, path, 0, capture)
+	return evaluateAt(ctx, path, 0, func(p DocPath) {
+		// ctx.path is modified during the traversal. capture gets its own copy
+		capture(DocPath{P: append([]Segment(nil), p.P...)})
+	})
 }
 
 func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) error {
-- 
2.43.0


From 00e36943f20394b66b891985cb57a33fce96ea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 21/28] fix: IndexSelectorPath must not select the empty key of
 an object

---
 path.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/path.go b/path.go
index a23d9cc..bd66593 100644
--- a/path.go
+++ b/path.go
@@ -307,6 +307,10 @@ func (sel *keySelector) intValue(ctx *context) *int {
 
 func (sel *keySelector) match(ctx *context) bool {
 	if isObjectElement(ctx.path) {
+		if len(sel.key) == 0 && sel.expr != nil {
+			// Array index selector
+			return false
+		}
 		return ctx.path.Last().Name == sel.key
 	}
 	if isArrayElement(ctx.path) {
@@ -329,6 +333,10 @@ func (sel *keySelector) match(ctx *context) bool {
 
 func (sel *keySelector) selectChildNodes(ctx *context) (iterator, bool) {
 	if isObject(ctx.path) {
+		if len(sel.key) == 0 && sel.expr != nil {
+			// Array index selector
+			return emptyIterator{}, true
+		}
 		node, ok := ctx.doc.Key(ctx.path.Last().Node, sel.key)
 		if !ok {
 			return emptyIterator{}, true
-- 
2.43.0


From 649275f480ed09e9074ae3843c8ecb56d563d937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 22/28] fix: evaluate the bounds of a slice at the array when
 matching an element

$[0:@.length()-1] selects nodes with bounds computed at the array, but
then matched every node against bounds computed at the node itself.
---
 path.go  |  2 +-
 slice.go | 15 +++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/path.go b/path.go
index bd66593..e756d27 100644
--- a/path.go
+++ b/path.go
@@ -314,7 +314,7 @@ func (sel *keySelector) match(ctx *context) bool {
 		return ctx.path.Last().Name == sel.key
 	}
 	if isArrayElement(ctx.path) {
-		if v := sel.intValue(ctx); v != nil {
+		if v := sel.intValue(ctx.parent()); v != nil {
 			if *v < 0 {
 				n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
 				if *v < -n {
diff --git a/slice.go b/slice.go
index 253585d..fe4ee28 100644
--- a/slice.go
+++ b/slice.go
@@ -21,6 +21,13 @@ func isArray(p DocPath) bool {
 	return p.Last().Type == ArrayNode
 }
 
+// Index expressions are evaluated at the array. While matching an array
+// element, that is the parent of the current node.
+func (ctx *context) parent() *context {
+	n := ctx.path.Len() - 1
+	return &context{doc: ctx.doc, path: DocPath{P: ctx.path.P[:n:n]}}
+}
+
 func normalizeIndex(index any, len int) int {
 	i, ok := valueAsInt(index)
 	if !ok {
@@ -116,7 +123,7 @@ func (sel *rangeSelector) match(ctx *context) bool {
 		return false
 	}
 	n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
-	start, end := getRange(ctx, sel.start, sel.end, n)
+	start, end := getRange(ctx.parent(), sel.start, sel.end, n)
 	index := ctx.path.Last().Index
 	return index >= start && index < end
 }
@@ -195,11 +202,11 @@ func (sel *sliceSelector) match(ctx *context) bool {
 		return false
 	}
 	n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
-	if from, to, step, ok := sel.descending(ctx, n); ok {
+	if from, to, step, ok := sel.descending(ctx.parent(), n); ok {
 		at := ctx.path.Last().Index
 		return at <= from && at > to && (from-at)%step == 0
 	}
-	start, end := getRange(ctx, sel.start, sel.end, n)
+	start, end := getRange(ctx.parent(), sel.start, sel.end, n)
 	if start < 0 {
 		return false
 	}
@@ -214,7 +221,7 @@ func (sel *sliceSelector) match(ctx *context) bool {
 		step = -1
 	}
 	if sel.step != nil {
-		ivalue, err := sel.step.evaluate(ctx)
+		ivalue, err := sel.step.evaluate(ctx.parent())
 		if err != nil {
 			return false
 		}
-- 
2.43.0


From a1610332f80dc9a701fbfd58bf0fef5651318841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:49 +0000
Subject: [PATCH 23/28] fix: paths that continue after a recursive descent in
 filters

$[?(@..a[0])] and $[?(@..a..b)] were rejected as invalid expressions.
---
 expression.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expression.go b/expression.go
index 5adc784..182f868 100644
--- a/expression.go
+++ b/expression.go
@@ -1125,6 +1125,10 @@ func astExpression(ctx parser.IExpressionContext, inPath bool) (expression, erro
 				if e := parse(c); e != nil {
 					return e, nil
 				}
+			case *parser.RecursiveDescentExpressionContext, *parser.RecursiveDescentTermExpressionContext, *parser.RecursiveDescentMemberIndexExpressionContext:
+				if e := parse(c.(parser.IExpressionContext)); e != nil {
+					return e, nil
+				}
 			}
 		}
 	}
-- 
2.43.0


From 58008576a82a7b29f25fbdaafeae82ae0ab915d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 24/28] fix: MakeKeyString must produce a path component that
 selects the key

Unquoted special characters, "in", and the empty key resulted in paths
that are malformed or select something else ("*"), letters that are newer
than the grammar were not recognized, and backslashes and line
terminators were not escaped in quoted keys.
---
 escape.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/escape.go b/escape.go
index 7574379..94793bc 100644
--- a/escape.go
+++ b/escape.go
@@ -5,19 +5,26 @@ import (
 	"unicode"
 )
 
-const acceptableChars = "_*$.,@!~#%^"
+// Characters other than letters and digits that don't need quotes
+const acceptableChars = "_"
 
 // MakeKeyString quotes or escapes the input string if necessary to be
 // used in a path expression
 func MakeKeyString(input string) string {
 	// If input has all digits, letters, and _, no need for escape or
 	// quote
-	bad := false
+	// The empty key and the "in" operator have to be quoted
+	bad := len(input) == 0 || input == "in"
 	for i, r := range input {
 		if i == 0 && unicode.IsDigit(r) {
 			bad = true
 			break
 		}
+		if r > unicode.MaxASCII {
+			// The grammar and the unicode package may not agree on what a letter is
+			bad = true
+			break
+		}
 		if !unicode.IsDigit(r) && !unicode.IsLetter(r) && strings.IndexRune(acceptableChars, r) == -1 {
 			bad = true
 			break
@@ -27,6 +34,9 @@ func MakeKeyString(input string) string {
 		return input
 	}
 
+	// Characters that cannot appear in a string literal unescaped
+	input = strings.NewReplacer("\\", "\\\\", "\n", "\\n", "\r", "\\r").Replace(input)
+
 	// Does it have double-quote?
 	if strings.IndexRune(input, '"') != -1 {
 		if strings.IndexRune(input, '\'') != -1 {
-- 
2.43.0


From 9129e740259837f386d8f2081602c67b7b73f40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:49 +0000
Subject: [PATCH 25/28] fix: ordering a string against an array, an object, or
 a missing node

The right hand side was formatted to compare it as a string, so "x">@.a
was true when there is no @.a, while @.a<"x" was false.
---
 expression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expression.go b/expression.go
index 182f868..c393bd6 100644
--- a/expression.go
+++ b/expression.go
@@ -415,6 +415,11 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 	}
 
 	if i, ok := lvalue.(string); ok {
+		switch rvalue.(type) {
+		case []any, nodeValue:
+			// Arrays, objects, and missing nodes have no order
+			return 0, false, nil
+		}
 		j, ok := rvalue.(string)
 		if !ok {
 			j = fmt.Sprint(rvalue)
-- 
2.43.0


From bef9d844645e7fada44b1a6bf80d538557915461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 26/28] fix: signed index that is not plain decimal

[-0x1], [-1_0] and [- 1] selected nothing, because the text of the
index was converted with Atoi.
---
 expression.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/expression.go b/expression.go
index c393bd6..14cdb26 100644
--- a/expression.go
+++ b/expression.go
@@ -799,6 +799,14 @@ func astExpression(ctx parser.IExpressionContext, inPath bool) (expression, erro
 		case *parser.LiteralExpressionContext:
 			return astLiteral(expr.Literal().(*parser.LiteralContext)), nil
 		case *parser.UnaryPlusExpressionContext, *parser.UnaryMinusExpressionContext, *parser.AdditiveExpressionContext:
+			// A literal with a sign is a number, also if it is not spelled in plain decimal
+			if e, err := astExpression(ctx, false); err == nil {
+				if v, ok := e.(exprValue); ok {
+					if _, ok := v.value.(int); ok {
+						return v, nil
+					}
+				}
+			}
 			return exprValue{value: expr.GetText()}, nil
 		case *parser.FilterExpressionContext:
 			x, err := astExpression(expr.Expression(), false)
-- 
2.43.0


From 27f287c7d346cc9a36714a59b18344fe1028cfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:45 +0000
Subject: [PATCH 27/28] fix: DocPath.Pop shared storage with the original path

Extending the result of Pop overwrote the last segment of the path it
was called on, so a captured path changed.
---
 docpath.go |  9 +++++++++
 path.go    | 10 +++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/docpath.go b/docpath.go
index f00616a..93b149d 100644
--- a/docpath.go
+++ b/docpath.go
@@ -42,6 +42,15 @@ func (path DocPath) Push(seg Segment) DocPath {
 
 // Returns a new path by removing the last element from the path
 func (path DocPath) Pop() DocPath {
+	n := len(path.P) - 1
+	// Adding to the result must not overwrite the removed element, which
+	// is still in the original path
+	path.P = path.P[:n:n]
+	return path
+}
+
+// pop is Pop for a path that nothing else refers to. It keeps the storage
+func (path DocPath) pop() DocPath {
 	path.P = path.P[:len(path.P)-1]
 	return path
 }
diff --git a/path.go b/path.go
index e756d27..7d62eac 100644
--- a/path.go
+++ b/path.go
@@ -146,7 +146,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 				if err := evaluateAt(ctx, path, pathIx, capture); err != nil {
 					return err
 				}
-				ctx.path = ctx.path.Pop()
+				ctx.path = ctx.path.pop()
 			}
 			return nil
 		} // if canSelect
@@ -162,7 +162,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 				if err := evaluateAt(ctx, path, pathIx, capture); err != nil {
 					return err
 				}
-				ctx.path = ctx.path.Pop()
+				ctx.path = ctx.path.pop()
 			}
 		case ArrayNode:
 			n := ctx.doc.Len(node)
@@ -173,7 +173,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 				if err := evaluateAt(ctx, path, pathIx, capture); err != nil {
 					return err
 				}
-				ctx.path = ctx.path.Pop()
+				ctx.path = ctx.path.pop()
 			}
 		} // switch doc.Type(node)
 		return nil
@@ -197,7 +197,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 				if err := descend(); err != nil {
 					return err
 				}
-				ctx.path = ctx.path.Pop()
+				ctx.path = ctx.path.pop()
 			}
 		case ArrayNode:
 			n := ctx.doc.Len(node)
@@ -211,7 +211,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 				if err := descend(); err != nil {
 					return err
 				}
-				ctx.path = ctx.path.Pop()
+				ctx.path = ctx.path.pop()
 			}
 		} // switch doc.Type(node)
 		return nil
-- 
2.43.0


From 90256866ffca1db4834dd142ddfb0a16deabdd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:27 +0000
Subject: [PATCH 28/28] fix: paths made from the same DocPath shared storage

Key, Index and Push appended in place, so that the second path made from
a DocPath overwrote the last segment of the first one.
---
 docpath.go | 15 +++++++++++----
 path.go    | 10 +++++-----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/docpath.go b/docpath.go
index 93b149d..a02ce80 100644
--- a/docpath.go
+++ b/docpath.go
@@ -17,25 +17,32 @@ type Segment struct {
 
 // Add a key-value to the path. The value is of type valueType. Returns the new path
 func (path DocPath) Key(key string, value any, valueType NodeType) DocPath {
-	path.P = append(path.P, Segment{
+	return path.Push(Segment{
 		Node: value,
 		Name: key,
 		Type: valueType,
 	})
-	return path
 }
 
 // Add an array index-value to the path. The value is of type valueType. Returns the new path
 func (path DocPath) Index(index int, value any, valueType NodeType) DocPath {
-	path.P = append(path.P, Segment{
+	return path.Push(Segment{
 		Node:  value,
 		Index: index,
 		Type:  valueType,
 	})
-	return path
 }
 
+// Add a segment to the path. Returns the new path
 func (path DocPath) Push(seg Segment) DocPath {
+	// Do not write into the storage of path, another path that was made
+	// from it may be there
+	n := len(path.P)
+	return DocPath{P: path.P[:n:n]}.push(seg)
+}
+
+// push is Push for a path that nothing else refers to. It uses the storage
+func (path DocPath) push(seg Segment) DocPath {
 	path.P = append(path.P, seg)
 	return path
 }
diff --git a/path.go b/path.go
index 7d62eac..21b8148 100644
--- a/path.go
+++ b/path.go
@@ -142,7 +142,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 			for childNodeElements.next() {
 				var childNode Segment
 				childNodeElements.item(&childNode)
-				ctx.path = ctx.path.Push(childNode)
+				ctx.path = ctx.path.push(childNode)
 				if err := evaluateAt(ctx, path, pathIx, capture); err != nil {
 					return err
 				}
@@ -158,7 +158,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 		case ObjectNode:
 			for _, key := range ctx.doc.Keys(node) {
 				value, _ := ctx.doc.Key(node, key)
-				ctx.path = ctx.path.Key(key, value, ctx.doc.Type(value))
+				ctx.path = ctx.path.push(Segment{Node: value, Name: key, Type: ctx.doc.Type(value)})
 				if err := evaluateAt(ctx, path, pathIx, capture); err != nil {
 					return err
 				}
@@ -169,7 +169,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 			for i := 0; i < n; i++ {
 				value := ctx.doc.Elem(node, i)
 				index := i
-				ctx.path = ctx.path.Index(index, value, ctx.doc.Type(value))
+				ctx.path = ctx.path.push(Segment{Node: value, Index: index, Type: ctx.doc.Type(value)})
 				if err := evaluateAt(ctx, path, pathIx, capture); err != nil {
 					return err
 				}
@@ -190,7 +190,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 		case ObjectNode:
 			for _, key := range ctx.doc.Keys(node) {
 				value, _ := ctx.doc.Key(node, key)
-				ctx.path = ctx.path.Key(key, value, ctx.doc.Type(value))
+				ctx.path = ctx.path.push(Segment{Node: value, Name: key, Type: ctx.doc.Type(value)})
 				if err := evaluateAt(ctx, path, pathIx+1, capture); err != nil {
 					return err
 				}
@@ -204,7 +204,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 			for i := 0; i < n; i++ {
 				value := ctx.doc.Elem(node, i)
 				index := i
-				ctx.path = ctx.path.Index(index, value, ctx.doc.Type(value))
+				ctx.path = ctx.path.push(Segment{Node: value, Index: index, Type: ctx.doc.Type(value)})
 				if err := evaluateAt(ctx, path, pathIx+1, capture); err != nil {
 					return err
 				}
-- 
2.43.0

