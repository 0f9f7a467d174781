From 6e196f31d86bf3f875e11b7b255bb7be293ce0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 01/15] fix: keep the first render error and write nothing
 after it

---
 aitch.go         |  8 ++++++++
 collection.go    |  6 +++---
 conditional.go   |  2 +-
 element.go       | 14 +++++++-------
 html/document.go |  8 ++++++--
 imperative.go    | 10 ++++++----
 iterate.go       |  9 ++++++---
 value.go         |  8 ++++++--
 8 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/aitch.go b/aitch.go
index a8f5e44..364cfa3 100644
--- a/aitch.go
+++ b/aitch.go
@@ -40,6 +40,14 @@ const (
 	iteratorNode
 )
 
+// renderNode renders the node - the context retains the first error encountered
+func renderNode(ctx *context.Context, n Node) error {
+	if err := n.Render(ctx); ctx.Error == nil {
+		ctx.Error = err
+	}
+	return ctx.Error
+}
+
 var (
 	space             = []byte{' '}
 	openAngleBracket  = []byte{'<'}
diff --git a/collection.go b/collection.go
index 69243c3..bd2f91f 100644
--- a/collection.go
+++ b/collection.go
@@ -11,8 +11,8 @@ type collection struct {
 func (c *collection) Render(ctx *context.Context) error {
 	for _, n := range c.nodes {
 		if n.Type() != AttributeNode {
-			if ctx.Error = n.Render(ctx); ctx.Error != nil {
-				return ctx.Error
+			if err := renderNode(ctx, n); err != nil {
+				return err
 			}
 		}
 	}
@@ -47,7 +47,7 @@ type contentCollector struct {
 func (c *contentCollector) Render(ctx *context.Context) error {
 	for _, n := range c.collector(ctx) {
 		if n != nil && n.Type() != AttributeNode {
-			_ = n.Render(ctx)
+			_ = renderNode(ctx, n)
 		}
 	}
 	return ctx.Error
diff --git a/conditional.go b/conditional.go
index 580f1bb..2b4b18b 100644
--- a/conditional.go
+++ b/conditional.go
@@ -43,7 +43,7 @@ func (c conditionalAttributes) evaluate(ctx *context.Context) map[string][]Node
 func (c *conditional) Render(ctx *context.Context) error {
 	if c.fn(ctx) {
 		for _, n := range c.nodes {
-			if ctx.Error = n.Render(ctx); ctx.Error != nil {
+			if err := renderNode(ctx, n); err != nil {
 				break
 			}
 		}
diff --git a/element.go b/element.go
index 3393d73..7b6fe2a 100644
--- a/element.go
+++ b/element.go
@@ -22,12 +22,12 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 								use.values = append(use.values, et.getValues()...)
 							}
 						}
-						_ = use.Render(ctx)
+						_ = renderNode(ctx, use)
 					default:
-						_ = eAttr[len(eAttr)-1].Render(ctx)
+						_ = renderNode(ctx, eAttr[len(eAttr)-1])
 					}
 				} else {
-					_ = attr.Render(ctx)
+					_ = renderNode(ctx, attr)
 				}
 			}
 			for name, ca := range evaluated {
@@ -44,9 +44,9 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 								use.values = append(use.values, et.getValues()...)
 							}
 						}
-						_ = use.Render(ctx)
+						_ = renderNode(ctx, use)
 					default:
-						_ = ca[len(ca)-1].Render(ctx)
+						_ = renderNode(ctx, ca[len(ca)-1])
 					}
 				}
 			}
@@ -54,7 +54,7 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 		}
 	}
 	for _, attr := range attributes {
-		_ = attr.Render(ctx)
+		_ = renderNode(ctx, attr)
 	}
 }
 
@@ -131,7 +131,7 @@ func (e *element) Render(ctx *context.Context) error {
 	renderAttributes(ctx, e.attributes, e.attIndices, e.conditionals)
 	ctx.Write(closeAngleBracket)
 	for _, c := range e.contents {
-		ctx.Error = c.Render(ctx)
+		_ = renderNode(ctx, c)
 	}
 	ctx.Write(closeTagStart)
 	ctx.Write(e.name)
diff --git a/html/document.go b/html/document.go
index 829565b..5894f9a 100644
--- a/html/document.go
+++ b/html/document.go
@@ -12,10 +12,14 @@ type document struct {
 
 func (d *document) Render(ctx *context.Context) error {
 	if d.prologue != nil {
-		_ = d.prologue.Render(ctx)
+		if err := d.prologue.Render(ctx); ctx.Error == nil {
+			ctx.Error = err
+		}
 	}
 	for _, n := range d.contents {
-		_ = n.Render(ctx)
+		if err := n.Render(ctx); ctx.Error == nil {
+			ctx.Error = err
+		}
 	}
 	return ctx.Error
 }
diff --git a/imperative.go b/imperative.go
index 45fcf7c..738440c 100644
--- a/imperative.go
+++ b/imperative.go
@@ -35,11 +35,13 @@ type imperative struct {
 	fn func(ctx ImperativeContext) error
 }
 
-func (i *imperative) Render(ctx *context.Context) (err error) {
+func (i *imperative) Render(ctx *context.Context) error {
 	if i.fn != nil {
-		err = i.fn(&imperativeContext{ctx: ctx})
+		if err := i.fn(&imperativeContext{ctx: ctx}); ctx.Error == nil {
+			ctx.Error = err
+		}
 	}
-	return
+	return ctx.Error
 }
 
 func (i *imperative) Type() NodeType {
@@ -70,7 +72,7 @@ func (ic *imperativeContext) WriteRaw(data []byte) {
 func (ic *imperativeContext) WriteNodes(nodes ...Node) {
 	for _, node := range nodes {
 		if node != nil && node.Type() != AttributeNode {
-			_ = node.Render(ic.ctx)
+			_ = renderNode(ic.ctx, node)
 		}
 	}
 }
diff --git a/iterate.go b/iterate.go
index 6a300d8..0beddfb 100644
--- a/iterate.go
+++ b/iterate.go
@@ -91,14 +91,14 @@ func (i *iterator) Render(ctx *context.Context) error {
 				ictx.Data = ctx.Data
 			}
 			for _, n := range i.nodes {
-				if err := n.Render(ictx); err != nil {
+				if err := renderNode(ictx, n); err != nil {
 					ctx.Error = err
 					return err
 				}
 			}
 		}
 	}
-	return nil
+	return ctx.Error
 }
 
 func (i *iterator) Type() NodeType {
@@ -152,12 +152,15 @@ func (i *yieldIterator) Render(ctx *context.Context) error {
 		Parent: ctx,
 	}
 	i.fn(ctx, func(item any) {
+		if ctx.Error != nil {
+			return
+		}
 		ictx.Cargo = item
 		if mi, ok := item.(map[string]any); ok {
 			ictx.Data = mi
 		}
 		for _, n := range i.nodes {
-			if err := n.Render(ictx); err != nil {
+			if err := renderNode(ictx, n); err != nil {
 				ctx.Error = err
 				return
 			}
diff --git a/value.go b/value.go
index c499054..877fca1 100644
--- a/value.go
+++ b/value.go
@@ -33,10 +33,14 @@ func NewConcatValue(values ...any) Value {
 }
 
 func (v Value) render(ctx *context.Context) (bool, error) {
+	if ctx.Error != nil {
+		return false, ctx.Error
+	}
 	var l int
 	if v.dynamicFunc != nil {
-		data := v.dynamicFunc(ctx)
-		l, ctx.Error = ctx.Writer.Write(data)
+		if data := v.dynamicFunc(ctx); ctx.Error == nil {
+			l, ctx.Error = ctx.Writer.Write(data)
+		}
 	} else if len(v.concats) > 0 {
 		var written bool
 		for _, concat := range v.concats {
-- 
2.43.0


From edaa2867bc714da5d045d9f77f124a7f5ff2c517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 02/15] fix: render conditional attributes in a stable order

---
 conditional.go | 10 +++++++---
 element.go     | 12 ++++++------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/conditional.go b/conditional.go
index 2b4b18b..2e4a9f7 100644
--- a/conditional.go
+++ b/conditional.go
@@ -29,15 +29,19 @@ func (a conditionalAttribute) evaluate(ctx *context.Context) bool {
 
 type conditionalAttributes []conditionalAttribute
 
-func (c conditionalAttributes) evaluate(ctx *context.Context) map[string][]Node {
-	result := make(map[string][]Node, len(c))
+// evaluate returns the attributes (by name) whose conditions are met, and their names in order of declaration
+func (c conditionalAttributes) evaluate(ctx *context.Context) (result map[string][]Node, names []string) {
+	result = make(map[string][]Node, len(c))
 	for _, a := range c {
 		if a.evaluate(ctx) {
 			name := a.attribute.Name()
+			if _, ok := result[name]; !ok {
+				names = append(names, name)
+			}
 			result[name] = append(result[name], a.attribute)
 		}
 	}
-	return result
+	return result, names
 }
 
 func (c *conditional) Render(ctx *context.Context) error {
diff --git a/element.go b/element.go
index 7b6fe2a..568426a 100644
--- a/element.go
+++ b/element.go
@@ -6,11 +6,10 @@ import (
 
 func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[string]int, conditionals conditionalAttributes) {
 	if len(conditionals) > 0 {
-		if evaluated := conditionals.evaluate(ctx); len(evaluated) > 0 {
+		if evaluated, names := conditionals.evaluate(ctx); len(evaluated) > 0 {
 			use := &delimitedAttribute{}
-			for name, index := range attIndices {
-				attr := attributes[index]
-				if eAttr, ok := evaluated[name]; ok {
+			for _, attr := range attributes {
+				if eAttr, ok := evaluated[attr.Name()]; ok {
 					switch at := attr.(type) {
 					case *delimitedAttribute:
 						use.name = at.name
@@ -30,8 +29,9 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 					_ = renderNode(ctx, attr)
 				}
 			}
-			for name, ca := range evaluated {
-				if _, ok := attIndices[name]; !ok && len(ca) > 0 {
+			for _, name := range names {
+				if _, ok := attIndices[name]; !ok {
+					ca := evaluated[name]
 					first := ca[0]
 					switch at := first.(type) {
 					case *delimitedAttribute:
-- 
2.43.0


From e1a40ed2abfee96d49a34b3c628ded09c09d5909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 03/15] fix: merging attributes into an element must not alter
 the attribute nodes

---
 attribute.go | 12 ++++++++++++
 element.go   |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/attribute.go b/attribute.go
index 53bb020..79a6017 100644
--- a/attribute.go
+++ b/attribute.go
@@ -132,6 +132,18 @@ func (a *delimitedAttribute) getValues() []Value {
 	return a.values
 }
 
+// merge creates a new delimited attribute with the values of both (as both may be in use elsewhere, neither is altered)
+func (a *delimitedAttribute) merge(other *delimitedAttribute) *delimitedAttribute {
+	values := make([]Value, 0, len(a.values)+len(other.values))
+	values = append(values, a.values...)
+	values = append(values, other.values...)
+	return &delimitedAttribute{
+		name:      a.name,
+		delimiter: a.delimiter,
+		values:    values,
+	}
+}
+
 // DelimitedAttribute creates a new delimited attribute Node
 //
 // examples of delimited attributes are Class() and Style()
diff --git a/element.go b/element.go
index 568426a..e137dab 100644
--- a/element.go
+++ b/element.go
@@ -88,7 +88,7 @@ func (e *voidElement) addAttributes(attrs []Node) Node {
 			existing := e.attributes[idx]
 			if delimited, ok := existing.(*delimitedAttribute); ok {
 				if addD, ok := att.(*delimitedAttribute); ok {
-					delimited.values = append(delimited.values, addD.values...)
+					e.attributes[idx] = delimited.merge(addD)
 					continue
 				}
 			}
@@ -154,7 +154,7 @@ func (e *element) addAttributes(attrs []Node) Node {
 			existing := e.attributes[idx]
 			if delimited, ok := existing.(*delimitedAttribute); ok {
 				if addD, ok := att.(*delimitedAttribute); ok {
-					delimited.values = append(delimited.values, addD.values...)
+					e.attributes[idx] = delimited.merge(addD)
 					continue
 				}
 			}
-- 
2.43.0


From 4d374799e765fa82f13e93b059491647e906d684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 04/15] fix: sibling nested conditionals must not share
 conditions

---
 element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/element.go b/element.go
index e137dab..810c8e3 100644
--- a/element.go
+++ b/element.go
@@ -251,7 +251,7 @@ func attributesAndContents(conditions []ConditionalFunc, content []Node) (attrs
 					attrs = append(attrs, addA...)
 					condAttrs = append(condAttrs, addCa...)
 				case *conditional:
-					newConditions := append(conditions, cn.fn)
+					newConditions := append(conditions[:len(conditions):len(conditions)], cn.fn)
 					for _, a := range cn.attributes {
 						condAttrs = append(condAttrs, conditionalAttribute{
 							attribute:  a,
-- 
2.43.0


From 442b3aba7651fd56d6384e68282241135d429c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 05/15] fix: imperative Start must not append to the values of
 an attribute node

---
 imperative.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imperative.go b/imperative.go
index 738440c..3b6e6cb 100644
--- a/imperative.go
+++ b/imperative.go
@@ -87,7 +87,7 @@ func (ic *imperativeContext) Start(elementName []byte, isVoid bool, attrs ...Nod
 		if attr != nil && attr.Type() == AttributeNode {
 			if idx, ok := attIndices[attr.Name()]; ok {
 				if da, ok := attr.(*delimitedAttribute); ok {
-					avs := attValues[idx]
+					avs := attValues[idx][:len(attValues[idx]):len(attValues[idx])]
 					for _, dv := range da.values {
 						if len(avs) > 0 {
 							avs = append(avs, Value{value: da.delimiter})
-- 
2.43.0


From 08d4708dce4abf87e833d9b929e79436e87c9cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 06/15] fix: IterateYield must not render an item with the data
 of the previous item

---
 iterate.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iterate.go b/iterate.go
index 0beddfb..2836cba 100644
--- a/iterate.go
+++ b/iterate.go
@@ -158,6 +158,8 @@ func (i *yieldIterator) Render(ctx *context.Context) error {
 		ictx.Cargo = item
 		if mi, ok := item.(map[string]any); ok {
 			ictx.Data = mi
+		} else {
+			ictx.Data = ctx.Data
 		}
 		for _, n := range i.nodes {
 			if err := renderNode(ictx, n); err != nil {
-- 
2.43.0


From 2566f6f67b24fe5fece3ea5504a9fbe19af719d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 07/15] fix: css units must not write to the slice of values
 passed

---
 css/units.go | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/css/units.go b/css/units.go
index f7d4c47..2ae432b 100644
--- a/css/units.go
+++ b/css/units.go
@@ -22,75 +22,79 @@ var (
 
 // Px creates a value with "px" (pixels)
 func Px(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPx)...)
+	return unitValue(value, unitPx)
 }
 
 // Pt creates a value with "pt" (points)
 func Pt(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPt)...)
+	return unitValue(value, unitPt)
 }
 
 // Pc creates a value with "pc" (picas)
 func Pc(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPc)...)
+	return unitValue(value, unitPc)
 }
 
 // In creates a value with "in" (inches)
 func In(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitInch)...)
+	return unitValue(value, unitInch)
 }
 
 // Cm creates a value with "cm" (centimeters)
 func Cm(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitCm)...)
+	return unitValue(value, unitCm)
 }
 
 // Mm creates a value with "mm" (millimeters)
 func Mm(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitMm)...)
+	return unitValue(value, unitMm)
 }
 
 // Em creates a value with "em" (relative to parent font size)
 func Em(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitEm)...)
+	return unitValue(value, unitEm)
 }
 
 // Rem creates a value with "rem" (relative to root font size)
 func Rem(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitRem)...)
+	return unitValue(value, unitRem)
 }
 
 // Percent creates a value with "%" (unitPercent)
 func Percent(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPercent)...)
+	return unitValue(value, unitPercent)
 }
 
 // Vw creates a value with "vw" (viewport width)
 func Vw(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVw)...)
+	return unitValue(value, unitVw)
 }
 
 // Vh creates a value with "vh" (viewport height)
 func Vh(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVh)...)
+	return unitValue(value, unitVh)
 }
 
 // VMin creates a value with "vmin" (smaller of vw or vh)
 func VMin(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVmin)...)
+	return unitValue(value, unitVmin)
 }
 
 // VMax creates a value with "vmax" (larger of vw or vh)
 func VMax(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVmax)...)
+	return unitValue(value, unitVmax)
 }
 
 // Ch creates a value with "ch" (width of 0 glyph)
 func Ch(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitCh)...)
+	return unitValue(value, unitCh)
 }
 
 // Ex creates a value with "ex" (x-height of current font)
 func Ex(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitEx)...)
+	return unitValue(value, unitEx)
+}
+
+func unitValue(value []any, unit []byte) aitch.Value {
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unit)...)
 }
-- 
2.43.0


From 739ac702ecd35e7c0dfc0df1db40f2db2e2762e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 08/15] fix: context.Get must not panic on cargo it cannot read
 from

---
 context/context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/context/context.go b/context/context.go
index cdbec55..7df739b 100644
--- a/context/context.go
+++ b/context/context.go
@@ -60,7 +60,7 @@ func Get[T any](ctx *Context, key string) (T, bool) {
 		switch v.Kind() {
 		case reflect.Map:
 			if v.Type().Key().Kind() == reflect.String {
-				if val := v.MapIndex(reflect.ValueOf(key)); val.IsValid() {
+				if val := v.MapIndex(reflect.ValueOf(key).Convert(v.Type().Key())); val.IsValid() {
 					if typed, ok := val.Interface().(T); ok {
 						return typed, true
 					}
@@ -68,7 +68,7 @@ func Get[T any](ctx *Context, key string) (T, bool) {
 			}
 		case reflect.Struct:
 			if f, ok := v.Type().FieldByName(key); ok {
-				if val := v.FieldByIndex(f.Index); val.IsValid() {
+				if val, err := v.FieldByIndexErr(f.Index); err == nil && val.CanInterface() {
 					if typed, ok := val.Interface().(T); ok {
 						return typed, true
 					}
-- 
2.43.0


From ceedabf0da7818ba56df3c0ccaaf889a2e949fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 09/15] fix: escape the text of fmt.Stringer values

---
 value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.go b/value.go
index 877fca1..2516bf9 100644
--- a/value.go
+++ b/value.go
@@ -161,7 +161,7 @@ func valueToBytes(v any) []byte {
 	case float64:
 		return []byte(strconv.FormatFloat(vt, 'g', -1, 64))
 	case fmt.Stringer:
-		return []byte(vt.String())
+		return htmlEscapeString(vt.String())
 	case func() any:
 		return valueToBytes(vt())
 	}
-- 
2.43.0


From 34f6507b6c84def1638997718153ebb70001b311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 10/15] fix: ignore nil nodes passed to Conditional, When and
 Iterate

---
 conditional.go | 3 +++
 iterate.go     | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/conditional.go b/conditional.go
index 2e4a9f7..7360f1f 100644
--- a/conditional.go
+++ b/conditional.go
@@ -76,6 +76,9 @@ func Conditional(fn ConditionalFunc, nodes ...Node) Node {
 		fn:         fn,
 	}
 	for _, n := range nodes {
+		if n == nil {
+			continue
+		}
 		if n.Type() == AttributeNode {
 			result.attributes = append(result.attributes, n)
 		} else {
diff --git a/iterate.go b/iterate.go
index 2836cba..435bf85 100644
--- a/iterate.go
+++ b/iterate.go
@@ -23,7 +23,7 @@ func Iterate(fn func(ctx *context.Context) []any, nodes ...Node) Node {
 		fn:    fn,
 	}
 	for _, n := range nodes {
-		if n.Type() != AttributeNode {
+		if n != nil && n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
@@ -59,7 +59,7 @@ func IterateKey(key string, nodes ...Node) Node {
 		},
 	}
 	for _, n := range nodes {
-		if n.Type() != AttributeNode {
+		if n != nil && n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
@@ -128,7 +128,7 @@ func IterateYield(fn func(ctx *context.Context, yield func(any)), nodes ...Node)
 		nodes: make([]Node, 0, len(nodes)),
 	}
 	for _, n := range nodes {
-		if n.Type() != AttributeNode {
+		if n != nil && n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
-- 
2.43.0


From 064d01f0b4358ccf1ff640ecb36eb6f2809c27c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 11/15] fix: generated code must escape names and text as valid
 Go string literals

---
 html/generator.go | 11 +++++------
 svg/generator.go  | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index ea0701f..aa0e725 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"reflect"
 	"runtime"
+	"strconv"
 	"strings"
 )
 
@@ -48,17 +49,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 	}
 	escape := func(s string) string {
-		return strings.Replace(
-			strings.Replace(
-				strings.Replace(strings.Replace(s, "\\", `\\`, -1), "\t", `\t`, -1), "\n", `\n`, -1),
-			`"`, `\"`, -1)
+		quoted := strconv.Quote(s)
+		return quoted[1 : len(quoted)-1]
 	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
 			start = funcName(elem) + "("
 		} else {
-			start = `aitch.Element("` + string(name) + `", `
+			start = `aitch.Element("` + escape(name) + `", `
 		}
 		_, err = w.Write(indent)
 		_, err = w.Write([]byte(start))
@@ -82,7 +81,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 				}
 			} else {
 				_, err = w.Write([]byte(`aitch.Attribute("`))
-				_, err = w.Write([]byte(a.Key))
+				_, err = w.Write([]byte(escape(a.Key)))
 				_, err = w.Write([]byte{'"', ' ', ',', '"'})
 				_, err = w.Write([]byte(escape(a.Val)))
 				_, err = w.Write([]byte{'"', ')'})
diff --git a/svg/generator.go b/svg/generator.go
index e5bfdfe..82cfa56 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"reflect"
 	"runtime"
+	"strconv"
 	"strings"
 )
 
@@ -48,17 +49,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 	}
 	escape := func(s string) string {
-		return strings.Replace(
-			strings.Replace(
-				strings.Replace(strings.Replace(s, "\\", `\\`, -1), "\t", `\t`, -1), "\n", `\n`, -1),
-			`"`, `\"`, -1)
+		quoted := strconv.Quote(s)
+		return quoted[1 : len(quoted)-1]
 	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
 			start = funcName(elem) + "("
 		} else {
-			start = `aitch.Element("` + string(name) + `", `
+			start = `aitch.Element("` + escape(name) + `", `
 		}
 		_, err = w.Write(indent)
 		_, err = w.Write([]byte(start))
@@ -77,7 +76,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 				_, err = w.Write([]byte{'"', ')'})
 			} else {
 				_, err = w.Write([]byte(`aitch.Attribute("`))
-				_, err = w.Write([]byte(a.Key))
+				_, err = w.Write([]byte(escape(a.Key)))
 				_, err = w.Write([]byte{'"', ' ', ',', '"'})
 				_, err = w.Write([]byte(escape(a.Val)))
 				_, err = w.Write([]byte{'"', ')'})
-- 
2.43.0


From b8c783d71679f6725c48cd73d42ec6e893c9002f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 12/15] fix: generated code must close every element it opens -
 and nothing else

---
 html/generator.go | 30 +++++++++++++++++++++++++++---
 svg/generator.go  | 10 ++++++++--
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index aa0e725..0be5a66 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -114,13 +114,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			}
 		case html.StartTagToken:
 			token := tokenizer.Token()
-			writeElementStart(token.Data, token.Attr, false)
+			writeElementStart(token.Data, token.Attr, voidElements[strings.ToLower(token.Data)])
 		case html.SelfClosingTagToken:
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, true)
 		case html.EndTagToken:
-			decIndent()
-			write("),")
+			if len(indent) > 1 {
+				decIndent()
+				write("),")
+			}
 		case html.CommentToken:
 			token := tokenizer.Token()
 			write(`html.Comment("` + escape(token.Data) + `"),`)
@@ -129,6 +131,10 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			write(`html.PI("DOCTYPE", "` + escape(token.Data) + `"),`)
 		}
 	}
+	for err == nil && len(indent) > 1 {
+		decIndent()
+		write("),")
+	}
 	if err == nil {
 		decIndent()
 		write(")\n")
@@ -448,3 +454,21 @@ func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[strin
 	}
 	return
 }
+
+// voidElements are the HTML elements that never have contents (nor an end tag)
+var voidElements = map[string]bool{
+	"area":   true,
+	"base":   true,
+	"br":     true,
+	"col":    true,
+	"embed":  true,
+	"hr":     true,
+	"img":    true,
+	"input":  true,
+	"link":   true,
+	"meta":   true,
+	"param":  true,
+	"source": true,
+	"track":  true,
+	"wbr":    true,
+}
diff --git a/svg/generator.go b/svg/generator.go
index 82cfa56..0fa0043 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -114,13 +114,19 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, true)
 		case html.EndTagToken:
-			decIndent()
-			write("),")
+			if len(indent) > 1 {
+				decIndent()
+				write("),")
+			}
 		case html.CommentToken:
 			token := tokenizer.Token()
 			write(`svg.Comment("` + escape(token.Data) + `"),`)
 		}
 	}
+	for err == nil && len(indent) > 1 {
+		decIndent()
+		write("),")
+	}
 	if err == nil {
 		decIndent()
 		write(")\n")
-- 
2.43.0


From 4e7ee65ef2cf2c14ae904b8e8719d27a2aed7b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 13/15] fix: GenerateCode must report a failed write

---
 html/generator.go | 14 ++++++++++++++
 svg/generator.go  | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/html/generator.go b/html/generator.go
index 0be5a66..60549de 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -15,6 +15,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	if w == nil {
 		w = os.Stdout
 	}
+	w = &errorRetainer{w: w}
 	elemMap, attrMap, boolAttrs := mappings()
 	tokenizer := html.NewTokenizer(r)
 	indent := []byte{}
@@ -142,6 +143,19 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	return err
 }
 
+// errorRetainer is a writer that retains the first error encountered - and writes nothing after it
+type errorRetainer struct {
+	w   io.Writer
+	err error
+}
+
+func (e *errorRetainer) Write(data []byte) (n int, err error) {
+	if e.err == nil {
+		n, e.err = e.w.Write(data)
+	}
+	return n, e.err
+}
+
 func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[string]bool) {
 	elems = map[string]any{
 		"a":          A,
diff --git a/svg/generator.go b/svg/generator.go
index 0fa0043..d38a0db 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -15,6 +15,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	if w == nil {
 		w = os.Stdout
 	}
+	w = &errorRetainer{w: w}
 	elemMap, attrMap := mappings()
 	tokenizer := html.NewTokenizer(r)
 	indent := []byte{}
@@ -134,6 +135,19 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	return err
 }
 
+// errorRetainer is a writer that retains the first error encountered - and writes nothing after it
+type errorRetainer struct {
+	w   io.Writer
+	err error
+}
+
+func (e *errorRetainer) Write(data []byte) (n int, err error) {
+	if e.err == nil {
+		n, e.err = e.w.Write(data)
+	}
+	return n, e.err
+}
+
 func mappings() (elems map[string]any, attrs map[string]any) {
 	elems = map[string]any{
 		"altGlyph":            AltGlyph,
-- 
2.43.0


From e9c0a6fb377791f934c2b2e2307b248b2f80289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:00 +0000
Subject: [PATCH 14/15] fix: a nil func() any value is ignored instead of
 causing a panic

---
 value.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/value.go b/value.go
index 2516bf9..d077f48 100644
--- a/value.go
+++ b/value.go
@@ -163,7 +163,9 @@ func valueToBytes(v any) []byte {
 	case fmt.Stringer:
 		return htmlEscapeString(vt.String())
 	case func() any:
-		return valueToBytes(vt())
+		if vt != nil {
+			return valueToBytes(vt())
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 300710e2b7174b9504bfe9184c4e6ed98da628e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:35 +0000
Subject: [PATCH 15/15] fix: imperative Start delimits values at render time

An empty value of a delimited attribute was still followed by a delimiter in an
imperatively started element (e.g. class=" foo"), as Start had its own copy of
attribute merging and rendering. It now merges and renders attributes as elements do.
---
 imperative.go | 55 +++++++++------------------------------------------
 1 file changed, 9 insertions(+), 46 deletions(-)

diff --git a/imperative.go b/imperative.go
index 3b6e6cb..1c13744 100644
--- a/imperative.go
+++ b/imperative.go
@@ -80,56 +80,19 @@ func (ic *imperativeContext) WriteNodes(nodes ...Node) {
 func (ic *imperativeContext) Start(elementName []byte, isVoid bool, attrs ...Node) {
 	ic.ctx.Write(openAngleBracket)
 	ic.ctx.Write(elementName)
-	attValues := make([][]Value, 0, len(attrs))
-	attNames := make([][]byte, 0, len(attrs))
-	attIndices := map[string]int{}
+	attributes := make([]Node, 0, len(attrs))
 	for _, attr := range attrs {
 		if attr != nil && attr.Type() == AttributeNode {
-			if idx, ok := attIndices[attr.Name()]; ok {
-				if da, ok := attr.(*delimitedAttribute); ok {
-					avs := attValues[idx][:len(attValues[idx]):len(attValues[idx])]
-					for _, dv := range da.values {
-						if len(avs) > 0 {
-							avs = append(avs, Value{value: da.delimiter})
-						}
-						avs = append(avs, dv)
-					}
-					attValues[idx] = avs
-				} else if va, ok := attr.(valuesNode); ok {
-					attValues[idx] = va.getValues()
-				} else {
-					attValues[idx] = nil
-				}
-			} else {
-				attIndices[attr.Name()] = len(attNames)
-				attNames = append(attNames, []byte(attr.Name()))
-				if da, ok := attr.(*delimitedAttribute); ok {
-					avs := make([]Value, 0, len(da.values)*2)
-					for i, v := range da.values {
-						if i > 0 {
-							avs = append(avs, Value{value: da.delimiter})
-						}
-						avs = append(avs, v)
-					}
-					attValues = append(attValues, avs)
-				} else if vn, ok := attr.(valuesNode); ok {
-					attValues = append(attValues, vn.getValues())
-				} else {
-					attValues = append(attValues, nil)
-				}
-			}
+			attributes = append(attributes, attr)
 		}
 	}
-	for a, attName := range attNames {
-		ic.ctx.Write(space)
-		ic.ctx.Write(attName)
-		if vs := attValues[a]; vs != nil {
-			ic.ctx.Write(attStart)
-			for _, vv := range vs {
-				_, _ = vv.render(ic.ctx)
-			}
-			ic.ctx.Write(attEnd)
-		}
+	// same attributes as an element: repeated names are merged, delimited values are delimited at render time
+	el := &voidElement{
+		attIndices: make(map[string]int, len(attributes)),
+	}
+	el.addAttributes(attributes)
+	for _, attr := range el.attributes {
+		_ = renderNode(ic.ctx, attr)
 	}
 	ic.ctx.Write(closeAngleBracket)
 	if !isVoid {
-- 
2.43.0

