From 9a2263c1d824384f5d28fe7c60d2b083f72fe12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:07 +0000
Subject: [PATCH 01/85] fix: unwind-protect yields the value of its body, not
 of the last cleanup form

---
 progn.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/progn.go b/progn.go
index 9fe2110..4361f51 100644
--- a/progn.go
+++ b/progn.go
@@ -316,11 +316,9 @@ func raiseError(ctx context.Context, w *World, e error) (Node, error) {
 }
 
 func cmdUnwindProtect(ctx context.Context, w *World, list Node) (Node, error) {
-	var formErr error
+	result, list, formErr := w.ShiftAndEvalCar(ctx, list)
 
-	_, list, formErr = w.ShiftAndEvalCar(ctx, list)
-
-	value, err := Progn(ctx, w, list)
+	_, err := Progn(ctx, w, list)
 	if err != nil {
 		var e1 *_ErrEarlyReturns // block & return-from
 		var e2 *_ErrThrown       // catch & throw
@@ -333,7 +331,7 @@ func cmdUnwindProtect(ctx context.Context, w *World, list Node) (Node, error) {
 	if formErr != nil {
 		return nil, formErr
 	}
-	return value, nil
+	return result, nil
 }
 
 type _ErrTagBody struct {
-- 
2.43.0


From 986081abed5ecb547e1711eb0e76f8ef5226e6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:26 +0000
Subject: [PATCH 02/85] fix: dynamic-let restores the original value of a
 variable bound twice

---
 setq.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/setq.go b/setq.go
index 4d8f66e..0be7d94 100644
--- a/setq.go
+++ b/setq.go
@@ -232,8 +232,18 @@ func (w *World) Dynamic(name Symbol) Node {
 	return w.dynamic[name]
 }
 
+func (D *Dynamics) saved(symbol Symbol) bool {
+	if _, ok := D.backups[symbol]; ok {
+		return true
+	}
+	_, ok := D.removes[symbol]
+	return ok
+}
+
 func (D *Dynamics) Set(symbol Symbol, newValue Node) {
-	if orig, ok := D.world.dynamic.Get(symbol); ok {
+	if D.saved(symbol) {
+		// keep the binding which existed before the first Set
+	} else if orig, ok := D.world.dynamic.Get(symbol); ok {
 		D.backups[symbol] = orig
 	} else {
 		D.removes[symbol] = struct{}{}
-- 
2.43.0


From adb241adc00eade21669b2d3cd28913586875ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:31 +0000
Subject: [PATCH 03/85] fix: dynamic-let evaluates all its forms before
 establishing any binding

---
 setq.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/setq.go b/setq.go
index 0be7d94..f207352 100644
--- a/setq.go
+++ b/setq.go
@@ -265,6 +265,13 @@ func cmdDynamicLet(ctx context.Context, w *World, list Node) (Node, error) {
 		return nil, err
 	}
 
+	// Evaluate all forms before establishing any binding
+	type bindT struct {
+		symbol Symbol
+		value  Node
+	}
+	binds := []bindT{}
+
 	for IsSome(vars) {
 		var varAndValue Node
 		varAndValue, vars, err = Shift(vars)
@@ -272,7 +279,7 @@ func cmdDynamicLet(ctx context.Context, w *World, list Node) (Node, error) {
 			return nil, err
 		}
 		if symbol, ok := varAndValue.(Symbol); ok {
-			D.Set(symbol, Null)
+			binds = append(binds, bindT{symbol: symbol, value: Null})
 		} else {
 			var symbolNode Node
 			var value Node
@@ -292,8 +299,11 @@ func cmdDynamicLet(ctx context.Context, w *World, list Node) (Node, error) {
 			if IsSome(varAndValue) {
 				return nil, ErrTooManyArguments
 			}
-			D.Set(symbol, value)
+			binds = append(binds, bindT{symbol: symbol, value: value})
 		}
 	}
+	for _, b := range binds {
+		D.Set(b.symbol, b.value)
+	}
 	return Progn(ctx, w, list)
 }
-- 
2.43.0


From e2c17099a8835d99409ac1bec88f07efe80b5211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:48 +0000
Subject: [PATCH 04/85] fix: block names are lexical and an anonymous function
 does not catch (return)

---
 lambda.go |  4 ----
 progn.go  | 51 ++++++++++++++++++++++++++++++++-------------------
 world.go  | 32 ++++++++++++++++++++------------
 3 files changed, 52 insertions(+), 35 deletions(-)

diff --git a/lambda.go b/lambda.go
index b431521..e4735e8 100644
--- a/lambda.go
+++ b/lambda.go
@@ -308,10 +308,6 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 			lexical[name] = value
 		}
 	}
-	var errEarlyReturns *_ErrEarlyReturns
-	if errors.As(err, &errEarlyReturns) && errEarlyReturns.Name == L.name {
-		return errEarlyReturns.Value, nil
-	}
 	if traceDo {
 		fmt.Fprintf(os.Stderr, "[%d: %s returned %#v]\n",
 			traceCount,
diff --git a/progn.go b/progn.go
index 4361f51..ae3df6b 100644
--- a/progn.go
+++ b/progn.go
@@ -6,9 +6,30 @@ import (
 	"fmt"
 )
 
+// _Block is one activation of (block). Its name is visible lexically.
+type _Block struct {
+	name   Symbol
+	active bool
+}
+
+// findBlock returns the innermost block named `name` enclosing the current form
+// or nil when there is no such block or it has been already left.
+func (w *World) findBlock(name Symbol) *_Block {
+	for ; w != nil; w = w.parent {
+		if w.block != nil && w.block.name == name {
+			if w.block.active {
+				return w.block
+			}
+			return nil
+		}
+	}
+	return nil
+}
+
 type _ErrEarlyReturns struct {
 	Value Node
 	Name  Symbol
+	block *_Block
 }
 
 func (e *_ErrEarlyReturns) Error() string {
@@ -19,13 +40,11 @@ func (e *_ErrEarlyReturns) Error() string {
 }
 
 func funReturn(ctx context.Context, w *World, arg Node) (Node, error) {
-	if w.blockName == nil {
-		w.blockName = make(map[Symbol]struct{})
-	}
-	if _, ok := w.blockName[nulSymbol]; !ok {
+	block := w.findBlock(nulSymbol)
+	if block == nil {
 		return raiseControlError(ctx, w, fmt.Errorf("block name '%s' not found", nulSymbol.String()))
 	}
-	return nil, &_ErrEarlyReturns{Value: arg, Name: nulSymbol}
+	return nil, &_ErrEarlyReturns{Value: arg, Name: nulSymbol, block: block}
 }
 
 func cmdReturnFrom(ctx context.Context, w *World, n Node) (Node, error) {
@@ -43,17 +62,15 @@ func cmdReturnFrom(ctx context.Context, w *World, n Node) (Node, error) {
 	} else {
 		symbol = nulSymbol
 	}
-	if w.blockName == nil {
-		w.blockName = make(map[Symbol]struct{})
-	}
-	if _, ok := w.blockName[symbol]; !ok {
+	block := w.findBlock(symbol)
+	if block == nil {
 		return raiseControlError(ctx, w, fmt.Errorf("block name '%s' not found", symbol.String()))
 	}
 	value, err := w.Eval(ctx, argv[1])
 	if err != nil {
 		return nil, err
 	}
-	return nil, &_ErrEarlyReturns{Value: value, Name: symbol}
+	return nil, &_ErrEarlyReturns{Value: value, Name: symbol, block: block}
 }
 
 func Progn(ctx context.Context, w *World, n Node) (value Node, err error) {
@@ -87,16 +104,12 @@ func cmdBlock(ctx context.Context, w *World, node Node) (Node, error) {
 	} else {
 		nameSymbol = nulSymbol
 	}
-	if w.blockName == nil {
-		w.blockName = make(map[Symbol]struct{})
-	}
-	if _, ok := w.blockName[nameSymbol]; !ok {
-		defer delete(w.blockName, nameSymbol)
-		w.blockName[nameSymbol] = struct{}{}
-	}
+	block := &_Block{name: nameSymbol, active: true}
+	defer func() { block.active = false }()
+
 	var errEarlyReturns *_ErrEarlyReturns
-	rv, err := Progn(ctx, w, statements)
-	if errors.As(err, &errEarlyReturns) && errEarlyReturns.Name == nameSymbol {
+	rv, err := Progn(ctx, w.withBlock(block), statements)
+	if errors.As(err, &errEarlyReturns) && errEarlyReturns.block == block {
 		return errEarlyReturns.Value, nil
 	}
 	return rv, err
diff --git a/world.go b/world.go
index 348d176..5a7b82c 100644
--- a/world.go
+++ b/world.go
@@ -97,18 +97,17 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 }
 
 type shared struct {
-	macro     map[Symbol]*_Macro
-	handler   Callable
-	global    Scope
-	defun     FuncScope
-	dynamic   Variables
-	stdout    *_WriterNode
-	errout    *_WriterNode
-	stdin     _ReaderNode
-	startup   sync.Once
-	blockName map[Symbol]struct{}
-	catchTag  map[Node]struct{}
-	goTag     map[Symbol]struct{}
+	macro    map[Symbol]*_Macro
+	handler  Callable
+	global   Scope
+	defun    FuncScope
+	dynamic  Variables
+	stdout   *_WriterNode
+	errout   *_WriterNode
+	stdin    _ReaderNode
+	startup  sync.Once
+	catchTag map[Node]struct{}
+	goTag    map[Symbol]struct{}
 }
 
 type World struct {
@@ -116,6 +115,7 @@ type World struct {
 	parent *World
 	funcs  FuncScope
 	vars   Scope
+	block  *_Block
 }
 
 type _Reader interface {
@@ -606,6 +606,14 @@ func (w *World) Flet(scope FuncScope) *World {
 	}
 }
 
+func (w *World) withBlock(block *_Block) *World {
+	return &World{
+		parent: w,
+		shared: w.shared,
+		block:  block,
+	}
+}
+
 func (w *World) Assert(equation string, expect Node) string {
 	result, err := w.Interpret(context.TODO(), equation)
 	if err != nil {
-- 
2.43.0


From 7d6b8dccdd60ef830ca6a03f11b58cc73c64c8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:48 +0000
Subject: [PATCH 05/85] fix: gmn:dump-session panics inside flet

---
 world.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/world.go b/world.go
index 5a7b82c..ea4d131 100644
--- a/world.go
+++ b/world.go
@@ -628,6 +628,9 @@ func (w *World) Assert(equation string, expect Node) string {
 func (w *World) Range(f func(Symbol, Node) bool) {
 	marked := map[Symbol]struct{}{}
 	for ; w != nil; w = w.parent {
+		if w.vars == nil {
+			continue
+		}
 		w.vars.Range(func(key Symbol, val Node) bool {
 			if _, ok := marked[key]; !ok {
 				if !f(key, val) {
-- 
2.43.0


From 0646957a879fc4a0f5fd3c772bd3acf3416ff39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:12 +0000
Subject: [PATCH 06/85] fix: tagbody tags are lexical and stay active until the
 tagbody is left

---
 progn.go | 74 ++++++++++++++++++++++++++++----------------------------
 world.go |  3 ++-
 2 files changed, 39 insertions(+), 38 deletions(-)

diff --git a/progn.go b/progn.go
index ae3df6b..9bd2409 100644
--- a/progn.go
+++ b/progn.go
@@ -347,8 +347,31 @@ func cmdUnwindProtect(ctx context.Context, w *World, list Node) (Node, error) {
 	return result, nil
 }
 
+// _TagFrame is one activation of (tagbody). Its tags are visible lexically.
+type _TagFrame struct {
+	tags   map[Symbol]Node
+	active bool
+}
+
+// findTag returns the innermost tagbody which encloses the current form and has `tag`
+// or nil when there is no such tagbody or it has been already left.
+func (w *World) findTag(tag Symbol) *_TagFrame {
+	for ; w != nil; w = w.parent {
+		if w.tagFrame != nil {
+			if _, ok := w.tagFrame.tags[tag]; ok {
+				if w.tagFrame.active {
+					return w.tagFrame
+				}
+				return nil
+			}
+		}
+	}
+	return nil
+}
+
 type _ErrTagBody struct {
-	tag Symbol
+	tag   Symbol
+	frame *_TagFrame
 }
 
 func (t *_ErrTagBody) Error() string {
@@ -364,21 +387,17 @@ func cmdGo(ctx context.Context, w *World, args Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	if w.goTag == nil {
-		w.goTag = make(map[Symbol]struct{})
-	}
-	if _, ok := w.goTag[symbol]; !ok {
+	frame := w.findTag(symbol)
+	if frame == nil {
 		return raiseControlError(ctx, w, fmt.Errorf("go-tag: %s not found", symbol.String()))
 	}
-	return Null, &_ErrTagBody{tag: symbol}
+	return Null, &_ErrTagBody{tag: symbol, frame: frame}
 }
 
 func cmdTagBody(ctx context.Context, w *World, args Node) (Node, error) {
-	tag := map[Symbol]Node{}
+	frame := &_TagFrame{tags: map[Symbol]Node{}, active: true}
+	defer func() { frame.active = false }()
 
-	if w.goTag == nil {
-		w.goTag = make(map[Symbol]struct{})
-	}
 	for _args := args; IsSome(_args); {
 		var current Node
 		var err error
@@ -388,13 +407,13 @@ func cmdTagBody(ctx context.Context, w *World, args Node) (Node, error) {
 			return nil, err
 		}
 		if symbol, ok := current.(Symbol); ok {
-			if _, ok := w.goTag[symbol]; !ok {
-				w.goTag[symbol] = struct{}{}
-				defer delete(w.goTag, symbol)
+			if _, ok := frame.tags[symbol]; !ok {
+				frame.tags[symbol] = _args
 			}
 		}
 	}
-mainloop:
+	newWorld := &World{parent: w, shared: w.shared, tagFrame: frame}
+
 	for IsSome(args) {
 		var current Node
 		var err error
@@ -403,37 +422,18 @@ mainloop:
 		if err != nil {
 			return nil, err
 		}
-		if symbol, ok := current.(Symbol); ok {
-			tag[symbol] = args
+		if _, ok := current.(Symbol); ok {
 			continue
 		}
-		_, err = w.Eval(ctx, current)
+		_, err = newWorld.Eval(ctx, current)
 		if err == nil {
 			continue
 		}
 		var t *_ErrTagBody
-		if !errors.As(err, &t) {
+		if !errors.As(err, &t) || t.frame != frame {
 			return nil, err
 		}
-		if next, ok := tag[t.tag]; ok {
-			args = next
-			continue
-		}
-		for IsSome(args) {
-			current, args, err = Shift(args)
-			if err != nil {
-				return nil, err
-			}
-			symbol, ok := current.(Symbol)
-			if !ok {
-				continue
-			}
-			tag[symbol] = args
-			if symbol == t.tag {
-				continue mainloop
-			}
-		}
-		return nil, err
+		args = frame.tags[t.tag]
 	}
 	return Null, nil
 }
diff --git a/world.go b/world.go
index ea4d131..ba004fa 100644
--- a/world.go
+++ b/world.go
@@ -107,7 +107,6 @@ type shared struct {
 	stdin    _ReaderNode
 	startup  sync.Once
 	catchTag map[Node]struct{}
-	goTag    map[Symbol]struct{}
 }
 
 type World struct {
@@ -116,6 +115,8 @@ type World struct {
 	funcs  FuncScope
 	vars   Scope
 	block  *_Block
+
+	tagFrame *_TagFrame
 }
 
 type _Reader interface {
-- 
2.43.0


From 6fd659f8ebdc8e94178231d941a2d38331c4a6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:33 +0000
Subject: [PATCH 07/85] fix: catch and throw compare tags with eql and accept
 any object as a tag

---
 progn.go | 22 ++++++++--------------
 world.go |  2 +-
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/progn.go b/progn.go
index 9bd2409..24d4024 100644
--- a/progn.go
+++ b/progn.go
@@ -130,30 +130,24 @@ func cmdCatch(ctx context.Context, w *World, node Node) (Node, error) {
 		return nil, err
 	}
 
-	if w.catchTag == nil {
-		w.catchTag = make(map[Node]struct{})
-	}
-	if _, ok := w.catchTag[tagForm]; !ok {
-		w.catchTag[tagForm] = struct{}{}
-		defer delete(w.catchTag, tagForm)
-	}
+	w.catchTag = append(w.catchTag, tagForm)
+	defer func() { w.catchTag = w.catchTag[:len(w.catchTag)-1] }()
 
 	var errThrown *_ErrThrown
 	rv, err := Progn(ctx, w, statements)
-	if errors.As(err, &errThrown) && errThrown.TagForm.Equals(tagForm, EQUALP) {
+	if errors.As(err, &errThrown) && errThrown.TagForm.Equals(tagForm, STRICT) {
 		return errThrown.Value, nil
 	}
 	return rv, err
 }
 
 func funThrow(ctx context.Context, w *World, tagForm, value Node) (Node, error) {
-	if w.catchTag == nil {
-		w.catchTag = make(map[Node]struct{})
-	}
-	if _, ok := w.catchTag[tagForm]; !ok {
-		return raiseControlError(ctx, w, fmt.Errorf("catch-tag '%s' not found", tagForm.String()))
+	for _, tag := range w.catchTag {
+		if tag.Equals(tagForm, STRICT) {
+			return nil, &_ErrThrown{TagForm: tagForm, Value: value}
+		}
 	}
-	return nil, &_ErrThrown{TagForm: tagForm, Value: value}
+	return raiseControlError(ctx, w, fmt.Errorf("catch-tag '%s' not found", tagForm.String()))
 }
 
 func cmdCond(ctx context.Context, w *World, list Node) (Node, error) {
diff --git a/world.go b/world.go
index ba004fa..7f498c2 100644
--- a/world.go
+++ b/world.go
@@ -106,7 +106,7 @@ type shared struct {
 	errout   *_WriterNode
 	stdin    _ReaderNode
 	startup  sync.Once
-	catchTag map[Node]struct{}
+	catchTag []Node
 }
 
 type World struct {
-- 
2.43.0


From 5571ab2dd30e4ce9e0f03cf09b670a31ed94a6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:16 +0000
Subject: [PATCH 08/85] fix: call each condition handler once, where the error
 occurs, with the outer handlers in force

---
 atom.go  |  8 ++++--
 cond.go  | 83 ++++++++++++++++++++++------------------------------
 cons.go  | 18 ++++++++++--
 error.go | 88 ++++++++++++++++++++++++++++++++++++++++++++++++--------
 world.go |  2 +-
 5 files changed, 132 insertions(+), 67 deletions(-)

diff --git a/atom.go b/atom.go
index 51d2ada..8da1c8d 100644
--- a/atom.go
+++ b/atom.go
@@ -115,8 +115,12 @@ func (_Symbol) ClassOf() Class {
 	return symbolClass
 }
 
-func (s _Symbol) Eval(_ context.Context, w *World) (Node, error) {
-	return w.Get(s)
+func (s _Symbol) Eval(ctx context.Context, w *World) (Node, error) {
+	value, err := w.Get(s)
+	if err != nil {
+		return value, w.signalError(ctx, err)
+	}
+	return value, nil
 }
 
 func (s _Symbol) Equals(n Node, m EqlMode) bool {
diff --git a/cond.go b/cond.go
index 5c6e2b7..d1e7c18 100644
--- a/cond.go
+++ b/cond.go
@@ -15,41 +15,15 @@ func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	oldHandler := w.handler
-	defer func() { w.handler = oldHandler }()
-	w.handler = handler
-	value, err := Progn(ctx, w, node)
-
-	// 本来、場合によっては継続処理があるため、ハンドラー関数はエラーが起きた場所で
-	// 呼ばなければいけないが、 古いコードは error を返して、error の処理元で
-	// ハンドラー関数を呼ぶことを想定し、エラー発生箇所で呼べていない
-	//
-	// エラー発生箇所でハンドラー関数が呼ばれて、ここに戻る時は大域脱出系エラーで
-	// 戻ってくるはずなので、そういった場合は、ここでハンドラー関数を呼ばない
-	// ようにしている
-	// (将来的にはエラーが起きた場所で呼ぶよう変更しなくてはいけない)
-
-	var e1 *_ErrEarlyReturns // block & return-from
-	var e2 *_ErrThrown       // catch & throw
-	var e3 *_ErrTagBody      // tagbody & go
-	if err == nil || errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) {
-		return value, err
-	}
+	saved := w.handler
+	defer func() { w.handler = saved }()
+	w.handler = &_Handler{function: handler, outer: saved}
 
-	var errorValue interface {
-		Node
-		Error() string
-	}
-	var err2 error
-	if errors.As(err, &errorValue) {
-		_, err2 = handler.Call(ctx, w, &Cons{Car: errorValue, Cdr: Null})
-	} else {
-		_, err2 = handler.Call(ctx, w, &Cons{Car: ErrorNode{Value: err}, Cdr: Null})
-	}
-	if err2 != nil {
-		return nil, err2
+	value, err := Progn(ctx, w, node)
+	if err != nil {
+		return nil, w.signalError(ctx, err)
 	}
-	return nil, err
+	return value, nil
 }
 
 type _ErrContinueCondition struct {
@@ -69,24 +43,35 @@ var reportCondition = &_Generic{
 }
 
 func funSignalCondition(ctx context.Context, w *World, cond, continueable Node) (Node, error) {
-	if w.handler == nil {
-		buffer := &StringBuilder{}
-		if _, err := reportCondition.Call(ctx, w, UnevalList(cond, buffer)); err == nil {
-			return nil, errors.New(buffer.String())
-		} else if !errors.Is(err, ErrNoMatchMethods) {
-			return nil, fmt.Errorf("%w in (report-condition)", err)
-		}
-		if err, ok := cond.(error); ok {
-			return nil, err
-		}
-		return nil, errors.New(cond.String())
+	value, continued, err := w.signal(ctx, IsSome(continueable), cond)
+	if err != nil || continued {
+		return value, err
+	}
+	err = w.conditionToError(ctx, cond)
+	if w.handler != nil {
+		err = &_ErrSignaled{err: err}
+	}
+	return nil, err
+}
+
+func (w *World) conditionToError(ctx context.Context, cond Node) error {
+	if err, ok := cond.(error); ok {
+		return err
+	}
+	saved := w.handler
+	defer func() { w.handler = saved }()
+	w.handler = nil
+
+	buffer := &StringBuilder{}
+	_, err := reportCondition.Call(ctx, w, UnevalList(cond, buffer))
+	if err == nil {
+		return errors.New(buffer.String())
 	}
-	rv, err := w.handler.Call(ctx, w, &Cons{Car: cond})
-	var e *_ErrContinueCondition
-	if IsSome(continueable) && errors.As(err, &e) {
-		return e.Value, nil
+	var undefined *_UndefinedEntity
+	if errors.As(err, &undefined) && undefined.name == symReportCondition {
+		return errors.New(cond.String())
 	}
-	return rv, err
+	return fmt.Errorf("%w in (report-condition)", err)
 }
 
 func cmdContinueCondition(ctx context.Context, w *World, node Node) (Node, error) {
diff --git a/cons.go b/cons.go
index 80dc726..67b7edc 100644
--- a/cons.go
+++ b/cons.go
@@ -180,6 +180,15 @@ func (cons *Cons) Equals(n Node, m EqlMode) bool {
 		cons.getCdr().Equals(value.Cdr, m)
 }
 
+// _ErrAt is an error which occured in the evaluation of a form. The handlers know it.
+type _ErrAt struct {
+	err    error
+	symbol Symbol
+}
+
+func (e *_ErrAt) Error() string { return fmt.Sprintf("%v\n\tat %v", e.err, e.symbol) }
+func (e *_ErrAt) Unwrap() error { return e.err }
+
 func (cons *Cons) Eval(ctx context.Context, w *World) (Node, error) {
 	var rc Node
 	var err error
@@ -187,7 +196,7 @@ func (cons *Cons) Eval(ctx context.Context, w *World) (Node, error) {
 	if !ok {
 		f, _err := w.Eval(ctx, cons.Car)
 		if _err != nil {
-			return nil, _err
+			return nil, w.signalError(ctx, _err)
 		}
 		function, ok := f.(FunctionRef)
 		if !ok {
@@ -201,12 +210,15 @@ func (cons *Cons) Eval(ctx context.Context, w *World) (Node, error) {
 	} else {
 		function, _err := w.GetFunc(symbol)
 		if _err != nil {
-			return nil, _err
+			return nil, w.signalError(ctx, _err)
 		}
 		rc, err = function.Call(ctx, w, cons.Cdr)
 	}
 	if err != nil {
-		return nil, fmt.Errorf("%w\n\tat %v", err, symbol)
+		if _, ok := err.(*_ErrAt); !ok {
+			err = w.signalError(ctx, err)
+		}
+		return nil, &_ErrAt{err: err, symbol: symbol}
 	}
 	return rc, nil
 }
diff --git a/error.go b/error.go
index 8c49c20..c3e1924 100644
--- a/error.go
+++ b/error.go
@@ -134,24 +134,88 @@ type errorAndNode interface {
 	Node
 }
 
-type callHandlerLimitter struct{}
+// _Handler is one activation of (with-handler)
+type _Handler struct {
+	function Callable
+	outer    *_Handler
+}
 
-func callHandler[T Node](ctx context.Context, w *World, cont bool, condition errorAndNode) (T, error) {
-	var zero T
-	if w.handler != nil {
-		if v := ctx.Value(callHandlerLimitter{}); v != nil {
-			return zero, condition
+// _ErrSignaled is an error whose condition was already passed to all active handlers
+type _ErrSignaled struct {
+	err error
+}
+
+func (e *_ErrSignaled) Error() string { return e.err.Error() }
+func (e *_ErrSignaled) Unwrap() error { return e.err }
+
+// isSignaled returns true when no handler has to be called with `err` (any more)
+func isSignaled(err error) bool {
+	var signaled *_ErrSignaled
+	var e1 *_ErrEarlyReturns // block & return-from
+	var e2 *_ErrThrown       // catch & throw
+	var e3 *_ErrTagBody      // tagbody & go
+	var e4 *_ErrContinueCondition
+	var e5 *_ErrTailRecOpt
+	return errors.As(err, &signaled) || errors.As(err, &e1) || errors.As(err, &e2) ||
+		errors.As(err, &e3) || errors.As(err, &e4) || errors.As(err, &e5)
+}
+
+// signal calls the active handlers with `condition`, from the innermost to the outermost,
+// each of them while only the handlers outside it are in force. When one of them continues
+// the condition, it returns the value and true. When one of them exits or fails,
+// it returns the error. When all of them return, it returns (nil, false, nil).
+func (w *World) signal(ctx context.Context, cont bool, condition Node) (Node, bool, error) {
+	saved := w.handler
+	defer func() { w.handler = saved }()
+
+	for h := saved; h != nil; h = h.outer {
+		w.handler = h.outer
+		_, err := h.function.Call(ctx, w, UnevalList(condition))
+		if err == nil {
+			continue
 		}
-		ctx = context.WithValue(ctx, callHandlerLimitter{}, 1)
-		_, e := w.handler.Call(ctx, w, UnevalList(condition))
 		var ce *_ErrContinueCondition
-		if cont && errors.As(e, &ce) {
-			if v, ok := ce.Value.(T); ok {
-				return v, nil
+		if errors.As(err, &ce) {
+			if cont {
+				return ce.Value, true, nil
 			}
+			_, err = raiseControlError(ctx, w, errors.New("condition is not continuable"))
+		}
+		return nil, false, err
+	}
+	return nil, false, nil
+}
+
+// signalError calls the handlers with an error which was not raised with callHandler
+func (w *World) signalError(ctx context.Context, err error) error {
+	if w.handler == nil || isSignaled(err) {
+		return err
+	}
+	var condition errorAndNode
+	if !errors.As(err, &condition) {
+		condition = ErrorNode{Value: err}
+	}
+	if _, _, e := w.signal(ctx, false, condition); e != nil {
+		return e
+	}
+	return &_ErrSignaled{err: err}
+}
+
+func callHandler[T Node](ctx context.Context, w *World, cont bool, condition errorAndNode) (T, error) {
+	var zero T
+	if w.handler == nil {
+		return zero, condition
+	}
+	value, continued, err := w.signal(ctx, cont, condition)
+	if err != nil {
+		return zero, err
+	}
+	if continued {
+		if v, ok := value.(T); ok {
+			return v, nil
 		}
 	}
-	return zero, condition
+	return zero, &_ErrSignaled{err: condition}
 }
 
 func ExpectInterface[T Node](ctx context.Context, w *World, v Node, class Class) (T, error) {
diff --git a/world.go b/world.go
index 7f498c2..babe496 100644
--- a/world.go
+++ b/world.go
@@ -98,7 +98,7 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 
 type shared struct {
 	macro    map[Symbol]*_Macro
-	handler  Callable
+	handler  *_Handler
 	global   Scope
 	defun    FuncScope
 	dynamic  Variables
-- 
2.43.0


From 27fa2fb200b4436635b6b36bf227defb298da8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:30 +0000
Subject: [PATCH 09/85] fix: cerror fails because it looks up format as a
 variable

---
 embed/cerror.lsp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embed/cerror.lsp b/embed/cerror.lsp
index ce120a8..5ff0893 100644
--- a/embed/cerror.lsp
+++ b/embed/cerror.lsp
@@ -4,5 +4,5 @@
         'format-string error-string
         'format-arguments obj)
     (let ((str (create-string-output-stream)))
-      (apply format str continue-string obj)
+      (apply (function format) str continue-string obj)
       (get-output-stream-string str))))
-- 
2.43.0


From ff691815edfac211a083f9612b4c024e30dc0d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:59 +0000
Subject: [PATCH 10/85] fix: mixed integer and float arithmetic calls condition
 handlers without an error

---
 atom.go   |  20 +++++-----
 number.go | 112 +++++++++++++++++++++++++++---------------------------
 2 files changed, 66 insertions(+), 66 deletions(-)

diff --git a/atom.go b/atom.go
index 8da1c8d..7aecdb6 100644
--- a/atom.go
+++ b/atom.go
@@ -180,25 +180,25 @@ func (r Rune) Equals(n Node, m EqlMode) bool {
 }
 
 func (r Rune) Add(ctx context.Context, w *World, n Node) (Node, error) {
-	value, err := ExpectClass[Rune](ctx, w, n)
-	if err == nil {
-		return r + value, nil
-	}
 	if value, ok := n.(Integer); ok {
 		return r + Rune(value), nil
 	}
-	return nil, err
+	value, err := ExpectClass[Rune](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return r + value, nil
 }
 
 func (r Rune) Sub(ctx context.Context, w *World, n Node) (Node, error) {
-	value, err := ExpectClass[Rune](ctx, w, n)
-	if err == nil {
-		return r - value, nil
-	}
 	if value, ok := n.(Integer); ok {
 		return r - Rune(value), nil
 	}
-	return nil, err
+	value, err := ExpectClass[Rune](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return r - value, nil
 }
 
 func compareRune(ctx context.Context, w *World, argv []Node, f func(rune) bool) (Node, error) {
diff --git a/number.go b/number.go
index 78ce32a..8bdd4ca 100644
--- a/number.go
+++ b/number.go
@@ -52,36 +52,36 @@ func (i Integer) Equals(n Node, m EqlMode) bool {
 }
 
 func (i Integer) Add(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
-		return i + _n, nil
-	}
 	if _n, ok := n.(Float); ok {
 		return Float(i) + _n, nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return i + _n, nil
 }
 
 func (i Integer) Sub(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
-		return i - _n, nil
-	}
 	if _n, ok := n.(Float); ok {
 		return Float(i) - _n, nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return i - _n, nil
 }
 
 func (i Integer) Multi(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
-		return i * _n, nil
-	}
 	if _n, ok := n.(Float); ok {
 		return Float(i) * _n, nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return i * _n, nil
 }
 
 type ArithmeticError struct {
@@ -147,31 +147,31 @@ func funArithmeticErrorOperands(ctx context.Context, w *World, n Node) (Node, er
 }
 
 func (i Integer) Divide(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
-		if _n == 0 {
-			return raiseDivisionByZero(ctx, w, i, n)
-		}
-		return i / _n, nil
-	}
 	if _n, ok := n.(Float); ok {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, i, n)
 		}
 		return Float(i) / _n, nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	if _n == 0 {
+		return raiseDivisionByZero(ctx, w, i, n)
+	}
+	return i / _n, nil
 }
 
 func (i Integer) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
-		return i < _n, nil
-	}
 	if _n, ok := n.(Float); ok {
 		return Float(i) < _n, nil
 	}
-	return false, err
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err != nil {
+		return false, err
+	}
+	return i < _n, nil
 }
 
 type Float float64
@@ -200,64 +200,64 @@ func (f Float) Equals(n Node, m EqlMode) bool {
 }
 
 func (f Float) Add(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
-		return f + _n, nil
-	}
 	if _n, ok := n.(Integer); ok {
 		return f + Float(_n), nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return f + _n, nil
 }
 
 func (f Float) Sub(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
-		return f - _n, nil
-	}
 	if _n, ok := n.(Integer); ok {
 		return f - Float(_n), nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return f - _n, nil
 }
 
 func (f Float) Multi(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
-		return f * _n, nil
-	}
 	if _n, ok := n.(Integer); ok {
 		return f * Float(_n), nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return f * _n, nil
 }
 
 func (f Float) Divide(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
-		if _n == 0 {
-			return raiseDivisionByZero(ctx, w, f, n)
-		}
-		return f / _n, nil
-	}
 	if _n, ok := n.(Integer); ok {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, f, n)
 		}
 		return f / Float(_n), nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	if _n == 0 {
+		return raiseDivisionByZero(ctx, w, f, n)
+	}
+	return f / _n, nil
 }
 
 func (f Float) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
-		return f < _n, nil
-	}
 	if _n, ok := n.(Integer); ok {
 		return f < Float(_n), nil
 	}
-	return false, err
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err != nil {
+		return false, err
+	}
+	return f < _n, nil
 }
 
 func funSqrt(ctx context.Context, w *World, arg Node) (Node, error) {
-- 
2.43.0


From 572bbbb44fab4ae51f2e5d95d9407df7c697004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:05 +0000
Subject: [PATCH 11/85] fix: generic-function-p calls condition handlers
 without an error

---
 generic.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/generic.go b/generic.go
index 87b9f49..46c9932 100644
--- a/generic.go
+++ b/generic.go
@@ -240,12 +240,10 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 }
 
 func funGenericFunctionP(ctx context.Context, w *World, arg Node) (Node, error) {
-	f, err := ExpectFunction(ctx, w, arg)
-	if err != nil {
-		return Null, nil
-	}
-	if _, ok := f.(*_Generic); ok {
-		return True, nil
+	if f, ok := arg.(FunctionRef); ok {
+		if _, ok := f.value.(*_Generic); ok {
+			return True, nil
+		}
 	}
 	return Null, nil
 }
-- 
2.43.0


From 3cf52fe59058f44bb755d21ba4c7799b72986799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:10 +0000
Subject: [PATCH 12/85] fix: a function body form whose operator is a lambda
 expression is destroyed by macro expansion

---
 lambda.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lambda.go b/lambda.go
index e4735e8..61ede12 100644
--- a/lambda.go
+++ b/lambda.go
@@ -89,9 +89,7 @@ func expandMacroOne(ctx context.Context, w *World, value Node) Node {
 	}
 	symbol, ok := cons.Car.(Symbol)
 	if !ok {
-		car := expandMacroOne(ctx, w, cons.Car)
-		cdr := expandMacroOne(ctx, w, cons.Cdr)
-		return &Cons{Car: car, Cdr: cdr}
+		return nil
 	}
 	macro, ok := w.macro[symbol]
 	if !ok {
-- 
2.43.0


From 7220e4a629e35e658c124fcca1a087a90e06c92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:15 +0000
Subject: [PATCH 13/85] fix: method bodies are evaluated in the scope of the
 caller instead of the definition

---
 generic.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generic.go b/generic.go
index 46c9932..d7124bf 100644
--- a/generic.go
+++ b/generic.go
@@ -220,7 +220,8 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 		}
 		method.types = append(method.types, type1)
 	}
-	method.method = func(ctx context.Context, w *World, args []Node) (Node, error) {
+	lexical := w
+	method.method = func(ctx context.Context, _ *World, args []Node) (Node, error) {
 		vars := Variables{}
 		for i, v := range args {
 			if i >= len(paramNames) {
@@ -233,7 +234,7 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 			}
 			vars[paramNames[i]] = v
 		}
-		return Progn(ctx, w.Let(vars), code)
+		return Progn(ctx, lexical.Let(vars), code)
 	}
 	generic.methods = append(generic.methods, method)
 	return name, nil
-- 
2.43.0


From ce91b268fb51df49e3e2d922b9cc7e81b9aa1a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:20 +0000
Subject: [PATCH 14/85] fix: ignore-errors swallows non-local exits, quit,
 abort and cancellation

---
 progn.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/progn.go b/progn.go
index 24d4024..ce05f4a 100644
--- a/progn.go
+++ b/progn.go
@@ -433,8 +433,16 @@ func cmdTagBody(ctx context.Context, w *World, args Node) (Node, error) {
 }
 
 func cmdIgnoreErrors(ctx context.Context, w *World, n Node) (Node, error) {
+	// errors in the forms do not concern the handlers outside
+	saved := w.handler
+	defer func() { w.handler = saved }()
+	w.handler = nil
+
 	val, err := Progn(ctx, w, n)
 	if err != nil {
+		if isSignaled(err) || errors.Is(err, ErrQuit) || errors.Is(err, ErrAbort) || checkContext(ctx) != nil {
+			return nil, err
+		}
 		return Null, nil
 	}
 	return val, nil
-- 
2.43.0


From 22083e449acf59c757824f74d4d857a081a82c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:50 +0000
Subject: [PATCH 15/85] fix: a function body is expanded with a macro which is
 shadowed or redefined as a function

---
 lambda.go | 10 +++++-----
 macro.go  |  4 ----
 world.go  |  1 -
 3 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/lambda.go b/lambda.go
index 61ede12..530b0d0 100644
--- a/lambda.go
+++ b/lambda.go
@@ -91,12 +91,12 @@ func expandMacroOne(ctx context.Context, w *World, value Node) Node {
 	if !ok {
 		return nil
 	}
-	macro, ok := w.macro[symbol]
+	f, err := w.GetFunc(symbol)
+	if err != nil {
+		return nil
+	}
+	macro, ok := f.(*_Macro)
 	if !ok {
-		f, err := w.GetFunc(symbol)
-		if err != nil {
-			return nil
-		}
 		ls, ok := f.(*LispString)
 		if !ok {
 			return nil
diff --git a/macro.go b/macro.go
index bb0c4a2..41e005c 100644
--- a/macro.go
+++ b/macro.go
@@ -184,10 +184,6 @@ func cmdDefMacro(ctx context.Context, w *World, n Node) (Node, error) {
 		return nil, err
 	}
 	w.defun.Set(macroName, value)
-	if w.macro == nil {
-		w.macro = make(map[Symbol]*_Macro)
-	}
-	w.macro[macroName] = value
 	return macroName, nil
 }
 
diff --git a/world.go b/world.go
index babe496..b3fa7d5 100644
--- a/world.go
+++ b/world.go
@@ -97,7 +97,6 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 }
 
 type shared struct {
-	macro    map[Symbol]*_Macro
 	handler  *_Handler
 	global   Scope
 	defun    FuncScope
-- 
2.43.0


From 791c02e1562f27371a38173a6b4fc1751c3d42cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:55 +0000
Subject: [PATCH 16/85] fix: case compares keys with eql

---
 progn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/progn.go b/progn.go
index ce05f4a..409a378 100644
--- a/progn.go
+++ b/progn.go
@@ -202,7 +202,7 @@ func cmdCase(ctx context.Context, w *World, list Node) (Node, error) {
 				if err != nil {
 					return nil, err
 				}
-				if swValue.Equals(_caseValue, EQUALP) {
+				if swValue.Equals(_caseValue, STRICT) {
 					return Progn(ctx, w, act)
 				}
 			}
-- 
2.43.0


From 6c6b2c23b8b36e8b0ce722697dda519a824013d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:00 +0000
Subject: [PATCH 17/85] fix: let* makes a new scope for each variable

---
 setq.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/setq.go b/setq.go
index f207352..4b3b2c9 100644
--- a/setq.go
+++ b/setq.go
@@ -125,12 +125,20 @@ func cmdLetXWithTailRecOpt(ctx context.Context, w *World, params Node, tailOptSy
 	if err != nil {
 		return nil, err
 	}
-	lexical := Variables{}
-
-	newWorld := w.Let(lexical)
+	newWorld := w
+	for IsSome(list) {
+		var item Node
 
-	if err := letValuesToVars(ctx, newWorld, list, lexical); err != nil {
-		return nil, err
+		item, list, err = Shift(list)
+		if err != nil {
+			return nil, err
+		}
+		// each variable is visible only from the forms after its own
+		lexical := Variables{}
+		if err := letValuesToVars(ctx, newWorld, List(item), lexical); err != nil {
+			return nil, err
+		}
+		newWorld = newWorld.Let(lexical)
 	}
 	return prognWithTailRecOpt(ctx, newWorld, params, tailOptSym)
 }
-- 
2.43.0


From 62fad888fe40b869eba5b33014ccf38c57a7fdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:46 +0000
Subject: [PATCH 18/85] fix: self tail calls bind fresh variables, the rest
 parameter and check the arguments

---
 lambda.go | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/lambda.go b/lambda.go
index 530b0d0..e439717 100644
--- a/lambda.go
+++ b/lambda.go
@@ -203,7 +203,8 @@ func (t _Lambda) String() string {
 var trace = map[Symbol]int{}
 
 type _ErrTailRecOpt struct {
-	params Node
+	params Node // evaluated arguments
+	callee *_Lambda
 }
 
 func (*_ErrTailRecOpt) Error() string {
@@ -286,6 +287,13 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 			break
 		}
 		n = errTailRecOpt.params
+		if errTailRecOpt.callee != L {
+			// the name means another function now
+			result, err = errTailRecOpt.callee.Call(ctx, w, n)
+			break
+		}
+		// Make new variables because closures may hold the old ones
+		lexical = Variables{}
 		foundSlash = false
 		for _, name := range L.param {
 			if name == slashSymbol {
@@ -298,13 +306,28 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 			}
 			var err error
 			var value Node
-			value, n, err = Shift(n)
+			value, n, err = w.ShiftAndEvalCar(ctx, n)
 			if err != nil {
 				// return nil,fmt.Errorf("%w\n\t%s",err,L.name)
 				return nil, err
 			}
 			lexical[name] = value
 		}
+		if L.rest != nulSymbol {
+			var values ListBuilder
+			for IsSome(n) {
+				var value Node
+				var err error
+				value, n, err = w.ShiftAndEvalCar(ctx, n)
+				if err != nil {
+					return nil, err
+				}
+				values.Add(ctx, w, value)
+			}
+			lexical[L.rest] = values.Sequence()
+		} else if IsSome(n) {
+			return raiseProgramError(ctx, w, ErrTooManyArguments)
+		}
 	}
 	if traceDo {
 		fmt.Fprintf(os.Stderr, "[%d: %s returned %#v]\n",
@@ -329,6 +352,15 @@ func testCarIsCurrFunc(ctx context.Context, w *World, target Node, currFunc Symb
 		return nil
 	}
 
+	function, err := w.GetFunc(currFunc)
+	if err != nil {
+		return nil
+	}
+	callee, ok := function.(*_Lambda)
+	if !ok {
+		return nil
+	}
+
 	// Tail call optimization
 	var params Node = cons.Cdr
 	var evaled Node
@@ -338,13 +370,13 @@ func testCarIsCurrFunc(ctx context.Context, w *World, target Node, currFunc Symb
 		if err != nil {
 			return err
 		}
-		evaled = &Cons{Car: value, Cdr: evaled}
+		evaled = &Cons{Car: Uneval{Node: value}, Cdr: evaled}
 	}
 	evaled, err = NReverse(ctx, w, evaled)
 	if err != nil {
 		panic(err.Error())
 	}
-	return &_ErrTailRecOpt{params: evaled}
+	return &_ErrTailRecOpt{params: evaled, callee: callee}
 }
 
 var (
-- 
2.43.0


From ea0cd79d8c7b25dfede7efa196fd3726f51063cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:51 +0000
Subject: [PATCH 19/85] fix: a self tail call without built-in calls can not be
 cancelled

---
 lambda.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambda.go b/lambda.go
index e439717..8199db1 100644
--- a/lambda.go
+++ b/lambda.go
@@ -286,6 +286,9 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 		if !errors.As(err, &errTailRecOpt) {
 			break
 		}
+		if err := checkContext(ctx); err != nil {
+			return nil, err
+		}
 		n = errTailRecOpt.params
 		if errTailRecOpt.callee != L {
 			// the name means another function now
-- 
2.43.0


From 97faec2438a5861fb75af8afe6609d1cb44c16b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:56 +0000
Subject: [PATCH 20/85] fix: a cond clause without forms yields the value of
 its test

---
 progn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/progn.go b/progn.go
index 409a378..6406fec 100644
--- a/progn.go
+++ b/progn.go
@@ -168,6 +168,9 @@ func cmdCondWithTailRecOpt(ctx context.Context, w *World, list Node, currFunc Sy
 			return nil, err
 		}
 		if IsSome(cond) {
+			if IsNone(act) {
+				return cond, nil
+			}
 			return prognWithTailRecOpt(ctx, w, act, currFunc)
 		}
 	}
-- 
2.43.0


From ed3b92749256a9c5d40edf728c23cd4b385eea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:01 +0000
Subject: [PATCH 21/85] fix: apply evaluates its arguments left to right and
 reports a bad last argument

---
 lambda.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lambda.go b/lambda.go
index 8199db1..374b1b6 100644
--- a/lambda.go
+++ b/lambda.go
@@ -498,13 +498,20 @@ func cmdApply(ctx context.Context, w *World, list Node) (Node, error) {
 			if err != nil {
 				return nil, err
 			}
-			SeqEach(ctx, w, value, func(n Node) error {
+			err = SeqEach(ctx, w, value, func(n Node) error {
 				newargs.Add(ctx, w, Uneval{n})
 				return nil
 			})
+			if err != nil {
+				return nil, err
+			}
 			return f.Call(ctx, w, newargs.Sequence())
 		}
-		newargs.Add(ctx, w, value)
+		value, err = w.Eval(ctx, value)
+		if err != nil {
+			return nil, err
+		}
+		newargs.Add(ctx, w, Uneval{value})
 	}
 }
 
-- 
2.43.0


From b121bc7a77db9e79918c19f3a06707d867b3bf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:45 +0000
Subject: [PATCH 22/85] fix: functions see the empty list as an uncomparable Go
 nil

---
 list.go  | 4 ++--
 world.go | 9 ++++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/list.go b/list.go
index a1ae67a..30ae811 100644
--- a/list.go
+++ b/list.go
@@ -10,7 +10,7 @@ func funGetCar(ctx context.Context, w *World, arg Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	return cons.Car, nil
+	return cons.getCar(), nil
 }
 
 // funGetCdr implements (cdr X)
@@ -19,7 +19,7 @@ func funGetCdr(ctx context.Context, w *World, arg Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	return cons.Cdr, nil
+	return cons.getCdr(), nil
 }
 
 // funList implements (list A B ...)
diff --git a/world.go b/world.go
index b3fa7d5..d8cb630 100644
--- a/world.go
+++ b/world.go
@@ -515,7 +515,14 @@ func (w *World) Eval(ctx context.Context, node Node) (Node, error) {
 		Eval(context.Context, *World) (Node, error)
 	}
 	if e, ok := node.(canEval); ok {
-		return e.Eval(ctx, w)
+		var err error
+		node, err = e.Eval(ctx, w)
+		if err != nil {
+			return node, err
+		}
+	}
+	if node == nil { // an internal representation of the empty list
+		return Null, nil
 	}
 	return node, nil
 }
-- 
2.43.0


From f8b17df1cec84ec6c257f9d2208c89fe696414a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:01 +0000
Subject: [PATCH 23/85] fix: maplist, mapl and mapcon call the function for an
 empty list; mapl returns the function

---
 sequence.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sequence.go b/sequence.go
index 2a7054c..1513ceb 100644
--- a/sequence.go
+++ b/sequence.go
@@ -129,6 +129,9 @@ func MapCar(ctx context.Context, w *World, funcNode Node, sourceSet []Node, stor
 	if err != nil {
 		return err
 	}
+	if len(sourceSet) < 1 {
+		return ErrTooFewArguments
+	}
 	listSet := make([]Node, len(sourceSet))
 	copy(listSet, sourceSet)
 	for {
@@ -206,9 +209,17 @@ func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, sto
 	if err != nil {
 		return err
 	}
+	if len(sourceSet) < 1 {
+		return ErrTooFewArguments
+	}
 	listSet := make([]Node, len(sourceSet))
 	copy(listSet, sourceSet)
 	for {
+		for _, list := range listSet {
+			if IsNone(list) {
+				return nil
+			}
+		}
 		result, err := _f.Call(ctx, w, listToQuotedList(listSet))
 		if err != nil {
 			return err
@@ -248,7 +259,7 @@ func funMapL(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if len(argv) < 2 {
 		return Null, err
 	}
-	return argv[0], err
+	return argv[1], err
 }
 
 func funMapCon(ctx context.Context, w *World, argv []Node) (Node, error) {
-- 
2.43.0


From 898da0e8a0de1dcd18b6c36aee6ca8c8daeb3acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:06 +0000
Subject: [PATCH 24/85] fix: length and subseq do not accept vectors

---
 sequence.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sequence.go b/sequence.go
index 1513ceb..bfea2fb 100644
--- a/sequence.go
+++ b/sequence.go
@@ -15,6 +15,14 @@ type Sequence interface {
 var listClass = registerNewBuiltInClass[Sequence]("<list>")
 
 func SeqEach(ctx context.Context, w *World, list Node, f func(Node) error) error {
+	if array, ok := list.(*Array); ok && len(array.dim) == 1 {
+		for _, value := range array.list {
+			if err := f(value); err != nil {
+				return err
+			}
+		}
+		return nil
+	}
 	for IsSome(list) {
 		seq, err := ExpectInterface[Sequence](ctx, w, list, listClass)
 		if err != nil {
@@ -327,6 +335,8 @@ func funSubSeq(ctx context.Context, w *World, args []Node) (Node, error) {
 	var buffer SeqBuilder
 	if _, ok := args[0].(String); ok {
 		buffer = &StringBuilder{}
+	} else if _, ok := args[0].(*Array); ok {
+		buffer = &VectorBuilder{}
 	} else {
 		buffer = &ListBuilder{}
 	}
-- 
2.43.0


From 715228078b9e9b28e7ca2f8edd29c7e070969c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:09 +0000
Subject: [PATCH 25/85] fix: comparison chains compare a boolean instead of the
 adjacent arguments

---
 operator.go | 102 +++++++++++++++++++---------------------------------
 1 file changed, 37 insertions(+), 65 deletions(-)

diff --git a/operator.go b/operator.go
index adaa3fd..c4d2ee8 100644
--- a/operator.go
+++ b/operator.go
@@ -5,14 +5,19 @@ import (
 	"math"
 )
 
-func notNullToTrue(v Node, err error) (Node, error) {
-	if v == nil || err != nil {
-		return Null, err
-	}
-	if _, ok := v.(_NullType); ok {
-		return Null, err
+// compareChain returns True when `f` is true for each adjacent pair of `args`
+func compareChain(args []Node, f func(left, right Node) (bool, error)) (Node, error) {
+	result := True
+	for i := 1; i < len(args); i++ {
+		ok, err := f(args[i-1], args[i])
+		if err != nil {
+			return nil, err
+		}
+		if !ok {
+			result = Null
+		}
 	}
-	return True, err
+	return result, nil
 }
 
 type canPlus interface {
@@ -79,84 +84,51 @@ func funDevide(ctx context.Context, w *World, args []Node) (Node, error) {
 }
 
 type canLessThan interface {
+	Node
 	LessThan(context.Context, *World, Node) (bool, error)
 }
 
+func lessThan(ctx context.Context, w *World, left, right Node) (bool, error) {
+	if _left, ok := left.(canLessThan); ok {
+		return _left.LessThan(ctx, w, right)
+	}
+	return false, MakeError(ErrNotSupportType, left)
+}
+
 func funLessThan(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
-		if _left, ok := left.(canLessThan); ok {
-			result, err := _left.LessThan(ctx, w, right)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return right, nil
-			}
-			return Null, nil
-		}
-		return nil, MakeError(ErrNotSupportType, left)
-	}))
+	return compareChain(args, func(left, right Node) (bool, error) {
+		return lessThan(ctx, w, left, right)
+	})
 }
 
 func funGreaterThan(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
-		if _right, ok := right.(canLessThan); ok {
-			result, err := _right.LessThan(ctx, w, left)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return right, nil
-			}
-			return Null, nil
-		}
-		return nil, MakeError(ErrNotSupportType, right)
-	}))
+	return compareChain(args, func(left, right Node) (bool, error) {
+		return lessThan(ctx, w, right, left)
+	})
 }
 
 func funEqualOp(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
-		if left.Equals(right, EQUALP) {
-			return right, nil
-		}
-		return Null, nil
-	}))
+	return compareChain(args, func(left, right Node) (bool, error) {
+		return left.Equals(right, EQUALP), nil
+	})
 }
 
 func funGreaterOrEqual(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
+	return compareChain(args, func(left, right Node) (bool, error) {
 		//     left >= right
 		// <=> not (left < right )
-		if _left, ok := left.(canLessThan); ok {
-			result, err := _left.LessThan(ctx, w, right)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return Null, nil
-			}
-			return right, nil
-		}
-		return nil, MakeError(ErrNotSupportType, right)
-	}))
+		result, err := lessThan(ctx, w, left, right)
+		return !result, err
+	})
 }
 
 func funLessOrEqual(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
+	return compareChain(args, func(left, right Node) (bool, error) {
 		//     left <= right
 		// <=> not (right < left)
-		if _right, ok := right.(canLessThan); ok {
-			result, err := _right.LessThan(ctx, w, left)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return Null, nil
-			}
-			return right, nil
-		}
-		return nil, MakeError(ErrNotSupportType, right)
-	}))
+		result, err := lessThan(ctx, w, right, left)
+		return !result, err
+	})
 }
 
 func cmdAnd(ctx context.Context, w *World, param Node) (Node, error) {
-- 
2.43.0


From ffb588e8dc2ee236d6588e4b71cd72502f4cf314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:34 +0000
Subject: [PATCH 26/85] fix: mod, rem, round and oddp return wrong results or
 panic

---
 cmds.go     |  2 +-
 operator.go | 86 ++++++++++++++++++++++++++++++-----------------------
 2 files changed, 49 insertions(+), 39 deletions(-)

diff --git a/cmds.go b/cmds.go
index 803753e..29bc076 100644
--- a/cmds.go
+++ b/cmds.go
@@ -151,7 +151,7 @@ func funMinusp(_ context.Context, _ *World, arg Node) (Node, error) {
 }
 
 func funOddp(_ context.Context, _ *World, arg Node) (Node, error) {
-	if value, ok := arg.(Integer); ok && value%2 == 1 {
+	if value, ok := arg.(Integer); ok && value%2 != 0 {
 		return True, nil
 	}
 	return Null, nil
diff --git a/operator.go b/operator.go
index c4d2ee8..c9b05cc 100644
--- a/operator.go
+++ b/operator.go
@@ -41,6 +41,9 @@ type canMinus interface {
 
 func funSub(ctx context.Context, w *World, args []Node) (Node, error) {
 	if len(args) == 1 {
+		if _, ok := args[0].(canMinus); !ok {
+			return nil, MakeError(ErrNotSupportType, args[0])
+		}
 		class := args[0].ClassOf()
 		zero := class.Create()
 		z, err := ExpectInterface[canMinus](ctx, w, zero, class)
@@ -192,55 +195,62 @@ func funCeiling(ctx context.Context, w *World, arg Node) (Node, error) {
 	return floatToInteger(arg, math.Ceil)
 }
 
+// funRound implements (round X). It returns the integer nearest to x (the even one if x is halfway).
 func funRound(ctx context.Context, w *World, arg Node) (Node, error) {
-	return floatToInteger(arg, math.Round)
+	return floatToInteger(arg, math.RoundToEven)
 }
 
-func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
-	var left float64
-	var right float64
-	bits := 0
-
-	if _left, ok := first.(Float); ok {
-		left = float64(_left)
-	} else {
-		_left, ok := first.(Integer)
-		if !ok {
-			return nil, ErrNotSupportType
+func divisionOperands(ctx context.Context, w *World, first, second Node) (x, y float64, bothInteger bool, err error) {
+	toFloat := func(n Node) (float64, bool, error) {
+		if i, ok := n.(Integer); ok {
+			return float64(i), true, nil
 		}
-		left = float64(int(_left))
-		bits = 1
+		f, err := ExpectClass[Float](ctx, w, n)
+		return float64(f), false, err
 	}
-	if _right, ok := second.(Float); ok {
-		right = float64(_right)
-	} else {
-		_right, ok := second.(Integer)
-		if !ok {
-			return nil, ErrNotSupportType
+	x, i1, err := toFloat(first)
+	if err != nil {
+		return 0, 0, false, err
+	}
+	y, i2, err := toFloat(second)
+	return x, y, i1 && i2, err
+}
+
+// funMod implements (mod X Y). It returns X - Y*floor(X/Y)
+func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
+	x, y, bothInteger, err := divisionOperands(ctx, w, first, second)
+	if err != nil {
+		return nil, err
+	}
+	if y == 0 {
+		return raiseDivisionByZero(ctx, w, first, second)
+	}
+	if bothInteger {
+		left, right := first.(Integer), second.(Integer)
+		result := left % right
+		if result != 0 && (result < 0) != (right < 0) {
+			result += right
 		}
-		right = float64(int(_right))
-		bits |= 2
+		return result, nil
 	}
-	value := math.Remainder(float64(left), float64(right))
-	if bits == 3 {
-		return Integer(int(value)), nil
+	result := math.Mod(x, y)
+	if result != 0 && (result < 0) != (y < 0) {
+		result += y
 	}
-	return Float(value), nil
+	return Float(result), nil
 }
 
+// funRem implements (rem X Y). It returns X - Y*truncate(X/Y)
 func funRem(ctx context.Context, w *World, first, second Node) (Node, error) {
-	if left, ok := first.(Integer); ok {
-		if right, ok := second.(Integer); ok {
-			return Integer(left % right), nil
-		}
+	x, y, bothInteger, err := divisionOperands(ctx, w, first, second)
+	if err != nil {
+		return nil, err
 	}
-	if left, ok := first.(Float); ok {
-		if right, ok := second.(Float); ok {
-			return Float(math.Mod(float64(left), float64(right))), nil
-		}
-		if right, ok := second.(Integer); ok {
-			return Float(math.Mod(float64(left), float64(int(right)))), nil
-		}
+	if y == 0 {
+		return raiseDivisionByZero(ctx, w, first, second)
+	}
+	if bothInteger {
+		return first.(Integer) % second.(Integer), nil
 	}
-	return nil, ErrNotSupportType
+	return Float(math.Mod(x, y)), nil
 }
-- 
2.43.0


From 3833f12634fdb46b494cde45c5a2336cc9f69bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 27/85] fix: eq, eql, equal and equalp panic on some values or
 are not equivalence relations

---
 array.go       |  5 ++++-
 class.go       |  3 ++-
 cmds.go        | 39 ++++++++++++++++++++++++++++++++-------
 cons.go        |  4 ++--
 error.go       |  8 +++++++-
 functionref.go |  7 ++++++-
 list.go        |  2 +-
 macro.go       |  2 +-
 number.go      |  5 ++++-
 operator.go    |  2 +-
 progn.go       |  6 +++---
 sequence.go    |  2 +-
 12 files changed, 64 insertions(+), 21 deletions(-)

diff --git a/array.go b/array.go
index 89d9cee..236341e 100644
--- a/array.go
+++ b/array.go
@@ -106,6 +106,9 @@ func (A *Array) Equals(_B Node, mode EqlMode) bool {
 	if !ok {
 		return false
 	}
+	if mode == STRICT {
+		return A == B
+	}
 	if len(A.dim) != len(B.dim) {
 		return false
 	}
@@ -118,7 +121,7 @@ func (A *Array) Equals(_B Node, mode EqlMode) bool {
 		return false
 	}
 	for i, v := range A.list {
-		if v != B.list[i] {
+		if !nodeEquals(v, B.list[i], mode) {
 			return false
 		}
 	}
diff --git a/class.go b/class.go
index 2dab2ac..c710b6d 100644
--- a/class.go
+++ b/class.go
@@ -377,7 +377,8 @@ func (r *_StandardObject) Equals(o Node, m EqlMode) bool {
 		return false
 	}
 	for key, val := range r.Slot {
-		if !val.Equals(other.Slot[key], m) {
+		otherVal, ok := other.Slot[key]
+		if !ok || !nodeEquals(val, otherVal, m) {
 			return false
 		}
 	}
diff --git a/cmds.go b/cmds.go
index 29bc076..59c8210 100644
--- a/cmds.go
+++ b/cmds.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"os"
+	"reflect"
 	"strconv"
 	"strings"
 )
@@ -56,6 +57,33 @@ func funAtom(_ context.Context, _ *World, arg Node) (Node, error) {
 	return True, nil
 }
 
+// identical returns true when `left` and `right` are the same object.
+// It can be called also with values which Go can not compare.
+func identical(left, right Node) bool {
+	l, r := reflect.ValueOf(left), reflect.ValueOf(right)
+	if !l.IsValid() || !r.IsValid() {
+		return IsNone(left) && IsNone(right)
+	}
+	if l.Type() != r.Type() {
+		return false
+	}
+	if f, ok := left.(FunctionRef); ok {
+		return f.Equals(right, STRICT)
+	}
+	switch l.Kind() {
+	case reflect.Map, reflect.Func:
+		return l.Pointer() == r.Pointer()
+	case reflect.Slice:
+		return l.Pointer() == r.Pointer() && l.Len() == r.Len()
+	}
+	return l.Comparable() && left == right
+}
+
+// nodeEquals returns true when `left` and `right` are the same object or equal in `mode`
+func nodeEquals(left, right Node, mode EqlMode) bool {
+	return identical(left, right) || (left != nil && left.Equals(right, mode))
+}
+
 func equalSub(ctx context.Context, w *World, list []Node, eq func(Node, Node) bool) (Node, error) {
 	first := list[0]
 	for _, next := range list[1:] {
@@ -68,22 +96,19 @@ func equalSub(ctx context.Context, w *World, list []Node, eq func(Node, Node) bo
 
 func funEq(ctx context.Context, w *World, list []Node) (Node, error) {
 	return equalSub(ctx, w, list, func(left, right Node) bool {
-		return left == right
+		return identical(left, right)
 	})
 }
 
 func funEql(ctx context.Context, w *World, list []Node) (Node, error) {
 	return equalSub(ctx, w, list, func(left, right Node) bool {
-		return left.Equals(right, STRICT)
+		return nodeEquals(left, right, STRICT)
 	})
 }
 
 func funEqual(ctx context.Context, w *World, list []Node) (Node, error) {
 	return equalSub(ctx, w, list, func(left, right Node) bool {
-		if IsNone(left) {
-			return IsNone(right)
-		}
-		return left.Equals(right, EQUAL)
+		return nodeEquals(left, right, EQUAL)
 	})
 }
 
@@ -107,7 +132,7 @@ func funLoad(ctx context.Context, w *World, arg Node) (Node, error) {
 }
 
 func funNotEqual(_ context.Context, _ *World, argv []Node) (Node, error) {
-	if argv[0].Equals(argv[1], EQUALP) {
+	if nodeEquals(argv[0], argv[1], EQUALP) {
 		return Null, nil
 	}
 	return True, nil
diff --git a/cons.go b/cons.go
index 67b7edc..1ffd62e 100644
--- a/cons.go
+++ b/cons.go
@@ -176,8 +176,8 @@ func (cons *Cons) Equals(n Node, m EqlMode) bool {
 	if m == STRICT {
 		return cons == value
 	}
-	return cons.getCar().Equals(value.Car, m) &&
-		cons.getCdr().Equals(value.Cdr, m)
+	return nodeEquals(cons.getCar(), value.getCar(), m) &&
+		nodeEquals(cons.getCdr(), value.getCdr(), m)
 }
 
 // _ErrAt is an error which occured in the evaluation of a form. The handlers know it.
diff --git a/error.go b/error.go
index c3e1924..1762e95 100644
--- a/error.go
+++ b/error.go
@@ -101,7 +101,10 @@ func (e *DomainError) Equals(_other Node, mode EqlMode) bool {
 	if !ok {
 		return false
 	}
-	return e.Object.Equals(other.Object, mode) &&
+	if mode == STRICT {
+		return e == other
+	}
+	return nodeEquals(e.Object, other.Object, mode) &&
 		e.ExpectedClass.Equals(other.ExpectedClass, mode)
 }
 
@@ -261,6 +264,9 @@ func (u *_UndefinedEntity) Equals(other Node, mode EqlMode) bool {
 	if !ok {
 		return false
 	}
+	if mode == STRICT {
+		return u == o
+	}
 	return u.space.Equals(o.space, mode) && u.name.Equals(o.name, mode)
 }
 
diff --git a/functionref.go b/functionref.go
index f4ec65c..f1edf11 100644
--- a/functionref.go
+++ b/functionref.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"reflect"
 )
 
 type FunctionRef struct {
@@ -21,7 +22,11 @@ func (f FunctionRef) Equals(other Node, mode EqlMode) bool {
 	if !ok {
 		return false
 	}
-	return f.value == _other.value
+	left, right := reflect.ValueOf(f.value), reflect.ValueOf(_other.value)
+	if left.Kind() == reflect.Func && right.Kind() == reflect.Func {
+		return left.Type() == right.Type() && left.Pointer() == right.Pointer()
+	}
+	return left.Comparable() && right.Comparable() && f.value == _other.value
 }
 
 func (f FunctionRef) PrintTo(w io.Writer, _ PrintMode) (int, error) {
diff --git a/list.go b/list.go
index 30ae811..2a396a1 100644
--- a/list.go
+++ b/list.go
@@ -129,7 +129,7 @@ func Assoc(ctx context.Context, w *World, key Node, list Node) (Node, error) {
 		if err != nil {
 			return nil, err
 		}
-		if key.Equals(cons.Car, STRICT) {
+		if nodeEquals(key, cons.Car, STRICT) {
 			return cons, nil
 		}
 	}
diff --git a/macro.go b/macro.go
index 41e005c..96488c3 100644
--- a/macro.go
+++ b/macro.go
@@ -57,7 +57,7 @@ func (j _JoinedForm) Equals(_other Node, m EqlMode) bool {
 		return false
 	}
 	for i := range j {
-		if j[i].Equals(other[i], m) {
+		if !nodeEquals(j[i], other[i], m) {
 			return false
 		}
 	}
diff --git a/number.go b/number.go
index 8bdd4ca..b96d79d 100644
--- a/number.go
+++ b/number.go
@@ -104,7 +104,10 @@ func (e *ArithmeticError) Equals(other Node, mode EqlMode) bool {
 	if !ok {
 		return false
 	}
-	return e.Operands.Equals(o.Operands, mode) &&
+	if mode == STRICT {
+		return e == o
+	}
+	return nodeEquals(e.Operands, o.Operands, mode) &&
 		e.Operation.Equals(o.Operation, mode) &&
 		e.Class.Equals(o.Class, mode)
 }
diff --git a/operator.go b/operator.go
index c9b05cc..a2df3f6 100644
--- a/operator.go
+++ b/operator.go
@@ -112,7 +112,7 @@ func funGreaterThan(ctx context.Context, w *World, args []Node) (Node, error) {
 
 func funEqualOp(ctx context.Context, w *World, args []Node) (Node, error) {
 	return compareChain(args, func(left, right Node) (bool, error) {
-		return left.Equals(right, EQUALP), nil
+		return nodeEquals(left, right, EQUALP), nil
 	})
 }
 
diff --git a/progn.go b/progn.go
index 6406fec..6e2877a 100644
--- a/progn.go
+++ b/progn.go
@@ -135,7 +135,7 @@ func cmdCatch(ctx context.Context, w *World, node Node) (Node, error) {
 
 	var errThrown *_ErrThrown
 	rv, err := Progn(ctx, w, statements)
-	if errors.As(err, &errThrown) && errThrown.TagForm.Equals(tagForm, STRICT) {
+	if errors.As(err, &errThrown) && nodeEquals(errThrown.TagForm, tagForm, STRICT) {
 		return errThrown.Value, nil
 	}
 	return rv, err
@@ -143,7 +143,7 @@ func cmdCatch(ctx context.Context, w *World, node Node) (Node, error) {
 
 func funThrow(ctx context.Context, w *World, tagForm, value Node) (Node, error) {
 	for _, tag := range w.catchTag {
-		if tag.Equals(tagForm, STRICT) {
+		if nodeEquals(tag, tagForm, STRICT) {
 			return nil, &_ErrThrown{TagForm: tagForm, Value: value}
 		}
 	}
@@ -205,7 +205,7 @@ func cmdCase(ctx context.Context, w *World, list Node) (Node, error) {
 				if err != nil {
 					return nil, err
 				}
-				if swValue.Equals(_caseValue, STRICT) {
+				if nodeEquals(swValue, _caseValue, STRICT) {
 					return Progn(ctx, w, act)
 				}
 			}
diff --git a/sequence.go b/sequence.go
index bfea2fb..eb2dc40 100644
--- a/sequence.go
+++ b/sequence.go
@@ -364,7 +364,7 @@ func funMember(ctx context.Context, w *World, expr, list Node) (Node, error) {
 		if !ok {
 			break
 		}
-		if expr.Equals(value, STRICT) {
+		if nodeEquals(expr, value, STRICT) {
 			return list, nil
 		}
 		list = rest
-- 
2.43.0


From 55b24fbcfa4c95f69d4217c39bb47f2455290693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:13 +0000
Subject: [PATCH 28/85] fix: class-of, instancep and subclassp disagree about
 built-in and user classes

---
 builtinclass.go | 32 +++++++++-----------
 class.go        | 77 ++++++++++++-------------------------------------
 cons.go         |  2 +-
 number.go       | 17 +++--------
 progn.go        |  4 ---
 5 files changed, 38 insertions(+), 94 deletions(-)

diff --git a/builtinclass.go b/builtinclass.go
index 623f995..5fe1e3c 100644
--- a/builtinclass.go
+++ b/builtinclass.go
@@ -13,10 +13,9 @@ type Class interface {
 }
 
 type _BuiltInClass struct {
-	name      Symbol
-	instanceP func(Node) bool
-	create    func() Node
-	super     []Class
+	name   Symbol
+	create func() Node
+	super  []Class
 }
 
 func (e *_BuiltInClass) InheritP(c Class) bool {
@@ -34,7 +33,7 @@ func (e *_BuiltInClass) Create() Node {
 
 var classClass = registerNewBuiltInClass[Class]("<class>")
 
-var builtInClass = newAbstractClass[*_BuiltInClass]("<built-in-class>")
+var builtInClass = newAbstractClass[*_BuiltInClass]("<built-in-class>", objectClass)
 
 func (e *_BuiltInClass) ClassOf() Class {
 	return builtInClass
@@ -45,7 +44,12 @@ func (e *_BuiltInClass) Name() Symbol {
 }
 
 func (e *_BuiltInClass) InstanceP(n Node) bool {
-	return e.instanceP(n) || n.ClassOf().InheritP(e)
+	if e == classClass { // the class of a class does not inherit <class>
+		_, ok := n.(Class)
+		return ok
+	}
+	class := n.ClassOf()
+	return class.Equals(e, STRICT) || class.InheritP(e)
 }
 
 func (e *_BuiltInClass) String() string {
@@ -62,19 +66,14 @@ func funClassOf(_ context.Context, _ *World, arg Node) (Node, error) {
 }
 
 var objectClass = &_BuiltInClass{
-	name:      NewSymbol("<object>"),
-	instanceP: func(Node) bool { return true },
-	create:    func() Node { return nil },
+	name:   NewSymbol("<object>"),
+	create: func() Node { return nil },
 }
 
 func newBuiltInClass[T Node](name string) *_BuiltInClass {
 	symbol := NewSymbol(name)
 	return &_BuiltInClass{
 		name: symbol,
-		instanceP: func(n Node) bool {
-			_, ok := n.(T)
-			return ok
-		},
 		create: func() Node {
 			var value T
 			return value
@@ -82,17 +81,14 @@ func newBuiltInClass[T Node](name string) *_BuiltInClass {
 	}
 }
 
-func newAbstractClass[T Node](name string) *_BuiltInClass {
+func newAbstractClass[T Node](name string, super ...Class) *_BuiltInClass {
 	symbol := NewSymbol(name)
 	return &_BuiltInClass{
 		name: symbol,
-		instanceP: func(n Node) bool {
-			_, ok := n.(T)
-			return ok
-		},
 		create: func() Node {
 			return nil
 		},
+		super: super,
 	}
 }
 
diff --git a/class.go b/class.go
index c710b6d..0506c2a 100644
--- a/class.go
+++ b/class.go
@@ -160,7 +160,6 @@ func readSlotSpec(ctx context.Context, w *World, list Node) (*_SlotSpec, error)
 }
 
 type _StandardClass struct {
-	serial int
 	Symbol Symbol
 	Super  []Class
 	Slot   map[Symbol]*_SlotSpec
@@ -169,16 +168,9 @@ type _StandardClass struct {
 // standardClass can not be created with registerNewBuilInClass
 // because it does not inherit <built-in-class>.
 var standardClass = &_BuiltInClass{
-	name: NewSymbol("<standard-class>"),
-	instanceP: func(n Node) bool {
-		_, ok := n.(*_StandardClass)
-		return ok
-	},
-	create: func() Node {
-		classCounter++
-		return &_StandardClass{}
-	},
-	super: []Class{objectClass},
+	name:   NewSymbol("<standard-class>"),
+	create: func() Node { return nil },
+	super:  []Class{objectClass},
 }
 
 func (u *_StandardClass) ClassOf() Class {
@@ -186,14 +178,8 @@ func (u *_StandardClass) ClassOf() Class {
 }
 
 func (u *_StandardClass) Equals(_other Node, _ EqlMode) bool {
-	if u.serial == 0 {
-		panic("class serial is zero")
-	}
 	other, ok := _other.(*_StandardClass)
-	if !ok {
-		return false
-	}
-	return u.serial == other.serial
+	return ok && u.Symbol == other.Symbol
 }
 
 func (class1 *_StandardClass) InheritP(class2 Class) bool {
@@ -219,31 +205,9 @@ func (c *_StandardClass) Name() Symbol {
 	return c.Symbol
 }
 
-// subClassP returns true when class1 is one of the sub-classes of class2
-func (class1 *_StandardClass) subClassP(class2 *_StandardClass) bool {
-	for _, super := range class1.Super {
-		if super.Name() == class2.Name() {
-			return true
-		}
-		if uc, ok := super.(*_StandardClass); ok && uc.subClassP(class2) {
-			return true
-		}
-	}
-	return false
-}
-
 func (c *_StandardClass) InstanceP(obj Node) bool {
 	class := obj.ClassOf()
-	userClass, ok := class.(*_StandardClass)
-	if !ok {
-		// println("InstanceP: NG1")
-		return false
-	}
-	if userClass.Symbol.Equals(c.Symbol, STRICT) {
-		return true
-	}
-	// println("InstanceP: NG2")
-	return userClass.subClassP(c)
+	return class.Equals(c, STRICT) || class.InheritP(c)
 }
 
 func (c *_StandardClass) Create() Node {
@@ -255,8 +219,6 @@ func (c *_StandardClass) Create() Node {
 
 var symInitializeObject = NewSymbol("initialize-object")
 
-var classCounter = 0
-
 func cmdDefClass(ctx context.Context, w *World, args Node) (Node, error) {
 	// (defclass class-name (sc-name*) (slot-spec*) class-opt*)
 
@@ -269,20 +231,17 @@ func cmdDefClass(ctx context.Context, w *World, args Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	classCounter++
 	class := &_StandardClass{
-		serial: classCounter,
 		Symbol: className,
 		Slot:   make(map[Symbol]*_SlotSpec),
 	}
-	if IsNone(args) {
-		w.DefineGlobal(className, class)
-		return className, nil
-	}
 	// (sc-name*) ... super class list
-	_scNames, args, err := Shift(args)
-	if err != nil {
-		return nil, fmt.Errorf("[2] %w", err)
+	var _scNames Node = Null
+	if IsSome(args) {
+		_scNames, args, err = Shift(args)
+		if err != nil {
+			return nil, fmt.Errorf("[2] %w", err)
+		}
 	}
 	for IsSome(_scNames) {
 		var _super Node
@@ -296,14 +255,16 @@ func cmdDefClass(ctx context.Context, w *World, args Node) (Node, error) {
 		}
 		class.Super = append(class.Super, super)
 	}
-	if IsNone(args) {
-		w.DefineGlobal(className, class)
-		return className, nil
+	if len(class.Super) <= 0 {
+		class.Super = []Class{objectClass}
 	}
 	// (slot-spec*)
-	_slotSpecs, _, err := Shift(args)
-	if err != nil {
-		return nil, err
+	var _slotSpecs Node = Null
+	if IsSome(args) {
+		_slotSpecs, _, err = Shift(args)
+		if err != nil {
+			return nil, err
+		}
 	}
 	slotCount := 0
 	for IsSome(_slotSpecs) {
diff --git a/cons.go b/cons.go
index 1ffd62e..c0935d5 100644
--- a/cons.go
+++ b/cons.go
@@ -12,7 +12,7 @@ type Cons struct {
 	Cdr Node
 }
 
-var consClass = registerNewAbstractClass[*Cons]("<cons>")
+var consClass = registerNewAbstractClass[*Cons]("<cons>", listClass)
 
 func (*Cons) ClassOf() Class {
 	return consClass
diff --git a/number.go b/number.go
index b96d79d..d797a49 100644
--- a/number.go
+++ b/number.go
@@ -8,16 +8,7 @@ import (
 )
 
 var numberClass = &_BuiltInClass{
-	name: NewSymbol("number"),
-	instanceP: func(n Node) bool {
-		if _, ok := n.(Integer); ok {
-			return true
-		}
-		if _, ok := n.(Float); ok {
-			return true
-		}
-		return false
-	},
+	name: NewSymbol("<number>"),
 	create: func() Node {
 		return nil
 	},
@@ -90,7 +81,7 @@ type ArithmeticError struct {
 	Class     Class
 }
 
-var arithmeticErrorClass = registerNewBuiltInClass[*ArithmeticError]("<arithmetic-error-class>")
+var arithmeticErrorClass = registerNewBuiltInClass[*ArithmeticError]("<arithmetic-error>", errorClass)
 
 func (e *ArithmeticError) ClassOf() Class {
 	if e != nil && e.Class != nil {
@@ -123,7 +114,7 @@ func (e *ArithmeticError) Error() string {
 	return e.String()
 }
 
-var divisionByZeroClass = registerNewAbstractClass[*ArithmeticError]("<division-by-zero>")
+var divisionByZeroClass = registerNewAbstractClass[*ArithmeticError]("<division-by-zero>", arithmeticErrorClass)
 
 func raiseDivisionByZero(ctx context.Context, w *World, m, n Node) (Node, error) {
 	return callHandler[Node](ctx, w, true, &ArithmeticError{
@@ -179,7 +170,7 @@ func (i Integer) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
 
 type Float float64
 
-var floatClass = registerNewBuiltInClass[Float]("<float>")
+var floatClass = registerNewBuiltInClass[Float]("<float>", numberClass)
 
 func (Float) ClassOf() Class {
 	return floatClass
diff --git a/progn.go b/progn.go
index 6e2877a..d502053 100644
--- a/progn.go
+++ b/progn.go
@@ -287,10 +287,6 @@ type ErrorNode struct {
 
 var errorClass = &_BuiltInClass{
 	name: NewSymbol("<error>"),
-	instanceP: func(value Node) bool {
-		_, ok := value.(error)
-		return ok
-	},
 	create: func() Node {
 		return nil
 	},
-- 
2.43.0


From 3a1c4580054071383e22a9a9f9c62c7dc66961a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:13 +0000
Subject: [PATCH 29/85] fix: a slot gets the initform of a superclass instead
 of the most specific class

---
 class.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/class.go b/class.go
index 0506c2a..709ee40 100644
--- a/class.go
+++ b/class.go
@@ -397,18 +397,18 @@ func (c *_StandardObject) GoString() string {
 }
 
 func (reciever *_StandardObject) callInitForm(classDef *_StandardClass) error {
-	for _, super := range classDef.Super {
-		if uc, ok := super.(*_StandardClass); ok {
-			if err := reciever.callInitForm(uc); err != nil {
+	for name, slot1 := range classDef.Slot {
+		if _, ok := reciever.Slot[name]; !ok && slot1.initform != nil {
+			value, err := slot1.initform()
+			if err != nil {
 				return err
 			}
+			reciever.Slot[name] = value
 		}
 	}
-	for name, slot1 := range classDef.Slot {
-		if _, ok := reciever.Slot[name]; !ok && slot1.initform != nil {
-			var err error
-			reciever.Slot[name], err = slot1.initform()
-			if err != nil {
+	for _, super := range classDef.Super {
+		if uc, ok := super.(*_StandardClass); ok {
+			if err := reciever.callInitForm(uc); err != nil {
 				return err
 			}
 		}
@@ -491,7 +491,7 @@ func defaultInitializeObject(ctx context.Context, w *World, args []Node) (Node,
 		var _initArg Node
 		_initArg, args = args[0], args[1:]
 		initArg, err := ExpectSymbol(ctx, w, _initArg)
-		if !ok {
+		if err != nil {
 			return nil, fmt.Errorf("defaultInitializeObject: initArg: %w: %v", err, _initArg)
 		}
 		if len(args) <= 0 {
-- 
2.43.0


From 5f96e1139759ca7998303ff4cf4bc994b84ca5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:10 +0000
Subject: [PATCH 30/85] fix: generic functions call the last defined method
 instead of the most specific one

---
 class.go   |   2 +-
 generic.go | 116 +++++++++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 113 insertions(+), 5 deletions(-)

diff --git a/class.go b/class.go
index 709ee40..5fad274 100644
--- a/class.go
+++ b/class.go
@@ -66,7 +66,7 @@ func newBoundp(class Class, slotName Symbol) *_Method {
 func registerMethod(w *World, methodName Symbol, class Class, method *_Method) error {
 	if _acc, err := w.GetFunc(methodName); err == nil {
 		if gen, ok := _acc.(*_Generic); ok {
-			gen.methods = append(gen.methods, method)
+			gen.addMethod(method)
 		} else {
 			return fmt.Errorf("%v: already defined as not method", methodName)
 		}
diff --git a/generic.go b/generic.go
index d7124bf..e33e9b6 100644
--- a/generic.go
+++ b/generic.go
@@ -43,6 +43,93 @@ func (m *_Method) canCallWith(values []Node) bool {
 	return true
 }
 
+// precedence returns the position of `class` in the classes of which `value` is an instance,
+// in the order of a depth first search from the class of `value` to the superclasses
+func precedence(class Class, value Node) int {
+	i := 0
+	var visit func(Class) bool
+	visit = func(c Class) bool {
+		if c.Equals(class, STRICT) {
+			return true
+		}
+		i++
+		for _, super := range superClasses(c) {
+			if visit(super) {
+				return true
+			}
+		}
+		return false
+	}
+	visit(value.ClassOf())
+	return i
+}
+
+func superClasses(c Class) []Class {
+	switch c := c.(type) {
+	case *_StandardClass:
+		return c.Super
+	case *_BuiltInClass:
+		return c.super
+	}
+	return nil
+}
+
+// compareSpecificity returns a negative number if `a` is more specific than `b` for `value`,
+// a positive number if it is less specific and 0 if they are the same class
+func compareSpecificity(a, b Class, value Node) int {
+	switch {
+	case a.Equals(b, STRICT):
+		return 0
+	case a.InheritP(b):
+		return -1
+	case b.InheritP(a):
+		return +1
+	}
+	return precedence(a, value) - precedence(b, value)
+}
+
+// moreSpecificThan returns true when both methods can be called with `values` and `m` has to be chosen.
+func (m *_Method) moreSpecificThan(other *_Method, values []Node) bool {
+	for i, value := range values {
+		if i >= len(m.types) && i >= len(other.types) {
+			break
+		}
+		if i >= len(m.types) {
+			return false
+		}
+		if i >= len(other.types) {
+			return true
+		}
+		if c := compareSpecificity(m.types[i], other.types[i], value); c != 0 {
+			return c < 0
+		}
+	}
+	if m.restType == nil || other.restType == nil {
+		return m.restType == nil && other.restType != nil
+	}
+	for _, value := range values[len(m.types):] {
+		if c := compareSpecificity(m.restType, other.restType, value); c != 0 {
+			return c < 0
+		}
+	}
+	return true // last defined
+}
+
+func (m *_Method) sameSpecializers(other *_Method) bool {
+	if len(m.types) != len(other.types) || (m.restType == nil) != (other.restType == nil) {
+		return false
+	}
+	if m.restType != nil && !m.restType.Equals(other.restType, STRICT) {
+		return false
+	}
+	for i, t := range m.types {
+		if !t.Equals(other.types[i], STRICT) {
+			return false
+		}
+	}
+	return true
+}
+
 type _Generic struct {
 	Symbol
 	argc    int
@@ -50,6 +137,17 @@ type _Generic struct {
 	methods []*_Method
 }
 
+// addMethod adds a method or replaces the method for the same classes
+func (c *_Generic) addMethod(method *_Method) {
+	for i, m := range c.methods {
+		if m.sameSpecializers(method) {
+			c.methods[i] = method
+			return
+		}
+	}
+	c.methods = append(c.methods, method)
+}
+
 func cmdDefGeneric(ctx context.Context, w *World, node Node) (Node, error) {
 	_name, node, err := Shift(node)
 	if err != nil {
@@ -115,11 +213,21 @@ func (c *_Generic) Call(ctx context.Context, w *World, node Node) (Node, error)
 		}
 		values = append(values, v)
 	}
-	for i := len(c.methods) - 1; i >= 0; i-- {
-		if m := c.methods[i]; m.canCallWith(values) {
-			return m.method(ctx, w, values)
+	var best *_Method
+	for _, m := range c.methods {
+		if m.canCallWith(values) && (best == nil || m.moreSpecificThan(best, values)) {
+			best = m
 		}
 	}
+	if best != nil {
+		return best.method(ctx, w, values)
+	}
+	if len(values) < c.argc {
+		return raiseProgramError(ctx, w, ErrTooFewArguments)
+	}
+	if len(values) > c.argc && !c.rest {
+		return raiseProgramError(ctx, w, ErrTooManyArguments)
+	}
 	return callHandler[FunctionRef](ctx, w, false, &_UndefinedEntity{
 		name:  c.Symbol,
 		space: symFunction,
@@ -236,7 +344,7 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 		}
 		return Progn(ctx, lexical.Let(vars), code)
 	}
-	generic.methods = append(generic.methods, method)
+	generic.addMethod(method)
 	return name, nil
 }
 
-- 
2.43.0


From 753d8ea8e8b80907dc2143bef0ff2463ce5b8841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:07 +0000
Subject: [PATCH 31/85] fix: library functions written in Lisp capture the
 scope and the World of their first caller

---
 lambda.go | 23 ++++++++++++++---------
 world.go  | 18 +++++++++++++++++-
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/lambda.go b/lambda.go
index 374b1b6..d22bec5 100644
--- a/lambda.go
+++ b/lambda.go
@@ -652,19 +652,24 @@ func (f *Function) Call(ctx context.Context, w *World, list Node) (Node, error)
 }
 
 type LispString struct {
-	S       string
-	compile Node
+	S string
 }
 
 func (L *LispString) Eval(ctx context.Context, w *World) (Node, error) {
-	if L.compile == nil {
-		c, err := w.Interpret(ctx, L.S)
-		if err != nil {
-			return nil, err
-		}
-		L.compile = c
+	if compiled, ok := w.compiled[L]; ok {
+		return compiled, nil
+	}
+	nodes, err := ReadAll(strings.NewReader(L.S))
+	if err != nil {
+		return nil, err
+	}
+	// Neither the scope where it is used first nor other Worlds must affect the function.
+	compiled, err := w.root().evalNodes(ctx, nodes)
+	if err != nil {
+		return nil, err
 	}
-	return L.compile, nil
+	w.compiled[L] = compiled
+	return compiled, nil
 }
 
 func (L *LispString) Call(ctx context.Context, w *World, n Node) (Node, error) {
diff --git a/world.go b/world.go
index d8cb630..6b5e203 100644
--- a/world.go
+++ b/world.go
@@ -106,6 +106,7 @@ type shared struct {
 	stdin    _ReaderNode
 	startup  sync.Once
 	catchTag []Node
+	compiled map[*LispString]Node
 }
 
 type World struct {
@@ -479,7 +480,7 @@ func (rw _RootWorld) Get(symbol Symbol) (Callable, bool) {
 	script, err := embedLisp.ReadFile(fname)
 	if err == nil {
 		value := &LispString{S: string(script)}
-		autoLoadFunc[symbol] = value
+		rw[symbol] = value
 		return value, true
 	}
 	return nil, false
@@ -503,6 +504,8 @@ func New() *World {
 			stdin:   _ReaderNode{_Reader: bufio.NewReader(os.Stdin)},
 			stdout:  &_WriterNode{_Writer: os.Stdout},
 			errout:  &_WriterNode{_Writer: os.Stderr},
+
+			compiled: map[*LispString]Node{},
 		},
 		vars:  rwvars,
 		funcs: rwfuncs,
@@ -559,6 +562,15 @@ func inject(list []Node, f func(left, right Node) (Node, error)) (Node, error) {
 //go:embed startup.lsp
 var startupCode string
 
+// root returns the World without any lexical scope
+func (w *World) root() *World {
+	return &World{
+		shared: w.shared,
+		vars:   w.global,
+		funcs:  w.defun,
+	}
+}
+
 func (w *World) InterpretNodes(ctx context.Context, ns []Node) (Node, error) {
 	w.startup.Do(func() {
 		compiled, err := ReadAll(strings.NewReader(startupCode))
@@ -567,6 +579,10 @@ func (w *World) InterpretNodes(ctx context.Context, ns []Node) (Node, error) {
 		}
 		ns = append(compiled, ns...)
 	})
+	return w.evalNodes(ctx, ns)
+}
+
+func (w *World) evalNodes(ctx context.Context, ns []Node) (Node, error) {
 	var result Node = Null
 	var err error
 
-- 
2.43.0


From 0f3951ce63f01b17e6cfca7bf1f4e37faa514665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 32/85] fix: startup definitions are lost when the first
 context is cancelled and see the first caller's scope

---
 world.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/world.go b/world.go
index 6b5e203..21adf0b 100644
--- a/world.go
+++ b/world.go
@@ -572,13 +572,19 @@ func (w *World) root() *World {
 }
 
 func (w *World) InterpretNodes(ctx context.Context, ns []Node) (Node, error) {
+	var startupErr error
 	w.startup.Do(func() {
 		compiled, err := ReadAll(strings.NewReader(startupCode))
 		if err != nil {
 			panic(err.Error())
 		}
-		ns = append(compiled, ns...)
+		// All of them are executed even when ctx is already cancelled,
+		// and they must not see the scope where the first code is executed.
+		_, startupErr = w.root().evalNodes(context.Background(), compiled)
 	})
+	if startupErr != nil {
+		return nil, startupErr
+	}
 	return w.evalNodes(ctx, ns)
 }
 
-- 
2.43.0


From af95e0b3b3b695fed6f3207cabb4e0f597a2206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:01 +0000
Subject: [PATCH 33/85] fix: methods of report-condition are shared by all
 Worlds

---
 cond.go  | 10 ++++------
 world.go |  5 +++--
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/cond.go b/cond.go
index d1e7c18..10e2c39 100644
--- a/cond.go
+++ b/cond.go
@@ -36,11 +36,6 @@ func (e *_ErrContinueCondition) Error() string {
 }
 
 var symReportCondition = NewSymbol("report-condition")
-var reportCondition = &_Generic{
-	Symbol:  symReportCondition,
-	argc:    2,
-	methods: []*_Method{},
-}
 
 func funSignalCondition(ctx context.Context, w *World, cond, continueable Node) (Node, error) {
 	value, continued, err := w.signal(ctx, IsSome(continueable), cond)
@@ -63,7 +58,10 @@ func (w *World) conditionToError(ctx context.Context, cond Node) error {
 	w.handler = nil
 
 	buffer := &StringBuilder{}
-	_, err := reportCondition.Call(ctx, w, UnevalList(cond, buffer))
+	var err error = &_UndefinedEntity{name: symReportCondition, space: symFunction}
+	if reportCondition, ok := w.defun.Get(symReportCondition); ok {
+		_, err = reportCondition.Call(ctx, w, UnevalList(cond, buffer))
+	}
 	if err == nil {
 		return errors.New(buffer.String())
 	}
diff --git a/world.go b/world.go
index 21adf0b..7982cd6 100644
--- a/world.go
+++ b/world.go
@@ -449,7 +449,6 @@ var autoLoadFunc = Functions{
 	NewSymbol("with-open-output-file"):          SpecialF(cmdWithOpenOutputFile),
 	NewSymbol("with-standard-input"):            SpecialF(cmdWithStandardInput),
 	NewSymbol("zerop"):                          Function1(funZerop),
-	symReportCondition:                          reportCondition,
 	// *sort*end*
 }
 
@@ -495,7 +494,9 @@ func (rw _RootWorld) Range(f func(Symbol, Callable) bool) {
 
 func New() *World {
 	rwvars := &autoLoadVars
-	rwfuncs := _RootWorld{}
+	rwfuncs := _RootWorld{
+		symReportCondition: &_Generic{Symbol: symReportCondition, argc: 2},
+	}
 	w := &World{
 		shared: &shared{
 			global:  rwvars,
-- 
2.43.0


From 57c1ad7f5324c027fe4a622df80f54b57e8ef9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:22 +0000
Subject: [PATCH 34/85] fix: an initialize-object method of a superclass is not
 called and create fails in other Worlds

---
 class.go |  6 ------
 world.go | 10 ++++++++++
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/class.go b/class.go
index 5fad274..e6443da 100644
--- a/class.go
+++ b/class.go
@@ -309,12 +309,6 @@ func cmdDefClass(ctx context.Context, w *World, args Node) (Node, error) {
 		}
 	}
 	w.DefineGlobal(className, class)
-
-	registerMethod(w, symInitializeObject, class, &_Method{
-		restType: objectClass,
-		types:    []Class{class},
-		method:   defaultInitializeObject,
-	})
 	return className, nil
 }
 
diff --git a/world.go b/world.go
index 7982cd6..ed45fc1 100644
--- a/world.go
+++ b/world.go
@@ -496,6 +496,16 @@ func New() *World {
 	rwvars := &autoLoadVars
 	rwfuncs := _RootWorld{
 		symReportCondition: &_Generic{Symbol: symReportCondition, argc: 2},
+		symInitializeObject: &_Generic{
+			Symbol: symInitializeObject,
+			argc:   1,
+			rest:   true,
+			methods: []*_Method{{
+				restType: objectClass,
+				types:    []Class{objectClass},
+				method:   defaultInitializeObject,
+			}},
+		},
 	}
 	w := &World{
 		shared: &shared{
-- 
2.43.0


From 115226f07f729e4cab4ff5a9e4ef690eaafd45b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:27 +0000
Subject: [PATCH 35/85] fix: the rest parameter of a method is unbound when
 there are no rest arguments

---
 generic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generic.go b/generic.go
index e33e9b6..2e183a0 100644
--- a/generic.go
+++ b/generic.go
@@ -331,6 +331,9 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 	lexical := w
 	method.method = func(ctx context.Context, _ *World, args []Node) (Node, error) {
 		vars := Variables{}
+		if restName != nil {
+			vars[restName] = Null
+		}
 		for i, v := range args {
 			if i >= len(paramNames) {
 				var rest Node = Null
-- 
2.43.0


From ada6f641af4fcb563ad9f90516a298d59ebb808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:31 +0000
Subject: [PATCH 36/85] fix: create evaluates initforms with the context of
 defclass, which may be cancelled already

---
 class.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/class.go b/class.go
index e6443da..dc5a164 100644
--- a/class.go
+++ b/class.go
@@ -14,6 +14,7 @@ type _SlotSpec struct {
 	accessor   []Symbol
 	boundp     []Symbol
 	initform   func() (Node, error)
+	evalInit   func(context.Context) (Node, error)
 	initarg    []Symbol
 }
 
@@ -145,7 +146,9 @@ func readSlotSpec(ctx context.Context, w *World, list Node) (*_SlotSpec, error)
 				return nil, fmt.Errorf("%#v: %w", keyword.String(), err)
 			}
 		case kwInitForm:
-			slotSpec.initform = func() (Node, error) { return w.Eval(ctx, value) }
+			evalInit := func(ctx context.Context) (Node, error) { return w.Eval(ctx, value) }
+			slotSpec.evalInit = evalInit
+			slotSpec.initform = func() (Node, error) { return evalInit(ctx) }
 		case kwInitArg:
 			if v, err := ExpectSymbol(ctx, w, value); err == nil {
 				slotSpec.initarg = append(slotSpec.initarg, v)
@@ -390,10 +393,10 @@ func (c *_StandardObject) GoString() string {
 	return buffer.String()
 }
 
-func (reciever *_StandardObject) callInitForm(classDef *_StandardClass) error {
+func (reciever *_StandardObject) callInitForm(ctx context.Context, classDef *_StandardClass) error {
 	for name, slot1 := range classDef.Slot {
-		if _, ok := reciever.Slot[name]; !ok && slot1.initform != nil {
-			value, err := slot1.initform()
+		if _, ok := reciever.Slot[name]; !ok && slot1.evalInit != nil {
+			value, err := slot1.evalInit(ctx)
 			if err != nil {
 				return err
 			}
@@ -402,7 +405,7 @@ func (reciever *_StandardObject) callInitForm(classDef *_StandardClass) error {
 	}
 	for _, super := range classDef.Super {
 		if uc, ok := super.(*_StandardClass); ok {
-			if err := reciever.callInitForm(uc); err != nil {
+			if err := reciever.callInitForm(ctx, uc); err != nil {
 				return err
 			}
 		}
@@ -495,7 +498,7 @@ func defaultInitializeObject(ctx context.Context, w *World, args []Node) (Node,
 		initVal, args = args[0], args[1:]
 		this.callInitArg(this._StandardClass, initArg, initVal)
 	}
-	return this, this.callInitForm(this._StandardClass)
+	return this, this.callInitForm(ctx, this._StandardClass)
 }
 
 func defInstanceP(ctx context.Context, w *World, node Node) (Node, error) {
-- 
2.43.0


From 8f425dcb0926a4d12d9ac3a01fb41698638f7795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 37/85] fix: trace in one World traces functions of all Worlds

---
 lambda.go | 14 +++++---------
 world.go  |  1 +
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/lambda.go b/lambda.go
index d22bec5..90e0cae 100644
--- a/lambda.go
+++ b/lambda.go
@@ -200,8 +200,6 @@ func (t _Lambda) String() string {
 	return buffer.String()
 }
 
-var trace = map[Symbol]int{}
-
 type _ErrTailRecOpt struct {
 	params Node // evaluated arguments
 	callee *_Lambda
@@ -218,12 +216,12 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 	}
 	lexical := Variables{}
 	foundSlash := false
-	traceCount, traceDo := trace[L.name]
+	traceCount, traceDo := w.trace[L.name]
 	if traceDo {
 		fmt.Fprintf(os.Stderr, "[%d: (%s", traceCount, L.name)
-		trace[L.name]++
+		w.trace[L.name]++
 		defer func() {
-			trace[L.name]--
+			w.trace[L.name]--
 		}()
 	}
 	for _, name := range L.param {
@@ -530,9 +528,7 @@ func (f SpecialF) Call(ctx context.Context, w *World, n Node) (Node, error) {
 
 func cmdTrace(ctx context.Context, w *World, list Node) (Node, error) {
 	// from CommonLisp
-	if len(trace) > 0 {
-		trace = map[Symbol]int{}
-	}
+	w.trace = map[Symbol]int{}
 	for IsSome(list) {
 		var symbolNode Node
 		var err error
@@ -545,7 +541,7 @@ func cmdTrace(ctx context.Context, w *World, list Node) (Node, error) {
 		if err != nil {
 			return nil, err
 		}
-		trace[symbol] = 0
+		w.trace[symbol] = 0
 	}
 	return Null, nil
 }
diff --git a/world.go b/world.go
index ed45fc1..3e1d29e 100644
--- a/world.go
+++ b/world.go
@@ -107,6 +107,7 @@ type shared struct {
 	startup  sync.Once
 	catchTag []Node
 	compiled map[*LispString]Node
+	trace    map[Symbol]int
 }
 
 type World struct {
-- 
2.43.0


From fb7aef073ffada15d12f9fe1b04c51444e402098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:26 +0000
Subject: [PATCH 38/85] fix: gensym returns the symbol of the same name when it
 was already interned

---
 atom.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/atom.go b/atom.go
index 7aecdb6..028e65d 100644
--- a/atom.go
+++ b/atom.go
@@ -67,12 +67,19 @@ func (idm *idMap[T]) NameToId(name string) T {
 	if id, ok := idm.name2id[name]; ok {
 		return id
 	}
-	id := T(len(idm.name2id))
+	id := T(len(idm.id2name))
 	idm.name2id[name] = id
 	idm.id2name = append(idm.id2name, name)
 	return id
 }
 
+// newUnnamedId makes an id to which no name is converted
+func (idm *idMap[T]) newUnnamedId(format string) T {
+	id := T(len(idm.id2name))
+	idm.id2name = append(idm.id2name, fmt.Sprintf(format, id))
+	return id
+}
+
 func (idm *idMap[T]) Count() int {
 	return len(idm.name2id)
 }
@@ -102,7 +109,7 @@ func NewSymbol(s string) _Symbol {
 }
 
 func genSym() _Symbol {
-	return NewSymbol(fmt.Sprintf("-gensym-%d-", symbolManager.Count()))
+	return symbolManager.newUnnamedId("-gensym-%d-")
 }
 
 func funGensym(ctx context.Context, w *World) (Node, error) {
-- 
2.43.0


From 53498914471828a24afb7334886251149704a646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:52 +0000
Subject: [PATCH 39/85] fix: Worlds in separate goroutines corrupt the tables
 of symbols, keywords and global variables

---
 atom.go  | 12 +++++++++++-
 world.go | 33 ++++++++++++++++++++++++++++++++-
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/atom.go b/atom.go
index 028e65d..54e3452 100644
--- a/atom.go
+++ b/atom.go
@@ -3,6 +3,7 @@ package gmnlisp
 import (
 	"context"
 	"fmt"
+	"sync"
 	"unicode"
 )
 
@@ -56,11 +57,14 @@ func (nt _NullType) Id() int {
 var Null Node = _NullType{}
 
 type idMap[T ~int] struct {
+	mutex   sync.RWMutex
 	id2name []string
 	name2id map[string]T
 }
 
 func (idm *idMap[T]) NameToId(name string) T {
+	idm.mutex.Lock()
+	defer idm.mutex.Unlock()
 	if idm.name2id == nil {
 		idm.name2id = make(map[string]T)
 	}
@@ -75,12 +79,16 @@ func (idm *idMap[T]) NameToId(name string) T {
 
 // newUnnamedId makes an id to which no name is converted
 func (idm *idMap[T]) newUnnamedId(format string) T {
+	idm.mutex.Lock()
+	defer idm.mutex.Unlock()
 	id := T(len(idm.id2name))
 	idm.id2name = append(idm.id2name, fmt.Sprintf(format, id))
 	return id
 }
 
 func (idm *idMap[T]) Count() int {
+	idm.mutex.RLock()
+	defer idm.mutex.RUnlock()
 	return len(idm.name2id)
 }
 
@@ -96,6 +104,8 @@ func (s _Symbol) Id() int {
 }
 
 func (idm *idMap[T]) IdToName(id T) string {
+	idm.mutex.RLock()
+	defer idm.mutex.RUnlock()
 	if id < 0 || int(id) >= len(idm.id2name) {
 		return "(undefined)"
 	}
@@ -272,7 +282,7 @@ func funRuneIndex(ctx context.Context, w *World, argv []Node) (Node, error) {
 
 type Keyword int
 
-var keywordManager = idMap[Keyword]{}
+var keywordManager = &idMap[Keyword]{}
 
 func NewKeyword(name string) Keyword {
 	return keywordManager.NameToId(name)
diff --git a/world.go b/world.go
index 3e1d29e..05e40c9 100644
--- a/world.go
+++ b/world.go
@@ -50,6 +50,34 @@ func (m Variables) Range(f func(Symbol, Node) bool) {
 	}
 }
 
+// _SharedScope is a Scope for Worlds running in separate goroutines
+type _SharedScope struct {
+	mutex sync.RWMutex
+	vars  Variables
+}
+
+func (m *_SharedScope) Get(key Symbol) (Node, bool) {
+	m.mutex.RLock()
+	defer m.mutex.RUnlock()
+	return m.vars.Get(key)
+}
+
+func (m *_SharedScope) Set(key Symbol, value Node) {
+	m.mutex.Lock()
+	defer m.mutex.Unlock()
+	m.vars.Set(key, value)
+}
+
+func (m *_SharedScope) Range(f func(Symbol, Node) bool) {
+	m.mutex.RLock()
+	snapshot := make(Variables, len(m.vars))
+	for key, val := range m.vars {
+		snapshot[key] = val
+	}
+	m.mutex.RUnlock()
+	snapshot.Range(f)
+}
+
 type Functions map[Symbol]Callable
 
 func (m Functions) Get(key Symbol) (Callable, bool) {
@@ -263,6 +291,9 @@ var autoLoadVars = Variables{
 	numberClass.name:                      numberClass,
 }
 
+// globalVars is shared by all Worlds
+var globalVars = _SharedScope{vars: autoLoadVars}
+
 var autoLoadFunc = Functions{
 	// *sort*start*
 	NewSymbol("*"):                              &Function{F: funMulti},
@@ -494,7 +525,7 @@ func (rw _RootWorld) Range(f func(Symbol, Callable) bool) {
 }
 
 func New() *World {
-	rwvars := &autoLoadVars
+	rwvars := &globalVars
 	rwfuncs := _RootWorld{
 		symReportCondition: &_Generic{Symbol: symReportCondition, argc: 2},
 		symInitializeObject: &_Generic{
-- 
2.43.0


From 252671e7e6039b379175689c9dc97ef0eeab8110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:52 +0000
Subject: [PATCH 40/85] fix: read, read-line and read-char without arguments
 panic at the end of the standard input

---
 io.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/io.go b/io.go
index c85ab9a..20d997d 100644
--- a/io.go
+++ b/io.go
@@ -25,6 +25,7 @@ func chomp(s string) string {
 
 type _StreamInput struct {
 	reader   _Reader
+	stream   Node
 	eofFlag  bool
 	eofValue Node
 }
@@ -50,8 +51,10 @@ func newStreamInput(w *World, argv []Node) (*_StreamInput, error) {
 		if !ok {
 			return nil, fmt.Errorf("expected Reader %#v", argv[0])
 		}
+		this.stream = argv[0]
 	case 0:
 		this.reader = w.Stdin()
+		this.stream = w.stdin
 	}
 	return this, nil
 }
@@ -90,7 +93,7 @@ func funReadLine(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if err == io.EOF {
 		if stream.eofFlag {
 			return callHandler[Node](ctx, w, true, EndOfStream{
-				Stream: argv[0],
+				Stream: stream.stream,
 			})
 		}
 		return stream.eofValue, nil
@@ -109,7 +112,7 @@ func funRead(ctx context.Context, w *World, argv []Node) (Node, error) {
 			return stream.eofValue, nil
 		}
 		return callHandler[Node](ctx, w, true, EndOfStream{
-			Stream: argv[0],
+			Stream: stream.stream,
 		})
 	}
 	if err != nil {
@@ -133,7 +136,7 @@ func funReadChar(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if err == io.EOF {
 		if stream.eofFlag {
 			return callHandler[Node](ctx, w, true, EndOfStream{
-				Stream: argv[0],
+				Stream: stream.stream,
 			})
 		}
 		return stream.eofValue, nil
-- 
2.43.0


From 1d5a92b5990f39b955f7c275f9d9900a32623b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:18 +0000
Subject: [PATCH 41/85] fix: get-output-stream-string returns the strings
 returned before again and accepts other objects

---
 io.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/io.go b/io.go
index 20d997d..679f979 100644
--- a/io.go
+++ b/io.go
@@ -165,11 +165,13 @@ func funCreateStringOutputStream(ctx context.Context, w *World) (Node, error) {
 }
 
 func funGetOutputStreamString(ctx context.Context, w *World, arg Node) (Node, error) {
-	stringer, ok := arg.(fmt.Stringer) // expect StringBuilder
-	if !ok {
-		return nil, ErrNotSupportType
+	buffer, err := ExpectClass[*StringBuilder](ctx, w, arg)
+	if err != nil {
+		return nil, err
 	}
-	return String(stringer.String()), nil
+	result := buffer.String()
+	buffer.Reset()
+	return String(result), nil
 }
 
 type inputStream struct {
-- 
2.43.0


From 329abded07771b88e483f7ab1c3a49f1e01a1096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:18 +0000
Subject: [PATCH 42/85] fix: assigning the variable of with-open-input-file or
 with-open-output-file panics

---
 world.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/world.go b/world.go
index 05e40c9..8807fd0 100644
--- a/world.go
+++ b/world.go
@@ -116,6 +116,7 @@ func (m *Pair) Get(key Symbol) (Node, bool) {
 func (m *Pair) Set(key Symbol, value Node) {
 	if key == m.Key {
 		m.Value = value
+		return
 	}
 	panic("Pair can be set value")
 }
-- 
2.43.0


From 89af5dcd886ed31819fb206225a2bda76b74673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:18 +0000
Subject: [PATCH 43/85] fix: file-length with the element size 0 panics

---
 io.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/io.go b/io.go
index 679f979..9a41c24 100644
--- a/io.go
+++ b/io.go
@@ -300,6 +300,12 @@ func funFileLength(ctx context.Context, w *World, first, second Node) (Node, err
 		return nil, err
 	}
 	n := int64(_n)
+	if n <= 0 {
+		return callHandler[Node](ctx, w, false, &DomainError{
+			Object:        _n,
+			ExpectedClass: integerClass,
+		})
+	}
 
 	stat, err := os.Stat(fname)
 	if err != nil {
-- 
2.43.0


From 165531d69471d3c83d0843680879ebb063c4b9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:19 +0000
Subject: [PATCH 44/85] fix: with-standard-input does not accept file input
 streams

---
 io.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/io.go b/io.go
index 9a41c24..eb79c50 100644
--- a/io.go
+++ b/io.go
@@ -321,11 +321,14 @@ func cmdWithStandardInput(ctx context.Context, w *World, node Node) (Node, error
 	}
 	stream, ok := _stream.(_ReaderNode)
 	if !ok {
-		return nil, fmt.Errorf("%v: %w", _stream, ErrExpectedStream)
+		reader, ok := _stream.(_Reader)
+		if !ok {
+			return nil, fmt.Errorf("%v: %w", _stream, ErrExpectedStream)
+		}
+		stream = _ReaderNode{_Reader: reader}
 	}
 	save := w.stdin
 	w.stdin = stream
-	result, err := Progn(ctx, w, node)
-	w.stdin = save
-	return result, err
+	defer func() { w.stdin = save }()
+	return Progn(ctx, w, node)
 }
-- 
2.43.0


From f4c7d23acc27d13107fa69f9e733367cf0fb02a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:06 +0000
Subject: [PATCH 45/85] fix: ~& forgets the last output of string output
 streams, file output streams and t

---
 format.go   | 15 ++++++++-------
 io.go       | 10 ++++++++++
 sequence.go | 10 ++++++++++
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/format.go b/format.go
index e12df35..1a064fe 100644
--- a/format.go
+++ b/format.go
@@ -292,8 +292,13 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 
 func tAndNilToWriter(w *World, argv []Node, f func(*_WriterNode, []Node) error) (Node, error) {
 	if output, ok := argv[0].(io.Writer); ok {
-		rw, ok := output.(*_WriterNode)
-		if !ok {
+		var rw *_WriterNode
+		switch o := output.(type) {
+		case *_WriterNode:
+			rw = o
+		case interface{ writerNode() *_WriterNode }:
+			rw = o.writerNode()
+		default:
 			rw = &_WriterNode{_Writer: output}
 		}
 		err := f(rw, argv[1:])
@@ -305,11 +310,7 @@ func tAndNilToWriter(w *World, argv []Node, f func(*_WriterNode, []Node) error)
 		return String(buffer.String()), err
 	}
 	if True.Equals(argv[0], STRICT) {
-		W, ok := w.stdout._Writer.(*_WriterNode)
-		if !ok {
-			W = &_WriterNode{_Writer: w.stdout._Writer}
-		}
-		return Null, f(W, argv[1:])
+		return Null, f(w.stdout, argv[1:])
 	}
 	return nil, MakeError(ErrExpectedWriter, argv[0])
 }
diff --git a/io.go b/io.go
index eb79c50..cf43006 100644
--- a/io.go
+++ b/io.go
@@ -225,6 +225,16 @@ func cmdWithOpenInputFile(ctx context.Context, w *World, list Node) (Node, error
 type _OutputFileStream struct {
 	*bufio.Writer
 	closer io.Closer
+	writer *_WriterNode
+}
+
+// writerNode returns the writer which remembers whether the last output
+// to the stream was a newline.
+func (o *_OutputFileStream) writerNode() *_WriterNode {
+	if o.writer == nil {
+		o.writer = &_WriterNode{_Writer: o.Writer}
+	}
+	return o.writer
 }
 
 func (o *_OutputFileStream) Close() error {
diff --git a/sequence.go b/sequence.go
index eb2dc40..0c4a747 100644
--- a/sequence.go
+++ b/sequence.go
@@ -70,6 +70,16 @@ func (L *ListBuilder) Sequence() Node {
 
 type StringBuilder struct {
 	strings.Builder
+	writer *_WriterNode
+}
+
+// writerNode returns the writer which remembers whether the last output
+// to the stream was a newline.
+func (S *StringBuilder) writerNode() *_WriterNode {
+	if S.writer == nil {
+		S.writer = &_WriterNode{_Writer: S}
+	}
+	return S.writer
 }
 
 func (S *StringBuilder) Add(ctx context.Context, w *World, n Node) error {
-- 
2.43.0


From 6283967be40b984353f5ba73a16aa4d35cc78a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 46/85] fix: format directives with the parameter v or # fail
 or print the parameter

---
 format.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/format.go b/format.go
index 1a064fe..289768b 100644
--- a/format.go
+++ b/format.go
@@ -159,7 +159,7 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 		}
 		parameter := []int{}
 		for {
-			if decimal := strings.IndexByte("0123456789", byte(c)); decimal >= 0 {
+			if decimal := strings.IndexRune("0123456789", rune(c)); decimal >= 0 {
 				for {
 					if IsNone(format) {
 						return ErrInvalidFormat
@@ -168,7 +168,7 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 					if !ok {
 						return ErrInvalidFormat
 					}
-					d := strings.IndexByte("0123456789", byte(c))
+					d := strings.IndexRune("0123456789", rune(c))
 					if d < 0 {
 						parameter = append(parameter, decimal)
 						break
@@ -196,9 +196,18 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 				if err != nil {
 					return err
 				}
+				argv = argv[1:]
 				parameter = append(parameter, int(decimal))
+				c, format, ok = format.firstRuneAndRestString()
+				if !ok {
+					return ErrInvalidFormat
+				}
 			} else if c == '#' {
 				parameter = append(parameter, int(len(argv)))
+				c, format, ok = format.firstRuneAndRestString()
+				if !ok {
+					return ErrInvalidFormat
+				}
 			} else {
 				break
 			}
-- 
2.43.0


From d1d90d47cf9f523cc117253a6befde04720e64c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:46 +0000
Subject: [PATCH 47/85] fix: arrays with huge or zero dimensions panic or print
 wrong, set-aref of a row ignores sizes

---
 array.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/array.go b/array.go
index 236341e..ed72e8f 100644
--- a/array.go
+++ b/array.go
@@ -45,8 +45,12 @@ func (*Array) ClassOf() Class {
 func (A *Array) printTo(w io.Writer, mode PrintMode, list []Node, dim []int) ([]Node, int, error) {
 	dem := byte('(')
 	n := 0
-	if len(dim) < 1 {
-		w.Write([]byte{dem})
+	if len(dim) < 1 || dim[0] < 1 {
+		_n, err := w.Write([]byte{dem})
+		n += _n
+		if err != nil {
+			return nil, n, err
+		}
 	} else {
 		for i := 0; i < dim[0]; i++ {
 			_n, err := w.Write([]byte{dem})
@@ -156,11 +160,11 @@ func funCreateArray(ctx context.Context, w *World, args []Node) (Node, error) {
 			})
 		}
 		_dim = append(_dim, int(n))
+		if int(n) >= 1234567890 || size*int(n) >= 1234567890 {
+			return callHandler[Node](ctx, w, false, StorageExhausted{})
+		}
 		size *= int(n)
 	}
-	if size >= 1234567890 {
-		return callHandler[Node](ctx, w, false, StorageExhausted{})
-	}
 	_list := make([]Node, size)
 	for i := range _list {
 		_list[i] = ini
@@ -180,7 +184,7 @@ func dim2size(dim []int) int {
 }
 
 func (A *Array) Elt(n int) (Node, error) {
-	if n < 0 || n >= A.dim[0] {
+	if len(A.dim) < 1 || n < 0 || n >= A.dim[0] {
 		return nil, ErrIndexOutOfRange
 	}
 	if len(A.dim) == 1 {
@@ -239,7 +243,7 @@ func funSetAref(ctx context.Context, w *World, args []Node) (Node, error) {
 			return nil, err
 		}
 		elementSize := dim2size(array.dim[1:])
-		if int(index)*elementSize >= len(array.list) || index < 0 {
+		if index < 0 || int(index) >= array.dim[0] {
 			condition := &DomainError{
 				Object:        index,
 				ExpectedClass: integerClass,
@@ -259,6 +263,13 @@ func funSetAref(ctx context.Context, w *World, args []Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(array.list) != len(_newValue.list) {
+		condition := &DomainError{
+			Object:        newValue,
+			ExpectedClass: arrayClass,
+		}
+		return callHandler[Node](ctx, w, false, condition)
+	}
 	copy(array.list, _newValue.list)
 	return _newValue, nil
 }
-- 
2.43.0


From 82acf9aede622164e569732fa155bd29eec5fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:15 +0000
Subject: [PATCH 48/85] fix: elt of a string beyond its end and negative
 indices are accepted

---
 sequence.go | 11 +++++++++++
 string.go   |  6 ++++++
 2 files changed, 17 insertions(+)

diff --git a/sequence.go b/sequence.go
index 0c4a747..8bc6beb 100644
--- a/sequence.go
+++ b/sequence.go
@@ -117,6 +117,17 @@ func funElt(ctx context.Context, w *World, args []Node) (Node, error) {
 			}
 			continue
 		}
+		if index < 0 {
+			return nil, MakeError(ErrIndexOutOfRange, index)
+		}
+		if str, ok := value.(String); ok {
+			runes := []rune(string(str))
+			if int(index) >= len(runes) {
+				return nil, MakeError(ErrIndexOutOfRange, index)
+			}
+			value = Rune(runes[index])
+			continue
+		}
 		for list := value; index >= 0; {
 			seq, ok := list.(Sequence)
 			if !ok {
diff --git a/string.go b/string.go
index 1816b15..5ec6bf8 100644
--- a/string.go
+++ b/string.go
@@ -150,6 +150,12 @@ func funStringIndex(ctx context.Context, w *World, argv []Node) (Node, error) {
 		if len(argv) >= 4 {
 			return nil, ErrTooManyArguments
 		}
+		if _start < 0 {
+			return callHandler[Node](ctx, w, false, &DomainError{
+				Object:        _start,
+				ExpectedClass: integerClass,
+			})
+		}
 		start = int(_start)
 	}
 	_str, err := ExpectClass[String](ctx, w, argv[1])
-- 
2.43.0


From d22c9ba1a71824a7303f4bf4980eae54b14fa148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 49/85] fix: #2A( printed for arrays is not readable

---
 pkg/parser/tokenize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 79c92c6..66efd6f 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -55,7 +55,7 @@ func skipComment(r io.RuneScanner) (bool, error) {
 	}
 }
 
-var rxSharpAndNumber = regexp.MustCompile(`^#(\d+a)?$`)
+var rxSharpAndNumber = regexp.MustCompile(`^#(\d+[aA])?$`)
 
 func readtokenWord(r io.RuneScanner) (string, error) {
 	var buffer strings.Builder
-- 
2.43.0


From 2e2a31350d7aa5c89bd28ce1d6af25ba4d9b2670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 50/85] fix: malformed array literals panic, are accepted or
 are dropped at the end of input

---
 pkg/parser/main.go | 65 +++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 33 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 54d4da2..5b6815d 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -28,6 +28,8 @@ var (
 	ErrTooShortTokens    = errors.New("too short tokens")
 )
 
+const maxArrayRank = 256
+
 type Factory[N comparable] interface {
 	Cons(car, cdr N) N
 	Int(int64) N
@@ -70,60 +72,57 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 	nodes := []N{}
 	dim := make([]int, lenDim)
 	countDim := 0
+	count := make([]int, lenDim)
 	fix := make([]bool, lenDim)
 	for {
+		closed := false
 		if countDim == lenDim-1 {
 			newNode, err := p.ReadNode(rs)
 			if err != nil {
+				if err == io.EOF {
+					err = ErrTooShortTokens
+				}
 				return p.Null(), err
 			}
 			if newNode == p.parenCloseSymbol {
-				fix[countDim] = true
-				countDim--
-				if countDim < 0 {
-					break
-				}
+				closed = true
 			} else {
 				nodes = append(nodes, newNode)
-				if !fix[countDim] {
-					dim[countDim]++
-				}
+				count[countDim]++
 			}
 		} else {
 			token, err := readToken(rs)
 			if err != nil {
+				if err == io.EOF {
+					err = ErrTooShortTokens
+				}
 				return p.Null(), err
 			}
 			if token == "(" {
-				if !fix[countDim] {
-					dim[countDim]++
-				}
+				count[countDim]++
 				countDim++
 			} else if token == ")" {
-				fix[countDim] = true
-				countDim--
-				if countDim < 0 {
-					break
-				}
+				closed = true
 			} else {
 				return p.Null(), fmt.Errorf("array syntax error: %#v", token)
 			}
 		}
-	}
-	size := 1
-	for _, v := range dim {
-		size *= v
-	}
-	if len(nodes) < size {
-		return p.Null(), ErrTooFewArguments
-	} else if len(nodes) > size {
-		return p.Null(), ErrTooManyArguments
-	} else {
-		return p.Array(nodes, dim), nil
-		//&Array{
-		//	list: nodes,
-		//	dim:  dim,
-		//}, nil
+		if closed {
+			// all rows of a dimension have the same length
+			if !fix[countDim] {
+				fix[countDim] = true
+				dim[countDim] = count[countDim]
+			} else if count[countDim] < dim[countDim] {
+				return p.Null(), ErrTooFewArguments
+			} else if count[countDim] > dim[countDim] {
+				return p.Null(), ErrTooManyArguments
+			}
+			count[countDim] = 0
+			countDim--
+			if countDim < 0 {
+				return p.Array(nodes, dim), nil
+			}
+		}
 	}
 }
 
@@ -274,8 +273,8 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 	}
 	if m := rxArray.FindStringSubmatch(token); m != nil {
 		dim, err := strconv.Atoi(m[1])
-		if err != nil {
-			panic(err.Error())
+		if err != nil || dim < 1 || dim > maxArrayRank {
+			return p.Null(), fmt.Errorf("array syntax error: %#v", token)
 		}
 		return p.readArray(dim, rs)
 	}
-- 
2.43.0


From 944d69ccbd67583e06dc90c1528c0864979adc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:56 +0000
Subject: [PATCH 51/85] fix: |)| and |.| in lists are read as delimiters and
 malformed dot pairs are accepted

---
 pkg/parser/main.go | 97 +++++++++++++++++++++++++---------------------
 1 file changed, 52 insertions(+), 45 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 5b6815d..59ebabf 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -26,6 +26,7 @@ var (
 	ErrTooManyArguments  = errors.New("too many arguments")
 	ErrCanNotParseNumber = errors.New("can not parse number")
 	ErrTooShortTokens    = errors.New("too short tokens")
+	ErrDotPair           = errors.New("dot pair syntax error")
 )
 
 const maxArrayRank = 256
@@ -47,25 +48,7 @@ type Factory[N comparable] interface {
 type _Parser[N comparable] struct {
 	Factory[N]
 
-	dotSymbol        N
-	functionSymbol   N
-	parenCloseSymbol N
-}
-
-func (p *_Parser[N]) nodes2cons(nodes []N) N {
-	if nodes == nil || len(nodes) <= 0 {
-		return p.Null()
-	}
-	cons := p.Null()
-	if len(nodes) >= 3 && nodes[len(nodes)-2] == p.dotSymbol {
-		// dot pairs
-		cons = nodes[len(nodes)-1]
-		nodes = nodes[:len(nodes)-2]
-	}
-	for i := len(nodes) - 1; i >= 0; i-- {
-		cons = p.Cons(nodes[i], cons)
-	}
-	return cons
+	functionSymbol N
 }
 
 func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
@@ -77,15 +60,17 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 	for {
 		closed := false
 		if countDim == lenDim-1 {
-			newNode, err := p.ReadNode(rs)
+			newNode, delimiter, err := p.readNodeOrDelimiter(rs)
 			if err != nil {
 				if err == io.EOF {
 					err = ErrTooShortTokens
 				}
 				return p.Null(), err
 			}
-			if newNode == p.parenCloseSymbol {
+			if delimiter == ")" {
 				closed = true
+			} else if delimiter != "" {
+				return p.Null(), fmt.Errorf("array syntax error: %#v", delimiter)
 			} else {
 				nodes = append(nodes, newNode)
 				count[countDim]++
@@ -194,40 +179,68 @@ func (p *_Parser[N]) tryParseAsNumber(token string) (N, bool, error) {
 	return p.Null(), false, nil
 }
 
-func (p *_Parser[N]) readUntilCloseParen(rs io.RuneScanner) ([]N, error) {
+// readList reads nodes until the close parenthesis
+func (p *_Parser[N]) readList(rs io.RuneScanner) (N, error) {
 	nodes := []N{}
-	var err error
+	tail := p.Null()
+	dotAt := -1
 	for {
+		node1, delimiter, err := p.readNodeOrDelimiter(rs)
 		if err != nil {
 			if err == io.EOF {
-				return nil, ErrTooShortTokens
+				err = ErrTooShortTokens
 			}
-			return nil, err
+			return p.Null(), err
 		}
-		var node1 N
-		node1, err = p.ReadNode(rs)
-		if err != nil {
-			if err == io.EOF {
-				return nil, ErrTooShortTokens
-			}
-			return nil, err
+		if delimiter == ")" {
+			break
 		}
-		if node1 == p.parenCloseSymbol {
-			return nodes, nil
+		if delimiter == "." {
+			if dotAt >= 0 || len(nodes) < 1 {
+				return p.Null(), ErrDotPair
+			}
+			dotAt = len(nodes)
+			continue
 		}
 		nodes = append(nodes, node1)
 	}
+	if dotAt >= 0 {
+		if len(nodes) != dotAt+1 {
+			return p.Null(), ErrDotPair
+		}
+		tail = nodes[dotAt]
+		nodes = nodes[:dotAt]
+	}
+	for i := len(nodes) - 1; i >= 0; i-- {
+		tail = p.Cons(nodes[i], tail)
+	}
+	return tail, nil
 }
 
 var symbol4barReplacer = strings.NewReplacer(
 	`\\`, `\`,
 	`\|`, `|`)
 
-func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
+// readNodeOrDelimiter reads one node. When the token is a delimiter
+// (")" or ".") of a list or an array, it returns the token.
+func (p *_Parser[N]) readNodeOrDelimiter(rs io.RuneScanner) (N, string, error) {
 	token, err := readToken(rs)
 	if err != nil {
-		return p.Null(), err
+		return p.Null(), "", err
 	}
+	if token == ")" || token == "." {
+		return p.Symbol(token), token, nil
+	}
+	node, err := p.tokenToNode(token, rs)
+	return node, "", err
+}
+
+func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
+	node, _, err := p.readNodeOrDelimiter(rs)
+	return node, err
+}
+
+func (p *_Parser[N]) tokenToNode(token string, rs io.RuneScanner) (N, error) {
 	if token == "`" {
 		quoted, err := p.ReadNode(rs)
 		if err != nil {
@@ -279,11 +292,7 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 		return p.readArray(dim, rs)
 	}
 	if token == "(" {
-		nodes, err := p.readUntilCloseParen(rs)
-		if err != nil {
-			return p.Null(), err
-		}
-		return p.nodes2cons(nodes), nil
+		return p.readList(rs)
 	}
 	if len(token) > 0 && (token[0] == ':' || token[0] == '&') {
 		return p.Keyword(token), nil
@@ -357,10 +366,8 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 
 func newParser[N comparable](f Factory[N]) *_Parser[N] {
 	return &_Parser[N]{
-		Factory:          f,
-		dotSymbol:        f.Symbol("."),
-		functionSymbol:   f.Symbol("function"),
-		parenCloseSymbol: f.Symbol(")"),
+		Factory:        f,
+		functionSymbol: f.Symbol("function"),
 	}
 }
 
-- 
2.43.0


From 0a9efb2da964b2b3b556f50cb7e02ca39b4b9434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 52/85] fix: unterminated strings, symbols and block comments
 at the end of input are accepted or panic

---
 pkg/parser/main.go     |  2 +-
 pkg/parser/tokenize.go | 17 ++++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 59ebabf..36d473f 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -349,7 +349,7 @@ func (p *_Parser[N]) tokenToNode(token string, rs io.RuneScanner) (N, error) {
 		token = buffer.String()
 		return p.String(token), nil
 	}
-	if token[0] == '|' && token[len(token)-1] == '|' {
+	if len(token) >= 2 && token[0] == '|' && token[len(token)-1] == '|' {
 		return p.Symbol(symbol4barReplacer.Replace(token[1 : len(token)-1])), nil
 	}
 	if token[0] == ':' {
diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 66efd6f..d040d57 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -1,7 +1,6 @@
 package parser
 
 import (
-	"fmt"
 	"io"
 	"regexp"
 	"strings"
@@ -66,13 +65,19 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 	for {
 		lastRune, _, err := r.ReadRune()
 		if err != nil {
+			if err == io.EOF && (quote || bar4symbol) {
+				return "", ErrTooShortTokens
+			}
 			return buffer.String(), err
 		}
 
 		if lastRune == '\\' {
 			nextRune, _, err := r.ReadRune()
+			if err == io.EOF {
+				return "", ErrTooShortTokens
+			}
 			if err != nil {
-				return "", fmt.Errorf("too near EOF: %w", err)
+				return "", err
 			}
 			if nextRune == '\\' {
 				buffer.WriteString(`\\`)
@@ -88,7 +93,10 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 		if !quote && !bar4symbol {
 			if lastRune == '#' {
 				done, err := skipComment(r)
-				if err != nil {
+				if err == io.EOF && done {
+					return "", ErrTooShortTokens
+				}
+				if err != nil && err != io.EOF {
 					return "", err
 				}
 				if done {
@@ -147,5 +155,8 @@ func readToken(r io.RuneScanner) (string, error) {
 		if token != "" {
 			return token, nil
 		}
+		if err != nil {
+			return "", err
+		}
 	}
 }
-- 
2.43.0


From 081800e19ce6d1ae4e0f477158b6becadd9a8450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:06 +0000
Subject: [PATCH 53/85] fix: characters such as #\( are not readable, adjacent
 strings are merged into one

---
 pkg/parser/main.go     |  8 ++++++--
 pkg/parser/tokenize.go | 27 +++++++++++++++++++++++++--
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 36d473f..2699e17 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -302,7 +302,7 @@ func (p *_Parser[N]) tokenToNode(token string, rs io.RuneScanner) (N, error) {
 	}
 	if strings.HasPrefix(token, "#\\") {
 		var val rune
-		switch token[2:] {
+		switch strings.ToLower(token[2:]) {
 		case "tab":
 			val = '\t'
 		case "linefeed", "newline":
@@ -318,7 +318,11 @@ func (p *_Parser[N]) tokenToNode(token string, rs io.RuneScanner) (N, error) {
 					break
 				}
 			}
-			val, _ = utf8.DecodeRuneInString(token[2:])
+			var size int
+			val, size = utf8.DecodeRuneInString(token[2:])
+			if size != len(token[2:]) {
+				return p.Null(), fmt.Errorf("unknown character name: %s", token)
+			}
 		}
 		return p.Rune(val), nil
 	}
diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index d040d57..0fa343a 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -71,6 +71,24 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 			return buffer.String(), err
 		}
 
+		if lastRune == '\\' && !quote && !bar4symbol && buffer.String() == "#" {
+			// character: the next rune is read as is
+			nextRune, _, err := r.ReadRune()
+			if err != nil {
+				if err == io.EOF {
+					err = ErrTooShortTokens
+				}
+				return "", err
+			}
+			buffer.WriteRune(lastRune)
+			buffer.WriteRune(nextRune)
+			if !unicode.IsLetter(nextRune) {
+				return buffer.String(), nil
+			}
+			lastLastRune = nextRune
+			continue
+		}
+
 		if lastRune == '\\' {
 			nextRune, _, err := r.ReadRune()
 			if err == io.EOF {
@@ -107,13 +125,18 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 				buffer.WriteRune(lastRune)
 				return buffer.String(), nil
 			}
-			if lastRune == ')' || lastRune == '(' || lastRune == ';' || unicode.IsSpace(lastRune) {
+			if lastRune == ')' || lastRune == '(' || lastRune == ';' || unicode.IsSpace(lastRune) ||
+				(lastRune == '"' && buffer.Len() > 0) {
 				r.UnreadRune()
 				return buffer.String(), nil
 			}
 		}
-		if lastRune == '"' {
+		if !bar4symbol && lastRune == '"' {
 			quote = !quote
+			if !quote {
+				buffer.WriteRune(lastRune)
+				return buffer.String(), nil
+			}
 		}
 		if !quote && lastRune == '|' && lastLastRune != '\\' {
 			bar4symbol = !bar4symbol
-- 
2.43.0


From ff8342799fe82d7fe0d99a66fc287b70cd8a032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 54/85] fix: quote, backquote and comma do not terminate a
 token

---
 pkg/parser/tokenize.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 0fa343a..46769d5 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -126,7 +126,8 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 				return buffer.String(), nil
 			}
 			if lastRune == ')' || lastRune == '(' || lastRune == ';' || unicode.IsSpace(lastRune) ||
-				(lastRune == '"' && buffer.Len() > 0) {
+				(lastRune == '"' && buffer.Len() > 0) ||
+				(lastRune == '\'' && buffer.String() != "#") || lastRune == '`' || lastRune == ',' {
 				r.UnreadRune()
 				return buffer.String(), nil
 			}
-- 
2.43.0


From 6a2fa343295b82761c8f9e3868cd2ecb147b8790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 55/85] fix: floats lose precision when they are printed

---
 convert.go | 2 +-
 number.go  | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/convert.go b/convert.go
index de9224d..3a6447c 100644
--- a/convert.go
+++ b/convert.go
@@ -78,7 +78,7 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		case floatClass.name:
 			return val, nil
 		case stringClass.name:
-			return String(fmt.Sprintf("%f", float64(val))), nil
+			return String(val.String()), nil
 		}
 	case Integer:
 		switch class {
diff --git a/number.go b/number.go
index d797a49..eb1e1d1 100644
--- a/number.go
+++ b/number.go
@@ -5,6 +5,8 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+	"strconv"
+	"strings"
 )
 
 var numberClass = &_BuiltInClass{
@@ -177,7 +179,11 @@ func (Float) ClassOf() Class {
 }
 
 func (f Float) String() string {
-	return fmt.Sprintf("%f", float64(f))
+	s := strconv.FormatFloat(float64(f), 'g', -1, 64)
+	if !strings.ContainsAny(s, ".eIN") {
+		s += ".0"
+	}
+	return s
 }
 
 func (f Float) Equals(n Node, m EqlMode) bool {
-- 
2.43.0


From a0dc9fecd83d7a08d6a7fa17ec8df1279e88e1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 56/85] fix: strings and symbols are printed so that they are
 read back as others

---
 atom.go   | 27 +++++++++++++++++++++++++++
 string.go |  6 ++++--
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/atom.go b/atom.go
index 54e3452..db049a4 100644
--- a/atom.go
+++ b/atom.go
@@ -3,6 +3,7 @@ package gmnlisp
 import (
 	"context"
 	"fmt"
+	"strings"
 	"sync"
 	"unicode"
 )
@@ -149,6 +150,32 @@ func (s _Symbol) String() string {
 	return symbolManager.IdToName(s)
 }
 
+// GoString returns the name as the reader reads it. When the name would be
+// read as other than the symbol, it is enclosed with bars.
+func (s _Symbol) GoString() string {
+	name := s.String()
+	if isPlainSymbolName(name) {
+		return name
+	}
+	return "|" + symbolEscaper.Replace(name) + "|"
+}
+
+var symbolEscaper = strings.NewReplacer(`\`, `\\`, `|`, `\|`)
+
+func isPlainSymbolName(name string) bool {
+	if name == "" || name == "." || name[0] == ':' || name[0] == '&' || name[0] == '#' ||
+		strings.EqualFold(name, "t") || strings.EqualFold(name, "nil") {
+		return false
+	}
+	for _, c := range name {
+		if unicode.IsSpace(c) || strings.ContainsRune("()|\"';`,\\", c) {
+			return false
+		}
+	}
+	_, ok, _ := tryParseAsNumber(name)
+	return !ok
+}
+
 type Rune rune
 
 var characterClass = registerNewBuiltInClass[Rune]("<character>")
diff --git a/string.go b/string.go
index 5ec6bf8..349794f 100644
--- a/string.go
+++ b/string.go
@@ -2,7 +2,6 @@ package gmnlisp
 
 import (
 	"context"
-	"strconv"
 	"strings"
 	"unicode/utf8"
 )
@@ -20,9 +19,12 @@ func (s String) String() string {
 }
 
 func (s String) GoString() string {
-	return strconv.Quote(string(s))
+	return `"` + stringEscaper.Replace(string(s)) + `"`
 }
 
+// stringEscaper escapes characters as the reader unescapes
+var stringEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 func (s String) Equals(n Node, m EqlMode) bool {
 	ns, ok := n.(String)
 	if !ok {
-- 
2.43.0


From dbeab6beb7b9d8112503ab6acac857ef935eb2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 57/85] fix: a list with the symbol |,| is printed without a
 space

---
 cons.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cons.go b/cons.go
index c0935d5..7b63da2 100644
--- a/cons.go
+++ b/cons.go
@@ -85,7 +85,6 @@ func tryPrintTo(w io.Writer, node Node, m PrintMode) (int, error) {
 
 func (cons *Cons) writeToWithoutKakko(w io.Writer, m PrintMode) (int, error) {
 	var wc writeCounter
-	var lastCar Node = cons.Car
 	if IsNone(cons.Car) {
 		if wc.Try(io.WriteString(w, "nil")) {
 			return wc.Result()
@@ -101,10 +100,8 @@ func (cons *Cons) writeToWithoutKakko(w io.Writer, m PrintMode) (int, error) {
 			// output as ( X Y Z ...)
 
 			for p, ok := cons.Cdr.(*Cons); ok && IsSome(p); p, ok = p.Cdr.(*Cons) {
-				if lastCar != commaSymbol {
-					if wc.Try(io.WriteString(w, " ")) {
-						return wc.Result()
-					}
+				if wc.Try(io.WriteString(w, " ")) {
+					return wc.Result()
 				}
 				if IsNull(p.Car) {
 					if wc.Try(io.WriteString(w, "nil")) {
@@ -113,7 +110,6 @@ func (cons *Cons) writeToWithoutKakko(w io.Writer, m PrintMode) (int, error) {
 				} else if wc.Try(tryPrintTo(w, p.Car, m)) {
 					return wc.Result()
 				}
-				lastCar = p.Car
 			}
 		} else {
 			// output as ( X . Y )
-- 
2.43.0


From 920f39b371578512ba9822c9145920f1bcc7bc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 58/85] fix: for evaluates its initial values right to left and
 only the first result form

---
 embed/for.lsp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/embed/for.lsp b/embed/for.lsp
index ef367dc..0531cef 100644
--- a/embed/for.lsp
+++ b/embed/for.lsp
@@ -2,7 +2,7 @@
   (let ((inits nil)
         (steps '(psetq))
         (test (car test-result))
-        (result (elt test-result 1)))
+        (result (cons 'progn (cdr test-result))))
     (while iters
       (let* ((iteration-spec (car iters))
              (var (car iteration-spec))
@@ -13,6 +13,7 @@
             (setq steps (append steps (list var step))))))
         (setq iters (cdr iters))
       ) ; while
+    (setq inits (reverse inits))
     (if (> (length steps) 1)
       `(let ,inits (while (not ,test) ,@body ,steps) ,result)
       `(let ,inits (while (not ,test) ,@body) ,result))
-- 
2.43.0


From 7e8075707c56aee43ecc70914316fca77e824b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 59/85] fix: set-car, set-cdr and (setf (dynamic x)) do not
 yield the new value

---
 embed/set-dynamic.lsp | 4 +++-
 list.go               | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/embed/set-dynamic.lsp b/embed/set-dynamic.lsp
index b2f12f1..7fddfed 100644
--- a/embed/set-dynamic.lsp
+++ b/embed/set-dynamic.lsp
@@ -1,2 +1,4 @@
 (lambda-macro (newvalue name)
-  `(defdynamic ,name ,newvalue))
+  `(progn
+     (defdynamic ,name ,newvalue)
+     (dynamic ,name)))
diff --git a/list.go b/list.go
index 2a396a1..ee1dea7 100644
--- a/list.go
+++ b/list.go
@@ -143,7 +143,7 @@ func funSetCar(ctx context.Context, w *World, first, second Node) (Node, error)
 		return nil, err
 	}
 	cons.Car = first
-	return cons, nil
+	return first, nil
 }
 
 // funSetCdr implements (replacd X Y) == (setf (cdr X) Y) = (set-cdr Y X)
@@ -153,7 +153,7 @@ func funSetCdr(ctx context.Context, w *World, first, second Node) (Node, error)
 		return nil, err
 	}
 	cons.Cdr = first
-	return cons, nil
+	return first, nil
 }
 
 func funCreateList(ctx context.Context, w *World, argv []Node) (Node, error) {
-- 
2.43.0


From 62b25884e7f95eb2fb9ba521c334a855485771c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 60/85] fix: (setf (elt string)) fails and (setf (elt list))
 evaluates its operands several times

---
 embed/set-elt.lsp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/embed/set-elt.lsp b/embed/set-elt.lsp
index 156f99b..58f55a1 100644
--- a/embed/set-elt.lsp
+++ b/embed/set-elt.lsp
@@ -1,4 +1,9 @@
 (lambda-macro (newvalue seq &rest z)
-  `(if (basic-array-p ,seq)
-     (set-aref ,newvalue ,seq ,@z)
-     (setf ,seq (swap-elt ,newvalue ,seq ,@z))))
+  (let ((V (gensym)) (S (gensym)))
+    `(let ((,V ,newvalue) (,S ,seq))
+       (if (stringp ,S)
+         (setf ,seq (swap-elt ,V ,S ,@z))
+         (if (basic-array-p ,S)
+           (set-aref ,V ,S ,@z)
+           (swap-elt ,V ,S ,@z)))
+       ,V)))
-- 
2.43.0


From b4708cdf83f1350bbe96bdb90ba7d6b40baf5155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 61/85] fix: an error in a handler calls the same handler again
 and passes through ignore-errors

---
 error.go | 11 ++++++++++-
 progn.go |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/error.go b/error.go
index 1762e95..cf150d0 100644
--- a/error.go
+++ b/error.go
@@ -154,12 +154,17 @@ func (e *_ErrSignaled) Unwrap() error { return e.err }
 // isSignaled returns true when no handler has to be called with `err` (any more)
 func isSignaled(err error) bool {
 	var signaled *_ErrSignaled
+	return errors.As(err, &signaled) || isExit(err)
+}
+
+// isExit returns true when `err` is not an error but a transfer of control
+func isExit(err error) bool {
 	var e1 *_ErrEarlyReturns // block & return-from
 	var e2 *_ErrThrown       // catch & throw
 	var e3 *_ErrTagBody      // tagbody & go
 	var e4 *_ErrContinueCondition
 	var e5 *_ErrTailRecOpt
-	return errors.As(err, &signaled) || errors.As(err, &e1) || errors.As(err, &e2) ||
+	return errors.As(err, &e1) || errors.As(err, &e2) ||
 		errors.As(err, &e3) || errors.As(err, &e4) || errors.As(err, &e5)
 }
 
@@ -184,6 +189,10 @@ func (w *World) signal(ctx context.Context, cont bool, condition Node) (Node, bo
 			}
 			_, err = raiseControlError(ctx, w, errors.New("condition is not continuable"))
 		}
+		if !isSignaled(err) {
+			// the handlers in force for the error are the outer ones only
+			err = &_ErrSignaled{err: err}
+		}
 		return nil, false, err
 	}
 	return nil, false, nil
diff --git a/progn.go b/progn.go
index d502053..655dd6e 100644
--- a/progn.go
+++ b/progn.go
@@ -439,7 +439,7 @@ func cmdIgnoreErrors(ctx context.Context, w *World, n Node) (Node, error) {
 
 	val, err := Progn(ctx, w, n)
 	if err != nil {
-		if isSignaled(err) || errors.Is(err, ErrQuit) || errors.Is(err, ErrAbort) || checkContext(ctx) != nil {
+		if isExit(err) || errors.Is(err, ErrQuit) || errors.Is(err, ErrAbort) || checkContext(ctx) != nil {
 			return nil, err
 		}
 		return Null, nil
-- 
2.43.0


From d9cbae5e07554aa7d0c69d2dbd1d900711aa1cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:40 +0000
Subject: [PATCH 62/85] fix: (+) and (*) without arguments yield nil instead of
 0 and 1

---
 operator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/operator.go b/operator.go
index a2df3f6..c838fb2 100644
--- a/operator.go
+++ b/operator.go
@@ -26,6 +26,9 @@ type canPlus interface {
 }
 
 func funAdd(ctx context.Context, w *World, args []Node) (Node, error) {
+	if len(args) <= 0 {
+		return Integer(0), nil
+	}
 	return inject(args, func(left, right Node) (Node, error) {
 		if _left, ok := left.(canPlus); ok {
 			return _left.Add(ctx, w, right)
@@ -65,6 +68,9 @@ func funMulti(ctx context.Context, w *World, args []Node) (Node, error) {
 		Node
 		Multi(context.Context, *World, Node) (Node, error)
 	}
+	if len(args) <= 0 {
+		return Integer(1), nil
+	}
 	return inject(args, func(left, right Node) (Node, error) {
 		if _left, ok := left.(CanMulti); ok {
 			return _left.Multi(ctx, w, right)
-- 
2.43.0


From 83775e249171c5a5fc82cf0fe013822370a96b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:12 +0000
Subject: [PATCH 63/85] fix: (quit) and (abort) call the handlers of
 with-handler as if they were errors

---
 error.go | 4 +++-
 progn.go | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/error.go b/error.go
index cf150d0..7cbbe69 100644
--- a/error.go
+++ b/error.go
@@ -158,6 +158,7 @@ func isSignaled(err error) bool {
 }
 
 // isExit returns true when `err` is not an error but a transfer of control
+// or the end of the program
 func isExit(err error) bool {
 	var e1 *_ErrEarlyReturns // block & return-from
 	var e2 *_ErrThrown       // catch & throw
@@ -165,7 +166,8 @@ func isExit(err error) bool {
 	var e4 *_ErrContinueCondition
 	var e5 *_ErrTailRecOpt
 	return errors.As(err, &e1) || errors.As(err, &e2) ||
-		errors.As(err, &e3) || errors.As(err, &e4) || errors.As(err, &e5)
+		errors.As(err, &e3) || errors.As(err, &e4) || errors.As(err, &e5) ||
+		errors.Is(err, ErrQuit) || errors.Is(err, ErrAbort)
 }
 
 // signal calls the active handlers with `condition`, from the innermost to the outermost,
diff --git a/progn.go b/progn.go
index 655dd6e..9b9208f 100644
--- a/progn.go
+++ b/progn.go
@@ -439,7 +439,7 @@ func cmdIgnoreErrors(ctx context.Context, w *World, n Node) (Node, error) {
 
 	val, err := Progn(ctx, w, n)
 	if err != nil {
-		if isExit(err) || errors.Is(err, ErrQuit) || errors.Is(err, ErrAbort) || checkContext(ctx) != nil {
+		if isExit(err) || checkContext(ctx) != nil {
 			return nil, err
 		}
 		return Null, nil
-- 
2.43.0


From 74b36ecd71edb86852afa21469930609f11b9b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:16 +0000
Subject: [PATCH 64/85] fix: an error given as a condition does not satisfy
 errors.Is of the original error

---
 progn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/progn.go b/progn.go
index 9b9208f..5e8f14c 100644
--- a/progn.go
+++ b/progn.go
@@ -313,6 +313,10 @@ func (e ErrorNode) Error() string {
 	return e.Value.Error()
 }
 
+func (e ErrorNode) Unwrap() error {
+	return e.Value
+}
+
 func raiseError(ctx context.Context, w *World, e error) (Node, error) {
 	if _, ok := e.(interface{ ClassOf() Class }); ok {
 		return nil, e
-- 
2.43.0


From 100615c64da7b88cd28c23e0abaad2a31b28c20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:29 +0000
Subject: [PATCH 65/85] fix: -, /, comparisons, mapping functions and
 string-index accept wrong numbers of arguments

---
 world.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/world.go b/world.go
index 8807fd0..f10177b 100644
--- a/world.go
+++ b/world.go
@@ -299,14 +299,14 @@ var autoLoadFunc = Functions{
 	// *sort*start*
 	NewSymbol("*"):                              &Function{F: funMulti},
 	NewSymbol("+"):                              &Function{F: funAdd},
-	NewSymbol("-"):                              &Function{F: funSub},
-	NewSymbol("/"):                              &Function{F: funDevide},
+	NewSymbol("-"):                              &Function{Min: 1, F: funSub},
+	NewSymbol("/"):                              &Function{Min: 1, F: funDevide},
 	NewSymbol("/="):                             &Function{C: 2, F: funNotEqual},
-	NewSymbol("<"):                              &Function{F: funLessThan},
-	NewSymbol("<="):                             &Function{F: funLessOrEqual},
-	NewSymbol("="):                              &Function{F: funEqualOp},
-	NewSymbol(">"):                              &Function{F: funGreaterThan},
-	NewSymbol(">="):                             &Function{F: funGreaterOrEqual},
+	NewSymbol("<"):                              &Function{Min: 1, F: funLessThan},
+	NewSymbol("<="):                             &Function{Min: 1, F: funLessOrEqual},
+	NewSymbol("="):                              &Function{Min: 1, F: funEqualOp},
+	NewSymbol(">"):                              &Function{Min: 1, F: funGreaterThan},
+	NewSymbol(">="):                             &Function{Min: 1, F: funGreaterOrEqual},
 	NewSymbol("abort"):                          Function0(funAbort),
 	NewSymbol("and"):                            SpecialF(cmdAnd),
 	NewSymbol("append"):                         &Function{F: funAppend},
@@ -411,12 +411,12 @@ var autoLoadFunc = Functions{
 	NewSymbol("load"):                           Function1(funLoad),
 	NewSymbol("macroexpand"):                    Function1(funMacroExpand),
 	NewSymbol("make-hash-table"):                Function0(funMakeHashTable),
-	NewSymbol("mapc"):                           &Function{F: funMapC},
-	NewSymbol("mapcan"):                         &Function{F: funMapCan},
-	NewSymbol("mapcar"):                         &Function{F: funMapCar},
-	NewSymbol("mapcon"):                         &Function{F: funMapCon},
-	NewSymbol("mapl"):                           &Function{F: funMapL},
-	NewSymbol("maplist"):                        &Function{F: funMapList},
+	NewSymbol("mapc"):                           &Function{Min: 2, F: funMapC},
+	NewSymbol("mapcan"):                         &Function{Min: 2, F: funMapCan},
+	NewSymbol("mapcar"):                         &Function{Min: 2, F: funMapCar},
+	NewSymbol("mapcon"):                         &Function{Min: 2, F: funMapCon},
+	NewSymbol("mapl"):                           &Function{Min: 2, F: funMapL},
+	NewSymbol("maplist"):                        &Function{Min: 2, F: funMapList},
 	NewSymbol("member"):                         Function2(funMember),
 	NewSymbol("minusp"):                         Function1(funMinusp),
 	NewSymbol("mod"):                            Function2(funMod),
@@ -456,7 +456,7 @@ var autoLoadFunc = Functions{
 	NewSymbol("standard-input"):                 Function0(funStandardInput),
 	NewSymbol("standard-output"):                Function0(funStandardOutput),
 	NewSymbol("string-append"):                  &Function{F: funStringAppend},
-	NewSymbol("string-index"):                   &Function{F: funStringIndex},
+	NewSymbol("string-index"):                   &Function{Min: 2, Max: 3, F: funStringIndex},
 	NewSymbol("string/="):                       &Function{C: 2, F: funStringNe},
 	NewSymbol("string<"):                        &Function{C: 2, F: funStringLt},
 	NewSymbol("string<="):                       &Function{C: 2, F: funStringLe},
-- 
2.43.0


From 69b96929b320f387c6611b03cf73b44a44e615c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 66/85] fix: integers with a plus sign and radix integers with
 a sign are read as symbols

---
 pkg/parser/main.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 2699e17..c3497fa 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -14,10 +14,10 @@ import (
 var (
 	rxFloat1     = regexp.MustCompile(`^[\-\+]?[0-9]+\.[0-9]*([eE][\-\+]?\d+)?$`)
 	rxFloat2     = regexp.MustCompile(`^[\-\+]?[0-9]+[eE][-+]?\d+$`)
-	rxInteger    = regexp.MustCompile(`^-?[0-9]+$`)
-	rxHexInteger = regexp.MustCompile(`^\#[Xx][0-9A-Fa-f]+$`)
-	rxOctInteger = regexp.MustCompile(`^\#[Oo][0-7]+$`)
-	rxBinInteger = regexp.MustCompile(`^\#[Bb][01]+$`)
+	rxInteger    = regexp.MustCompile(`^[\-\+]?[0-9]+$`)
+	rxHexInteger = regexp.MustCompile(`^\#[Xx][\-\+]?[0-9A-Fa-f]+$`)
+	rxOctInteger = regexp.MustCompile(`^\#[Oo][\-\+]?[0-7]+$`)
+	rxBinInteger = regexp.MustCompile(`^\#[Bb][\-\+]?[01]+$`)
 	rxArray      = regexp.MustCompile(`^#(\d*)[aA]\(`)
 )
 
-- 
2.43.0


From a6e5fcd008f911d0b39e041a4c3c808f443826a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 67/85] fix: ) and . outside of a list are read as symbols

---
 pkg/parser/main.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index c3497fa..a8ab643 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -27,6 +27,7 @@ var (
 	ErrCanNotParseNumber = errors.New("can not parse number")
 	ErrTooShortTokens    = errors.New("too short tokens")
 	ErrDotPair           = errors.New("dot pair syntax error")
+	ErrUnexpectedClose   = errors.New("unexpected close parenthesis")
 )
 
 const maxArrayRank = 256
@@ -229,14 +230,20 @@ func (p *_Parser[N]) readNodeOrDelimiter(rs io.RuneScanner) (N, string, error) {
 		return p.Null(), "", err
 	}
 	if token == ")" || token == "." {
-		return p.Symbol(token), token, nil
+		return p.Null(), token, nil
 	}
 	node, err := p.tokenToNode(token, rs)
 	return node, "", err
 }
 
 func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
-	node, _, err := p.readNodeOrDelimiter(rs)
+	node, delimiter, err := p.readNodeOrDelimiter(rs)
+	if err == nil && delimiter == ")" {
+		return p.Null(), ErrUnexpectedClose
+	}
+	if err == nil && delimiter == "." {
+		return p.Null(), ErrDotPair
+	}
 	return node, err
 }
 
-- 
2.43.0


From e9211696223e41c52ce1325ce1ec26c87c9772c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 68/85] fix: |#'| is not read as one symbol

---
 pkg/parser/tokenize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 46769d5..56aa744 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -145,7 +145,7 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 
 		buffer.WriteRune(lastRune)
 
-		if !quote && lastLastRune == '#' && lastRune == '\'' {
+		if !quote && !bar4symbol && lastLastRune == '#' && lastRune == '\'' {
 			return buffer.String(), err
 		}
 		lastLastRune = lastRune
-- 
2.43.0


From 09066fd5d214bf0578bb129f5890ce4c4f1556f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 69/85] fix: the width of ~A and ~S counts the prefix of arrays

---
 array.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/array.go b/array.go
index ed72e8f..07a87a6 100644
--- a/array.go
+++ b/array.go
@@ -89,8 +89,8 @@ func (A *Array) PrintTo(w io.Writer, mode PrintMode) (int, error) {
 	if err != nil {
 		return n, err
 	}
-	_, n, err = A.printTo(w, mode, A.list, A.dim)
-	return n, err
+	_, _n, err := A.printTo(w, mode, A.list, A.dim)
+	return n + _n, err
 }
 
 func (t Array) String() string {
-- 
2.43.0


From 0fdd943a26abc32018c5054928139507d872c006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 70/85] fix: format pads numbers with any character

---
 format.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format.go b/format.go
index 289768b..6292b28 100644
--- a/format.go
+++ b/format.go
@@ -14,7 +14,7 @@ type runeWriter interface {
 	WriteRune(r rune) (int, error)
 }
 
-func printInt(w io.Writer, value Node, base int, args ...int) error {
+func printInt(w runeWriter, value Node, base int, args ...int) error {
 	if base < 2 || base > 36 {
 		return errors.New("domain error")
 	}
@@ -43,7 +43,7 @@ func printInt(w io.Writer, value Node, base int, args ...int) error {
 			padding = ' '
 		}
 		for i := len(body); i < width; i++ {
-			w.Write([]byte{byte(padding)})
+			w.WriteRune(rune(padding))
 		}
 	}
 	io.WriteString(w, strings.ToUpper(body))
-- 
2.43.0


From da3eb1949fa8124fd751fd7ed1178acfba141b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 71/85] fix: the width of ~A and ~S counts characters, not
 bytes

---
 format.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/format.go b/format.go
index 6292b28..bd83a82 100644
--- a/format.go
+++ b/format.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 type runeWriter interface {
@@ -117,6 +118,19 @@ func funFormatFloat(_ context.Context, w *World, args []Node) (Node, error) {
 	})
 }
 
+func printObject(w io.Writer, value Node, mode PrintMode, args ...int) error {
+	var buffer strings.Builder
+	_, err := tryPrintTo(&buffer, value, mode)
+	body := buffer.String()
+	if _, err1 := io.WriteString(w, body); err == nil {
+		err = err1
+	}
+	if err == nil && len(args) >= 1 {
+		printSpaces(args[0]-utf8.RuneCountInString(body), w)
+	}
+	return err
+}
+
 func printSpaces(n int, w io.Writer) {
 	for n > 0 {
 		w.Write([]byte{' '})
@@ -274,21 +288,9 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 		case 'g', 'G':
 			err = printFloat(w, value, 'g', parameter...)
 		case 'a', 'A':
-			n, err := tryPrintTo(w, value, PRINC)
-			if err != nil {
-				return err
-			}
-			if len(parameter) >= 1 {
-				printSpaces(parameter[0]-n, w)
-			}
+			err = printObject(w, value, PRINC, parameter...)
 		case 's', 'S':
-			n, err := tryPrintTo(w, value, PRINT)
-			if err != nil {
-				return err
-			}
-			if len(parameter) >= 1 {
-				printSpaces(parameter[0]-n, w)
-			}
+			err = printObject(w, value, PRINT, parameter...)
 		default:
 			err = fmt.Errorf("not support code '%c'", c)
 		}
-- 
2.43.0


From 00e12c210e5427ed799360e9f316144f85ad47ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:08 +0000
Subject: [PATCH 72/85] fix: an error in a cleanup form or below ignore-errors
 does not replace the cancellation of the context

---
 progn.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/progn.go b/progn.go
index 5e8f14c..8ca685c 100644
--- a/progn.go
+++ b/progn.go
@@ -330,6 +330,9 @@ func cmdUnwindProtect(ctx context.Context, w *World, list Node) (Node, error) {
 
 	_, err := Progn(ctx, w, list)
 	if err != nil {
+		if ctxErr := checkContext(ctx); ctxErr != nil {
+			return nil, ctxErr
+		}
 		var e1 *_ErrEarlyReturns // block & return-from
 		var e2 *_ErrThrown       // catch & throw
 		var e3 *_ErrTagBody      // tagbody & go
@@ -443,9 +446,12 @@ func cmdIgnoreErrors(ctx context.Context, w *World, n Node) (Node, error) {
 
 	val, err := Progn(ctx, w, n)
 	if err != nil {
-		if isExit(err) || checkContext(ctx) != nil {
+		if isExit(err) {
 			return nil, err
 		}
+		if ctxErr := checkContext(ctx); ctxErr != nil {
+			return nil, ctxErr
+		}
 		return Null, nil
 	}
 	return val, nil
-- 
2.43.0


From a3a402a5d99397795bc233b0577339b597c555f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:20 +0000
Subject: [PATCH 73/85] fix: (command) without arguments is an error

---
 pkg/command/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/command/main.go b/pkg/command/main.go
index 017d875..1587beb 100644
--- a/pkg/command/main.go
+++ b/pkg/command/main.go
@@ -9,7 +9,7 @@ import (
 )
 
 func init() {
-	gmnlisp.Export(gmnlisp.NewSymbol("command"), &gmnlisp.Function{F: funCommand})
+	gmnlisp.Export(gmnlisp.NewSymbol("command"), &gmnlisp.Function{Min: 1, F: funCommand})
 }
 
 func funCommand(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gmnlisp.Node, error) {
-- 
2.43.0


From e54483492c35ce96d3099309507f85976ea35825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:20 +0000
Subject: [PATCH 74/85] fix: (wildcard) without arguments is an error, and no
 match is the empty list

---
 pkg/wildcard/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/wildcard/main.go b/pkg/wildcard/main.go
index 8427462..b5cb1b5 100644
--- a/pkg/wildcard/main.go
+++ b/pkg/wildcard/main.go
@@ -9,7 +9,7 @@ import (
 )
 
 func init() {
-	gmnlisp.Export(gmnlisp.NewSymbol("wildcard"), &gmnlisp.Function{F: funWildcard})
+	gmnlisp.Export(gmnlisp.NewSymbol("wildcard"), &gmnlisp.Function{C: 1, F: funWildcard})
 }
 
 func funWildcard(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gmnlisp.Node, error) {
@@ -21,7 +21,7 @@ func funWildcard(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gm
 	if err != nil {
 		return nil, fmt.Errorf("%w: %#v", err, pattern)
 	}
-	var result gmnlisp.Node
+	var result gmnlisp.Node = gmnlisp.Null
 	for i := len(files) - 1; i >= 0; i-- {
 		result = &gmnlisp.Cons{
 			Car: gmnlisp.String(files[i]),
-- 
2.43.0


From 9f34af683bbee3a730756f5fa186c2872a4ffae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:20 +0000
Subject: [PATCH 75/85] fix: Worlds running concurrently can use =~

---
 pkg/regexp/main.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/regexp/main.go b/pkg/regexp/main.go
index 9e3c3f7..a942b3f 100644
--- a/pkg/regexp/main.go
+++ b/pkg/regexp/main.go
@@ -3,6 +3,7 @@ package regexp
 import (
 	"context"
 	"regexp"
+	"sync"
 
 	. "github.com/hymkor/gmnlisp"
 )
@@ -12,7 +13,8 @@ func init() {
 	Export(NewSymbol("=~i"), &Function{C: 2, F: funFindAllStringSubmatchIndex})
 }
 
-var regexpCache = map[string]*regexp.Regexp{}
+// regexpCache is shared by all Worlds
+var regexpCache sync.Map
 
 func getRegexpParam(ctx context.Context, w *World, list []Node) (*regexp.Regexp, string, error) {
 	_pattern, err := ExpectClass[String](ctx, w, list[0])
@@ -20,14 +22,16 @@ func getRegexpParam(ctx context.Context, w *World, list []Node) (*regexp.Regexp,
 		return nil, "", err
 	}
 	pattern := _pattern.String()
-	reg, ok := regexpCache[pattern]
+	cached, ok := regexpCache.Load(pattern)
 	if !ok {
-		var err error
-		reg, err = regexp.Compile(pattern)
+		compiled, err := regexp.Compile(pattern)
 		if err != nil {
 			return nil, "", MakeError(err, pattern)
 		}
+		regexpCache.Store(pattern, compiled)
+		cached = compiled
 	}
+	reg := cached.(*regexp.Regexp)
 	str, err := ExpectClass[String](ctx, w, list[1])
 	if err != nil {
 		return nil, "", err
-- 
2.43.0


From 798423a248251c0d740273e6e6e3460836e6338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 76/85] fix: creating an instance of <arithmetic-error>,
 <hashtable>, <function> and other built-in classes made objects which crash
 the process

---
 functionref.go |  2 +-
 hash.go        |  2 +-
 macro.go       |  4 ++--
 newtypes.go    | 10 +++++-----
 number.go      |  2 +-
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/functionref.go b/functionref.go
index f1edf11..34d1be2 100644
--- a/functionref.go
+++ b/functionref.go
@@ -11,7 +11,7 @@ type FunctionRef struct {
 	value Callable
 }
 
-var functionRefClassObject = registerNewBuiltInClass[FunctionRef]("<function>")
+var functionRefClassObject = registerNewAbstractClass[FunctionRef]("<function>")
 
 func (f FunctionRef) ClassOf() Class {
 	return functionRefClassObject
diff --git a/hash.go b/hash.go
index e330e0c..59add5d 100644
--- a/hash.go
+++ b/hash.go
@@ -26,7 +26,7 @@ func (h _Hash) PrintTo(w io.Writer, mode PrintMode) (int, error) {
 	return wc.Result()
 }
 
-var hashClass = registerNewBuiltInClass[_Hash]("<hashtable>")
+var hashClass = registerNewAbstractClass[_Hash]("<hashtable>")
 
 func (_Hash) ClassOf() Class {
 	return hashClass
diff --git a/macro.go b/macro.go
index 96488c3..4113e95 100644
--- a/macro.go
+++ b/macro.go
@@ -17,7 +17,7 @@ type _Macro struct {
 	lexical *World
 }
 
-var macroClass = registerNewBuiltInClass[*_Macro]("<macro>")
+var macroClass = registerNewAbstractClass[*_Macro]("<macro>")
 
 func (*_Macro) ClassOf() Class {
 	return macroClass
@@ -25,7 +25,7 @@ func (*_Macro) ClassOf() Class {
 
 type _JoinedForm []Node
 
-var joinedFormClass = registerNewBuiltInClass[_JoinedForm]("<joined-form>")
+var joinedFormClass = registerNewAbstractClass[_JoinedForm]("<joined-form>")
 
 func (_JoinedForm) ClassOf() Class {
 	return joinedFormClass
diff --git a/newtypes.go b/newtypes.go
index 41f0ec6..501a44a 100644
--- a/newtypes.go
+++ b/newtypes.go
@@ -1,6 +1,6 @@
 package gmnlisp
 
-var stringBuilderClass = registerNewBuiltInClass[*StringBuilder]("<string-builder>")
+var stringBuilderClass = registerNewAbstractClass[*StringBuilder]("<string-builder>")
 
 func (*StringBuilder) ClassOf() Class {
 	return stringBuilderClass
@@ -10,7 +10,7 @@ func (t *StringBuilder) Equals(Node, EqlMode) bool {
 	return false
 }
 
-var inputStreamClass = registerNewBuiltInClass[*inputStream]("<input-stream>")
+var inputStreamClass = registerNewAbstractClass[*inputStream]("<input-stream>")
 
 func (t *inputStream) ClassOf() Class {
 	return inputStreamClass
@@ -24,7 +24,7 @@ func (t *inputStream) String() string {
 	return "(*inputStream)"
 }
 
-var outputFileStreamClass = registerNewBuiltInClass[*_OutputFileStream]("<output-file-stream>")
+var outputFileStreamClass = registerNewAbstractClass[*_OutputFileStream]("<output-file-stream>")
 
 func (*_OutputFileStream) ClassOf() Class {
 	return outputFileStreamClass
@@ -46,7 +46,7 @@ func (t *_Macro) String() string {
 	return "(*_Macro)"
 }
 
-var readerNodeClass = registerNewBuiltInClass[_ReaderNode]("<reader>")
+var readerNodeClass = registerNewAbstractClass[_ReaderNode]("<reader>")
 
 func (_ReaderNode) ClassOf() Class {
 	return readerNodeClass
@@ -60,7 +60,7 @@ func (t _ReaderNode) String() string {
 	return "(_ReaderNode)"
 }
 
-var writerNodeClass = registerNewBuiltInClass[_WriterNode]("<_WriterNode>")
+var writerNodeClass = registerNewAbstractClass[_WriterNode]("<_WriterNode>")
 
 func (_WriterNode) ClassOf() Class {
 	return writerNodeClass
diff --git a/number.go b/number.go
index eb1e1d1..034f04d 100644
--- a/number.go
+++ b/number.go
@@ -83,7 +83,7 @@ type ArithmeticError struct {
 	Class     Class
 }
 
-var arithmeticErrorClass = registerNewBuiltInClass[*ArithmeticError]("<arithmetic-error>", errorClass)
+var arithmeticErrorClass = registerNewAbstractClass[*ArithmeticError]("<arithmetic-error>", errorClass)
 
 func (e *ArithmeticError) ClassOf() Class {
 	if e != nil && e.Class != nil {
-- 
2.43.0


From 1b030e1dd1b6527f589673db702fc3c85a192931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:10 +0000
Subject: [PATCH 77/85] fix: mapcar, mapc, mapcan, maplist, mapl and mapcon
 evaluated the value of their function argument again

---
 sequence.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/sequence.go b/sequence.go
index 8bc6beb..0739a11 100644
--- a/sequence.go
+++ b/sequence.go
@@ -150,11 +150,7 @@ func funLength(ctx context.Context, w *World, arg Node) (Node, error) {
 }
 
 func MapCar(ctx context.Context, w *World, funcNode Node, sourceSet []Node, store func(Node)) error {
-	f, err := w.Eval(ctx, funcNode)
-	if err != nil {
-		return err
-	}
-	_f, err := ExpectFunction(ctx, w, f)
+	_f, err := ExpectFunction(ctx, w, funcNode)
 	if err != nil {
 		return err
 	}
@@ -230,11 +226,7 @@ func listToQuotedList(list []Node) Node {
 }
 
 func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, store func(Node)) error {
-	f, err := w.Eval(ctx, funcNode)
-	if err != nil {
-		return err
-	}
-	_f, err := ExpectFunction(ctx, w, f)
+	_f, err := ExpectFunction(ctx, w, funcNode)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 0a94798cdf87f8e595f449578656eef66945b965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 78/85] fix: sqrt refused integers and gave NaN for a negative
 number

---
 number.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/number.go b/number.go
index 034f04d..05ede64 100644
--- a/number.go
+++ b/number.go
@@ -261,12 +261,23 @@ func (f Float) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
 }
 
 func funSqrt(ctx context.Context, w *World, arg Node) (Node, error) {
-	n, err := ExpectClass[Float](ctx, w, arg)
-	if err != nil {
-		return nil, err
+	var n Float
+	if i, ok := arg.(Integer); ok {
+		n = Float(i)
+	} else {
+		var err error
+		n, err = ExpectClass[Float](ctx, w, arg)
+		if err != nil {
+			return nil, err
+		}
+	}
+	if n < 0 {
+		return callHandler[Node](ctx, w, false, &DomainError{
+			Object:        arg,
+			ExpectedClass: numberClass,
+		})
 	}
-	v := math.Sqrt(float64(n))
-	return Float(v), nil
+	return Float(math.Sqrt(float64(n))), nil
 }
 
 type BigInt struct {
-- 
2.43.0


From 07d17a2f24fb969f72cdac8fc8a0f190e678e62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 79/85] fix: a parameter list with parameters after the rest
 parameter is accepted and they shift

---
 lambda.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lambda.go b/lambda.go
index 90e0cae..f629d38 100644
--- a/lambda.go
+++ b/lambda.go
@@ -61,6 +61,10 @@ func getParameterList(ctx context.Context, w *World, node Node) (*_Parameters, e
 				return nil, err
 			}
 			dupCheck[rest] = struct{}{}
+			if IsSome(list) {
+				_, err = raiseError(ctx, w, fmt.Errorf("%s: no parameter may follow the rest parameter", rest.String()))
+				return nil, err
+			}
 		} else {
 			nameSymbol, err := ExpectSymbol(ctx, w, nameNode)
 			if err != nil {
-- 
2.43.0


From 30d40278eec45be9042ed7615f22d9dd6b1de334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 80/85] fix: an exit out of the handler of a bad parameter list
 signals a second error

---
 lambda.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lambda.go b/lambda.go
index f629d38..b3c019d 100644
--- a/lambda.go
+++ b/lambda.go
@@ -21,7 +21,7 @@ type _Lambda struct {
 func cmdLambda(ctx context.Context, w *World, node Node) (Node, error) {
 	value, err := newLambda(ctx, w, node, nulSymbol)
 	if err != nil {
-		return raiseProgramError(ctx, w, err)
+		return nil, err
 	}
 	return FunctionRef{value: value}, err
 }
@@ -35,6 +35,7 @@ type _Parameters struct {
 func getParameterList(ctx context.Context, w *World, node Node) (*_Parameters, error) {
 	list, code, err := Shift(node)
 	if err != nil {
+		_, err = raiseProgramError(ctx, w, err)
 		return nil, err
 	}
 	dupCheck := make(map[Symbol]struct{})
@@ -45,11 +46,13 @@ func getParameterList(ctx context.Context, w *World, node Node) (*_Parameters, e
 
 		nameNode, list, err = Shift(list)
 		if err != nil {
+			_, err = raiseProgramError(ctx, w, err)
 			return nil, err
 		}
 		if nameNode == ampRest || nameNode == colonRest {
 			nameNode, list, err = Shift(list)
 			if err != nil {
+				_, err = raiseProgramError(ctx, w, err)
 				return nil, err
 			}
 			rest, err = ExpectSymbol(ctx, w, nameNode)
-- 
2.43.0


From e52bb9275009651d40dd193f6370eef7948002d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:06 +0000
Subject: [PATCH 81/85] fix: a failing macro expansion in a function body
 concerns the handlers in force where the function is made

---
 lambda.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lambda.go b/lambda.go
index b3c019d..0a67e00 100644
--- a/lambda.go
+++ b/lambda.go
@@ -121,9 +121,13 @@ func expandMacroOne(ctx context.Context, w *World, value Node) Node {
 			return nil
 		}
 	}
+	// when the expansion fails, the form is expanded again where it is evaluated:
+	// the error is reported there and does not concern the handlers in force here
+	saved := w.handler
+	w.handler = nil
 	expandCode, err := macro.expand(ctx, w, cons.Cdr)
+	w.handler = saved
 	if err != nil {
-		println(err.Error())
 		return nil
 	}
 	if x := expandMacroOne(ctx, w, expandCode); x != nil {
-- 
2.43.0


From 198fc608a83c779a49f235b7223eae336367a505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:18 +0000
Subject: [PATCH 82/85] fix: (setf assoc) replaces one entry

---
 embed/set-assoc.lsp | 16 +++++++---------
 tools/embed.lsp     | 16 +++++++---------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/embed/set-assoc.lsp b/embed/set-assoc.lsp
index fc0e155..04aafb1 100644
--- a/embed/set-assoc.lsp
+++ b/embed/set-assoc.lsp
@@ -1,9 +1,7 @@
-(lambda-macro (newvalue key m)
-  (let ((L (gensym)) (K (gensym)) (tmp (gensym)))
-    `(let* ((,L ,m) (,K ,key) (,tmp nil))
-       (while ,L
-         (if (and (setq ,tmp (car ,L))
-                  (consp ,tmp)
-                  (equal ,K (car ,tmp)))
-           (set-car ,newvalue ,L))
-         (setq ,L (cdr ,L))))))
+(lambda (newvalue key m)
+  (while (and (consp m)
+              (not (and (consp (car m))
+                        (eql key (car (car m))))))
+    (setq m (cdr m)))
+  (if m (set-car newvalue m))
+  newvalue)
diff --git a/tools/embed.lsp b/tools/embed.lsp
index 5378c09..be8745a 100644
--- a/tools/embed.lsp
+++ b/tools/embed.lsp
@@ -105,15 +105,13 @@
   (let ((name (elt expr 1)) (value (elt expr 2)))
     `(progn (setq ,name ,value) (setf ,name ,newvalue))))
 
-(defmacro set-assoc (newvalue key m)
-  (let ((L (gensym)) (K (gensym)) (tmp (gensym)))
-    `(let* ((,L ,m)
-            (,K ,key)
-            (,tmp nil))
-       (while ,L
-         (if (and (setq ,tmp (car ,L)) (consp ,tmp) (equal ,K (car ,tmp)))
-           (set-car ,newvalue ,L))
-         (setq ,L (cdr ,L))))))
+(defun set-assoc (newvalue key m)
+  (while (and (consp m)
+              (not (and (consp (car m))
+                        (eql key (car (car m))))))
+    (setq m (cdr m)))
+  (if m (set-car newvalue m))
+  newvalue)
 
 (defmacro dolist (vars &rest body)
   (let ((var (car vars))
-- 
2.43.0


From b05750fb8621d0593c3d93867fed7470a561b445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:25 +0000
Subject: [PATCH 83/85] fix: (setf nthcdr) stops at the place it stores in

---
 embed/set-nthcdr.lsp | 5 +++--
 tools/embed.lsp      | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/embed/set-nthcdr.lsp b/embed/set-nthcdr.lsp
index f87b51a..ec09cbc 100644
--- a/embed/set-nthcdr.lsp
+++ b/embed/set-nthcdr.lsp
@@ -2,6 +2,7 @@
   (let ((s source))
     (while s
       (setq z (1- z))
-      (if (zerop z) (set-cdr newvalue s))
-      (setq s (cdr s)))
+      (if (zerop z)
+        (progn (set-cdr newvalue s) (setq s nil))
+        (setq s (cdr s))))
     source))
diff --git a/tools/embed.lsp b/tools/embed.lsp
index be8745a..1795875 100644
--- a/tools/embed.lsp
+++ b/tools/embed.lsp
@@ -188,8 +188,8 @@
     (while s
            (setq z (1- z))
            (if (zerop z)
-             (set-cdr newvalue s))
-           (setq s (cdr s)))
+             (progn (set-cdr newvalue s) (setq s nil))
+             (setq s (cdr s))))
     source))
 
 (defun set-cadr (newvalue L)
-- 
2.43.0


From da70e5d419853c320482be156f512fc73e0fe367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:11 +0000
Subject: [PATCH 84/85] fix: subst of a list whose end is nil of Go

---
 pkg/subst/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/subst/main.go b/pkg/subst/main.go
index 2a58497..e85a267 100644
--- a/pkg/subst/main.go
+++ b/pkg/subst/main.go
@@ -11,6 +11,9 @@ func init() {
 }
 
 func subst(newItem, oldItem, list Node) Node {
+	if IsNone(list) {
+		list = Null // the end of a list may be nil of Go
+	}
 	if list.Equals(oldItem, STRICT) {
 		return newItem
 	}
-- 
2.43.0


From f2c56172a2eeddc64b544f200cc9e61bc56bf008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:11 +0000
Subject: [PATCH 85/85] fix: arithmetic-error-operation of mod and rem

---
 number.go   | 6 +++++-
 operator.go | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/number.go b/number.go
index 05ede64..e19b448 100644
--- a/number.go
+++ b/number.go
@@ -119,8 +119,12 @@ func (e *ArithmeticError) Error() string {
 var divisionByZeroClass = registerNewAbstractClass[*ArithmeticError]("<division-by-zero>", arithmeticErrorClass)
 
 func raiseDivisionByZero(ctx context.Context, w *World, m, n Node) (Node, error) {
+	return raiseDivisionByZeroIn(ctx, w, &Function{Min: 1, F: funDevide}, m, n)
+}
+
+func raiseDivisionByZeroIn(ctx context.Context, w *World, operation Callable, m, n Node) (Node, error) {
 	return callHandler[Node](ctx, w, true, &ArithmeticError{
-		Operation: FunctionRef{value: &Function{F: funDevide}},
+		Operation: FunctionRef{value: operation},
 		Operands:  List(m, n),
 		Class:     divisionByZeroClass,
 	})
diff --git a/operator.go b/operator.go
index c838fb2..6e93b08 100644
--- a/operator.go
+++ b/operator.go
@@ -229,7 +229,7 @@ func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
 		return nil, err
 	}
 	if y == 0 {
-		return raiseDivisionByZero(ctx, w, first, second)
+		return raiseDivisionByZeroIn(ctx, w, Function2(funMod), first, second)
 	}
 	if bothInteger {
 		left, right := first.(Integer), second.(Integer)
@@ -253,7 +253,7 @@ func funRem(ctx context.Context, w *World, first, second Node) (Node, error) {
 		return nil, err
 	}
 	if y == 0 {
-		return raiseDivisionByZero(ctx, w, first, second)
+		return raiseDivisionByZeroIn(ctx, w, Function2(funRem), first, second)
 	}
 	if bothInteger {
 		return first.(Integer) % second.(Integer), nil
-- 
2.43.0

