From ab8db458b415a406735a231456022ef73363ff73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:35 +0000
Subject: [PATCH 001/108] fix: unwind-protect returns the value of its
 protected form

---
 progn.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/progn.go b/progn.go
index 9fe2110..13d7eb9 100644
--- a/progn.go
+++ b/progn.go
@@ -316,11 +316,9 @@ func raiseError(ctx context.Context, w *World, e error) (Node, error) {
 }
 
 func cmdUnwindProtect(ctx context.Context, w *World, list Node) (Node, error) {
-	var formErr error
+	value, list, formErr := w.ShiftAndEvalCar(ctx, list)
 
-	_, list, formErr = w.ShiftAndEvalCar(ctx, list)
-
-	value, err := Progn(ctx, w, list)
+	_, err := Progn(ctx, w, list)
 	if err != nil {
 		var e1 *_ErrEarlyReturns // block & return-from
 		var e2 *_ErrThrown       // catch & throw
-- 
2.43.0


From a922f471b04046409f9e0388e6289df9b6f61c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 002/108] fix: arithmetic on mixed number types no longer
 signals a domain error first

---
 atom.go   |  20 +++++-----
 number.go | 112 +++++++++++++++++++++++++++---------------------------
 2 files changed, 66 insertions(+), 66 deletions(-)

diff --git a/atom.go b/atom.go
index 51d2ada..d3f234c 100644
--- a/atom.go
+++ b/atom.go
@@ -176,25 +176,25 @@ func (r Rune) Equals(n Node, m EqlMode) bool {
 }
 
 func (r Rune) Add(ctx context.Context, w *World, n Node) (Node, error) {
-	value, err := ExpectClass[Rune](ctx, w, n)
-	if err == nil {
-		return r + value, nil
-	}
 	if value, ok := n.(Integer); ok {
 		return r + Rune(value), nil
 	}
-	return nil, err
+	value, err := ExpectClass[Rune](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return r + value, nil
 }
 
 func (r Rune) Sub(ctx context.Context, w *World, n Node) (Node, error) {
-	value, err := ExpectClass[Rune](ctx, w, n)
-	if err == nil {
-		return r - value, nil
-	}
 	if value, ok := n.(Integer); ok {
 		return r - Rune(value), nil
 	}
-	return nil, err
+	value, err := ExpectClass[Rune](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return r - value, nil
 }
 
 func compareRune(ctx context.Context, w *World, argv []Node, f func(rune) bool) (Node, error) {
diff --git a/number.go b/number.go
index 78ce32a..8bdd4ca 100644
--- a/number.go
+++ b/number.go
@@ -52,36 +52,36 @@ func (i Integer) Equals(n Node, m EqlMode) bool {
 }
 
 func (i Integer) Add(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
-		return i + _n, nil
-	}
 	if _n, ok := n.(Float); ok {
 		return Float(i) + _n, nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return i + _n, nil
 }
 
 func (i Integer) Sub(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
-		return i - _n, nil
-	}
 	if _n, ok := n.(Float); ok {
 		return Float(i) - _n, nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return i - _n, nil
 }
 
 func (i Integer) Multi(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
-		return i * _n, nil
-	}
 	if _n, ok := n.(Float); ok {
 		return Float(i) * _n, nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return i * _n, nil
 }
 
 type ArithmeticError struct {
@@ -147,31 +147,31 @@ func funArithmeticErrorOperands(ctx context.Context, w *World, n Node) (Node, er
 }
 
 func (i Integer) Divide(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
-		if _n == 0 {
-			return raiseDivisionByZero(ctx, w, i, n)
-		}
-		return i / _n, nil
-	}
 	if _n, ok := n.(Float); ok {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, i, n)
 		}
 		return Float(i) / _n, nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	if _n == 0 {
+		return raiseDivisionByZero(ctx, w, i, n)
+	}
+	return i / _n, nil
 }
 
 func (i Integer) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
-		return i < _n, nil
-	}
 	if _n, ok := n.(Float); ok {
 		return Float(i) < _n, nil
 	}
-	return false, err
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err != nil {
+		return false, err
+	}
+	return i < _n, nil
 }
 
 type Float float64
@@ -200,64 +200,64 @@ func (f Float) Equals(n Node, m EqlMode) bool {
 }
 
 func (f Float) Add(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
-		return f + _n, nil
-	}
 	if _n, ok := n.(Integer); ok {
 		return f + Float(_n), nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return f + _n, nil
 }
 
 func (f Float) Sub(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
-		return f - _n, nil
-	}
 	if _n, ok := n.(Integer); ok {
 		return f - Float(_n), nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return f - _n, nil
 }
 
 func (f Float) Multi(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
-		return f * _n, nil
-	}
 	if _n, ok := n.(Integer); ok {
 		return f * Float(_n), nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return f * _n, nil
 }
 
 func (f Float) Divide(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
-		if _n == 0 {
-			return raiseDivisionByZero(ctx, w, f, n)
-		}
-		return f / _n, nil
-	}
 	if _n, ok := n.(Integer); ok {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, f, n)
 		}
 		return f / Float(_n), nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	if _n == 0 {
+		return raiseDivisionByZero(ctx, w, f, n)
+	}
+	return f / _n, nil
 }
 
 func (f Float) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
-		return f < _n, nil
-	}
 	if _n, ok := n.(Integer); ok {
 		return f < Float(_n), nil
 	}
-	return false, err
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err != nil {
+		return false, err
+	}
+	return f < _n, nil
 }
 
 func funSqrt(ctx context.Context, w *World, arg Node) (Node, error) {
-- 
2.43.0


From 615503abcc5b20b0579d1dc856e9f4c72813dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:51 +0000
Subject: [PATCH 003/108] fix: tagbody passes on a go whose tag belongs to an
 enclosing tagbody

---
 progn.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/progn.go b/progn.go
index 13d7eb9..9ea1fca 100644
--- a/progn.go
+++ b/progn.go
@@ -407,9 +407,10 @@ mainloop:
 			continue
 		}
 		for IsSome(args) {
-			current, args, err = Shift(args)
-			if err != nil {
-				return nil, err
+			var nextErr error
+			current, args, nextErr = Shift(args)
+			if nextErr != nil {
+				return nil, nextErr
 			}
 			symbol, ok := current.(Symbol)
 			if !ok {
-- 
2.43.0


From 1f738db6feb6501197015d522291b8dfc0386355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:56 +0000
Subject: [PATCH 004/108] fix: ignore-errors does not swallow non-local exits,
 quit or cancellation

---
 progn.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/progn.go b/progn.go
index 9ea1fca..9295c62 100644
--- a/progn.go
+++ b/progn.go
@@ -429,6 +429,15 @@ mainloop:
 func cmdIgnoreErrors(ctx context.Context, w *World, n Node) (Node, error) {
 	val, err := Progn(ctx, w, n)
 	if err != nil {
+		var e1 *_ErrEarlyReturns // block & return-from
+		var e2 *_ErrThrown       // catch & throw
+		var e3 *_ErrTagBody      // tagbody & go
+		if errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) {
+			return nil, err
+		}
+		if errors.Is(err, ErrQuit) || errors.Is(err, ErrAbort) || ctx.Err() != nil {
+			return nil, err
+		}
 		return Null, nil
 	}
 	return val, nil
-- 
2.43.0


From 0341721bd230209cfa2290a695a4063d438862d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:02 +0000
Subject: [PATCH 005/108] fix: a non-local exit or error out of a handler
 called where the error occurred is kept

---
 error.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/error.go b/error.go
index 8c49c20..543472d 100644
--- a/error.go
+++ b/error.go
@@ -145,10 +145,12 @@ func callHandler[T Node](ctx context.Context, w *World, cont bool, condition err
 		ctx = context.WithValue(ctx, callHandlerLimitter{}, 1)
 		_, e := w.handler.Call(ctx, w, UnevalList(condition))
 		var ce *_ErrContinueCondition
-		if cont && errors.As(e, &ce) {
-			if v, ok := ce.Value.(T); ok {
+		if errors.As(e, &ce) {
+			if v, ok := ce.Value.(T); cont && ok {
 				return v, nil
 			}
+		} else if e != nil {
+			return zero, e
 		}
 	}
 	return zero, condition
-- 
2.43.0


From b50abe0d0940c3282883015023b1f847c94e6bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:08 +0000
Subject: [PATCH 006/108] fix: apply reports a last argument that is not a list

---
 lambda.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lambda.go b/lambda.go
index b431521..63562ee 100644
--- a/lambda.go
+++ b/lambda.go
@@ -469,10 +469,12 @@ func cmdApply(ctx context.Context, w *World, list Node) (Node, error) {
 			if err != nil {
 				return nil, err
 			}
-			SeqEach(ctx, w, value, func(n Node) error {
-				newargs.Add(ctx, w, Uneval{n})
-				return nil
+			err = SeqEach(ctx, w, value, func(n Node) error {
+				return newargs.Add(ctx, w, Uneval{n})
 			})
+			if err != nil {
+				return nil, err
+			}
 			return f.Call(ctx, w, newargs.Sequence())
 		}
 		newargs.Add(ctx, w, value)
-- 
2.43.0


From f963de644f01fab56130ef2973db7100eeb7d968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 007/108] fix: generic-function-p does not signal a domain
 error for other objects

---
 generic.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/generic.go b/generic.go
index 87b9f49..e506b56 100644
--- a/generic.go
+++ b/generic.go
@@ -240,11 +240,11 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 }
 
 func funGenericFunctionP(ctx context.Context, w *World, arg Node) (Node, error) {
-	f, err := ExpectFunction(ctx, w, arg)
-	if err != nil {
+	f, ok := arg.(FunctionRef)
+	if !ok {
 		return Null, nil
 	}
-	if _, ok := f.(*_Generic); ok {
+	if _, ok := f.value.(*_Generic); ok {
 		return True, nil
 	}
 	return Null, nil
-- 
2.43.0


From eb95a3ca66d0489bd6b7187face752641fecbc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:19 +0000
Subject: [PATCH 008/108] fix: create reports an initarg that is not a symbol

---
 class.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/class.go b/class.go
index 2dab2ac..f6c6ea2 100644
--- a/class.go
+++ b/class.go
@@ -529,7 +529,7 @@ func defaultInitializeObject(ctx context.Context, w *World, args []Node) (Node,
 		var _initArg Node
 		_initArg, args = args[0], args[1:]
 		initArg, err := ExpectSymbol(ctx, w, _initArg)
-		if !ok {
+		if err != nil {
 			return nil, fmt.Errorf("defaultInitializeObject: initArg: %w: %v", err, _initArg)
 		}
 		if len(args) <= 0 {
-- 
2.43.0


From b5c8c084bc2ea6d64b63bf491f72273eb2f0e30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:24 +0000
Subject: [PATCH 009/108] fix: defclass reports that initialize-object is not a
 generic function

---
 class.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/class.go b/class.go
index f6c6ea2..ca6ddce 100644
--- a/class.go
+++ b/class.go
@@ -349,11 +349,13 @@ func cmdDefClass(ctx context.Context, w *World, args Node) (Node, error) {
 	}
 	w.DefineGlobal(className, class)
 
-	registerMethod(w, symInitializeObject, class, &_Method{
+	if err := registerMethod(w, symInitializeObject, class, &_Method{
 		restType: objectClass,
 		types:    []Class{class},
 		method:   defaultInitializeObject,
-	})
+	}); err != nil {
+		return nil, err
+	}
 	return className, nil
 }
 
-- 
2.43.0


From 98856a56588bccd01954b9387e1b35106dee79c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:56 +0000
Subject: [PATCH 010/108] fix: lambda keeps a non-local exit out of its
 parameter list

---
 lambda.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambda.go b/lambda.go
index 63562ee..05dc4ab 100644
--- a/lambda.go
+++ b/lambda.go
@@ -21,9 +21,9 @@ type _Lambda struct {
 func cmdLambda(ctx context.Context, w *World, node Node) (Node, error) {
 	value, err := newLambda(ctx, w, node, nulSymbol)
 	if err != nil {
-		return raiseProgramError(ctx, w, err)
+		return nil, err
 	}
-	return FunctionRef{value: value}, err
+	return FunctionRef{value: value}, nil
 }
 
 type _Parameters struct {
@@ -35,6 +35,7 @@ type _Parameters struct {
 func getParameterList(ctx context.Context, w *World, node Node) (*_Parameters, error) {
 	list, code, err := Shift(node)
 	if err != nil {
+		_, err = raiseProgramError(ctx, w, err)
 		return nil, err
 	}
 	dupCheck := make(map[Symbol]struct{})
-- 
2.43.0


From 8b19e4b63c0c0a07d38356f515ddc2fae97de259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:34 +0000
Subject: [PATCH 011/108] fix: (return) inside an anonymous function leaves the
 enclosing block, not the function

---
 lambda.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambda.go b/lambda.go
index 05dc4ab..bbeb81c 100644
--- a/lambda.go
+++ b/lambda.go
@@ -310,7 +310,7 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 		}
 	}
 	var errEarlyReturns *_ErrEarlyReturns
-	if errors.As(err, &errEarlyReturns) && errEarlyReturns.Name == L.name {
+	if errors.As(err, &errEarlyReturns) && L.name != nulSymbol && errEarlyReturns.Name == L.name {
 		return errEarlyReturns.Value, nil
 	}
 	if traceDo {
-- 
2.43.0


From 3d97bbcf2c4bcd284f1f676b883834ec146d7bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:31 +0000
Subject: [PATCH 012/108] fix: catch and throw compare tags as eql and accept
 any object as a tag

---
 hash.go  |  6 ++++--
 progn.go | 32 ++++++++++++++++++++------------
 world.go |  2 +-
 3 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/hash.go b/hash.go
index e330e0c..d154d1d 100644
--- a/hash.go
+++ b/hash.go
@@ -4,13 +4,15 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"reflect"
 	"strings"
 )
 
 type _Hash map[Node]Node
 
-func (h _Hash) Equals(other Node, mode EqlMode) bool {
-	return false
+func (h _Hash) Equals(_other Node, mode EqlMode) bool {
+	other, ok := _other.(_Hash)
+	return ok && reflect.ValueOf(h).Pointer() == reflect.ValueOf(other).Pointer()
 }
 
 func (h _Hash) PrintTo(w io.Writer, mode PrintMode) (int, error) {
diff --git a/progn.go b/progn.go
index 9295c62..2b5629b 100644
--- a/progn.go
+++ b/progn.go
@@ -102,6 +102,21 @@ func cmdBlock(ctx context.Context, w *World, node Node) (Node, error) {
 	return rv, err
 }
 
+// tagList is the stack of the tags of active (catch) forms.
+type tagList struct {
+	tag  Node
+	next *tagList
+}
+
+func (t *tagList) has(tag Node) bool {
+	for ; t != nil; t = t.next {
+		if tag.Equals(t.tag, STRICT) {
+			return true
+		}
+	}
+	return false
+}
+
 type _ErrThrown struct {
 	Value   Node
 	TagForm Node
@@ -117,27 +132,20 @@ func cmdCatch(ctx context.Context, w *World, node Node) (Node, error) {
 		return nil, err
 	}
 
-	if w.catchTag == nil {
-		w.catchTag = make(map[Node]struct{})
-	}
-	if _, ok := w.catchTag[tagForm]; !ok {
-		w.catchTag[tagForm] = struct{}{}
-		defer delete(w.catchTag, tagForm)
-	}
+	saveTags := w.catchTag
+	defer func() { w.catchTag = saveTags }()
+	w.catchTag = &tagList{tag: tagForm, next: saveTags}
 
 	var errThrown *_ErrThrown
 	rv, err := Progn(ctx, w, statements)
-	if errors.As(err, &errThrown) && errThrown.TagForm.Equals(tagForm, EQUALP) {
+	if errors.As(err, &errThrown) && errThrown.TagForm.Equals(tagForm, STRICT) {
 		return errThrown.Value, nil
 	}
 	return rv, err
 }
 
 func funThrow(ctx context.Context, w *World, tagForm, value Node) (Node, error) {
-	if w.catchTag == nil {
-		w.catchTag = make(map[Node]struct{})
-	}
-	if _, ok := w.catchTag[tagForm]; !ok {
+	if !w.catchTag.has(tagForm) {
 		return raiseControlError(ctx, w, fmt.Errorf("catch-tag '%s' not found", tagForm.String()))
 	}
 	return nil, &_ErrThrown{TagForm: tagForm, Value: value}
diff --git a/world.go b/world.go
index 348d176..9682e7f 100644
--- a/world.go
+++ b/world.go
@@ -107,7 +107,7 @@ type shared struct {
 	stdin     _ReaderNode
 	startup   sync.Once
 	blockName map[Symbol]struct{}
-	catchTag  map[Node]struct{}
+	catchTag  *tagList
 	goTag     map[Symbol]struct{}
 }
 
-- 
2.43.0


From da011ece69603b1b8665262a92b391f096d60453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 013/108] fix: rem by zero signals a division-by-zero error
 instead of crashing

---
 operator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operator.go b/operator.go
index adaa3fd..6084c86 100644
--- a/operator.go
+++ b/operator.go
@@ -259,6 +259,9 @@ func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
 func funRem(ctx context.Context, w *World, first, second Node) (Node, error) {
 	if left, ok := first.(Integer); ok {
 		if right, ok := second.(Integer); ok {
+			if right == 0 {
+				return raiseDivisionByZero(ctx, w, first, second)
+			}
 			return Integer(left % right), nil
 		}
 	}
-- 
2.43.0


From 4f86b3a7741145e31a3e07dcb46d96f990c4dfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 014/108] fix: mod has the sign of the divisor and is exact for
 integers

---
 operator.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/operator.go b/operator.go
index 6084c86..a5100f8 100644
--- a/operator.go
+++ b/operator.go
@@ -225,9 +225,20 @@ func funRound(ctx context.Context, w *World, arg Node) (Node, error) {
 }
 
 func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
+	if left, ok := first.(Integer); ok {
+		if right, ok := second.(Integer); ok {
+			if right == 0 {
+				return raiseDivisionByZero(ctx, w, first, second)
+			}
+			value := left % right
+			if value != 0 && (value < 0) != (right < 0) {
+				value += right
+			}
+			return value, nil
+		}
+	}
 	var left float64
 	var right float64
-	bits := 0
 
 	if _left, ok := first.(Float); ok {
 		left = float64(_left)
@@ -237,7 +248,6 @@ func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
 			return nil, ErrNotSupportType
 		}
 		left = float64(int(_left))
-		bits = 1
 	}
 	if _right, ok := second.(Float); ok {
 		right = float64(_right)
@@ -247,11 +257,10 @@ func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
 			return nil, ErrNotSupportType
 		}
 		right = float64(int(_right))
-		bits |= 2
 	}
-	value := math.Remainder(float64(left), float64(right))
-	if bits == 3 {
-		return Integer(int(value)), nil
+	value := math.Mod(left, right)
+	if value != 0 && (value < 0) != (right < 0) {
+		value += right
 	}
 	return Float(value), nil
 }
-- 
2.43.0


From d8409947870087a554639e84ddbaa4e585b60d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 015/108] fix: file-length rejects an element size that is not
 positive

---
 io.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/io.go b/io.go
index c85ab9a..8dbf496 100644
--- a/io.go
+++ b/io.go
@@ -295,6 +295,12 @@ func funFileLength(ctx context.Context, w *World, first, second Node) (Node, err
 		return nil, err
 	}
 	n := int64(_n)
+	if n <= 0 {
+		return callHandler[Node](ctx, w, false, &DomainError{
+			Object:        _n,
+			ExpectedClass: integerClass,
+		})
+	}
 
 	stat, err := os.Stat(fname)
 	if err != nil {
-- 
2.43.0


From dfbd529746642cfcd9a01c6e990b3aee7ea0c89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 016/108] fix: read, read-line and read-char at the end of
 standard input do not crash

---
 io.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/io.go b/io.go
index 8dbf496..11e76f5 100644
--- a/io.go
+++ b/io.go
@@ -25,6 +25,7 @@ func chomp(s string) string {
 
 type _StreamInput struct {
 	reader   _Reader
+	stream   Node
 	eofFlag  bool
 	eofValue Node
 }
@@ -50,8 +51,11 @@ func newStreamInput(w *World, argv []Node) (*_StreamInput, error) {
 		if !ok {
 			return nil, fmt.Errorf("expected Reader %#v", argv[0])
 		}
+		this.stream = argv[0]
 	case 0:
-		this.reader = w.Stdin()
+		stdin := w.Stdin()
+		this.reader = stdin
+		this.stream = stdin
 	}
 	return this, nil
 }
@@ -90,7 +94,7 @@ func funReadLine(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if err == io.EOF {
 		if stream.eofFlag {
 			return callHandler[Node](ctx, w, true, EndOfStream{
-				Stream: argv[0],
+				Stream: stream.stream,
 			})
 		}
 		return stream.eofValue, nil
@@ -109,7 +113,7 @@ func funRead(ctx context.Context, w *World, argv []Node) (Node, error) {
 			return stream.eofValue, nil
 		}
 		return callHandler[Node](ctx, w, true, EndOfStream{
-			Stream: argv[0],
+			Stream: stream.stream,
 		})
 	}
 	if err != nil {
@@ -133,7 +137,7 @@ func funReadChar(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if err == io.EOF {
 		if stream.eofFlag {
 			return callHandler[Node](ctx, w, true, EndOfStream{
-				Stream: argv[0],
+				Stream: stream.stream,
 			})
 		}
 		return stream.eofValue, nil
-- 
2.43.0


From d0303ade4b14ce007c460a37bed1bb4f942e4a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 017/108] fix: command without arguments is an error instead of
 a crash

---
 pkg/command/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/command/main.go b/pkg/command/main.go
index 017d875..1587beb 100644
--- a/pkg/command/main.go
+++ b/pkg/command/main.go
@@ -9,7 +9,7 @@ import (
 )
 
 func init() {
-	gmnlisp.Export(gmnlisp.NewSymbol("command"), &gmnlisp.Function{F: funCommand})
+	gmnlisp.Export(gmnlisp.NewSymbol("command"), &gmnlisp.Function{Min: 1, F: funCommand})
 }
 
 func funCommand(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gmnlisp.Node, error) {
-- 
2.43.0


From 1d4b3c9729bf460a1197301f63017a7bffd6bfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 018/108] fix: wildcard without an argument is an error instead
 of a crash

---
 pkg/wildcard/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/wildcard/main.go b/pkg/wildcard/main.go
index 8427462..929e90f 100644
--- a/pkg/wildcard/main.go
+++ b/pkg/wildcard/main.go
@@ -9,7 +9,7 @@ import (
 )
 
 func init() {
-	gmnlisp.Export(gmnlisp.NewSymbol("wildcard"), &gmnlisp.Function{F: funWildcard})
+	gmnlisp.Export(gmnlisp.NewSymbol("wildcard"), &gmnlisp.Function{C: 1, F: funWildcard})
 }
 
 func funWildcard(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gmnlisp.Node, error) {
-- 
2.43.0


From f8b2d2c6ca50298bb7507a4a43e53cdb9bd792e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:25 +0000
Subject: [PATCH 019/108] fix: the reader rejects an array literal of an
 impossible rank instead of crashing

---
 pkg/parser/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 54d4da2..b866a64 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -21,6 +21,9 @@ var (
 	rxArray      = regexp.MustCompile(`^#(\d*)[aA]\(`)
 )
 
+// maxArrayRank is the maximum number of the dimensions of an array
+const maxArrayRank = 256
+
 var (
 	ErrTooFewArguments   = errors.New("too few arguments")
 	ErrTooManyArguments  = errors.New("too many arguments")
@@ -274,8 +277,8 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 	}
 	if m := rxArray.FindStringSubmatch(token); m != nil {
 		dim, err := strconv.Atoi(m[1])
-		if err != nil {
-			panic(err.Error())
+		if err != nil || dim < 1 || dim > maxArrayRank {
+			return p.Null(), fmt.Errorf("array syntax error: %#v", token)
 		}
 		return p.readArray(dim, rs)
 	}
-- 
2.43.0


From 99751eca79e90c3979b3a5dc49ba41f1e9a108e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 020/108] fix: the reader does not crash on a lone vertical bar

---
 pkg/parser/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index b866a64..8931b6b 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -344,7 +344,7 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 		token = buffer.String()
 		return p.String(token), nil
 	}
-	if token[0] == '|' && token[len(token)-1] == '|' {
+	if len(token) >= 2 && token[0] == '|' && token[len(token)-1] == '|' {
 		return p.Symbol(symbol4barReplacer.Replace(token[1 : len(token)-1])), nil
 	}
 	if token[0] == ':' {
-- 
2.43.0


From 4227a5f41bfb72a9b53f1365ace2856cdb6df858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:51 +0000
Subject: [PATCH 021/108] fix: elt on an array without dimensions is an error
 instead of a crash

---
 array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array.go b/array.go
index 89d9cee..1b83810 100644
--- a/array.go
+++ b/array.go
@@ -177,7 +177,7 @@ func dim2size(dim []int) int {
 }
 
 func (A *Array) Elt(n int) (Node, error) {
-	if n < 0 || n >= A.dim[0] {
+	if len(A.dim) < 1 || n < 0 || n >= A.dim[0] {
 		return nil, ErrIndexOutOfRange
 	}
 	if len(A.dim) == 1 {
-- 
2.43.0


From 6d4d4f8ed2b6de3a9d02d95b4e750ce5b11727cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:56 +0000
Subject: [PATCH 022/108] fix: aref reports the index that is out of range

---
 array.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/array.go b/array.go
index 1b83810..98317ab 100644
--- a/array.go
+++ b/array.go
@@ -203,8 +203,8 @@ func funAref(ctx context.Context, w *World, args []Node) (Node, error) {
 		if err != nil {
 			return nil, err
 		}
-		if nth < 0 || int(nth) >= array.dim[0] {
-			return nil, MakeError(ErrIndexOutOfRange, args[1])
+		if len(array.dim) < 1 || nth < 0 || int(nth) >= array.dim[0] {
+			return nil, MakeError(ErrIndexOutOfRange, _nth)
 		}
 		if len(array.dim) == 1 {
 			return array.list[nth], nil
-- 
2.43.0


From f807e7025b5d3c0fd42070acc78162e69875e8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:02 +0000
Subject: [PATCH 023/108] fix: set-aref does not accept an index whose offset
 overflows

---
 array.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/array.go b/array.go
index 98317ab..f74369b 100644
--- a/array.go
+++ b/array.go
@@ -235,8 +235,7 @@ func funSetAref(ctx context.Context, w *World, args []Node) (Node, error) {
 		if err != nil {
 			return nil, err
 		}
-		elementSize := dim2size(array.dim[1:])
-		if int(index)*elementSize >= len(array.list) || index < 0 {
+		if len(array.dim) < 1 || index < 0 || int(index) >= array.dim[0] {
 			condition := &DomainError{
 				Object:        index,
 				ExpectedClass: integerClass,
@@ -247,6 +246,7 @@ func funSetAref(ctx context.Context, w *World, args []Node) (Node, error) {
 			array.list[index] = newValue
 			return newValue, nil
 		}
+		elementSize := dim2size(array.dim[1:])
 		array = &Array{
 			list: array.list[int(index)*elementSize : int(index+1)*elementSize],
 			dim:  array.dim[1:],
-- 
2.43.0


From bc615c96eb3357fbb697ffcea7392a4f504d9a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:08 +0000
Subject: [PATCH 024/108] fix: create-array detects that the product of the
 dimensions overflows

---
 array.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/array.go b/array.go
index f74369b..ef0a068 100644
--- a/array.go
+++ b/array.go
@@ -125,6 +125,8 @@ func (A *Array) Equals(_B Node, mode EqlMode) bool {
 	return true
 }
 
+const maxArraySize = 1234567890
+
 func funCreateArray(ctx context.Context, w *World, args []Node) (Node, error) {
 	dim := args[0]
 	var ini Node = Null
@@ -153,11 +155,11 @@ func funCreateArray(ctx context.Context, w *World, args []Node) (Node, error) {
 			})
 		}
 		_dim = append(_dim, int(n))
+		if size > maxArraySize/int(n) {
+			return callHandler[Node](ctx, w, false, StorageExhausted{})
+		}
 		size *= int(n)
 	}
-	if size >= 1234567890 {
-		return callHandler[Node](ctx, w, false, StorageExhausted{})
-	}
 	_list := make([]Node, size)
 	for i := range _list {
 		_list[i] = ini
-- 
2.43.0


From 33bb18c9f81b5a6290bc955767aa5c8ba0fa4aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 025/108] fix: arrays are compared element by element as equal
 does, without crashing on a hash table

---
 array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array.go b/array.go
index ef0a068..4c56505 100644
--- a/array.go
+++ b/array.go
@@ -118,7 +118,7 @@ func (A *Array) Equals(_B Node, mode EqlMode) bool {
 		return false
 	}
 	for i, v := range A.list {
-		if v != B.list[i] {
+		if !v.Equals(B.list[i], mode) {
 			return false
 		}
 	}
-- 
2.43.0


From 3822999384a2d30414243d9e96ed4a4cbab4f5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:16 +0000
Subject: [PATCH 026/108] fix: eq, eql on hash tables and functions do not
 crash

---
 cmds.go        | 28 +++++++++++++++++++++++++++-
 functionref.go |  2 +-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/cmds.go b/cmds.go
index 803753e..f031c1d 100644
--- a/cmds.go
+++ b/cmds.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"os"
+	"reflect"
 	"strconv"
 	"strings"
 )
@@ -66,9 +67,34 @@ func equalSub(ctx context.Context, w *World, list []Node, eq func(Node, Node) bo
 	return True, nil
 }
 
+// identical is the comparison == on the values that have it and
+// does not panic on the others.
+func identical(left, right any) bool {
+	l, r := reflect.ValueOf(left), reflect.ValueOf(right)
+	if !l.IsValid() || !r.IsValid() {
+		return l.IsValid() == r.IsValid()
+	}
+	if l.Type() != r.Type() {
+		return false
+	}
+	switch l.Kind() {
+	case reflect.Map, reflect.Func:
+		return l.Pointer() == r.Pointer()
+	}
+	if l.Comparable() {
+		return left == right
+	}
+	if n, ok := left.(Node); ok {
+		if m, ok := right.(Node); ok {
+			return n.Equals(m, STRICT)
+		}
+	}
+	return false
+}
+
 func funEq(ctx context.Context, w *World, list []Node) (Node, error) {
 	return equalSub(ctx, w, list, func(left, right Node) bool {
-		return left == right
+		return identical(left, right)
 	})
 }
 
diff --git a/functionref.go b/functionref.go
index f4ec65c..84a0dd0 100644
--- a/functionref.go
+++ b/functionref.go
@@ -21,7 +21,7 @@ func (f FunctionRef) Equals(other Node, mode EqlMode) bool {
 	if !ok {
 		return false
 	}
-	return f.value == _other.value
+	return identical(f.value, _other.value)
 }
 
 func (f FunctionRef) PrintTo(w io.Writer, _ PrintMode) (int, error) {
-- 
2.43.0


From 948333052447a8e3af5eba9bee34d94dc6775303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:30 +0000
Subject: [PATCH 027/108] fix: assigning the variable of with-open-input-file
 or with-open-output-file does not crash

---
 world.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/world.go b/world.go
index 9682e7f..0aa47c4 100644
--- a/world.go
+++ b/world.go
@@ -89,7 +89,6 @@ func (m *Pair) Set(key Symbol, value Node) {
 	if key == m.Key {
 		m.Value = value
 	}
-	panic("Pair can be set value")
 }
 
 func (m *Pair) Range(f func(Symbol, Node) bool) {
-- 
2.43.0


From 9ba3ce32216524c7f83997f1709608f23f86e418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:34 +0000
Subject: [PATCH 028/108] fix: create makes no incomplete objects that crash
 when they are used

---
 builtinclass.go | 19 +++++++++++++++++++
 class.go        |  9 +++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/builtinclass.go b/builtinclass.go
index 623f995..34799fc 100644
--- a/builtinclass.go
+++ b/builtinclass.go
@@ -2,6 +2,7 @@ package gmnlisp
 
 import (
 	"context"
+	"reflect"
 )
 
 type Class interface {
@@ -77,11 +78,29 @@ func newBuiltInClass[T Node](name string) *_BuiltInClass {
 		},
 		create: func() Node {
 			var value T
+			if !usableZero(reflect.TypeOf(&value).Elem()) {
+				return nil
+			}
 			return value
 		},
 	}
 }
 
+// usableZero returns true when the zero value of the type is a complete object.
+func usableZero(t reflect.Type) bool {
+	switch t.Kind() {
+	case reflect.Pointer, reflect.Interface, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan:
+		return false
+	case reflect.Struct:
+		for i := 0; i < t.NumField(); i++ {
+			if !usableZero(t.Field(i).Type) {
+				return false
+			}
+		}
+	}
+	return true
+}
+
 func newAbstractClass[T Node](name string) *_BuiltInClass {
 	symbol := NewSymbol(name)
 	return &_BuiltInClass{
diff --git a/class.go b/class.go
index ca6ddce..ec78615 100644
--- a/class.go
+++ b/class.go
@@ -176,7 +176,11 @@ var standardClass = &_BuiltInClass{
 	},
 	create: func() Node {
 		classCounter++
-		return &_StandardClass{}
+		return &_StandardClass{
+			serial: classCounter,
+			Symbol: genSym(),
+			Slot:   make(map[Symbol]*_SlotSpec),
+		}
 	},
 	super: []Class{objectClass},
 }
@@ -186,9 +190,6 @@ func (u *_StandardClass) ClassOf() Class {
 }
 
 func (u *_StandardClass) Equals(_other Node, _ EqlMode) bool {
-	if u.serial == 0 {
-		panic("class serial is zero")
-	}
 	other, ok := _other.(*_StandardClass)
 	if !ok {
 		return false
-- 
2.43.0


From 1c298a845d45d3a621438ad7b59d49d4bd8b7f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 029/108] fix: gensym returns a symbol that is equal to no
 other one

---
 atom.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/atom.go b/atom.go
index d3f234c..ebfc3bf 100644
--- a/atom.go
+++ b/atom.go
@@ -67,14 +67,21 @@ func (idm *idMap[T]) NameToId(name string) T {
 	if id, ok := idm.name2id[name]; ok {
 		return id
 	}
-	id := T(len(idm.name2id))
+	id := T(len(idm.id2name))
 	idm.name2id[name] = id
 	idm.id2name = append(idm.id2name, name)
 	return id
 }
 
 func (idm *idMap[T]) Count() int {
-	return len(idm.name2id)
+	return len(idm.id2name)
+}
+
+// newId makes an id which no name is converted to.
+func (idm *idMap[T]) newId(name string) T {
+	id := T(len(idm.id2name))
+	idm.id2name = append(idm.id2name, name)
+	return id
 }
 
 type Symbol interface {
@@ -102,7 +109,7 @@ func NewSymbol(s string) _Symbol {
 }
 
 func genSym() _Symbol {
-	return NewSymbol(fmt.Sprintf("-gensym-%d-", symbolManager.Count()))
+	return symbolManager.newId(fmt.Sprintf("-gensym-%d-", symbolManager.Count()))
 }
 
 func funGensym(ctx context.Context, w *World) (Node, error) {
-- 
2.43.0


From abb86531b0e032e5121ed8341f52d1e765e5b83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:21 +0000
Subject: [PATCH 030/108] fix: input which ends inside a string, a symbol in
 bars, a comment or an array is an error

---
 pkg/parser/main.go     |  4 ++--
 pkg/parser/tokenize.go | 27 ++++++++++++++++++++++-----
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 8931b6b..5716a14 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -78,7 +78,7 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 		if countDim == lenDim-1 {
 			newNode, err := p.ReadNode(rs)
 			if err != nil {
-				return p.Null(), err
+				return p.Null(), tooShort(err)
 			}
 			if newNode == p.parenCloseSymbol {
 				fix[countDim] = true
@@ -95,7 +95,7 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 		} else {
 			token, err := readToken(rs)
 			if err != nil {
-				return p.Null(), err
+				return p.Null(), tooShort(err)
 			}
 			if token == "(" {
 				if !fix[countDim] {
diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 79c92c6..94ba14d 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -1,15 +1,26 @@
 package parser
 
 import (
-	"fmt"
 	"io"
 	"regexp"
 	"strings"
 	"unicode"
 )
 
+// tooShort returns ErrTooShortTokens instead of io.EOF
+// which is found in the middle of an expression or a comment.
+func tooShort(err error) error {
+	if err == io.EOF {
+		return ErrTooShortTokens
+	}
+	return err
+}
+
 func skipComment(r io.RuneScanner) (bool, error) {
 	c, _, err := r.ReadRune()
+	if err == io.EOF {
+		return false, nil
+	}
 	if err != nil {
 		return false, err
 	}
@@ -23,13 +34,13 @@ func skipComment(r io.RuneScanner) (bool, error) {
 	for {
 		c, _, err = r.ReadRune()
 		if err != nil {
-			return true, err
+			return true, tooShort(err)
 		}
 		switch c {
 		case '|':
 			c, _, err = r.ReadRune()
 			if err != nil {
-				return true, err
+				return true, tooShort(err)
 			}
 			if c == '#' {
 				nest--
@@ -42,7 +53,7 @@ func skipComment(r io.RuneScanner) (bool, error) {
 		case '#':
 			c, _, err = r.ReadRune()
 			if err != nil {
-				return true, err
+				return true, tooShort(err)
 			}
 			if c == '|' {
 				nest++
@@ -66,13 +77,16 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 	for {
 		lastRune, _, err := r.ReadRune()
 		if err != nil {
+			if quote || bar4symbol {
+				return "", tooShort(err)
+			}
 			return buffer.String(), err
 		}
 
 		if lastRune == '\\' {
 			nextRune, _, err := r.ReadRune()
 			if err != nil {
-				return "", fmt.Errorf("too near EOF: %w", err)
+				return "", tooShort(err)
 			}
 			if nextRune == '\\' {
 				buffer.WriteString(`\\`)
@@ -144,6 +158,9 @@ func readToken(r io.RuneScanner) (string, error) {
 		}
 		var token string
 		token, err = readtokenWord(r)
+		if err != nil && err != io.EOF {
+			return "", err
+		}
 		if token != "" {
 			return token, nil
 		}
-- 
2.43.0


From dd8c2146f4c44a5c7fc815e22d2cdca856cafc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 031/108] fix: the characters #\( #\) #\; and the double
 quotation in |..| are read literally

---
 pkg/parser/tokenize.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 94ba14d..317720b 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -94,6 +94,11 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 			} else if nextRune == '"' {
 				buffer.WriteString(`\"`)
 				continue
+			} else if !quote && !bar4symbol && buffer.String() == "#" {
+				buffer.WriteRune(lastRune)
+				buffer.WriteRune(nextRune)
+				lastLastRune = nextRune
+				continue
 			} else {
 				r.UnreadRune()
 			}
@@ -118,7 +123,7 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 				return buffer.String(), nil
 			}
 		}
-		if lastRune == '"' {
+		if !bar4symbol && lastRune == '"' {
 			quote = !quote
 		}
 		if !quote && lastRune == '|' && lastLastRune != '\\' {
-- 
2.43.0


From 7042ede433a9ed4de62c052b02ffcacbf9c68015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:53 +0000
Subject: [PATCH 032/108] fix: the symbols |)| and |.| are not confused with a
 close paren and a dot

---
 pkg/parser/main.go | 59 ++++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 5716a14..b8a0ab9 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -48,17 +48,15 @@ type Factory[N comparable] interface {
 type _Parser[N comparable] struct {
 	Factory[N]
 
-	dotSymbol        N
-	functionSymbol   N
-	parenCloseSymbol N
+	functionSymbol N
 }
 
-func (p *_Parser[N]) nodes2cons(nodes []N) N {
+func (p *_Parser[N]) nodes2cons(nodes []N, dot int) N {
 	if nodes == nil || len(nodes) <= 0 {
 		return p.Null()
 	}
 	cons := p.Null()
-	if len(nodes) >= 3 && nodes[len(nodes)-2] == p.dotSymbol {
+	if len(nodes) >= 3 && len(nodes)-2 == dot {
 		// dot pairs
 		cons = nodes[len(nodes)-1]
 		nodes = nodes[:len(nodes)-2]
@@ -76,17 +74,21 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 	fix := make([]bool, lenDim)
 	for {
 		if countDim == lenDim-1 {
-			newNode, err := p.ReadNode(rs)
+			token, err := readToken(rs)
 			if err != nil {
 				return p.Null(), tooShort(err)
 			}
-			if newNode == p.parenCloseSymbol {
+			if token == ")" {
 				fix[countDim] = true
 				countDim--
 				if countDim < 0 {
 					break
 				}
 			} else {
+				newNode, err := p.readNode(token, rs)
+				if err != nil {
+					return p.Null(), err
+				}
 				nodes = append(nodes, newNode)
 				if !fix[countDim] {
 					dim[countDim]++
@@ -198,26 +200,24 @@ func (p *_Parser[N]) tryParseAsNumber(token string) (N, bool, error) {
 	return p.Null(), false, nil
 }
 
-func (p *_Parser[N]) readUntilCloseParen(rs io.RuneScanner) ([]N, error) {
+// readUntilCloseParen returns the elements of a list and the last position of the dot.
+func (p *_Parser[N]) readUntilCloseParen(rs io.RuneScanner) ([]N, int, error) {
 	nodes := []N{}
-	var err error
+	dot := -1
 	for {
+		token, err := readToken(rs)
 		if err != nil {
-			if err == io.EOF {
-				return nil, ErrTooShortTokens
-			}
-			return nil, err
+			return nil, -1, tooShort(err)
 		}
-		var node1 N
-		node1, err = p.ReadNode(rs)
-		if err != nil {
-			if err == io.EOF {
-				return nil, ErrTooShortTokens
-			}
-			return nil, err
+		if token == ")" {
+			return nodes, dot, nil
+		}
+		if token == "." {
+			dot = len(nodes)
 		}
-		if node1 == p.parenCloseSymbol {
-			return nodes, nil
+		node1, err := p.readNode(token, rs)
+		if err != nil {
+			return nil, -1, err
 		}
 		nodes = append(nodes, node1)
 	}
@@ -232,6 +232,11 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 	if err != nil {
 		return p.Null(), err
 	}
+	return p.readNode(token, rs)
+}
+
+// readNode reads the rest of the expression which begins with the token.
+func (p *_Parser[N]) readNode(token string, rs io.RuneScanner) (N, error) {
 	if token == "`" {
 		quoted, err := p.ReadNode(rs)
 		if err != nil {
@@ -283,11 +288,11 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 		return p.readArray(dim, rs)
 	}
 	if token == "(" {
-		nodes, err := p.readUntilCloseParen(rs)
+		nodes, dot, err := p.readUntilCloseParen(rs)
 		if err != nil {
 			return p.Null(), err
 		}
-		return p.nodes2cons(nodes), nil
+		return p.nodes2cons(nodes, dot), nil
 	}
 	if len(token) > 0 && (token[0] == ':' || token[0] == '&') {
 		return p.Keyword(token), nil
@@ -361,10 +366,8 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 
 func newParser[N comparable](f Factory[N]) *_Parser[N] {
 	return &_Parser[N]{
-		Factory:          f,
-		dotSymbol:        f.Symbol("."),
-		functionSymbol:   f.Symbol("function"),
-		parenCloseSymbol: f.Symbol(")"),
+		Factory:        f,
+		functionSymbol: f.Symbol("function"),
 	}
 }
 
-- 
2.43.0


From c41a5a1facdeeaa1b04ed4356d9a3e07a6fc72c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:09 +0000
Subject: [PATCH 033/108] fix: strings are printed with the escapes which the
 reader supports

---
 sequence.go | 3 +--
 string.go   | 6 ++++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/sequence.go b/sequence.go
index 2a7054c..5d84586 100644
--- a/sequence.go
+++ b/sequence.go
@@ -3,7 +3,6 @@ package gmnlisp
 import (
 	"context"
 	"io"
-	"strconv"
 	"strings"
 )
 
@@ -78,7 +77,7 @@ func (S *StringBuilder) Sequence() Node {
 }
 
 func (S StringBuilder) GoString() string {
-	return strconv.Quote(S.String())
+	return String(S.String()).GoString()
 }
 
 func funElt(ctx context.Context, w *World, args []Node) (Node, error) {
diff --git a/string.go b/string.go
index 1816b15..bb11f30 100644
--- a/string.go
+++ b/string.go
@@ -2,7 +2,6 @@ package gmnlisp
 
 import (
 	"context"
-	"strconv"
 	"strings"
 	"unicode/utf8"
 )
@@ -20,9 +19,12 @@ func (s String) String() string {
 }
 
 func (s String) GoString() string {
-	return strconv.Quote(string(s))
+	return `"` + stringEscaper.Replace(string(s)) + `"`
 }
 
+// stringEscaper is the reverse of the escape which the reader supports.
+var stringEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 func (s String) Equals(n Node, m EqlMode) bool {
 	ns, ok := n.(String)
 	if !ok {
-- 
2.43.0


From 21799961d0f7135f3946e363c4f106306b3329d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:26 +0000
Subject: [PATCH 034/108] fix: the printed form of arrays is readable: empty
 vectors and #2A(...)

---
 array.go               | 22 ++++++++++++----------
 pkg/parser/tokenize.go |  2 +-
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/array.go b/array.go
index 4c56505..c4677fc 100644
--- a/array.go
+++ b/array.go
@@ -43,18 +43,20 @@ func (*Array) ClassOf() Class {
 }
 
 func (A *Array) printTo(w io.Writer, mode PrintMode, list []Node, dim []int) ([]Node, int, error) {
-	dem := byte('(')
-	n := 0
-	if len(dim) < 1 {
-		w.Write([]byte{dem})
-	} else {
+	n, err := w.Write([]byte{'('})
+	if err != nil {
+		return nil, n, err
+	}
+	if len(dim) >= 1 {
 		for i := 0; i < dim[0]; i++ {
-			_n, err := w.Write([]byte{dem})
-			n += _n
-			if err != nil {
-				return nil, n, err
+			var _n int
+			if i > 0 {
+				_n, err = w.Write([]byte{' '})
+				n += _n
+				if err != nil {
+					return nil, n, err
+				}
 			}
-			dem = ' '
 
 			if len(dim) >= 2 {
 				list, _n, err = A.printTo(w, mode, list, dim[1:])
diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 317720b..4acb0f5 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -66,7 +66,7 @@ func skipComment(r io.RuneScanner) (bool, error) {
 	}
 }
 
-var rxSharpAndNumber = regexp.MustCompile(`^#(\d+a)?$`)
+var rxSharpAndNumber = regexp.MustCompile(`^#(\d+[aA])?$`)
 
 func readtokenWord(r io.RuneScanner) (string, error) {
 	var buffer strings.Builder
-- 
2.43.0


From 8dc4b875ba7bd936d95508f159c7297254b47f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 035/108] fix: symbols are printed in bars by ~s when the
 reader needs them

---
 atom.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/atom.go b/atom.go
index ebfc3bf..94450ee 100644
--- a/atom.go
+++ b/atom.go
@@ -3,6 +3,7 @@ package gmnlisp
 import (
 	"context"
 	"fmt"
+	"strings"
 	"unicode"
 )
 
@@ -135,6 +136,22 @@ func (s _Symbol) String() string {
 	return symbolManager.IdToName(s)
 }
 
+var symbolEscaper = strings.NewReplacer(`\`, `\\`, `|`, `\|`)
+
+// GoString returns the name in bars unless the reader converts the bare name to the symbol.
+func (s _Symbol) GoString() string {
+	name := s.String()
+	if name != "." && name != ")" {
+		rs := strings.NewReader(name + " ")
+		if node, err := ReadNode(rs); err == nil && rs.Len() <= 1 {
+			if symbol, ok := node.(_Symbol); ok && symbol.String() == name {
+				return name
+			}
+		}
+	}
+	return "|" + symbolEscaper.Replace(name) + "|"
+}
+
 type Rune rune
 
 var characterClass = registerNewBuiltInClass[Rune]("<character>")
-- 
2.43.0


From 98855b754994fbcce217a17955d948034fda7e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 036/108] fix: the symbol in bars which contains #' is read to
 its end

---
 pkg/parser/tokenize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 4acb0f5..f3ee47e 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -132,7 +132,7 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 
 		buffer.WriteRune(lastRune)
 
-		if !quote && lastLastRune == '#' && lastRune == '\'' {
+		if !quote && !bar4symbol && lastLastRune == '#' && lastRune == '\'' {
 			return buffer.String(), err
 		}
 		lastLastRune = lastRune
-- 
2.43.0


From b241667e85970fc8bb59268cce39d380198851ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:03 +0000
Subject: [PATCH 037/108] fix: the quotes right after a comment are not a part
 of a symbol

---
 pkg/parser/tokenize.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index f3ee47e..de05ffb 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -110,6 +110,9 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 				if err != nil {
 					return "", err
 				}
+				if done && buffer.Len() == 0 {
+					return "", nil
+				}
 				if done {
 					continue
 				}
-- 
2.43.0


From da77e84bd4ff622207469bf57578e14df7e7877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:58 +0000
Subject: [PATCH 038/108] fix: the elements of a list are always separated when
 it is printed

---
 cons.go  | 8 ++------
 parse.go | 1 -
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/cons.go b/cons.go
index 80dc726..6e30212 100644
--- a/cons.go
+++ b/cons.go
@@ -85,7 +85,6 @@ func tryPrintTo(w io.Writer, node Node, m PrintMode) (int, error) {
 
 func (cons *Cons) writeToWithoutKakko(w io.Writer, m PrintMode) (int, error) {
 	var wc writeCounter
-	var lastCar Node = cons.Car
 	if IsNone(cons.Car) {
 		if wc.Try(io.WriteString(w, "nil")) {
 			return wc.Result()
@@ -101,10 +100,8 @@ func (cons *Cons) writeToWithoutKakko(w io.Writer, m PrintMode) (int, error) {
 			// output as ( X Y Z ...)
 
 			for p, ok := cons.Cdr.(*Cons); ok && IsSome(p); p, ok = p.Cdr.(*Cons) {
-				if lastCar != commaSymbol {
-					if wc.Try(io.WriteString(w, " ")) {
-						return wc.Result()
-					}
+				if wc.Try(io.WriteString(w, " ")) {
+					return wc.Result()
 				}
 				if IsNull(p.Car) {
 					if wc.Try(io.WriteString(w, "nil")) {
@@ -113,7 +110,6 @@ func (cons *Cons) writeToWithoutKakko(w io.Writer, m PrintMode) (int, error) {
 				} else if wc.Try(tryPrintTo(w, p.Car, m)) {
 					return wc.Result()
 				}
-				lastCar = p.Car
 			}
 		} else {
 			// output as ( X . Y )
diff --git a/parse.go b/parse.go
index 76094ec..ae1f504 100644
--- a/parse.go
+++ b/parse.go
@@ -9,7 +9,6 @@ import (
 
 var (
 	ampRest         = NewKeyword("&rest")
-	commaSymbol     = NewSymbol(",")
 	symUnquote      = NewSymbol("unquote")
 	nulSymbol       = NewSymbol("")
 	quoteSymbol     = NewSymbol("quote")
-- 
2.43.0


From 275863d2dac6b098e70f9cc73f9c2378d06dc333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:59 +0000
Subject: [PATCH 039/108] fix: dynamic-let restores a variable that it binds
 twice

---
 setq.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/setq.go b/setq.go
index 4d8f66e..4c12c6f 100644
--- a/setq.go
+++ b/setq.go
@@ -233,10 +233,13 @@ func (w *World) Dynamic(name Symbol) Node {
 }
 
 func (D *Dynamics) Set(symbol Symbol, newValue Node) {
-	if orig, ok := D.world.dynamic.Get(symbol); ok {
-		D.backups[symbol] = orig
-	} else {
-		D.removes[symbol] = struct{}{}
+	_, saved := D.backups[symbol]
+	if _, ok := D.removes[symbol]; !ok && !saved {
+		if orig, ok := D.world.dynamic.Get(symbol); ok {
+			D.backups[symbol] = orig
+		} else {
+			D.removes[symbol] = struct{}{}
+		}
 	}
 	if newValue != nil {
 		D.world.dynamic.Set(symbol, newValue)
-- 
2.43.0


From b9e4199210cf663da53a8455403992a7406ab94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:04 +0000
Subject: [PATCH 040/108] fix: dynamic-let evaluates all its values before it
 binds any variable

---
 setq.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/setq.go b/setq.go
index 4c12c6f..a8107cb 100644
--- a/setq.go
+++ b/setq.go
@@ -250,8 +250,8 @@ func cmdDynamicLet(ctx context.Context, w *World, list Node) (Node, error) {
 	var vars Node
 	var err error
 
-	D := w.NewDynamics()
-	defer D.Close()
+	var symbols []Symbol
+	var values []Node
 
 	vars, list, err = Shift(list)
 	if err != nil {
@@ -265,7 +265,8 @@ func cmdDynamicLet(ctx context.Context, w *World, list Node) (Node, error) {
 			return nil, err
 		}
 		if symbol, ok := varAndValue.(Symbol); ok {
-			D.Set(symbol, Null)
+			symbols = append(symbols, symbol)
+			values = append(values, Null)
 		} else {
 			var symbolNode Node
 			var value Node
@@ -285,8 +286,15 @@ func cmdDynamicLet(ctx context.Context, w *World, list Node) (Node, error) {
 			if IsSome(varAndValue) {
 				return nil, ErrTooManyArguments
 			}
-			D.Set(symbol, value)
+			symbols = append(symbols, symbol)
+			values = append(values, value)
 		}
 	}
+
+	D := w.NewDynamics()
+	defer D.Close()
+	for i, symbol := range symbols {
+		D.Set(symbol, values[i])
+	}
 	return Progn(ctx, w, list)
 }
-- 
2.43.0


From af041f5831bdb883edf051a3e2ff5565f9203759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:26 +0000
Subject: [PATCH 041/108] fix: closing an output file reports that its contents
 could not be written

---
 io.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/io.go b/io.go
index 11e76f5..c9deea9 100644
--- a/io.go
+++ b/io.go
@@ -227,8 +227,11 @@ type _OutputFileStream struct {
 }
 
 func (o *_OutputFileStream) Close() error {
-	o.Writer.Flush()
-	return o.closer.Close()
+	err := o.Writer.Flush()
+	if e := o.closer.Close(); err == nil {
+		err = e
+	}
+	return err
 }
 
 func openOutputFile(ctx context.Context, w *World, fnameNode Node) (*_OutputFileStream, error) {
-- 
2.43.0


From c360768dd4e89f85f3821eaac9c37564aac3add0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:33 +0000
Subject: [PATCH 042/108] fix: with-open-output-file reports that the contents
 of the file could not be written

---
 io.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/io.go b/io.go
index c9deea9..f4a6357 100644
--- a/io.go
+++ b/io.go
@@ -250,7 +250,7 @@ func funOpenOutputFile(ctx context.Context, w *World, arg Node) (Node, error) {
 	return openOutputFile(ctx, w, arg)
 }
 
-func cmdWithOpenOutputFile(ctx context.Context, w *World, list Node) (Node, error) {
+func cmdWithOpenOutputFile(ctx context.Context, w *World, list Node) (value Node, err error) {
 	param, list, err := Shift(list)
 	if err != nil {
 		return nil, err
@@ -271,7 +271,16 @@ func cmdWithOpenOutputFile(ctx context.Context, w *World, list Node) (Node, erro
 	if err != nil {
 		return nil, err
 	}
-	defer stream.Close()
+	defer func() {
+		e := stream.Flush()
+		if e2 := stream.Close(); e == nil && !errors.Is(e2, os.ErrClosed) {
+			e = e2
+		}
+		if err == nil && e != nil {
+			value, err = nil, e
+		}
+	}()
+
 
 	nw := w.Let(&Pair{Key: symbol, Value: stream})
 	return Progn(ctx, nw, list)
-- 
2.43.0


From 926024d70d6a802ac720a1abb24137355a19b32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:18 +0000
Subject: [PATCH 043/108] fix: an optimised tail call binds its parameters as
 any other call does

---
 lambda.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lambda.go b/lambda.go
index bbeb81c..590f825 100644
--- a/lambda.go
+++ b/lambda.go
@@ -288,7 +288,11 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 		if !errors.As(err, &errTailRecOpt) {
 			break
 		}
+		if err := checkContext(ctx); err != nil {
+			return nil, err
+		}
 		n = errTailRecOpt.params
+		lexical = Variables{}
 		foundSlash = false
 		for _, name := range L.param {
 			if name == slashSymbol {
@@ -304,10 +308,15 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 			value, n, err = Shift(n)
 			if err != nil {
 				// return nil,fmt.Errorf("%w\n\t%s",err,L.name)
-				return nil, err
+				return raiseProgramError(ctx, w, err)
 			}
 			lexical[name] = value
 		}
+		if L.rest != nulSymbol {
+			lexical[L.rest] = n
+		} else if IsSome(n) {
+			return raiseProgramError(ctx, w, ErrTooManyArguments)
+		}
 	}
 	var errEarlyReturns *_ErrEarlyReturns
 	if errors.As(err, &errEarlyReturns) && L.name != nulSymbol && errEarlyReturns.Name == L.name {
-- 
2.43.0


From 264e4d2494482cae0b63332de206172a8a6055df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:32 +0000
Subject: [PATCH 044/108] fix: a tail call is optimised only when the name
 means the running function

---
 lambda.go | 27 ++++++++++++++++++---------
 progn.go  |  8 ++++----
 setq.go   |  8 ++++----
 3 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/lambda.go b/lambda.go
index 590f825..a6679f6 100644
--- a/lambda.go
+++ b/lambda.go
@@ -282,7 +282,7 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 	var err error
 	for {
 		newWorld := L.lexical.Let(lexical)
-		result, err = prognWithTailRecOpt(ctx, newWorld, L.code, L.name)
+		result, err = prognWithTailRecOpt(ctx, newWorld, L.code, L)
 
 		var errTailRecOpt *_ErrTailRecOpt
 		if !errors.As(err, &errTailRecOpt) {
@@ -336,12 +336,21 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 }
 
 // If target.Car is current function symbol, then make and return an instance of _ErrTailRecOpt
-func testCarIsCurrFunc(ctx context.Context, w *World, target Node, currFunc Symbol) (err error) {
-	if currFunc.Id() < 0 {
+func testCarIsCurrFunc(ctx context.Context, w *World, target Node, currFunc *_Lambda) (err error) {
+	if currFunc == nil {
 		return nil
 	}
 	cons, ok := target.(*Cons)
-	if !ok || IsNone(cons.Car) || !cons.Car.Equals(currFunc, EQUAL) {
+	if !ok || IsNone(cons.Car) || !cons.Car.Equals(currFunc.name, EQUAL) {
+		return nil
+	}
+
+	// The name must mean the current function where the call is made.
+	f, err := w.GetFunc(currFunc.name)
+	if err != nil {
+		return nil
+	}
+	if L, ok := f.(*_Lambda); !ok || L != currFunc {
 		return nil
 	}
 
@@ -372,8 +381,8 @@ var (
 )
 
 // Evaluate the target considering the tail call optimization.
-func evalWithTailRecOpt(ctx context.Context, w *World, target Node, currFunc Symbol) (Node, error) {
-	if currFunc.Id() >= 0 {
+func evalWithTailRecOpt(ctx context.Context, w *World, target Node, currFunc *_Lambda) (Node, error) {
+	if currFunc != nil {
 		if err := testCarIsCurrFunc(ctx, w, target, currFunc); err != nil {
 			return nil, err
 		}
@@ -398,7 +407,7 @@ func evalWithTailRecOpt(ctx context.Context, w *World, target Node, currFunc Sym
 	return w.Eval(ctx, target)
 }
 
-func prognWithTailRecOpt(ctx context.Context, w *World, n Node, sym Symbol) (value Node, err error) {
+func prognWithTailRecOpt(ctx context.Context, w *World, n Node, currFunc *_Lambda) (value Node, err error) {
 	value = Null
 	for IsSome(n) {
 		var first Node
@@ -407,8 +416,8 @@ func prognWithTailRecOpt(ctx context.Context, w *World, n Node, sym Symbol) (val
 		if err != nil {
 			return nil, err
 		}
-		if sym.Id() >= 0 && IsNone(n) {
-			value, err = evalWithTailRecOpt(ctx, w, first, sym)
+		if currFunc != nil && IsNone(n) {
+			value, err = evalWithTailRecOpt(ctx, w, first, currFunc)
 		} else {
 			value, err = w.Eval(ctx, first)
 		}
diff --git a/progn.go b/progn.go
index 2b5629b..78369d8 100644
--- a/progn.go
+++ b/progn.go
@@ -152,10 +152,10 @@ func funThrow(ctx context.Context, w *World, tagForm, value Node) (Node, error)
 }
 
 func cmdCond(ctx context.Context, w *World, list Node) (Node, error) {
-	return cmdCondWithTailRecOpt(ctx, w, list, _Symbol(-1))
+	return cmdCondWithTailRecOpt(ctx, w, list, nil)
 }
 
-func cmdCondWithTailRecOpt(ctx context.Context, w *World, list Node, currFunc Symbol) (Node, error) {
+func cmdCondWithTailRecOpt(ctx context.Context, w *World, list Node, currFunc *_Lambda) (Node, error) {
 	for IsSome(list) {
 		var condAndAct Node
 		var err error
@@ -215,10 +215,10 @@ func cmdCase(ctx context.Context, w *World, list Node) (Node, error) {
 }
 
 func cmdIf(ctx context.Context, w *World, params Node) (Node, error) {
-	return cmdIfWithTailRecOpt(ctx, w, params, _Symbol(-1))
+	return cmdIfWithTailRecOpt(ctx, w, params, nil)
 }
 
-func cmdIfWithTailRecOpt(ctx context.Context, w *World, params Node, tailOptSym Symbol) (Node, error) {
+func cmdIfWithTailRecOpt(ctx context.Context, w *World, params Node, tailOptSym *_Lambda) (Node, error) {
 	cond, params, err := w.ShiftAndEvalCar(ctx, params)
 	if err != nil {
 		return nil, err
diff --git a/setq.go b/setq.go
index a8107cb..cb6f9e4 100644
--- a/setq.go
+++ b/setq.go
@@ -96,10 +96,10 @@ func letValuesToVars(ctx context.Context, w *World, list Node, lexical map[Symbo
 }
 
 func cmdLet(ctx context.Context, w *World, params Node) (Node, error) {
-	return cmdLetWithTailRecOpt(ctx, w, params, _Symbol(-1))
+	return cmdLetWithTailRecOpt(ctx, w, params, nil)
 }
 
-func cmdLetWithTailRecOpt(ctx context.Context, w *World, params Node, tailOptSym Symbol) (Node, error) {
+func cmdLetWithTailRecOpt(ctx context.Context, w *World, params Node, tailOptSym *_Lambda) (Node, error) {
 	// from CommonLisp
 	list, params, err := Shift(params)
 	if err != nil {
@@ -116,10 +116,10 @@ func cmdLetWithTailRecOpt(ctx context.Context, w *World, params Node, tailOptSym
 }
 
 func cmdLetX(ctx context.Context, w *World, params Node) (Node, error) {
-	return cmdLetXWithTailRecOpt(ctx, w, params, _Symbol(-1))
+	return cmdLetXWithTailRecOpt(ctx, w, params, nil)
 }
 
-func cmdLetXWithTailRecOpt(ctx context.Context, w *World, params Node, tailOptSym Symbol) (Node, error) {
+func cmdLetXWithTailRecOpt(ctx context.Context, w *World, params Node, tailOptSym *_Lambda) (Node, error) {
 	// from CommonLisp
 	list, params, err := Shift(params)
 	if err != nil {
-- 
2.43.0


From dcd0bb03eecc02e63d571ba67b673d2425cc980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:05 +0000
Subject: [PATCH 045/108] fix: the initform of a subclass takes precedence over
 that of its superclass

---
 class.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/class.go b/class.go
index ec78615..9f4f95b 100644
--- a/class.go
+++ b/class.go
@@ -438,13 +438,6 @@ func (c *_StandardObject) GoString() string {
 }
 
 func (reciever *_StandardObject) callInitForm(classDef *_StandardClass) error {
-	for _, super := range classDef.Super {
-		if uc, ok := super.(*_StandardClass); ok {
-			if err := reciever.callInitForm(uc); err != nil {
-				return err
-			}
-		}
-	}
 	for name, slot1 := range classDef.Slot {
 		if _, ok := reciever.Slot[name]; !ok && slot1.initform != nil {
 			var err error
@@ -454,6 +447,13 @@ func (reciever *_StandardObject) callInitForm(classDef *_StandardClass) error {
 			}
 		}
 	}
+	for _, super := range classDef.Super {
+		if uc, ok := super.(*_StandardClass); ok {
+			if err := reciever.callInitForm(uc); err != nil {
+				return err
+			}
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 8e38df88a334a464a01d6c28bddac7c92b1872f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:11 +0000
Subject: [PATCH 046/108] fix: initforms are evaluated with the context of the
 create call

---
 class.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/class.go b/class.go
index 9f4f95b..743ca11 100644
--- a/class.go
+++ b/class.go
@@ -14,6 +14,7 @@ type _SlotSpec struct {
 	accessor   []Symbol
 	boundp     []Symbol
 	initform   func() (Node, error)
+	initialize func(context.Context) (Node, error)
 	initarg    []Symbol
 }
 
@@ -145,7 +146,8 @@ func readSlotSpec(ctx context.Context, w *World, list Node) (*_SlotSpec, error)
 				return nil, fmt.Errorf("%#v: %w", keyword.String(), err)
 			}
 		case kwInitForm:
-			slotSpec.initform = func() (Node, error) { return w.Eval(ctx, value) }
+			slotSpec.initialize = func(ctx context.Context) (Node, error) { return w.Eval(ctx, value) }
+			slotSpec.initform = func() (Node, error) { return slotSpec.initialize(ctx) }
 		case kwInitArg:
 			if v, err := ExpectSymbol(ctx, w, value); err == nil {
 				slotSpec.initarg = append(slotSpec.initarg, v)
@@ -437,11 +439,11 @@ func (c *_StandardObject) GoString() string {
 	return buffer.String()
 }
 
-func (reciever *_StandardObject) callInitForm(classDef *_StandardClass) error {
+func (reciever *_StandardObject) callInitForm(ctx context.Context, classDef *_StandardClass) error {
 	for name, slot1 := range classDef.Slot {
-		if _, ok := reciever.Slot[name]; !ok && slot1.initform != nil {
+		if _, ok := reciever.Slot[name]; !ok && slot1.initialize != nil {
 			var err error
-			reciever.Slot[name], err = slot1.initform()
+			reciever.Slot[name], err = slot1.initialize(ctx)
 			if err != nil {
 				return err
 			}
@@ -449,7 +451,7 @@ func (reciever *_StandardObject) callInitForm(classDef *_StandardClass) error {
 	}
 	for _, super := range classDef.Super {
 		if uc, ok := super.(*_StandardClass); ok {
-			if err := reciever.callInitForm(uc); err != nil {
+			if err := reciever.callInitForm(ctx, uc); err != nil {
 				return err
 			}
 		}
@@ -542,7 +544,7 @@ func defaultInitializeObject(ctx context.Context, w *World, args []Node) (Node,
 		initVal, args = args[0], args[1:]
 		this.callInitArg(this._StandardClass, initArg, initVal)
 	}
-	return this, this.callInitForm(this._StandardClass)
+	return this, this.callInitForm(ctx, this._StandardClass)
 }
 
 func defInstanceP(ctx context.Context, w *World, node Node) (Node, error) {
-- 
2.43.0


From 1e01d82d26e0bbf1263ac24316d7e69cba345e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:04 +0000
Subject: [PATCH 047/108] fix: generic calls and macro calls stop when the
 context is cancelled

---
 generic.go | 3 +++
 macro.go   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/generic.go b/generic.go
index e506b56..acf3d78 100644
--- a/generic.go
+++ b/generic.go
@@ -105,6 +105,9 @@ func cmdDefGeneric(ctx context.Context, w *World, node Node) (Node, error) {
 }
 
 func (c *_Generic) Call(ctx context.Context, w *World, node Node) (Node, error) {
+	if err := checkContext(ctx); err != nil {
+		return nil, err
+	}
 	values := []Node{}
 	for IsSome(node) {
 		var v Node
diff --git a/macro.go b/macro.go
index bb0c4a2..857ac20 100644
--- a/macro.go
+++ b/macro.go
@@ -136,6 +136,9 @@ func (m *_Macro) expand(ctx context.Context, w *World, n Node) (Node, error) {
 }
 
 func (m *_Macro) Call(ctx context.Context, w *World, n Node) (Node, error) {
+	if err := checkContext(ctx); err != nil {
+		return nil, err
+	}
 	newCode, err := m.expand(ctx, w, n)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 0a2622400aecc2605082cdf113ca4d762833efe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:46 +0000
Subject: [PATCH 048/108] fix: the mapping functions without a list do not loop
 for ever

---
 sequence.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sequence.go b/sequence.go
index 5d84586..dbebca7 100644
--- a/sequence.go
+++ b/sequence.go
@@ -120,6 +120,9 @@ func funLength(ctx context.Context, w *World, arg Node) (Node, error) {
 }
 
 func MapCar(ctx context.Context, w *World, funcNode Node, sourceSet []Node, store func(Node)) error {
+	if len(sourceSet) <= 0 {
+		return ErrTooFewArguments
+	}
 	f, err := w.Eval(ctx, funcNode)
 	if err != nil {
 		return err
@@ -197,6 +200,9 @@ func listToQuotedList(list []Node) Node {
 }
 
 func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, store func(Node)) error {
+	if len(sourceSet) <= 0 {
+		return ErrTooFewArguments
+	}
 	f, err := w.Eval(ctx, funcNode)
 	if err != nil {
 		return err
-- 
2.43.0


From fb9d672587e8560316b326db3e752b8542f95b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 049/108] fix: the mapping functions do not evaluate their
 function argument again

---
 sequence.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/sequence.go b/sequence.go
index dbebca7..70b8f5d 100644
--- a/sequence.go
+++ b/sequence.go
@@ -123,11 +123,7 @@ func MapCar(ctx context.Context, w *World, funcNode Node, sourceSet []Node, stor
 	if len(sourceSet) <= 0 {
 		return ErrTooFewArguments
 	}
-	f, err := w.Eval(ctx, funcNode)
-	if err != nil {
-		return err
-	}
-	_f, err := ExpectFunction(ctx, w, f)
+	_f, err := ExpectFunction(ctx, w, funcNode)
 	if err != nil {
 		return err
 	}
@@ -203,11 +199,7 @@ func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, sto
 	if len(sourceSet) <= 0 {
 		return ErrTooFewArguments
 	}
-	f, err := w.Eval(ctx, funcNode)
-	if err != nil {
-		return err
-	}
-	_f, err := ExpectFunction(ctx, w, f)
+	_f, err := ExpectFunction(ctx, w, funcNode)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 2e645bbd765dfb639ccb1172b1633f1d38bf987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 050/108] fix: signal-condition does not evaluate the condition
 again

---
 cond.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cond.go b/cond.go
index 5c6e2b7..a439d87 100644
--- a/cond.go
+++ b/cond.go
@@ -42,9 +42,9 @@ func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
 	}
 	var err2 error
 	if errors.As(err, &errorValue) {
-		_, err2 = handler.Call(ctx, w, &Cons{Car: errorValue, Cdr: Null})
+		_, err2 = handler.Call(ctx, w, UnevalList(errorValue))
 	} else {
-		_, err2 = handler.Call(ctx, w, &Cons{Car: ErrorNode{Value: err}, Cdr: Null})
+		_, err2 = handler.Call(ctx, w, UnevalList(ErrorNode{Value: err}))
 	}
 	if err2 != nil {
 		return nil, err2
@@ -81,7 +81,7 @@ func funSignalCondition(ctx context.Context, w *World, cond, continueable Node)
 		}
 		return nil, errors.New(cond.String())
 	}
-	rv, err := w.handler.Call(ctx, w, &Cons{Car: cond})
+	rv, err := w.handler.Call(ctx, w, UnevalList(cond))
 	var e *_ErrContinueCondition
 	if IsSome(continueable) && errors.As(err, &e) {
 		return e.Value, nil
-- 
2.43.0


From adc13e5f6b20c65d36a1aeaaa9dfecace0ae3e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 051/108] fix: case compares its keys with eql

---
 progn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/progn.go b/progn.go
index 78369d8..de74c87 100644
--- a/progn.go
+++ b/progn.go
@@ -203,7 +203,7 @@ func cmdCase(ctx context.Context, w *World, list Node) (Node, error) {
 				if err != nil {
 					return nil, err
 				}
-				if swValue.Equals(_caseValue, EQUALP) {
+				if swValue.Equals(_caseValue, STRICT) {
 					return Progn(ctx, w, act)
 				}
 			}
-- 
2.43.0


From a396aaae28314977dd5cbc1a16195d9c389b6ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 052/108] fix: apply evaluates its operands from left to right

---
 lambda.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lambda.go b/lambda.go
index a6679f6..818fd62 100644
--- a/lambda.go
+++ b/lambda.go
@@ -478,16 +478,12 @@ func cmdApply(ctx context.Context, w *World, list Node) (Node, error) {
 	for {
 		var value Node
 
-		value, list, err = Shift(list)
+		value, list, err = w.ShiftAndEvalCar(ctx, list)
 		if err != nil {
 			return nil, err
 		}
 		if IsNone(list) {
 			// value is the last argument = array
-			value, err := w.Eval(ctx, value)
-			if err != nil {
-				return nil, err
-			}
 			err = SeqEach(ctx, w, value, func(n Node) error {
 				return newargs.Add(ctx, w, Uneval{n})
 			})
@@ -496,7 +492,7 @@ func cmdApply(ctx context.Context, w *World, list Node) (Node, error) {
 			}
 			return f.Call(ctx, w, newargs.Sequence())
 		}
-		newargs.Add(ctx, w, value)
+		newargs.Add(ctx, w, Uneval{value})
 	}
 }
 
-- 
2.43.0


From d8195a84167ed6b602c5c7bea9a407bd140bb27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 053/108] fix: (and) and (or) without operands are t and nil

---
 operator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/operator.go b/operator.go
index a5100f8..5058359 100644
--- a/operator.go
+++ b/operator.go
@@ -160,6 +160,9 @@ func funLessOrEqual(ctx context.Context, w *World, args []Node) (Node, error) {
 }
 
 func cmdAnd(ctx context.Context, w *World, param Node) (Node, error) {
+	if IsNone(param) {
+		return True, nil
+	}
 	for {
 		var value Node
 		var err error
@@ -178,6 +181,9 @@ func cmdAnd(ctx context.Context, w *World, param Node) (Node, error) {
 }
 
 func cmdOr(ctx context.Context, w *World, param Node) (Node, error) {
+	if IsNone(param) {
+		return Null, nil
+	}
 	for {
 		var value Node
 		var err error
-- 
2.43.0


From 7e81fadceb402d3d9809a732f7c44de2d6771a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 054/108] fix: a cond clause without forms gives the value of
 its test

---
 progn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/progn.go b/progn.go
index de74c87..2eec610 100644
--- a/progn.go
+++ b/progn.go
@@ -169,6 +169,9 @@ func cmdCondWithTailRecOpt(ctx context.Context, w *World, list Node, currFunc *_
 			return nil, err
 		}
 		if IsSome(cond) {
+			if IsNone(act) {
+				return cond, nil
+			}
 			return prognWithTailRecOpt(ctx, w, act, currFunc)
 		}
 	}
-- 
2.43.0


From d1abd74cadf0e54d0d1047a36141417a947fec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 055/108] fix: a body form that calls a lambda form is kept
 when its function is defined

---
 lambda.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lambda.go b/lambda.go
index 818fd62..4caf268 100644
--- a/lambda.go
+++ b/lambda.go
@@ -90,9 +90,7 @@ func expandMacroOne(ctx context.Context, w *World, value Node) Node {
 	}
 	symbol, ok := cons.Car.(Symbol)
 	if !ok {
-		car := expandMacroOne(ctx, w, cons.Car)
-		cdr := expandMacroOne(ctx, w, cons.Cdr)
-		return &Cons{Car: car, Cdr: cdr}
+		return nil
 	}
 	macro, ok := w.macro[symbol]
 	if !ok {
-- 
2.43.0


From de8c2160a58c033e2ba0e34339d31dbe2e2dc73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 056/108] fix: maplist, mapl and mapcon do not call the
 function for an empty list

---
 sequence.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sequence.go b/sequence.go
index 70b8f5d..cbdb78f 100644
--- a/sequence.go
+++ b/sequence.go
@@ -206,6 +206,11 @@ func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, sto
 	listSet := make([]Node, len(sourceSet))
 	copy(listSet, sourceSet)
 	for {
+		for _, list := range listSet {
+			if IsNone(list) {
+				return nil
+			}
+		}
 		result, err := _f.Call(ctx, w, listToQuotedList(listSet))
 		if err != nil {
 			return err
@@ -213,15 +218,12 @@ func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, sto
 		store(result)
 
 		for i := 0; i < len(listSet); i++ {
-			if IsNone(listSet[i]) {
-				return nil
-			}
 			seq, ok := listSet[i].(Sequence)
 			if !ok {
 				return ErrNotSupportType
 			}
 			_, listSet[i], ok = seq.FirstAndRest()
-			if !ok || IsNone(listSet[i]) {
+			if !ok {
 				return nil
 			}
 		}
-- 
2.43.0


From d5e583e20138fa25f094dd28fa7db59bfaa2b786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 057/108] fix: mapl returns its first list

---
 sequence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sequence.go b/sequence.go
index cbdb78f..f36a7a1 100644
--- a/sequence.go
+++ b/sequence.go
@@ -247,7 +247,7 @@ func funMapL(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if len(argv) < 2 {
 		return Null, err
 	}
-	return argv[0], err
+	return argv[1], err
 }
 
 func funMapCon(ctx context.Context, w *World, argv []Node) (Node, error) {
-- 
2.43.0


From 4f8a3cf33a885b6a20c86f1249382685a7e0fc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:00 +0000
Subject: [PATCH 058/108] fix: method bodies see the variables of their
 definition and an empty rest parameter

---
 generic.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generic.go b/generic.go
index acf3d78..37daa9d 100644
--- a/generic.go
+++ b/generic.go
@@ -223,8 +223,11 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 		}
 		method.types = append(method.types, type1)
 	}
-	method.method = func(ctx context.Context, w *World, args []Node) (Node, error) {
+	method.method = func(ctx context.Context, _ *World, args []Node) (Node, error) {
 		vars := Variables{}
+		if method.restType != nil {
+			vars[restName] = Null
+		}
 		for i, v := range args {
 			if i >= len(paramNames) {
 				var rest Node = Null
-- 
2.43.0


From 300315b82e28b733b5e3606f078cb9f8aef11f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:06 +0000
Subject: [PATCH 059/108] fix: a macro call with too many operands is an error

---
 macro.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/macro.go b/macro.go
index 857ac20..7b6563d 100644
--- a/macro.go
+++ b/macro.go
@@ -102,6 +102,9 @@ func (m *_Macro) expand(ctx context.Context, w *World, n Node) (Node, error) {
 			return nil, err
 		}
 	}
+	if m.rest == nulSymbol && IsSome(n) {
+		return nil, ErrTooManyArguments
+	}
 	lexical[m.rest] = n
 	joinedForm := _JoinedForm{}
 	for cons, ok := n.(*Cons); ok && IsSome(cons); cons, ok = cons.Cdr.(*Cons) {
-- 
2.43.0


From 265db8dd83149a168cd341d91e0be8ba087595a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 060/108] fix: library functions see the top-level definitions,
 not those around their first call

---
 lambda.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambda.go b/lambda.go
index 4caf268..bdaedbb 100644
--- a/lambda.go
+++ b/lambda.go
@@ -637,6 +637,9 @@ type LispString struct {
 
 func (L *LispString) Eval(ctx context.Context, w *World) (Node, error) {
 	if L.compile == nil {
+		for w.parent != nil {
+			w = w.parent
+		}
 		c, err := w.Interpret(ctx, L.S)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 5d75c636c3bdcdff74199604312d379dc8b6f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:09 +0000
Subject: [PATCH 061/108] fix: library functions use the streams and functions
 of their own interpreter

---
 world.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/world.go b/world.go
index 0aa47c4..7020fcc 100644
--- a/world.go
+++ b/world.go
@@ -478,7 +478,7 @@ func (rw _RootWorld) Get(symbol Symbol) (Callable, bool) {
 	script, err := embedLisp.ReadFile(fname)
 	if err == nil {
 		value := &LispString{S: string(script)}
-		autoLoadFunc[symbol] = value
+		rw[symbol] = value
 		return value, true
 	}
 	return nil, false
-- 
2.43.0


From f9e149bd323e9d70bb2397753588ed9856dddd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:15 +0000
Subject: [PATCH 062/108] fix: a value in let* does not see the variables bound
 after it

---
 setq.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/setq.go b/setq.go
index cb6f9e4..2719d49 100644
--- a/setq.go
+++ b/setq.go
@@ -64,6 +64,26 @@ func cmdPSetq(ctx context.Context, w *World, params Node) (Node, error) {
 	return Null, nil
 }
 
+// letSequentially binds each variable in a scope of its own, so that a value
+// does not see the variables that come after it.
+func letSequentially(ctx context.Context, w *World, list Node) (*World, error) {
+	for IsSome(list) {
+		var item Node
+		var err error
+
+		item, list, err = Shift(list)
+		if err != nil {
+			return nil, err
+		}
+		lexical := Variables{}
+		if err := letValuesToVars(ctx, w, List(item), lexical); err != nil {
+			return nil, err
+		}
+		w = w.Let(lexical)
+	}
+	return w, nil
+}
+
 func letValuesToVars(ctx context.Context, w *World, list Node, lexical map[Symbol]Node) error {
 	for IsSome(list) {
 		var item Node
@@ -125,11 +145,8 @@ func cmdLetXWithTailRecOpt(ctx context.Context, w *World, params Node, tailOptSy
 	if err != nil {
 		return nil, err
 	}
-	lexical := Variables{}
-
-	newWorld := w.Let(lexical)
-
-	if err := letValuesToVars(ctx, newWorld, list, lexical); err != nil {
+	newWorld, err := letSequentially(ctx, w, list)
+	if err != nil {
 		return nil, err
 	}
 	return prognWithTailRecOpt(ctx, newWorld, params, tailOptSym)
-- 
2.43.0


From f0ea5ca0bb44e814b0efb867d82adfe532ca59ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 063/108] fix: only what names a macro at that place is
 expanded when a function is defined

---
 lambda.go | 10 +++++-----
 macro.go  |  5 +----
 world.go  |  1 -
 3 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/lambda.go b/lambda.go
index bdaedbb..2ba3c4d 100644
--- a/lambda.go
+++ b/lambda.go
@@ -92,12 +92,12 @@ func expandMacroOne(ctx context.Context, w *World, value Node) Node {
 	if !ok {
 		return nil
 	}
-	macro, ok := w.macro[symbol]
+	f, err := w.GetFunc(symbol)
+	if err != nil {
+		return nil
+	}
+	macro, ok := f.(*_Macro)
 	if !ok {
-		f, err := w.GetFunc(symbol)
-		if err != nil {
-			return nil
-		}
 		ls, ok := f.(*LispString)
 		if !ok {
 			return nil
diff --git a/macro.go b/macro.go
index 7b6563d..53a0602 100644
--- a/macro.go
+++ b/macro.go
@@ -190,10 +190,7 @@ func cmdDefMacro(ctx context.Context, w *World, n Node) (Node, error) {
 		return nil, err
 	}
 	w.defun.Set(macroName, value)
-	if w.macro == nil {
-		w.macro = make(map[Symbol]*_Macro)
-	}
-	w.macro[macroName] = value
+
 	return macroName, nil
 }
 
diff --git a/world.go b/world.go
index 7020fcc..5f98559 100644
--- a/world.go
+++ b/world.go
@@ -96,7 +96,6 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 }
 
 type shared struct {
-	macro     map[Symbol]*_Macro
 	handler   Callable
 	global    Scope
 	defun     FuncScope
-- 
2.43.0


From 84a8c116f4d22fa7d6a389b9b3217116948d6115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:14 +0000
Subject: [PATCH 064/108] fix: the functions of labels hide the macros of the
 same names in all of its bodies

---
 functionref.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/functionref.go b/functionref.go
index 84a0dd0..ba6c8a5 100644
--- a/functionref.go
+++ b/functionref.go
@@ -113,6 +113,14 @@ func cmdLabels(ctx context.Context, w *World, list Node) (Node, error) {
 	}
 	lexical := Functions{}
 	nw := w.Flet(lexical)
+	// Every name hides the macro of the same name in all of the bodies.
+	for rest, ok := flist.(*Cons); ok; rest, ok = rest.Cdr.(*Cons) {
+		if def, ok := rest.Car.(*Cons); ok {
+			if symbol, ok := def.Car.(Symbol); ok {
+				lexical[symbol] = &_Lambda{}
+			}
+		}
+	}
 	for HasValue(flist) {
 		var flist1 Node
 		flist1, flist, err = Shift(flist)
-- 
2.43.0


From 10351b6a155d88fb3a1ba7bd3e0699492b09296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 065/108] fix: <number> is bound and <float> is a subclass of
 it

---
 number.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number.go b/number.go
index 8bdd4ca..5f3c8c8 100644
--- a/number.go
+++ b/number.go
@@ -8,7 +8,7 @@ import (
 )
 
 var numberClass = &_BuiltInClass{
-	name: NewSymbol("number"),
+	name: NewSymbol("<number>"),
 	instanceP: func(n Node) bool {
 		if _, ok := n.(Integer); ok {
 			return true
@@ -176,7 +176,7 @@ func (i Integer) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
 
 type Float float64
 
-var floatClass = registerNewBuiltInClass[Float]("<float>")
+var floatClass = registerNewBuiltInClass[Float]("<float>", numberClass)
 
 func (Float) ClassOf() Class {
 	return floatClass
-- 
2.43.0


From 843919948bc186920d8f6a2415a9a743c7a2a791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 066/108] fix: <cons> is a subclass of <list>

---
 cons.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cons.go b/cons.go
index 6e30212..1348fa9 100644
--- a/cons.go
+++ b/cons.go
@@ -12,7 +12,7 @@ type Cons struct {
 	Cdr Node
 }
 
-var consClass = registerNewAbstractClass[*Cons]("<cons>")
+var consClass = registerNewAbstractClass[*Cons]("<cons>", listClass)
 
 func (*Cons) ClassOf() Class {
 	return consClass
-- 
2.43.0


From ae552f3392d4c1616583e09584d42f1482013566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 067/108] fix: the arithmetic errors are errors:
 <division-by-zero> is below <arithmetic-error> and <error>

---
 number.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number.go b/number.go
index 5f3c8c8..41c0ae7 100644
--- a/number.go
+++ b/number.go
@@ -90,7 +90,7 @@ type ArithmeticError struct {
 	Class     Class
 }
 
-var arithmeticErrorClass = registerNewBuiltInClass[*ArithmeticError]("<arithmetic-error-class>")
+var arithmeticErrorClass = registerNewBuiltInClass[*ArithmeticError]("<arithmetic-error>", errorClass)
 
 func (e *ArithmeticError) ClassOf() Class {
 	if e != nil && e.Class != nil {
@@ -120,7 +120,7 @@ func (e *ArithmeticError) Error() string {
 	return e.String()
 }
 
-var divisionByZeroClass = registerNewAbstractClass[*ArithmeticError]("<division-by-zero>")
+var divisionByZeroClass = registerNewAbstractClass[*ArithmeticError]("<division-by-zero>", arithmeticErrorClass)
 
 func raiseDivisionByZero(ctx context.Context, w *World, m, n Node) (Node, error) {
 	return callHandler[Node](ctx, w, true, &ArithmeticError{
-- 
2.43.0


From f6fc7b6c4c8fbaf4f92be37517fe39dc4000bab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 068/108] fix: an object is an instance of its class and of the
 superclasses of that and of no other class

---
 builtinclass.go | 22 +++++++++++++---------
 number.go       |  9 ---------
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/builtinclass.go b/builtinclass.go
index 34799fc..30be39f 100644
--- a/builtinclass.go
+++ b/builtinclass.go
@@ -35,6 +35,14 @@ func (e *_BuiltInClass) Create() Node {
 
 var classClass = registerNewBuiltInClass[Class]("<class>")
 
+func init() {
+	// not all classes of classes inherit <class>
+	classClass.instanceP = func(n Node) bool {
+		_, ok := n.(Class)
+		return ok
+	}
+}
+
 var builtInClass = newAbstractClass[*_BuiltInClass]("<built-in-class>")
 
 func (e *_BuiltInClass) ClassOf() Class {
@@ -46,7 +54,11 @@ func (e *_BuiltInClass) Name() Symbol {
 }
 
 func (e *_BuiltInClass) InstanceP(n Node) bool {
-	return e.instanceP(n) || n.ClassOf().InheritP(e)
+	if e.instanceP != nil && e.instanceP(n) {
+		return true
+	}
+	class := n.ClassOf()
+	return e.Equals(class, STRICT) || class.InheritP(e)
 }
 
 func (e *_BuiltInClass) String() string {
@@ -72,10 +84,6 @@ func newBuiltInClass[T Node](name string) *_BuiltInClass {
 	symbol := NewSymbol(name)
 	return &_BuiltInClass{
 		name: symbol,
-		instanceP: func(n Node) bool {
-			_, ok := n.(T)
-			return ok
-		},
 		create: func() Node {
 			var value T
 			if !usableZero(reflect.TypeOf(&value).Elem()) {
@@ -105,10 +113,6 @@ func newAbstractClass[T Node](name string) *_BuiltInClass {
 	symbol := NewSymbol(name)
 	return &_BuiltInClass{
 		name: symbol,
-		instanceP: func(n Node) bool {
-			_, ok := n.(T)
-			return ok
-		},
 		create: func() Node {
 			return nil
 		},
diff --git a/number.go b/number.go
index 41c0ae7..c87e95f 100644
--- a/number.go
+++ b/number.go
@@ -9,15 +9,6 @@ import (
 
 var numberClass = &_BuiltInClass{
 	name: NewSymbol("<number>"),
-	instanceP: func(n Node) bool {
-		if _, ok := n.(Integer); ok {
-			return true
-		}
-		if _, ok := n.(Float); ok {
-			return true
-		}
-		return false
-	},
 	create: func() Node {
 		return nil
 	},
-- 
2.43.0


From 25cb57ae2dfee7379653060c2c42352322bc7218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 069/108] fix: a generic function calls its most specific
 applicable method

---
 generic.go | 50 ++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/generic.go b/generic.go
index 37daa9d..cbacd9a 100644
--- a/generic.go
+++ b/generic.go
@@ -43,6 +43,47 @@ func (m *_Method) canCallWith(values []Node) bool {
 	return true
 }
 
+// classAt returns the class required for the i-th argument.
+func (m *_Method) classAt(i int) Class {
+	if i < len(m.types) {
+		return m.types[i]
+	}
+	return m.restType
+}
+
+// moreSpecific returns true when m has to be preferred to other.
+// Both have to be applicable to values.
+func (m *_Method) moreSpecific(other *_Method, values []Node) bool {
+	for i, v := range values {
+		c1, c2 := m.classAt(i), other.classAt(i)
+		if c1.Equals(c2, STRICT) {
+			continue
+		}
+		return c1.InheritP(c2) || (!c2.InheritP(c1) && precedes(v.ClassOf(), c1, c2))
+	}
+	return false
+}
+
+// precedes returns true when class gets to c1 by an earlier one of
+// its direct superclasses than to c2.
+func precedes(class, c1, c2 Class) bool {
+	sc, ok := class.(*_StandardClass)
+	if !ok {
+		return false
+	}
+	for _, s := range sc.Super {
+		has1 := s.Equals(c1, STRICT) || s.InheritP(c1)
+		has2 := s.Equals(c2, STRICT) || s.InheritP(c2)
+		if has1 && has2 {
+			return precedes(s, c1, c2)
+		}
+		if has1 || has2 {
+			return has1
+		}
+	}
+	return false
+}
+
 type _Generic struct {
 	Symbol
 	argc    int
@@ -118,11 +159,16 @@ func (c *_Generic) Call(ctx context.Context, w *World, node Node) (Node, error)
 		}
 		values = append(values, v)
 	}
+	var method *_Method
 	for i := len(c.methods) - 1; i >= 0; i-- {
-		if m := c.methods[i]; m.canCallWith(values) {
-			return m.method(ctx, w, values)
+		m := c.methods[i]
+		if m.canCallWith(values) && (method == nil || m.moreSpecific(method, values)) {
+			method = m
 		}
 	}
+	if method != nil {
+		return method.method(ctx, w, values)
+	}
 	return callHandler[FunctionRef](ctx, w, false, &_UndefinedEntity{
 		name:  c.Symbol,
 		space: symFunction,
-- 
2.43.0


From 050dbf332b317d5b193a4ef645da4f9475726634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 070/108] fix: every other class is a subclass of <object>

---
 builtinclass.go | 3 +++
 class.go        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/builtinclass.go b/builtinclass.go
index 30be39f..1a8d840 100644
--- a/builtinclass.go
+++ b/builtinclass.go
@@ -21,6 +21,9 @@ type _BuiltInClass struct {
 }
 
 func (e *_BuiltInClass) InheritP(c Class) bool {
+	if objectClass.Equals(c, STRICT) {
+		return !objectClass.Equals(e, STRICT)
+	}
 	for _, s := range e.super {
 		if s.Equals(c, STRICT) || s.InheritP(c) {
 			return true
diff --git a/class.go b/class.go
index 743ca11..e01b023 100644
--- a/class.go
+++ b/class.go
@@ -200,6 +200,9 @@ func (u *_StandardClass) Equals(_other Node, _ EqlMode) bool {
 }
 
 func (class1 *_StandardClass) InheritP(class2 Class) bool {
+	if objectClass.Equals(class2, STRICT) {
+		return true
+	}
 	for _, s := range class1.Super {
 		if s.Equals(class2, STRICT) {
 			return true
-- 
2.43.0


From c35febb8d92b6f6702dd25bdfb938f20e99035dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 071/108] fix: a method of initialize-object holds for the
 subclasses defined later, too

---
 class.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/class.go b/class.go
index e01b023..55644aa 100644
--- a/class.go
+++ b/class.go
@@ -261,6 +261,25 @@ func (c *_StandardClass) Create() Node {
 
 var symInitializeObject = NewSymbol("initialize-object")
 
+// registerInitializeObject makes sure that initialize-object has a method
+// for all objects, which those for the classes of the user take precedence of.
+func registerInitializeObject(w *World) error {
+	if f, err := w.GetFunc(symInitializeObject); err == nil {
+		if gen, ok := f.(*_Generic); ok {
+			for _, m := range gen.methods {
+				if m.restType == objectClass && len(m.types) == 1 && m.types[0] == objectClass {
+					return nil
+				}
+			}
+		}
+	}
+	return registerMethod(w, symInitializeObject, objectClass, &_Method{
+		restType: objectClass,
+		types:    []Class{objectClass},
+		method:   defaultInitializeObject,
+	})
+}
+
 var classCounter = 0
 
 func cmdDefClass(ctx context.Context, w *World, args Node) (Node, error) {
@@ -355,11 +374,7 @@ func cmdDefClass(ctx context.Context, w *World, args Node) (Node, error) {
 	}
 	w.DefineGlobal(className, class)
 
-	if err := registerMethod(w, symInitializeObject, class, &_Method{
-		restType: objectClass,
-		types:    []Class{class},
-		method:   defaultInitializeObject,
-	}); err != nil {
+	if err := registerInitializeObject(w); err != nil {
 		return nil, err
 	}
 	return className, nil
@@ -505,6 +520,9 @@ func funCreate(ctx context.Context, w *World, args []Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := registerInitializeObject(w); err != nil {
+		return nil, err
+	}
 	_gen, err := w.GetFunc(symInitializeObject)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 798d7b10c84eab09605bc283866a37ebd55278b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 072/108] fix: an initarg initialises every slot that has it

---
 class.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/class.go b/class.go
index 55644aa..948203d 100644
--- a/class.go
+++ b/class.go
@@ -478,22 +478,23 @@ func (reciever *_StandardObject) callInitForm(ctx context.Context, classDef *_St
 }
 
 func (reciever *_StandardObject) callInitArg(classDef *_StandardClass, initArg Symbol, initVal Node) bool {
+	found := false
 	for name, slot := range classDef.Slot {
 		for _, slotInitArg := range slot.initarg {
 			if slotInitArg == initArg {
 				reciever.Slot[name] = initVal
-				return true
+				found = true
 			}
 		}
 	}
 	for _, super := range classDef.Super {
 		if superUc, ok := super.(*_StandardClass); ok {
 			if reciever.callInitArg(superUc, initArg, initVal) {
-				return true
+				found = true
 			}
 		}
 	}
-	return false
+	return found
 }
 
 type Uneval struct {
-- 
2.43.0


From f1c04cf584202c75dd681043f5c112aba16b63a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 073/108] fix: setf of a slot returns the value

---
 class.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/class.go b/class.go
index 948203d..2456705 100644
--- a/class.go
+++ b/class.go
@@ -43,7 +43,7 @@ func newSetter(class Class, slotName Symbol) *_Method {
 				return nil, fmt.Errorf("%v: %w", node[1], ErrExpectedClass)
 			}
 			rec.Slot[slotName] = node[0]
-			return True, nil
+			return node[0], nil
 		},
 	}
 }
-- 
2.43.0


From 3347d8c7bb405d98ba00ee5901304a96966f8a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 074/108] fix: the ends of lists and missing elements are
 Lisp's nil, not Go's

---
 array.go    | 2 +-
 convert.go  | 2 +-
 lambda.go   | 2 +-
 sequence.go | 5 ++++-
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/array.go b/array.go
index c4677fc..d7cd206 100644
--- a/array.go
+++ b/array.go
@@ -269,7 +269,7 @@ func funArrayDimensions(ctx context.Context, w *World, arg Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	var cons Node
+	var cons Node = Null
 	for i := len(array.dim) - 1; i >= 0; i-- {
 		cons = &Cons{
 			Car: Integer(array.dim[i]),
diff --git a/convert.go b/convert.go
index de9224d..0f3044b 100644
--- a/convert.go
+++ b/convert.go
@@ -113,7 +113,7 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		}
 		switch class {
 		case classList:
-			var cons Node = nil
+			var cons Node = Null
 			for i := len(val.list) - 1; i >= 0; i-- {
 				cons = &Cons{
 					Car: val.list[i],
diff --git a/lambda.go b/lambda.go
index 2ba3c4d..643f92d 100644
--- a/lambda.go
+++ b/lambda.go
@@ -681,7 +681,7 @@ func cmdExpandDefun(ctx context.Context, w *World, n Node) (Node, error) {
 	if !ok {
 		return nil, &_UndefinedEntity{name: symbol, space: symFunction}
 	}
-	var param Node
+	var param Node = Null
 	for i := len(f.param) - 1; i >= 0; i-- {
 		param = &Cons{Car: f.param[i], Cdr: param}
 	}
diff --git a/sequence.go b/sequence.go
index f36a7a1..f271204 100644
--- a/sequence.go
+++ b/sequence.go
@@ -103,7 +103,10 @@ func funElt(ctx context.Context, w *World, args []Node) (Node, error) {
 			if !ok {
 				return Null, nil
 			}
-			value, list, _ = seq.FirstAndRest()
+			value, list, ok = seq.FirstAndRest()
+			if !ok {
+				return Null, nil
+			}
 			index--
 		}
 	}
-- 
2.43.0


From 914e8375f0c69f21f7b9931ea066bc2011d0e5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 075/108] fix: minus of one argument that is no number blames
 the argument

---
 operator.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/operator.go b/operator.go
index 5058359..9249a6d 100644
--- a/operator.go
+++ b/operator.go
@@ -36,13 +36,15 @@ type canMinus interface {
 
 func funSub(ctx context.Context, w *World, args []Node) (Node, error) {
 	if len(args) == 1 {
-		class := args[0].ClassOf()
-		zero := class.Create()
-		z, err := ExpectInterface[canMinus](ctx, w, zero, class)
+		x, err := ExpectInterface[canMinus](ctx, w, args[0], numberClass)
 		if err != nil {
 			return nil, err
 		}
-		return z.Sub(ctx, w, args[0])
+		zero, ok := x.ClassOf().Create().(canMinus)
+		if !ok {
+			return nil, MakeError(ErrNotSupportType, x)
+		}
+		return zero.Sub(ctx, w, x)
 	}
 	return inject(args, func(left, right Node) (Node, error) {
 		if _left, ok := left.(canMinus); ok {
-- 
2.43.0


From 9f94c9ed8c449991c676164b579bf506650688f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 076/108] fix: the list of wildcard ends in Lisp's nil

---
 pkg/wildcard/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/wildcard/main.go b/pkg/wildcard/main.go
index 929e90f..b5cb1b5 100644
--- a/pkg/wildcard/main.go
+++ b/pkg/wildcard/main.go
@@ -21,7 +21,7 @@ func funWildcard(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gm
 	if err != nil {
 		return nil, fmt.Errorf("%w: %#v", err, pattern)
 	}
-	var result gmnlisp.Node
+	var result gmnlisp.Node = gmnlisp.Null
 	for i := len(files) - 1; i >= 0; i-- {
 		result = &gmnlisp.Cons{
 			Car: gmnlisp.String(files[i]),
-- 
2.43.0


From caafa4f147ec0ad865c7f367f2d27b2a7b4654c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 077/108] fix: set-car and set-cdr return the object they store

---
 list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/list.go b/list.go
index a1ae67a..c1597a0 100644
--- a/list.go
+++ b/list.go
@@ -143,7 +143,7 @@ func funSetCar(ctx context.Context, w *World, first, second Node) (Node, error)
 		return nil, err
 	}
 	cons.Car = first
-	return cons, nil
+	return first, nil
 }
 
 // funSetCdr implements (replacd X Y) == (setf (cdr X) Y) = (set-cdr Y X)
@@ -153,7 +153,7 @@ func funSetCdr(ctx context.Context, w *World, first, second Node) (Node, error)
 		return nil, err
 	}
 	cons.Cdr = first
-	return cons, nil
+	return first, nil
 }
 
 func funCreateList(ctx context.Context, w *World, argv []Node) (Node, error) {
-- 
2.43.0


From 7f94390eff251a066cee1d262c703317cda7be17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 078/108] fix: elt with a negative index is an error for lists,
 too

---
 sequence.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sequence.go b/sequence.go
index f271204..487dddb 100644
--- a/sequence.go
+++ b/sequence.go
@@ -98,6 +98,9 @@ func funElt(ctx context.Context, w *World, args []Node) (Node, error) {
 			}
 			continue
 		}
+		if index < 0 {
+			return nil, MakeError(ErrIndexOutOfRange, index)
+		}
 		for list := value; index >= 0; {
 			seq, ok := list.(Sequence)
 			if !ok {
-- 
2.43.0


From ee194e8b8b6dcef5a97ec6985a5d81e11522a35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:44 +0000
Subject: [PATCH 079/108] fix: length counts the elements of vectors

---
 sequence.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sequence.go b/sequence.go
index 487dddb..603b7be 100644
--- a/sequence.go
+++ b/sequence.go
@@ -117,6 +117,9 @@ func funElt(ctx context.Context, w *World, args []Node) (Node, error) {
 }
 
 func funLength(ctx context.Context, w *World, arg Node) (Node, error) {
+	if array, ok := arg.(*Array); ok && len(array.dim) == 1 {
+		return Integer(array.dim[0]), nil
+	}
 	length := 0
 	err := SeqEach(ctx, w, arg, func(_ Node) error {
 		length++
-- 
2.43.0


From d8ea19a919bef63efbf947b937f03006dc224e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 080/108] fix: comparisons with several operands end at the
 first that does not hold

---
 operator.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/operator.go b/operator.go
index 9249a6d..0bb889d 100644
--- a/operator.go
+++ b/operator.go
@@ -80,12 +80,26 @@ func funDevide(ctx context.Context, w *World, args []Node) (Node, error) {
 	})
 }
 
+// chain tells whether f holds between all the neighbours of args.
+func chain(args []Node, f func(left, right Node) (Node, error)) (Node, error) {
+	if len(args) <= 0 {
+		return Null, nil
+	}
+	for i, right := range args[1:] {
+		value, err := f(args[i], right)
+		if err != nil || IsNone(value) {
+			return value, err
+		}
+	}
+	return True, nil
+}
+
 type canLessThan interface {
 	LessThan(context.Context, *World, Node) (bool, error)
 }
 
 func funLessThan(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
+	return notNullToTrue(chain(args, func(left, right Node) (Node, error) {
 		if _left, ok := left.(canLessThan); ok {
 			result, err := _left.LessThan(ctx, w, right)
 			if err != nil {
@@ -101,7 +115,7 @@ func funLessThan(ctx context.Context, w *World, args []Node) (Node, error) {
 }
 
 func funGreaterThan(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
+	return notNullToTrue(chain(args, func(left, right Node) (Node, error) {
 		if _right, ok := right.(canLessThan); ok {
 			result, err := _right.LessThan(ctx, w, left)
 			if err != nil {
@@ -117,16 +131,16 @@ func funGreaterThan(ctx context.Context, w *World, args []Node) (Node, error) {
 }
 
 func funEqualOp(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
+	return notNullToTrue(chain(args, func(left, right Node) (Node, error) {
 		if left.Equals(right, EQUALP) {
-			return right, nil
+			return True, nil
 		}
 		return Null, nil
 	}))
 }
 
 func funGreaterOrEqual(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
+	return notNullToTrue(chain(args, func(left, right Node) (Node, error) {
 		//     left >= right
 		// <=> not (left < right )
 		if _left, ok := left.(canLessThan); ok {
@@ -144,7 +158,7 @@ func funGreaterOrEqual(ctx context.Context, w *World, args []Node) (Node, error)
 }
 
 func funLessOrEqual(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
+	return notNullToTrue(chain(args, func(left, right Node) (Node, error) {
 		//     left <= right
 		// <=> not (right < left)
 		if _right, ok := right.(canLessThan); ok {
-- 
2.43.0


From eca09c06a3856b8148fdd92d2124d792cb054459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 081/108] fix: oddp holds for negative odd integers

---
 cmds.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmds.go b/cmds.go
index f031c1d..baabdeb 100644
--- a/cmds.go
+++ b/cmds.go
@@ -177,7 +177,7 @@ func funMinusp(_ context.Context, _ *World, arg Node) (Node, error) {
 }
 
 func funOddp(_ context.Context, _ *World, arg Node) (Node, error) {
-	if value, ok := arg.(Integer); ok && value%2 == 1 {
+	if value, ok := arg.(Integer); ok && value%2 != 0 {
 		return True, nil
 	}
 	return Null, nil
-- 
2.43.0


From 62623ff0459c7037b641e01e0715088af7460f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 082/108] fix: round gives the even one of two integers that
 are equally near

---
 operator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operator.go b/operator.go
index 0bb889d..a62a9d5 100644
--- a/operator.go
+++ b/operator.go
@@ -243,7 +243,7 @@ func funCeiling(ctx context.Context, w *World, arg Node) (Node, error) {
 }
 
 func funRound(ctx context.Context, w *World, arg Node) (Node, error) {
-	return floatToInteger(arg, math.Round)
+	return floatToInteger(arg, math.RoundToEven)
 }
 
 func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
-- 
2.43.0


From 4085660304491d64495cb3fcaa8a956dcb2cc151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:39 +0000
Subject: [PATCH 083/108] fix: sums and products of no numbers are 0 and 1

---
 operator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/operator.go b/operator.go
index a62a9d5..720d587 100644
--- a/operator.go
+++ b/operator.go
@@ -21,6 +21,9 @@ type canPlus interface {
 }
 
 func funAdd(ctx context.Context, w *World, args []Node) (Node, error) {
+	if len(args) <= 0 {
+		return Integer(0), nil
+	}
 	return inject(args, func(left, right Node) (Node, error) {
 		if _left, ok := left.(canPlus); ok {
 			return _left.Add(ctx, w, right)
@@ -59,6 +62,9 @@ func funMulti(ctx context.Context, w *World, args []Node) (Node, error) {
 		Node
 		Multi(context.Context, *World, Node) (Node, error)
 	}
+	if len(args) <= 0 {
+		return Integer(1), nil
+	}
 	return inject(args, func(left, right Node) (Node, error) {
 		if _left, ok := left.(CanMulti); ok {
 			return _left.Multi(ctx, w, right)
-- 
2.43.0


From 37df09aad2c53000cd115b43e634a321f1ea958a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 084/108] fix: read-line reports a read error after the
 beginning of a line

---
 io.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/io.go b/io.go
index f4a6357..610619a 100644
--- a/io.go
+++ b/io.go
@@ -88,6 +88,9 @@ func funReadLine(ctx context.Context, w *World, argv []Node) (Node, error) {
 	} else {
 		s, err = readString(stream.reader, '\n')
 	}
+	if err != nil && err != io.EOF {
+		return nil, err
+	}
 	if len(s) > 0 {
 		return String(chomp(s)), nil
 	}
@@ -99,7 +102,7 @@ func funReadLine(ctx context.Context, w *World, argv []Node) (Node, error) {
 		}
 		return stream.eofValue, nil
 	}
-	return String(chomp(s)), err
+	return String(""), nil
 }
 
 func funRead(ctx context.Context, w *World, argv []Node) (Node, error) {
-- 
2.43.0


From e3d66bd0743c6d54d6374ca5d8a6f95dd39d4a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 085/108] fix: case-using evaluates its predicate once and its
 keys not at all

---
 embed/case-using.lsp | 45 ++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/embed/case-using.lsp b/embed/case-using.lsp
index 4665747..b4ee74e 100644
--- a/embed/case-using.lsp
+++ b/embed/case-using.lsp
@@ -1,22 +1,23 @@
-(lambda-macro (predform keyform &rest body)
-  (let ((keyform_ (gensym)))
-    (setq body
-          (mapcar
-            (lambda (entry)
-              (if (equal (car entry) 't)
-                entry
-                (append
-                  (list
-                    (cons
-                      'or
-                      (mapcar
-                        (lambda (key1)
-                          (list 'funcall predform keyform_ key1))
-                        (car entry))))
-                      (cdr entry)))
-                  ) body))
-    (setq body (cons 'cond body))
-    (setq body `(let ((,keyform_ ,keyform)) ,body))
-    ;(format t "~s~%" body)
-    ;body
-    ))
+(lambda-macro (predform keyform &rest body)
+  (let ((predform_ (gensym))
+        (keyform_ (gensym)))
+    (setq body
+          (mapcar
+            (lambda (entry)
+              (if (equal (car entry) 't)
+                entry
+                (append
+                  (list
+                    (cons
+                      'or
+                      (mapcar
+                        (lambda (key1)
+                          (list 'funcall predform_ keyform_ (list 'quote key1)))
+                        (car entry))))
+                      (cdr entry)))
+                  ) body))
+    (setq body (cons 'cond body))
+    (setq body `(let* ((,predform_ ,predform) (,keyform_ ,keyform)) ,body))
+    ;(format t "~s~%" body)
+    ;body
+    ))
-- 
2.43.0


From 41e58ea204e575e5f73436ceab7e4469ecd03cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 086/108] fix: cerror does not take format for a variable

---
 embed/cerror.lsp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embed/cerror.lsp b/embed/cerror.lsp
index ce120a8..32909c1 100644
--- a/embed/cerror.lsp
+++ b/embed/cerror.lsp
@@ -4,5 +4,5 @@
         'format-string error-string
         'format-arguments obj)
     (let ((str (create-string-output-stream)))
-      (apply format str continue-string obj)
+      (apply #'format str continue-string obj)
       (get-output-stream-string str))))
-- 
2.43.0


From 8b928f48cc82f9d214c56bd96909f9fbd698b6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:33 +0000
Subject: [PATCH 087/108] fix: for evaluates its initial values in order and
 all of its result forms

---
 embed/for.lsp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/embed/for.lsp b/embed/for.lsp
index ef367dc..efb1ede 100644
--- a/embed/for.lsp
+++ b/embed/for.lsp
@@ -2,12 +2,12 @@
   (let ((inits nil)
         (steps '(psetq))
         (test (car test-result))
-        (result (elt test-result 1)))
+        (result (cons 'progn (cdr test-result))))
     (while iters
       (let* ((iteration-spec (car iters))
              (var (car iteration-spec))
              (init (elt iteration-spec 1)))
-        (setq inits (cons (list var init) inits))
+        (setq inits (append inits (list (list var init))))
         (if (= (length iteration-spec) 3)
           (let ((step (elt iteration-spec 2)))
             (setq steps (append steps (list var step))))))
-- 
2.43.0


From 63b321b7ce2f549c2282bf91d4bc0587d578fd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:38 +0000
Subject: [PATCH 088/108] fix: setf of a setq form does not refer to a variable
 that does not exist

---
 embed/set-setq.lsp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/embed/set-setq.lsp b/embed/set-setq.lsp
index 66a7cf7..8979fc9 100644
--- a/embed/set-setq.lsp
+++ b/embed/set-setq.lsp
@@ -1,6 +1,4 @@
-(lambda-macro (newvalue name avlue)
-  (let ((name (elt expr 1))
-        (value (elt expr 2)))
-    `(progn
-       (setq ,name ,value)
-       (setf ,name ,newvalue))))
+(lambda-macro (newvalue name value)
+  `(progn
+     (setq ,name ,value)
+     (setq ,name ,newvalue)))
-- 
2.43.0


From b834aafbf2b3eeab10c2423e6c24a1b25e74f795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 089/108] fix: setf of elt evaluates its operands once and
 returns the value

---
 embed/set-elt.lsp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/embed/set-elt.lsp b/embed/set-elt.lsp
index 156f99b..b47ae19 100644
--- a/embed/set-elt.lsp
+++ b/embed/set-elt.lsp
@@ -1,4 +1,12 @@
 (lambda-macro (newvalue seq &rest z)
-  `(if (basic-array-p ,seq)
-     (set-aref ,newvalue ,seq ,@z)
-     (setf ,seq (swap-elt ,newvalue ,seq ,@z))))
+  (let ((value (gensym)) (source (gensym)))
+    `(let ((,value ,newvalue) (,source ,seq))
+       (cond
+         ((basic-array-p ,source)
+          (set-aref ,value ,source ,@z))
+         ((stringp ,source)
+          (setf ,seq (swap-elt ,value ,source ,@z))
+          ,value)
+         (t
+          (swap-elt ,value ,source ,@z)
+          ,value)))))
-- 
2.43.0


From 56e737ac6059829a6bae74f96022e548638338a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:50 +0000
Subject: [PATCH 090/108] fix: setf of nthcdr stops at the cell it changed and
 returns the value

---
 embed/set-nthcdr.lsp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/embed/set-nthcdr.lsp b/embed/set-nthcdr.lsp
index f87b51a..3c6c7ef 100644
--- a/embed/set-nthcdr.lsp
+++ b/embed/set-nthcdr.lsp
@@ -2,6 +2,9 @@
   (let ((s source))
     (while s
       (setq z (1- z))
-      (if (zerop z) (set-cdr newvalue s))
-      (setq s (cdr s)))
-    source))
+      (if (zerop z)
+        (progn
+          (set-cdr newvalue s)
+          (setq s nil))
+        (setq s (cdr s))))
+    newvalue))
-- 
2.43.0


From 218a473a5a6e0fecd9af15da9605a42f7a9237df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 091/108] fix: setf of assoc and of dynamic evaluate the value
 once and return it

---
 embed/set-assoc.lsp   | 9 +++++----
 embed/set-dynamic.lsp | 5 ++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/embed/set-assoc.lsp b/embed/set-assoc.lsp
index fc0e155..1561a3e 100644
--- a/embed/set-assoc.lsp
+++ b/embed/set-assoc.lsp
@@ -1,9 +1,10 @@
 (lambda-macro (newvalue key m)
-  (let ((L (gensym)) (K (gensym)) (tmp (gensym)))
-    `(let* ((,L ,m) (,K ,key) (,tmp nil))
+  (let ((V (gensym)) (L (gensym)) (K (gensym)) (tmp (gensym)))
+    `(let* ((,V ,newvalue) (,L ,m) (,K ,key) (,tmp nil))
        (while ,L
          (if (and (setq ,tmp (car ,L))
                   (consp ,tmp)
                   (equal ,K (car ,tmp)))
-           (set-car ,newvalue ,L))
-         (setq ,L (cdr ,L))))))
+           (set-car ,V ,L))
+         (setq ,L (cdr ,L)))
+       ,V)))
diff --git a/embed/set-dynamic.lsp b/embed/set-dynamic.lsp
index b2f12f1..2695591 100644
--- a/embed/set-dynamic.lsp
+++ b/embed/set-dynamic.lsp
@@ -1,2 +1,5 @@
 (lambda-macro (newvalue name)
-  `(defdynamic ,name ,newvalue))
+  (let ((value (gensym)))
+    `(let ((,value ,newvalue))
+       (defdynamic ,name ,value)
+       ,value)))
-- 
2.43.0


From 2cdeb78ad1aa5dd0556a34fede41582de5b9a2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:59 +0000
Subject: [PATCH 092/108] fix: set-property returns the object

---
 startup.lsp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/startup.lsp b/startup.lsp
index 59a8af5..f8a20a9 100644
--- a/startup.lsp
+++ b/startup.lsp
@@ -41,10 +41,12 @@
           ; symbol found
           (let ((properties (cdr sym-props)))
             (setq properties (set-item name obj properties))
-            (setq all-properties (set-item sym properties all-properties)))
+            (setq all-properties (set-item sym properties all-properties))
+            obj)
           ; symbol not found
           (let ((properties (list (cons name obj))))
-            (setq all-properties (set-item sym properties all-properties))))))
+            (setq all-properties (set-item sym properties all-properties))
+            obj))))
 
     (defun remove-property (sym name)
       (let ((properties (assoc sym all-properties)))
-- 
2.43.0


From e8685305040e6ad32babc9859f6c8f13ea1ab94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 093/108] fix: quasi-quotation splices the value of any form,
 not only a rest parameter

---
 cmds.go            | 32 ++++++++++++++++++++++++++++++++
 parse.go           | 15 ++++++++-------
 pkg/parser/main.go | 16 ++++++++++++++--
 3 files changed, 54 insertions(+), 9 deletions(-)

diff --git a/cmds.go b/cmds.go
index baabdeb..a311d71 100644
--- a/cmds.go
+++ b/cmds.go
@@ -17,6 +17,23 @@ func cmdQuote(_ context.Context, _ *World, n Node) (Node, error) {
 	return argv[0], nil
 }
 
+// splice makes a list of the elements of list followed by tail.
+func splice(ctx context.Context, w *World, list, tail Node) (Node, error) {
+	elements := []Node{}
+	for IsSome(list) {
+		cons, err := ExpectClass[*Cons](ctx, w, list)
+		if err != nil {
+			return nil, err
+		}
+		elements = append(elements, cons.Car)
+		list = cons.Cdr
+	}
+	for i := len(elements) - 1; i >= 0; i-- {
+		tail = &Cons{Car: elements[i], Cdr: tail}
+	}
+	return tail, nil
+}
+
 func quasiQuote(ctx context.Context, w *World, n Node) (Node, error) {
 	if cons, ok := n.(*Cons); ok {
 		if cons.Car == symUnquote {
@@ -29,6 +46,21 @@ func quasiQuote(ctx context.Context, w *World, n Node) (Node, error) {
 			}
 			return w.Eval(ctx, cons.Cdr)
 		}
+		if car, ok := cons.Car.(*Cons); ok && car.Car == symUnquoteSplicing {
+			form, _, err := Shift(car.Cdr)
+			if err != nil {
+				return nil, err
+			}
+			list, err := w.Eval(ctx, form)
+			if err != nil {
+				return nil, err
+			}
+			newCdr, err := quasiQuote(ctx, w, cons.Cdr)
+			if err != nil {
+				return nil, err
+			}
+			return splice(ctx, w, list, newCdr)
+		}
 		newCar, err := quasiQuote(ctx, w, cons.Car)
 		if err != nil {
 			return nil, err
diff --git a/parse.go b/parse.go
index ae1f504..3ebdca9 100644
--- a/parse.go
+++ b/parse.go
@@ -8,13 +8,14 @@ import (
 )
 
 var (
-	ampRest         = NewKeyword("&rest")
-	symUnquote      = NewSymbol("unquote")
-	nulSymbol       = NewSymbol("")
-	quoteSymbol     = NewSymbol("quote")
-	backQuoteSymbol = NewSymbol("quasiquote")
-	slashSymbol     = NewSymbol("/")
-	colonRest       = NewKeyword(":rest")
+	ampRest            = NewKeyword("&rest")
+	symUnquote         = NewSymbol("unquote")
+	symUnquoteSplicing = NewSymbol("unquote-splicing")
+	nulSymbol          = NewSymbol("")
+	quoteSymbol        = NewSymbol("quote")
+	backQuoteSymbol    = NewSymbol("quasiquote")
+	slashSymbol        = NewSymbol("/")
+	colonRest          = NewKeyword(":rest")
 )
 
 type stdFactory struct{}
diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index b8a0ab9..d16d9e0 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -258,14 +258,26 @@ func (p *_Parser[N]) readNode(token string, rs io.RuneScanner) (N, error) {
 		return p.newQuote(quoted), nil
 	}
 	if token == "," {
-		quoted, err := p.ReadNode(rs)
+		operator := "unquote"
+		ch, _, err := rs.ReadRune()
+		if err == nil {
+			if ch == '@' {
+				operator = "unquote-splicing"
+			} else {
+				err = rs.UnreadRune()
+			}
+		}
+		quoted := p.Null()
+		if err == nil {
+			quoted, err = p.ReadNode(rs)
+		}
 		if err != nil {
 			if err == io.EOF {
 				return p.Null(), ErrTooShortTokens
 			}
 			return p.Null(), err
 		}
-		return p.Cons(p.Symbol("unquote"), p.Cons(quoted, p.Null())), nil
+		return p.Cons(p.Symbol(operator), p.Cons(quoted, p.Null())), nil
 	}
 	if token == "#'" {
 		function, err := p.ReadNode(rs)
-- 
2.43.0


From 0bb9cc06da6d9d09ef813c3a255303d3c0a9c97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:25 +0000
Subject: [PATCH 094/108] fix: format reports that its output could not be
 written

---
 format.go | 69 ++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 24 deletions(-)

diff --git a/format.go b/format.go
index e12df35..5862d34 100644
--- a/format.go
+++ b/format.go
@@ -43,11 +43,13 @@ func printInt(w io.Writer, value Node, base int, args ...int) error {
 			padding = ' '
 		}
 		for i := len(body); i < width; i++ {
-			w.Write([]byte{byte(padding)})
+			if _, err := w.Write([]byte{byte(padding)}); err != nil {
+				return err
+			}
 		}
 	}
-	io.WriteString(w, strings.ToUpper(body))
-	return nil
+	_, err := io.WriteString(w, strings.ToUpper(body))
+	return err
 }
 
 func funFormatObject(_ context.Context, w *World, list []Node) (Node, error) {
@@ -103,12 +105,12 @@ func printFloat(w runeWriter, value Node, mark byte, args ...int) error {
 		return ErrNotSupportType
 	}
 	if len(body) < width {
-		for i := len(body); i < width; i++ {
-			w.WriteRune(' ')
+		if err := printSpaces(width-len(body), w); err != nil {
+			return err
 		}
 	}
-	io.WriteString(w, body)
-	return nil
+	_, err := io.WriteString(w, body)
+	return err
 }
 
 func funFormatFloat(_ context.Context, w *World, args []Node) (Node, error) {
@@ -117,11 +119,23 @@ func funFormatFloat(_ context.Context, w *World, args []Node) (Node, error) {
 	})
 }
 
-func printSpaces(n int, w io.Writer) {
+func printSpaces(n int, w io.Writer) error {
 	for n > 0 {
-		w.Write([]byte{' '})
+		if _, err := w.Write([]byte{' '}); err != nil {
+			return err
+		}
 		n--
 	}
+	return nil
+}
+
+func printNewLines(n int, w io.Writer) error {
+	for ; n >= 1; n-- {
+		if _, err := w.Write(NewLineOnFormat); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 var NewLineOnFormat = []byte{'\n'}
@@ -142,11 +156,15 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 			break
 		}
 		if c != '~' {
-			tryPrintTo(w, c, PRINC)
+			if _, err := tryPrintTo(w, c, PRINC); err != nil {
+				return err
+			}
 			continue
 		}
 		if IsNone(format) {
-			w.WriteRune('~')
+			if _, err := w.WriteRune('~'); err != nil {
+				return err
+			}
 			break
 		}
 		c, format, ok = format.firstRuneAndRestString()
@@ -154,7 +172,9 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 			break
 		}
 		if c == '~' {
-			w.Write([]byte{'~'})
+			if _, err := w.Write([]byte{'~'}); err != nil {
+				return err
+			}
 			continue
 		}
 		parameter := []int{}
@@ -222,21 +242,18 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 			if w.IsLastOutputLf() {
 				n--
 			}
-			if n <= 0 {
-				continue
-			}
-			for ; n >= 1; n-- {
-				w.Write(NewLineOnFormat)
+			if err := printNewLines(n, w); err != nil {
+				return err
 			}
 			continue
 		}
 		if c == '%' {
+			n := 1
 			if len(parameter) >= 1 {
-				for n := parameter[0]; n >= 1; n-- {
-					w.Write(NewLineOnFormat)
-				}
-			} else {
-				w.Write(NewLineOnFormat)
+				n = parameter[0]
+			}
+			if err := printNewLines(n, w); err != nil {
+				return err
 			}
 			continue
 		}
@@ -270,7 +287,9 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 				return err
 			}
 			if len(parameter) >= 1 {
-				printSpaces(parameter[0]-n, w)
+				if err := printSpaces(parameter[0]-n, w); err != nil {
+					return err
+				}
 			}
 		case 's', 'S':
 			n, err := tryPrintTo(w, value, PRINT)
@@ -278,7 +297,9 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 				return err
 			}
 			if len(parameter) >= 1 {
-				printSpaces(parameter[0]-n, w)
+				if err := printSpaces(parameter[0]-n, w); err != nil {
+					return err
+				}
 			}
 		default:
 			err = fmt.Errorf("not support code '%c'", c)
-- 
2.43.0


From 35e881a4557addbffb80f1d3bbb10a71fe2da6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 095/108] fix: format takes the parameters v and #, and
 characters outside ASCII as padding and not as directives

---
 format.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/format.go b/format.go
index 5862d34..8fb9873 100644
--- a/format.go
+++ b/format.go
@@ -43,7 +43,7 @@ func printInt(w io.Writer, value Node, base int, args ...int) error {
 			padding = ' '
 		}
 		for i := len(body); i < width; i++ {
-			if _, err := w.Write([]byte{byte(padding)}); err != nil {
+			if _, err := io.WriteString(w, string(rune(padding))); err != nil {
 				return err
 			}
 		}
@@ -179,7 +179,7 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 		}
 		parameter := []int{}
 		for {
-			if decimal := strings.IndexByte("0123456789", byte(c)); decimal >= 0 {
+			if decimal := strings.IndexRune("0123456789", rune(c)); decimal >= 0 {
 				for {
 					if IsNone(format) {
 						return ErrInvalidFormat
@@ -188,7 +188,7 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 					if !ok {
 						return ErrInvalidFormat
 					}
-					d := strings.IndexByte("0123456789", byte(c))
+					d := strings.IndexRune("0123456789", rune(c))
 					if d < 0 {
 						parameter = append(parameter, decimal)
 						break
@@ -216,9 +216,18 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 				if err != nil {
 					return err
 				}
+				argv = argv[1:]
 				parameter = append(parameter, int(decimal))
+				c, format, ok = format.firstRuneAndRestString()
+				if !ok {
+					return ErrInvalidFormat
+				}
 			} else if c == '#' {
 				parameter = append(parameter, int(len(argv)))
+				c, format, ok = format.firstRuneAndRestString()
+				if !ok {
+					return ErrInvalidFormat
+				}
 			} else {
 				break
 			}
-- 
2.43.0


From 95b235f4a4fac3ec918b0c9b1b10f7bf3a4c19b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:38 +0000
Subject: [PATCH 096/108] fix: format prints large integers

---
 format.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/format.go b/format.go
index 8fb9873..7db12eb 100644
--- a/format.go
+++ b/format.go
@@ -35,6 +35,8 @@ func printInt(w io.Writer, value Node, base int, args ...int) error {
 		body = strconv.FormatInt(int64(d), base)
 	} else if f, ok := value.(Float); ok {
 		body = strconv.FormatInt(int64(f), base)
+	} else if n, ok := value.(BigInt); ok {
+		body = n.Int.Text(base)
 	} else {
 		return ErrNotSupportType
 	}
-- 
2.43.0


From faed87170dc5984ea83007fa4531ce462b1dc031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 097/108] fix: the directive ~& of format knows the last output
 of t, strings and files

---
 format.go   |  5 ++++-
 io.go       | 19 ++++++++++++++++++-
 sequence.go |  4 ++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/format.go b/format.go
index 7db12eb..6189c38 100644
--- a/format.go
+++ b/format.go
@@ -327,6 +327,9 @@ func tAndNilToWriter(w *World, argv []Node, f func(*_WriterNode, []Node) error)
 		rw, ok := output.(*_WriterNode)
 		if !ok {
 			rw = &_WriterNode{_Writer: output}
+			if last, ok := output.(CanKnowLastOutput); ok {
+				rw.lastOutputIsNotLf = !last.IsLastOutputLf()
+			}
 		}
 		err := f(rw, argv[1:])
 		return Null, err
@@ -339,7 +342,7 @@ func tAndNilToWriter(w *World, argv []Node, f func(*_WriterNode, []Node) error)
 	if True.Equals(argv[0], STRICT) {
 		W, ok := w.stdout._Writer.(*_WriterNode)
 		if !ok {
-			W = &_WriterNode{_Writer: w.stdout._Writer}
+			W = w.stdout
 		}
 		return Null, f(W, argv[1:])
 	}
diff --git a/io.go b/io.go
index 610619a..242c98c 100644
--- a/io.go
+++ b/io.go
@@ -226,7 +226,24 @@ func cmdWithOpenInputFile(ctx context.Context, w *World, list Node) (Node, error
 
 type _OutputFileStream struct {
 	*bufio.Writer
-	closer io.Closer
+	closer            io.Closer
+	lastOutputIsNotLf bool
+}
+
+func (o *_OutputFileStream) IsLastOutputLf() bool {
+	return !o.lastOutputIsNotLf
+}
+
+func (o *_OutputFileStream) Write(p []byte) (int, error) {
+	n, err := o.Writer.Write(p)
+	if n > 0 {
+		o.lastOutputIsNotLf = (p[n-1] != '\n')
+	}
+	return n, err
+}
+
+func (o *_OutputFileStream) WriteString(s string) (int, error) {
+	return o.Write([]byte(s))
 }
 
 func (o *_OutputFileStream) Close() error {
diff --git a/sequence.go b/sequence.go
index 603b7be..b54be83 100644
--- a/sequence.go
+++ b/sequence.go
@@ -76,6 +76,10 @@ func (S *StringBuilder) Sequence() Node {
 	return String(S.String())
 }
 
+func (S *StringBuilder) IsLastOutputLf() bool {
+	return S.Len() <= 0 || strings.HasSuffix(S.String(), "\n")
+}
+
 func (S StringBuilder) GoString() string {
 	return String(S.String()).GoString()
 }
-- 
2.43.0


From 5f36db3b1bf6c95b0b1df9ef67916c769f0b3754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 098/108] fix: string-index and char-index reject a start
 position outside the string

---
 atom.go   | 4 ++++
 string.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/atom.go b/atom.go
index 94450ee..5e7e208 100644
--- a/atom.go
+++ b/atom.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 type _TrueType struct{}
@@ -272,6 +273,9 @@ func funRuneIndex(ctx context.Context, w *World, argv []Node) (Node, error) {
 			return nil, err
 		}
 		start = int(_start)
+		if start < 0 || start > utf8.RuneCountInString(string(str)) {
+			return nil, MakeError(ErrIndexOutOfRange, _start)
+		}
 	}
 	i := 0
 	for _, c := range string(str) {
diff --git a/string.go b/string.go
index bb11f30..c26b4f6 100644
--- a/string.go
+++ b/string.go
@@ -160,6 +160,9 @@ func funStringIndex(ctx context.Context, w *World, argv []Node) (Node, error) {
 	}
 	str := _str.String()
 
+	if start < 0 || start > utf8.RuneCountInString(str) {
+		return nil, MakeError(ErrIndexOutOfRange, start)
+	}
 	for i := 0; i < start && len(str) > 0; i++ {
 		_, siz := utf8.DecodeRuneInString(str)
 		str = str[siz:]
-- 
2.43.0


From 53ebfc29eb645c405314aa2c1e5e0a5e94ec2be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:14 +0000
Subject: [PATCH 099/108] fix: subseq takes vectors and rejects positions
 outside the sequence

---
 sequence.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/sequence.go b/sequence.go
index b54be83..61903eb 100644
--- a/sequence.go
+++ b/sequence.go
@@ -325,6 +325,18 @@ func funSubSeq(ctx context.Context, w *World, args []Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	if start < 0 {
+		return nil, MakeError(ErrIndexOutOfRange, start)
+	}
+	if end < start {
+		return nil, MakeError(ErrIndexOutOfRange, end)
+	}
+	if array, ok := args[0].(*Array); ok && len(array.dim) == 1 {
+		if end > Integer(len(array.list)) {
+			return nil, MakeError(ErrIndexOutOfRange, end)
+		}
+		return NewVector(ctx, w, array.list[start:end]...), nil
+	}
 	var buffer SeqBuilder
 	if _, ok := args[0].(String); ok {
 		buffer = &StringBuilder{}
@@ -342,7 +354,13 @@ func funSubSeq(ctx context.Context, w *World, args []Node) (Node, error) {
 		count++
 		return
 	})
-	return buffer.Sequence(), ignoreEOF(err)
+	if err := ignoreEOF(err); err != nil {
+		return nil, err
+	}
+	if count < end {
+		return nil, MakeError(ErrIndexOutOfRange, end)
+	}
+	return buffer.Sequence(), nil
 }
 
 func funMember(ctx context.Context, w *World, expr, list Node) (Node, error) {
-- 
2.43.0


From 7e7bcfe80aaef8583446bd8b600640248efdbd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:21 +0000
Subject: [PATCH 100/108] fix: convert accepts nil, large integers and objects
 that have the class already

---
 convert.go | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/convert.go b/convert.go
index 0f3044b..fffe0e0 100644
--- a/convert.go
+++ b/convert.go
@@ -3,6 +3,7 @@ package gmnlisp
 import (
 	"context"
 	"fmt"
+	"math/big"
 	"strconv"
 )
 
@@ -91,19 +92,39 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		case stringClass.name:
 			return String(fmt.Sprintf("%d", int(val))), nil
 		}
+	case BigInt:
+		switch class {
+		case integerClass.name:
+			return val, nil
+		case floatClass.name:
+			f, _ := new(big.Float).SetInt(val.Int).Float64()
+			return Float(f), nil
+		case stringClass.name:
+			return String(val.Int.String()), nil
+		}
+	case _NullType:
+		switch class {
+		case classList, symbolClass.name:
+			return val, nil
+		case classVector:
+			var buffer VectorBuilder
+			return buffer.Sequence(), nil
+		case stringClass.name:
+			return String(val.String()), nil
+		}
 	case *Cons:
 		switch class {
 		case classList:
 			return val, nil
 		case classVector:
 			var buffer VectorBuilder
-			for IsSome(val) {
-				buffer.Add(ctx, w, val.Car)
-				var ok bool
-				val, ok = val.Cdr.(*Cons)
-				if !ok {
-					break
+			for list := Node(val); IsSome(list); {
+				cons, err := ExpectClass[*Cons](ctx, w, list)
+				if err != nil {
+					return nil, err
 				}
+				buffer.Add(ctx, w, cons.getCar())
+				list = cons.Cdr
 			}
 			return buffer.Sequence(), nil
 		}
@@ -121,9 +142,13 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 				}
 			}
 			return cons, nil
+		case classVector:
+			return val, nil
 		}
 	case Symbol:
 		switch class {
+		case symbolClass.name:
+			return val, nil
 		case stringClass.name:
 			return String(val.String()), nil
 		}
-- 
2.43.0


From 3e0722604449bd1ac8ea4bc6e16c60b5f5391e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:27 +0000
Subject: [PATCH 101/108] fix: convert rejects integers that are no character
 code

---
 convert.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/convert.go b/convert.go
index fffe0e0..2877ec7 100644
--- a/convert.go
+++ b/convert.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math/big"
 	"strconv"
+	"unicode"
 )
 
 var (
@@ -84,6 +85,12 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 	case Integer:
 		switch class {
 		case characterClass.name:
+			if val < 0 || val > unicode.MaxRune {
+				return nil, &DomainError{
+					Object:        val,
+					ExpectedClass: characterClass,
+				}
+			}
 			return Rune(val), nil
 		case integerClass.name:
 			return val, nil
-- 
2.43.0


From 0efba4382a267d927b00c5f4362474e1e3fdde19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:02 +0000
Subject: [PATCH 102/108] fix: the lists of one dimension of an array literal
 must have the same length

---
 pkg/parser/main.go | 65 +++++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 36 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index d16d9e0..9ba76dc 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -72,47 +72,40 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 	dim := make([]int, lenDim)
 	countDim := 0
 	fix := make([]bool, lenDim)
+	count := make([]int, lenDim)
+
 	for {
-		if countDim == lenDim-1 {
-			token, err := readToken(rs)
-			if err != nil {
-				return p.Null(), tooShort(err)
-			}
-			if token == ")" {
+		token, err := readToken(rs)
+		if err != nil {
+			return p.Null(), tooShort(err)
+		}
+		if token == ")" {
+			// all the lists of a dimension must have the same length
+			if n := count[countDim]; !fix[countDim] {
+				dim[countDim] = n
 				fix[countDim] = true
-				countDim--
-				if countDim < 0 {
-					break
-				}
-			} else {
-				newNode, err := p.readNode(token, rs)
-				if err != nil {
-					return p.Null(), err
-				}
-				nodes = append(nodes, newNode)
-				if !fix[countDim] {
-					dim[countDim]++
-				}
+			} else if n < dim[countDim] {
+				return p.Null(), ErrTooFewArguments
+			} else if n > dim[countDim] {
+				return p.Null(), ErrTooManyArguments
 			}
-		} else {
-			token, err := readToken(rs)
-			if err != nil {
-				return p.Null(), tooShort(err)
+			count[countDim] = 0
+			countDim--
+			if countDim < 0 {
+				break
 			}
-			if token == "(" {
-				if !fix[countDim] {
-					dim[countDim]++
-				}
-				countDim++
-			} else if token == ")" {
-				fix[countDim] = true
-				countDim--
-				if countDim < 0 {
-					break
-				}
-			} else {
-				return p.Null(), fmt.Errorf("array syntax error: %#v", token)
+		} else if countDim == lenDim-1 {
+			newNode, err := p.readNode(token, rs)
+			if err != nil {
+				return p.Null(), err
 			}
+			nodes = append(nodes, newNode)
+			count[countDim]++
+		} else if token == "(" {
+			count[countDim]++
+			countDim++
+		} else {
+			return p.Null(), fmt.Errorf("array syntax error: %#v", token)
 		}
 	}
 	size := 1
-- 
2.43.0


From 17896d4d38a12f9e3a5e20b925dc6d359d7c26ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:09 +0000
Subject: [PATCH 103/108] fix: exactly one expression follows the dot of a list

---
 pkg/parser/main.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 9ba76dc..01fc576 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -29,6 +29,8 @@ var (
 	ErrTooManyArguments  = errors.New("too many arguments")
 	ErrCanNotParseNumber = errors.New("can not parse number")
 	ErrTooShortTokens    = errors.New("too short tokens")
+
+	errDotSyntax = errors.New("dotted list syntax error: exactly one expression must follow the dot")
 )
 
 type Factory[N comparable] interface {
@@ -193,7 +195,7 @@ func (p *_Parser[N]) tryParseAsNumber(token string) (N, bool, error) {
 	return p.Null(), false, nil
 }
 
-// readUntilCloseParen returns the elements of a list and the last position of the dot.
+// readUntilCloseParen returns the elements of a list and the position of the dot.
 func (p *_Parser[N]) readUntilCloseParen(rs io.RuneScanner) ([]N, int, error) {
 	nodes := []N{}
 	dot := -1
@@ -203,9 +205,15 @@ func (p *_Parser[N]) readUntilCloseParen(rs io.RuneScanner) ([]N, int, error) {
 			return nil, -1, tooShort(err)
 		}
 		if token == ")" {
+			if dot >= 0 && len(nodes) != dot+2 {
+				return nil, -1, errDotSyntax
+			}
 			return nodes, dot, nil
 		}
 		if token == "." {
+			if dot >= 0 || len(nodes) == 0 {
+				return nil, -1, errDotSyntax
+			}
 			dot = len(nodes)
 		}
 		node1, err := p.readNode(token, rs)
-- 
2.43.0


From d8a195484f41a8d16aeaca6e32410993cbc74794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:15 +0000
Subject: [PATCH 104/108] fix: floating point numbers are printed so that they
 read back

---
 convert.go | 2 +-
 number.go  | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/convert.go b/convert.go
index 2877ec7..31f90c4 100644
--- a/convert.go
+++ b/convert.go
@@ -80,7 +80,7 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		case floatClass.name:
 			return val, nil
 		case stringClass.name:
-			return String(fmt.Sprintf("%f", float64(val))), nil
+			return String(val.String()), nil
 		}
 	case Integer:
 		switch class {
diff --git a/number.go b/number.go
index c87e95f..4e9637c 100644
--- a/number.go
+++ b/number.go
@@ -5,6 +5,8 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+	"strconv"
+	"strings"
 )
 
 var numberClass = &_BuiltInClass{
@@ -173,8 +175,13 @@ func (Float) ClassOf() Class {
 	return floatClass
 }
 
+// String returns the shortest numeral that the reader converts to the same number.
 func (f Float) String() string {
-	return fmt.Sprintf("%f", float64(f))
+	s := strconv.FormatFloat(float64(f), 'g', -1, 64)
+	if strings.Trim(s, "-0123456789") == "" {
+		s += ".0" // not to be read as an integer
+	}
+	return s
 }
 
 func (f Float) Equals(n Node, m EqlMode) bool {
-- 
2.43.0


From 70272860bed327515bf7f159b69ed8064b45c623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:16 +0000
Subject: [PATCH 105/108] fix: parse-error-string and
 parse-error-expected-class are bound

---
 world.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/world.go b/world.go
index 5f98559..0b943d5 100644
--- a/world.go
+++ b/world.go
@@ -392,6 +392,8 @@ var autoLoadFunc = Functions{
 	NewSymbol("open-input-file"):                Function1(funOpenInputFile),
 	NewSymbol("open-output-file"):               Function1(funOpenOutputFile),
 	NewSymbol("or"):                             SpecialF(cmdOr),
+	NewSymbol("parse-error-expected-class"):     Function1(funParseErrorExpectedClass),
+	NewSymbol("parse-error-string"):             Function1(funParseErrorString),
 	NewSymbol("parse-number"):                   Function1(funParseNumber),
 	NewSymbol("plusp"):                          Function1(funPlusp),
 	NewSymbol("probe-file"):                     Function1(funProbeFile),
-- 
2.43.0


From 739911548ce0373db0cc075259d79bead758bfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:22 +0000
Subject: [PATCH 106/108] fix: arithmetic on what is no number raises a domain
 error

---
 operator.go | 130 ++++++++++++++++++++++++++++------------------------
 1 file changed, 70 insertions(+), 60 deletions(-)

diff --git a/operator.go b/operator.go
index 720d587..ee3ddc6 100644
--- a/operator.go
+++ b/operator.go
@@ -25,10 +25,11 @@ func funAdd(ctx context.Context, w *World, args []Node) (Node, error) {
 		return Integer(0), nil
 	}
 	return inject(args, func(left, right Node) (Node, error) {
-		if _left, ok := left.(canPlus); ok {
-			return _left.Add(ctx, w, right)
+		_left, err := ExpectInterface[canPlus](ctx, w, left, numberClass)
+		if err != nil {
+			return nil, err
 		}
-		return nil, MakeError(ErrNotSupportType, left)
+		return _left.Add(ctx, w, right)
 	})
 }
 
@@ -50,10 +51,11 @@ func funSub(ctx context.Context, w *World, args []Node) (Node, error) {
 		return zero.Sub(ctx, w, x)
 	}
 	return inject(args, func(left, right Node) (Node, error) {
-		if _left, ok := left.(canMinus); ok {
-			return _left.Sub(ctx, w, right)
+		_left, err := ExpectInterface[canMinus](ctx, w, left, numberClass)
+		if err != nil {
+			return nil, err
 		}
-		return nil, MakeError(ErrNotSupportType, left)
+		return _left.Sub(ctx, w, right)
 	})
 }
 
@@ -66,10 +68,11 @@ func funMulti(ctx context.Context, w *World, args []Node) (Node, error) {
 		return Integer(1), nil
 	}
 	return inject(args, func(left, right Node) (Node, error) {
-		if _left, ok := left.(CanMulti); ok {
-			return _left.Multi(ctx, w, right)
+		_left, err := ExpectInterface[CanMulti](ctx, w, left, numberClass)
+		if err != nil {
+			return nil, err
 		}
-		return nil, MakeError(ErrNotSupportType, left)
+		return _left.Multi(ctx, w, right)
 	})
 }
 
@@ -79,10 +82,11 @@ func funDevide(ctx context.Context, w *World, args []Node) (Node, error) {
 		Divide(context.Context, *World, Node) (Node, error)
 	}
 	return inject(args, func(left, right Node) (Node, error) {
-		if _left, ok := left.(CanDevide); ok {
-			return _left.Divide(ctx, w, right)
+		_left, err := ExpectInterface[CanDevide](ctx, w, left, numberClass)
+		if err != nil {
+			return nil, err
 		}
-		return nil, MakeError(ErrNotSupportType, left)
+		return _left.Divide(ctx, w, right)
 	})
 }
 
@@ -101,38 +105,41 @@ func chain(args []Node, f func(left, right Node) (Node, error)) (Node, error) {
 }
 
 type canLessThan interface {
+	Node
 	LessThan(context.Context, *World, Node) (bool, error)
 }
 
 func funLessThan(ctx context.Context, w *World, args []Node) (Node, error) {
 	return notNullToTrue(chain(args, func(left, right Node) (Node, error) {
-		if _left, ok := left.(canLessThan); ok {
-			result, err := _left.LessThan(ctx, w, right)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return right, nil
-			}
-			return Null, nil
+		_left, err := ExpectInterface[canLessThan](ctx, w, left, numberClass)
+		if err != nil {
+			return nil, err
+		}
+		result, err := _left.LessThan(ctx, w, right)
+		if err != nil {
+			return Null, err
+		}
+		if result {
+			return right, nil
 		}
-		return nil, MakeError(ErrNotSupportType, left)
+		return Null, nil
 	}))
 }
 
 func funGreaterThan(ctx context.Context, w *World, args []Node) (Node, error) {
 	return notNullToTrue(chain(args, func(left, right Node) (Node, error) {
-		if _right, ok := right.(canLessThan); ok {
-			result, err := _right.LessThan(ctx, w, left)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return right, nil
-			}
-			return Null, nil
+		_right, err := ExpectInterface[canLessThan](ctx, w, right, numberClass)
+		if err != nil {
+			return nil, err
 		}
-		return nil, MakeError(ErrNotSupportType, right)
+		result, err := _right.LessThan(ctx, w, left)
+		if err != nil {
+			return Null, err
+		}
+		if result {
+			return right, nil
+		}
+		return Null, nil
 	}))
 }
 
@@ -149,17 +156,18 @@ func funGreaterOrEqual(ctx context.Context, w *World, args []Node) (Node, error)
 	return notNullToTrue(chain(args, func(left, right Node) (Node, error) {
 		//     left >= right
 		// <=> not (left < right )
-		if _left, ok := left.(canLessThan); ok {
-			result, err := _left.LessThan(ctx, w, right)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return Null, nil
-			}
-			return right, nil
+		_left, err := ExpectInterface[canLessThan](ctx, w, left, numberClass)
+		if err != nil {
+			return nil, err
+		}
+		result, err := _left.LessThan(ctx, w, right)
+		if err != nil {
+			return Null, err
 		}
-		return nil, MakeError(ErrNotSupportType, right)
+		if result {
+			return Null, nil
+		}
+		return right, nil
 	}))
 }
 
@@ -167,17 +175,18 @@ func funLessOrEqual(ctx context.Context, w *World, args []Node) (Node, error) {
 	return notNullToTrue(chain(args, func(left, right Node) (Node, error) {
 		//     left <= right
 		// <=> not (right < left)
-		if _right, ok := right.(canLessThan); ok {
-			result, err := _right.LessThan(ctx, w, left)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return Null, nil
-			}
-			return right, nil
+		_right, err := ExpectInterface[canLessThan](ctx, w, right, numberClass)
+		if err != nil {
+			return nil, err
+		}
+		result, err := _right.LessThan(ctx, w, left)
+		if err != nil {
+			return Null, err
+		}
+		if result {
+			return Null, nil
 		}
-		return nil, MakeError(ErrNotSupportType, right)
+		return right, nil
 	}))
 }
 
@@ -223,33 +232,34 @@ func cmdOr(ctx context.Context, w *World, param Node) (Node, error) {
 	}
 }
 
-func floatToInteger(arg Node, f func(float64) float64) (Node, error) {
+func floatToInteger(ctx context.Context, w *World, arg Node, f func(float64) float64) (Node, error) {
 	if value, ok := arg.(Integer); ok {
 		return value, nil
 	}
-	if value, ok := arg.(Float); ok {
-		return Integer(int(f(float64(value)))), nil
+	value, err := ExpectInterface[Float](ctx, w, arg, numberClass)
+	if err != nil {
+		return nil, err
 	}
-	return nil, MakeError(ErrNotSupportType, arg)
+	return Integer(int(f(float64(value)))), nil
 }
 
 // funTruncate implements (truncte X). It returns the integer value of X.
 func funTruncate(ctx context.Context, w *World, arg Node) (Node, error) {
-	return floatToInteger(arg, math.Trunc)
+	return floatToInteger(ctx, w, arg, math.Trunc)
 }
 
 // funFloor implements (truncte X). It returns the greatest integer value less than or equal to x.
 func funFloor(ctx context.Context, w *World, arg Node) (Node, error) {
-	return floatToInteger(arg, math.Floor)
+	return floatToInteger(ctx, w, arg, math.Floor)
 }
 
 // funCeiling implements (ceiling X). It returns the least integer value greater than or equal to x.
 func funCeiling(ctx context.Context, w *World, arg Node) (Node, error) {
-	return floatToInteger(arg, math.Ceil)
+	return floatToInteger(ctx, w, arg, math.Ceil)
 }
 
 func funRound(ctx context.Context, w *World, arg Node) (Node, error) {
-	return floatToInteger(arg, math.RoundToEven)
+	return floatToInteger(ctx, w, arg, math.RoundToEven)
 }
 
 func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
-- 
2.43.0


From f4362f4e61094de86ca0c000628f587d1908023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:09 +0000
Subject: [PATCH 107/108] fix: mod and rem take all numbers and reject the rest
 with a domain error

---
 operator.go | 53 ++++++++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/operator.go b/operator.go
index ee3ddc6..a4d2ce2 100644
--- a/operator.go
+++ b/operator.go
@@ -262,6 +262,18 @@ func funRound(ctx context.Context, w *World, arg Node) (Node, error) {
 	return floatToInteger(ctx, w, arg, math.RoundToEven)
 }
 
+// expectFloat returns the number arg as float64.
+func expectFloat(ctx context.Context, w *World, arg Node) (float64, error) {
+	if value, ok := arg.(Integer); ok {
+		return float64(int(value)), nil
+	}
+	value, err := ExpectInterface[Float](ctx, w, arg, numberClass)
+	if err != nil {
+		return 0, err
+	}
+	return float64(value), nil
+}
+
 func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
 	if left, ok := first.(Integer); ok {
 		if right, ok := second.(Integer); ok {
@@ -275,26 +287,13 @@ func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
 			return value, nil
 		}
 	}
-	var left float64
-	var right float64
-
-	if _left, ok := first.(Float); ok {
-		left = float64(_left)
-	} else {
-		_left, ok := first.(Integer)
-		if !ok {
-			return nil, ErrNotSupportType
-		}
-		left = float64(int(_left))
+	left, err := expectFloat(ctx, w, first)
+	if err != nil {
+		return nil, err
 	}
-	if _right, ok := second.(Float); ok {
-		right = float64(_right)
-	} else {
-		_right, ok := second.(Integer)
-		if !ok {
-			return nil, ErrNotSupportType
-		}
-		right = float64(int(_right))
+	right, err := expectFloat(ctx, w, second)
+	if err != nil {
+		return nil, err
 	}
 	value := math.Mod(left, right)
 	if value != 0 && (value < 0) != (right < 0) {
@@ -312,13 +311,13 @@ func funRem(ctx context.Context, w *World, first, second Node) (Node, error) {
 			return Integer(left % right), nil
 		}
 	}
-	if left, ok := first.(Float); ok {
-		if right, ok := second.(Float); ok {
-			return Float(math.Mod(float64(left), float64(right))), nil
-		}
-		if right, ok := second.(Integer); ok {
-			return Float(math.Mod(float64(left), float64(int(right)))), nil
-		}
+	left, err := expectFloat(ctx, w, first)
+	if err != nil {
+		return nil, err
+	}
+	right, err := expectFloat(ctx, w, second)
+	if err != nil {
+		return nil, err
 	}
-	return nil, ErrNotSupportType
+	return Float(math.Mod(left, right)), nil
 }
-- 
2.43.0


From d9715cfddc0b288a1602d136ee635711fafa4c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:38 +0000
Subject: [PATCH 108/108] fix: parse-number raises the overflow condition for a
 numeral that is too large

---
 pkg/parser/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 01fc576..88abfd7 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -182,7 +182,7 @@ func (p *_Parser[N]) tryParseAsInt(token string) (N, bool, error) {
 func (p *_Parser[N]) tryParseAsNumber(token string) (N, bool, error) {
 	if val, ok, err := p.tryParseAsFloat(token); ok {
 		if err != nil {
-			return p.Null(), true, fmt.Errorf("%w: (%s)", ErrCanNotParseNumber, err.Error())
+			return p.Null(), true, fmt.Errorf("%w: (%w)", ErrCanNotParseNumber, err)
 		}
 		return val, true, nil
 	}
-- 
2.43.0

