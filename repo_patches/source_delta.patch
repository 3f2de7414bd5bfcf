From 0d265c3ba4908840c6c6860d03abfd80c12c6e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:55 +0000
Subject: [PATCH 01/96] fix: Vector growth makes no room when the capacity is 0
 or 1

---
 src/cxy/stdlib/vector.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/vector.cxy b/src/cxy/stdlib/vector.cxy
index 43f8daf..580730b 100644
--- a/src/cxy/stdlib/vector.cxy
+++ b/src/cxy/stdlib/vector.cxy
@@ -17,7 +17,7 @@ pub class Vector[T] {
 
     - func grow() {
         if (_size >= _capacity) {
-            _capacity += (_capacity / 2)
+            _capacity += (_capacity / 2) + 1
             _data = <^T> realloc(_data !: ^void, elemSize() * _capacity)
            #if (T.isDestructible) {
                memset(ptroff!(_data + _size), 0, elemSize() * (_capacity - _size))
-- 
2.43.0


From 86d4fa6b0539ec15ed98e17b1a8fa485c22b010f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:03 +0000
Subject: [PATCH 02/96] fix: Vector.resize leaves new slots of managed elements
 uninitialised

---
 src/cxy/stdlib/vector.cxy | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cxy/stdlib/vector.cxy b/src/cxy/stdlib/vector.cxy
index 580730b..66e040a 100644
--- a/src/cxy/stdlib/vector.cxy
+++ b/src/cxy/stdlib/vector.cxy
@@ -71,6 +71,9 @@ pub class Vector[T] {
         }
         _data = <^T> realloc(_data !: ^void, elemSize() * newSize)
        _capacity = newSize;
+       #if (T.isDestructible) {
+           memset(ptroff!(_data + _size), 0, elemSize() * (_capacity - _size))
+       }
     }
 
     @inline
-- 
2.43.0


From c319e8f9997c0743cb382644e2ea5812b357082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:51 +0000
Subject: [PATCH 03/96] fix: Vector.shift leaves a second reference to a
 managed element behind the end

---
 src/cxy/stdlib/vector.cxy | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cxy/stdlib/vector.cxy b/src/cxy/stdlib/vector.cxy
index 66e040a..452fc3c 100644
--- a/src/cxy/stdlib/vector.cxy
+++ b/src/cxy/stdlib/vector.cxy
@@ -59,6 +59,9 @@ pub class Vector[T] {
         var tmp = _data;
         _size--
         memmove(tmp, ptroff!(tmp + 1), elemSize() * _size)
+        #if (T.isDestructible) {
+            memset(ptroff!(tmp + _size), 0, elemSize())
+        }
         return item
     }
 
-- 
2.43.0


From f4bc91f2c8f4d3222068f384238093fc48592f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:55 +0000
Subject: [PATCH 04/96] fix: a parameter moved on only some paths is never
 destroyed on the others

---
 src/cxy/lang/middle/mem/manage.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index c0311e8..cdcbb12 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -189,7 +189,9 @@ static bool vtNeedsDropFlags(const VariableTrace *vt)
 static void insertedDropFlags(MemContext *ctx, VariableTrace *vt)
 {
     AstNode *var = vt->variable;
-    bool drop = nodeIs(var, VarDecl) && var->varDecl.init != NULL;
+    // parameters are owned by the function from the start
+    bool drop = nodeIs(var, FuncParamDecl) ||
+                (nodeIs(var, VarDecl) && var->varDecl.init != NULL);
     vt->dropFlags = makeVarDecl(
         ctx->pool,
         builtinLoc(),
-- 
2.43.0


From 1ef56d4f8e4480dc777f85827a113cc60c672a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:55 +0000
Subject: [PATCH 05/96] fix: HashMap/HashSet iteration stops after 128 slots
 (8-bit index)

---
 src/cxy/stdlib/hash.cxy | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cxy/stdlib/hash.cxy b/src/cxy/stdlib/hash.cxy
index f36521f..3cbaec1 100644
--- a/src/cxy/stdlib/hash.cxy
+++ b/src/cxy/stdlib/hash.cxy
@@ -196,7 +196,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
             return
 
         var i = Hasher{}(&key) % _capacity
-        var j = 0
+        var j = 0 as u64
         while {
             const h =  _data.[i].hash
             if (h == 0 || j > probe(i, h))
@@ -276,7 +276,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         func `[]=`(key: K, value: V) => insert(&&key, &&value)
 
         func `..`() {
-            var i = 0;
+            var i = 0 as u64;
             return () : (K, V)? => {
                 while (i < _capacity) {
                     if (_data.[i].hash != 0) {
@@ -290,7 +290,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         const func `..`() {
-            var i = 0;
+            var i = 0 as u64;
             return () : (K, V)? => {
                 while (i < _capacity) {
                     if (_data.[i].hash != 0) {
@@ -304,7 +304,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         func each(fun: func(key: K, value: V) -> void) {
-            var i = 0
+            var i = 0 as u64
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     fun(_data.[i].key, _data.[i].value)
@@ -314,7 +314,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
 
         func map[U](transform: func(key: &const K, value: &const V) -> U) {
             var output = Vector[U]();
-            var i = 0
+            var i = 0 as u64
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     output.push(transform(&_data.[i].key, &_data.[i].value))
@@ -331,7 +331,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         func `..`() {
-            var i = 0;
+            var i = 0 as u64;
             return () : K? => {
                 while (i < _capacity) {
                     if (_data.[i].hash != 0) {
@@ -345,7 +345,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         const func `..`() {
-            var i = 0;
+            var i = 0 as u64;
             return () : K? => {
                 while (i < _capacity) {
                     if (_data.[i].hash != 0) {
@@ -359,7 +359,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         func each(fun: func(item: K) -> void) {
-            var i = 0;
+            var i = 0 as u64;
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     fun(_data.[i].key)
@@ -369,7 +369,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
 
         func map[U](transform: func(item: &const K) -> U) {
             var output = Vector[U]();
-            var i = 0
+            var i = 0 as u64
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     output.push(transform(&_data.[i].key))
-- 
2.43.0


From 7aa2a00c24ffe4ef3454d728b35e2f04217b55a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:55 +0000
Subject: [PATCH 06/96] fix: HashMap.map/HashSet.map never advance

---
 src/cxy/stdlib/hash.cxy | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/stdlib/hash.cxy b/src/cxy/stdlib/hash.cxy
index 3cbaec1..5fad16b 100644
--- a/src/cxy/stdlib/hash.cxy
+++ b/src/cxy/stdlib/hash.cxy
@@ -318,6 +318,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     output.push(transform(&_data.[i].key, &_data.[i].value))
+                i++
             }
             return output
         }
@@ -373,6 +374,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     output.push(transform(&_data.[i].key))
+                i++
             }
             return output
         }
-- 
2.43.0


From 481ecb27379295ea3d972dd775e5feb177bbd4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:10 +0000
Subject: [PATCH 07/96] fix: hashing a string longer than 127 bytes reads
 outside it (8-bit index)

---
 src/cxy/runtime/builtins.cxy | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index c802de1..c09fec3 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -275,7 +275,7 @@ pub func hash_fnv1a_ptr(h: HashCode, ptr: ^const void) =>
 
 pub func hash_fnv1a_string(h: HashCode, str: string)
 {
-    var i = 0;
+    var i = 0 as u64;
     while (str.[i] != '\0'`char) {
         h = hash_fnv1a_uint8(h, <u8>str.[i]);
         i++
@@ -285,7 +285,7 @@ pub func hash_fnv1a_string(h: HashCode, str: string)
 
 pub func hash_fnv1a_n_string(h: HashCode, str: string, len: u64)
 {
-    var i = 0;
+    var i = 0 as u64;
     while (i < len) {
         h = hash_fnv1a_uint8(h, <u8>str.[i]);
         i++
@@ -295,7 +295,7 @@ pub func hash_fnv1a_n_string(h: HashCode, str: string, len: u64)
 
 pub func hash_fnv1a_string_n_igc(h: HashCode, str: ^const char, len: u64)
 {
-    var i = 0;
+    var i = 0 as u64;
     while (i < len) {
         var c = toupper(<i32>str.[i]);
         h = hash_fnv1a_uint8(h, <u8>c);
@@ -306,7 +306,7 @@ pub func hash_fnv1a_string_n_igc(h: HashCode, str: ^const char, len: u64)
 
 pub func hash_fnv1a_string_igc(h: HashCode, str: const string)
 {
-    var i = 0;
+    var i = 0 as u64;
     while (str.[i] != '\0'`char) {
         var c = toupper(<i32>str.[i]);
         h = hash_fnv1a_uint8(h, <u8>c);
-- 
2.43.0


From 5a964f4ae73d5e99bfbfe0ad0fd230254a1a7d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:10 +0000
Subject: [PATCH 08/96] fix: byte hash skips the last byte and runs away on an
 empty buffer

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index c09fec3..6e59e90 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -321,7 +321,7 @@ pub func hash_fnv1a_bytes(h: HashCode,
                          size: u64)
 {
     const p = ptr !: ^const u8;
-    for (const i: 0..size-1)
+    for (const i: 0..size)
         h = hash_fnv1a_uint8(h, p.[i]);
     return h
 }
-- 
2.43.0


From cdb79d3c6ea24e9ff948832a419c09269134e454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:21 +0000
Subject: [PATCH 09/96] fix: HashMap probe distance is wrong for entries that
 wrap past the end, losing keys

---
 src/cxy/stdlib/hash.cxy | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxy/stdlib/hash.cxy b/src/cxy/stdlib/hash.cxy
index 5fad16b..4bc179b 100644
--- a/src/cxy/stdlib/hash.cxy
+++ b/src/cxy/stdlib/hash.cxy
@@ -50,10 +50,10 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
     }
 
     - const func probe(i: u64, h: u64) {
-        var v = i - (h - 1)
-        if (v < 0)
-            v = _capacity + v
-        return v
+        const home = h - 1
+        if (i < home)
+            return _capacity + i - home
+        return i - home
     }
 
     @[inline, static]
-- 
2.43.0


From 3757b2c851eb2af3db4d8322896116b9bbd7c74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:50 +0000
Subject: [PATCH 10/96] fix: assigning a class variable drops the old value
 before the new one is evaluated and takes no reference

---
 src/cxy/lang/middle/mem/manage.c | 43 +++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index cdcbb12..a8913fd 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -471,6 +471,29 @@ static void visitUnaryExpr(AstVisitor *visitor, AstNode *node)
     }
 }
 
+// The value being assigned must be taken before the old value is dropped: it
+// might be (or be reachable only through) the old value
+static void evaluateBeforeDrop(MemContext *ctx, AstNode *node)
+{
+    AstNode *rhs = node->assignExpr.rhs;
+    const AstNode *stmt = node->parentScope;
+    if (isLiteralExpr(rhs) || !nodeIs(stmt, ExprStmt) ||
+        ctx->blockModifier.current != stmt)
+        return;
+
+    AstNode *tmp = makeVarDecl(ctx->pool,
+                               &rhs->loc,
+                               flgTemporary,
+                               makeAnonymousVariable(ctx->strings, "_as"),
+                               NULL,
+                               rhs,
+                               NULL,
+                               node->assignExpr.lhs->type);
+    astModifierAdd(&ctx->blockModifier, tmp);
+    node->assignExpr.rhs = makeResolvedIdentifier(
+        ctx->pool, &rhs->loc, tmp->_name, 0, tmp, NULL, tmp->type);
+}
+
 static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
@@ -481,7 +504,12 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
         VariableTrace *vt = findVariableTrace(ctx, lhs);
         astVisit(visitor, rhs);
         csAssert0(vt);
+        if (isLeftValueExpr(rhs) && nodeNeedsMemMgmt(rhs) &&
+            nodeNeedsMemMgmt(vt->variable)) {
+            rhs = node->assignExpr.rhs = makeCopyExpr(ctx, rhs);
+        }
         if (vtNeedsMemMgmt(ctx, vt)) {
+            evaluateBeforeDrop(ctx, node);
             astModifierAdd(&ctx->blockModifier,
                            makeDropVariable(
                                ctx, vt, vtIsUpdatedInChildScopeLoop(ctx, vt)));
@@ -496,19 +524,22 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
     }
 
     lhs = node->assignExpr.lhs;
-    if (isLeftValueExpr(lhs) && nodeNeedsMemMgmt(lhs)) {
-        astModifierAdd(&ctx->blockModifier,
-                       makeDropExpr(ctx, deepCloneAstNode(ctx->pool, lhs)));
+    bool drop = isLeftValueExpr(lhs) && nodeNeedsMemMgmt(lhs);
+    if (drop)
         astVisit(visitor, node->assignExpr.rhs);
-    }
-    else {
+    else
         astVisitFallbackVisitAll(visitor, node);
-    }
 
     AstNode *rhs = node->assignExpr.rhs;
     if (isLeftValueExpr(rhs) && nodeNeedsMemMgmt(rhs)) {
         node->assignExpr.rhs = makeCopyExpr(ctx, rhs);
     }
+
+    if (drop) {
+        evaluateBeforeDrop(ctx, node);
+        astModifierAdd(&ctx->blockModifier,
+                       makeDropExpr(ctx, deepCloneAstNode(ctx->pool, lhs)));
+    }
 }
 
 static void visitCallExpr(AstVisitor *visitor, AstNode *node)
-- 
2.43.0


From eec100deaf21d39b636d61a7aa3c39fbc17f4aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:55 +0000
Subject: [PATCH 11/96] fix: printing a u64 above i63 prints a negative number

---
 src/cxy/runtime/builtins.cxy | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 6e59e90..c5c9522 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -643,6 +643,8 @@ pub class OutputStream {
                     append(val._data !: ^const void, val.size())
             else
                 appendString(val)
+        else #if (U.isInteger && U.isUnsigned)
+            appendUnSignedInt(<u64>val)
         else #if (U.isInteger)
             appendSignedInt(<i64>val)
         else #if (U.isFloat)
-- 
2.43.0


From 6a66cdf6261a3a5a4dec91ce8fe815cec8180ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:55 +0000
Subject: [PATCH 12/96] fix: casting a parenthesised or negated literal aborts
 the compiler

---
 src/cxy/lang/middle/sema/cast.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/middle/sema/cast.c b/src/cxy/lang/middle/sema/cast.c
index 6074c0a..c30b82e 100644
--- a/src/cxy/lang/middle/sema/cast.c
+++ b/src/cxy/lang/middle/sema/cast.c
@@ -10,10 +10,16 @@
 static void castIntegerLiteral(const Type *to, AstNode *expr)
 {
 #define CAST_INTEGER(TYP)                                                      \
-    if (expr->intLiteral.isNegative)                                           \
-        expr->intLiteral.value = (i64)(TYP)expr->intLiteral.value;             \
-    else                                                                       \
-        expr->intLiteral.uValue = (u64)(TYP)expr->intLiteral.uValue;
+    {                                                                          \
+        const TYP result = expr->intLiteral.isNegative                         \
+                               ? (TYP)expr->intLiteral.value                   \
+                               : (TYP)expr->intLiteral.uValue;                 \
+        expr->intLiteral.isNegative = (TYP)-1 < 0 && (i64)result < 0;          \
+        if (expr->intLiteral.isNegative)                                       \
+            expr->intLiteral.value = (i64)result;                              \
+        else                                                                   \
+            expr->intLiteral.uValue = (u64)result;                             \
+    }
 
     switch (to->primitive.id) {
     case prtU8:
@@ -50,6 +56,13 @@ static void castLiteral(TypingContext *ctx, AstNode *node)
 {
     if (isLiteralExpr(node) && typeIs(node->type, Primitive)) {
         AstNode *expr = node->castExpr.expr;
+        while (nodeIs(expr, GroupExpr))
+            expr = expr->groupExpr.expr;
+        if (nodeIs(expr, UnaryExpr) || nodeIs(expr, CastExpr) ||
+            nodeIs(expr, TypedExpr)) {
+            // not a literal itself, converted when evaluated
+            return;
+        }
         expr->type = node->type;
         if (isIntegerType(node->type)) {
             if (nodeIs(expr, FloatLit)) {
-- 
2.43.0


From 40499343eabc07ce22e04e7600a8e419ce4f51d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:55 +0000
Subject: [PATCH 13/96] fix: integer literals lose their type in the generated
 C (64-bit shifts and products overflow)

---
 src/cxy/lang/backend/c/generate.c | 36 +++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index dca248c..10a87f6 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -796,18 +796,36 @@ static void visitCharLit(ConstAstVisitor *visitor, const AstNode *node)
 static void visitIntegerLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    if (node->intLiteral.isNegative)
-        format(getState(ctx),
-               "{i64}",
-               (FormatArg[]){{.i64 = node->intLiteral.value}});
-    else if (isUnsignedType(node->type))
+    const Type *type = unwrapType(node->type, NULL);
+    // The literal must have the same width and signedness in C (types smaller
+    // than int are promoted to int anyway)
+    cstring suffix = "";
+    if (typeIs(type, Primitive)) {
+        switch (type->primitive.id) {
+        case prtU32:
+            suffix = "u";
+            break;
+        case prtI64:
+            suffix = "ll";
+            break;
+        case prtU64:
+            suffix = "ull";
+            break;
+        default:
+            break;
+        }
+    }
+
+    if (!node->intLiteral.isNegative)
         format(getState(ctx),
-               "{u64}u",
-               (FormatArg[]){{.u64 = node->intLiteral.uValue}});
+               "{u64}{s}",
+               (FormatArg[]){{.u64 = node->intLiteral.uValue}, {.s = suffix}});
+    else if (node->intLiteral.value == INT64_MIN)
+        format(getState(ctx), "(-9223372036854775807ll - 1)", NULL);
     else
         format(getState(ctx),
-               "{u64}",
-               (FormatArg[]){{.u64 = node->intLiteral.uValue}});
+               "{i64}{s}",
+               (FormatArg[]){{.i64 = node->intLiteral.value}, {.s = suffix}});
 }
 
 static void visitFloatLit(ConstAstVisitor *visitor, const AstNode *node)
-- 
2.43.0


From f1b8f05dcd12d575a1a0bf9981549aadd411cb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:55 +0000
Subject: [PATCH 14/96] fix: '- -x' is emitted as '--x'

---
 src/cxy/lang/backend/c/generate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 10a87f6..654e6c3 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -930,6 +930,11 @@ static void visitUnaryExpr(ConstAstVisitor *visitor, const AstNode *node)
             format(getState(ctx),
                    "{s}",
                    (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)}});
+            // `- -x` must not become `--x`
+            if (nodeIs(node->unaryExpr.operand, UnaryExpr) ||
+                nodeIs(node->unaryExpr.operand, IntegerLit) ||
+                nodeIs(node->unaryExpr.operand, FloatLit))
+                format(getState(ctx), " ", NULL);
         }
         astConstVisit(visitor, node->unaryExpr.operand);
     }
-- 
2.43.0


From ae134f25e8479c09a4db5ee30464806a513f6554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:34 +0000
Subject: [PATCH 15/96] fix: nested catch blocks must not reuse the outer
 catch's result

---
 src/cxy/lang/middle/sema/binary.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index e0501f8..b2be15d 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -211,6 +211,7 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
     ctx->catcher.expr = lhs;
     ctx->catcher.block = rhs;
     ctx->catcher.variable = NULL;
+    ctx->catcher.result = NULL;
     ctx->catcher.ex = NULL;
     const Type *right = checkType(visitor, node->binaryExpr.rhs);
     newCatcher = ctx->catcher;
-- 
2.43.0


From a90f434fe9b0bd3e1e645753da10a9686ed13db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:34 +0000
Subject: [PATCH 16/96] fix: emit the parentheses an expression tree needs in
 generated C

---
 src/cxy/lang/backend/c/generate.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 654e6c3..db4c7a7 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -886,14 +886,33 @@ static void visitArrayExpr(ConstAstVisitor *visitor, const AstNode *node)
     generateMany(visitor, node->arrayExpr.elements, "{{", ", ", "}");
 }
 
+// Generate an operand of an operator that binds tighter than (or as tight as)
+// `prec`, the grouping in the tree must survive in the generated text
+static void visitOperand(ConstAstVisitor *visitor,
+                         const AstNode *node,
+                         int prec)
+{
+    CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    const bool group =
+        nodeIs(node, TernaryExpr) || nodeIs(node, AssignExpr) ||
+        (nodeIs(node, BinaryExpr) &&
+         getBinaryOpPrecedence(node->binaryExpr.op) > prec);
+    if (group)
+        format(getState(ctx), "(", NULL);
+    astConstVisit(visitor, node);
+    if (group)
+        format(getState(ctx), ")", NULL);
+}
+
 static void visitBinaryExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    astConstVisit(visitor, node->binaryExpr.lhs);
+    const int prec = getBinaryOpPrecedence(node->binaryExpr.op);
+    visitOperand(visitor, node->binaryExpr.lhs, prec);
     format(getState(ctx),
            " {s} ",
            (FormatArg[]){{.s = getBinaryOpString(node->assignExpr.op)}});
-    astConstVisit(visitor, node->binaryExpr.rhs);
+    visitOperand(visitor, node->binaryExpr.rhs, prec - 1);
 }
 
 static void visitAssignExpr(ConstAstVisitor *visitor, const AstNode *node)
@@ -936,7 +955,7 @@ static void visitUnaryExpr(ConstAstVisitor *visitor, const AstNode *node)
                 nodeIs(node->unaryExpr.operand, FloatLit))
                 format(getState(ctx), " ", NULL);
         }
-        astConstVisit(visitor, node->unaryExpr.operand);
+        visitOperand(visitor, node->unaryExpr.operand, 0);
     }
     else {
         astConstVisit(visitor, node->unaryExpr.operand);
@@ -952,7 +971,7 @@ static void visitTypedExpr(ConstAstVisitor *visitor, const AstNode *node)
     format(getState(ctx), "(", NULL);
     generateTypeName(ctx, getState(ctx), node->type);
     format(getState(ctx), ")", NULL);
-    astConstVisit(visitor, node->typedExpr.expr);
+    visitOperand(visitor, node->typedExpr.expr, 0);
 }
 
 static void visitCastExpr(ConstAstVisitor *visitor, const AstNode *node)
@@ -970,7 +989,7 @@ static void visitCastExpr(ConstAstVisitor *visitor, const AstNode *node)
     }
 
     if (to == unThisType(from)) {
-        astConstVisit(visitor, expr);
+        visitOperand(visitor, expr, 0);
         return;
     }
 
@@ -1000,7 +1019,7 @@ static void visitCastExpr(ConstAstVisitor *visitor, const AstNode *node)
     format(getState(ctx), "(", NULL);
     generateTypeName(ctx, getState(ctx), to);
     format(getState(ctx), ")", NULL);
-    astConstVisit(visitor, expr);
+    visitOperand(visitor, expr, 0);
 }
 
 static void visitGroupExpr(ConstAstVisitor *visitor, const AstNode *node)
-- 
2.43.0


From 53239c56ab1842ba5284c567c5b8f4e16cd3ef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:34 +0000
Subject: [PATCH 17/96] fix: an implicit cast applies to the operand that
 follows it

---
 src/cxy/lang/frontend/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index 1ed0623..e78093a 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -1002,7 +1002,7 @@ static AstNode *implicitCast(Parser *P)
     Token tok = *consume0(P, tokLess);
     AstNode *to = parseType(P);
     consume0(P, tokGreater);
-    expr = expressionWithoutStructs(P);
+    expr = prefix(P, primary);
 
     return makeAstNode(
         P->memPool,
-- 
2.43.0


From af5fdfd95924ee0a0479ffa41ca33d71dbc11e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:01 +0000
Subject: [PATCH 18/96] fix: all the matches of 'case A, B =>' run its body

---
 src/cxy/lang/frontend/parser.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index e78093a..4ff1523 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -2422,7 +2422,7 @@ static AstNode *caseStatement(Parser *P)
 {
     u64 flags = flgNone;
     Token tok = *current(P);
-    AstNode *match = NULL, *body = NULL;
+    AstNode *match = NULL, *body = NULL, *next = NULL;
     if (match(P, tokCase) || previous(P)->tag == tokComma) {
         P->inCase = true;
         match = expression(P, false);
@@ -2434,7 +2434,12 @@ static AstNode *caseStatement(Parser *P)
         flags |= flgDefault;
     }
 
-    if (!match(P, tokComma)) {
+    if (match(P, tokComma)) {
+        // case A, B => body, all the matches share the body
+        next = caseStatement(P);
+        body = deepCloneAstNode(P->memPool, next->caseStmt.body);
+    }
+    else {
         consume0(P, tokFatArrow);
         if (!check(P, tokCase, tokRBrace)) {
             body = statement(P, false);
@@ -2445,6 +2450,7 @@ static AstNode *caseStatement(Parser *P)
                       &tok,
                       &(AstNode){.tag = astCaseStmt,
                                  .flags = flags,
+                                 .next = next,
                                  .caseStmt = {.match = match, .body = body}});
 }
 
@@ -2475,7 +2481,7 @@ static AstNode *matchCaseStatement(Parser *P)
     u64 flags = flgNone;
     Token tok = *current(P);
     AstNode *match = NULL, *body = NULL;
-    AstNode *variable = NULL;
+    AstNode *variable = NULL, *next = NULL;
     bool isMulti = previous(P)->tag == tokComma;
     if (match(P, tokCase) || isMulti) {
         P->inCase = true;
@@ -2499,7 +2505,12 @@ static AstNode *matchCaseStatement(Parser *P)
         flags |= flgDefault;
     }
 
-    if (!match(P, tokComma)) {
+    if (match(P, tokComma)) {
+        // case A, B => body, all the matches share the body
+        next = matchCaseStatement(P);
+        body = deepCloneAstNode(P->memPool, next->caseStmt.body);
+    }
+    else {
         // either case X { or case =>
         if (!check(P, tokLBrace))
             consume0(P, tokFatArrow);
@@ -2514,6 +2525,7 @@ static AstNode *matchCaseStatement(Parser *P)
         &(AstNode){
             .tag = astCaseStmt,
             .flags = flags,
+            .next = next,
             .caseStmt = {.match = match, .body = body, .variable = variable}});
 }
 
-- 
2.43.0


From 3c9021a6d9401d6cd1b8e52906e1135091a7f683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:01 +0000
Subject: [PATCH 19/96] fix: raising from the catch block of a void call is
 rejected

---
 src/cxy/lang/middle/sema/exception.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/exception.c b/src/cxy/lang/middle/sema/exception.c
index 64a2335..06de66f 100644
--- a/src/cxy/lang/middle/sema/exception.c
+++ b/src/cxy/lang/middle/sema/exception.c
@@ -232,8 +232,10 @@ bool exceptionVerifyRaiseExpr(TypingContext *ctx,
         }
 
         if (ctx->catcher.block != NULL) {
-            ctx->catcher.block->type =
-                getResultTargetType(ctx->catcher.expr->type);
+            const Type *lhsType = ctx->catcher.expr->type;
+            ctx->catcher.block->type = isVoidResultType(lhsType)
+                                           ? makeVoidType(ctx->types)
+                                           : getResultTargetType(lhsType);
         }
     }
     return true;
-- 
2.43.0


From e535f3848f8c418608b9f892997e58f3576d1e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:13 +0000
Subject: [PATCH 20/96] fix: a range loop whose bound is passed, not met, never
 ends

---
 src/cxy/lang/middle/simplify/simplify.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 6775ccc..d33e087 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -119,6 +119,22 @@ static AstNode *virtualDispatch(SimplifyContext *ctx,
                           vTableFunc->type);
 }
 
+// A range ends when its bound is reached or passed. The direction is known
+// unless the step is only known at runtime.
+static Operator getRangeEndOperator(const AstNode *step)
+{
+    if (step == NULL)
+        return opLt;
+    bool negate = false;
+    if (nodeIs(step, UnaryExpr) && step->unaryExpr.op == opMinus) {
+        negate = true;
+        step = step->unaryExpr.operand;
+    }
+    if (!nodeIs(step, IntegerLit))
+        return opNe;
+    return (integerLiteralValue(step) < 0) != negate ? opGt : opLt;
+}
+
 static void simplifyForRangeStmt(AstVisitor *visitor, AstNode *node)
 {
     SimplifyContext *ctx = getAstVisitorContext(visitor);
@@ -145,7 +161,7 @@ static void simplifyForRangeStmt(AstVisitor *visitor, AstNode *node)
                                               var,
                                               NULL,
                                               var->type),
-                       opNe,
+                       getRangeEndOperator(range->rangeExpr.step),
                        // range.end
                        range->rangeExpr.end,
                        NULL,
-- 
2.43.0


From 9a857e0542ba45082413cf8c9341a185f0796bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:18 +0000
Subject: [PATCH 21/96] fix: deferred statements run before the returned value
 is computed

---
 src/cxy/lang/middle/defer.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/cxy/lang/middle/defer.c b/src/cxy/lang/middle/defer.c
index 56e9bd4..a621f60 100644
--- a/src/cxy/lang/middle/defer.c
+++ b/src/cxy/lang/middle/defer.c
@@ -137,6 +137,32 @@ static void visitBreakContinue(AstVisitor *visitor, AstNode *node)
     astModifierAdd(&ctx->block, expressions.first);
 }
 
+// The value being returned must be computed before the deferred statements run
+static void evaluateReturnValue(DeferContext *ctx, AstNode *node)
+{
+    AstNode *expr = node->returnStmt.expr;
+    if (node->returnStmt.isRaise || expr == NULL || isLiteralExpr(expr) ||
+        isVoidType(expr->type))
+        return;
+
+    AstNode *var = makeVarDecl(ctx->pool,
+                               &expr->loc,
+                               flgNone,
+                               makeAnonymousVariable(ctx->strings, "_ret"),
+                               NULL,
+                               expr,
+                               NULL,
+                               expr->type);
+    astModifierAdd(&ctx->block, var);
+    node->returnStmt.expr = makeResolvedPath(ctx->pool,
+                                             &expr->loc,
+                                             var->_name,
+                                             flgNone,
+                                             var,
+                                             NULL,
+                                             expr->type);
+}
+
 static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
 {
     DeferContext *ctx = getAstVisitorContext(visitor);
@@ -148,6 +174,8 @@ static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
         scope = scope->next;
     }
     ctx->bsc.scope->flags |= bscSealed;
+    if (expressions.first)
+        evaluateReturnValue(ctx, node);
     astModifierAdd(&ctx->block, expressions.first);
 }
 
-- 
2.43.0


From 3deba69237b957aaf17e283c5fcb524f12837c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:34 +0000
Subject: [PATCH 22/96] fix: cloned bodies share their yield and range nodes
 with the original

---
 src/cxy/lang/frontend/ast.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cxy/lang/frontend/ast.c b/src/cxy/lang/frontend/ast.c
index ccd0d27..619adfb 100644
--- a/src/cxy/lang/frontend/ast.c
+++ b/src/cxy/lang/frontend/ast.c
@@ -2319,9 +2319,17 @@ AstNode *cloneAstNode(CloneAstConfig *config, const AstNode *node)
         CLONE_ONE(memberExpr, target);
         CLONE_ONE(memberExpr, member);
         break;
+    case astRangeExpr:
+        CLONE_ONE(rangeExpr, start);
+        CLONE_ONE(rangeExpr, end);
+        CLONE_ONE(rangeExpr, step);
+        break;
     case astReturnStmt:
         CLONE_ONE(returnStmt, expr);
         break;
+    case astYieldStmt:
+        CLONE_ONE(yieldStmt, expr);
+        break;
     case astBlockStmt:
         CLONE_MANY(blockStmt, stmts);
         break;
-- 
2.43.0


From 6443e3700b8cef67a7cd5e9f95461f52cd3944ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:47 +0000
Subject: [PATCH 23/96] fix: break inside a switch runs the defers of the
 enclosing loop body

---
 src/cxy/lang/middle/defer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cxy/lang/middle/defer.c b/src/cxy/lang/middle/defer.c
index a621f60..3cf8461 100644
--- a/src/cxy/lang/middle/defer.c
+++ b/src/cxy/lang/middle/defer.c
@@ -126,6 +126,9 @@ static void visitBreakContinue(AstVisitor *visitor, AstNode *node)
         AstNode *block = scope->node->parentScope;
         if (nodeIs(block, WhileStmt) || nodeIs(block, ForStmt))
             break;
+        // break leaves the innermost switch/match, and only that
+        if (nodeIs(node, BreakStmt) && nodeIs(block, CaseStmt))
+            break;
         if (blockScopeNeedsSealing(scope))
             blockScopeSealIntoList(ctx, &expressions, scope);
         scope = scope->next;
-- 
2.43.0


From db58d30821e46f4a30afaa2ac8c2ded05944d387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:33 +0000
Subject: [PATCH 24/96] fix: compile-time integer arithmetic is done in f64 and
 crashes on division by zero

---
 src/cxy/lang/frontend/ast.h               |   5 ++
 src/cxy/lang/middle/eval/binary.c         |  38 +++++---
 src/cxy/lang/middle/eval/literal.c        | 104 +++++++++++++++++++++-
 src/cxy/lang/middle/eval/unary.c          |  39 ++++----
 src/cxy/lang/middle/preprocess/evaluate.c |  75 ++++++++--------
 5 files changed, 188 insertions(+), 73 deletions(-)

diff --git a/src/cxy/lang/frontend/ast.h b/src/cxy/lang/frontend/ast.h
index dffe9fe..8630236 100644
--- a/src/cxy/lang/frontend/ast.h
+++ b/src/cxy/lang/frontend/ast.h
@@ -1515,6 +1515,11 @@ void nodeSetNumericLiteral(AstNode *node,
                            AstNode *rhs,
                            f64 value);
 
+// Evaluate a binary arithmetic, bit-wise or comparison operation between two
+// integral literals (integer, character, boolean) using 64-bit integers, false
+// if the operands are not integral or the result is not defined
+bool nodeEvalIntegralExpr(AstNode *node, AstNode *lhs, AstNode *rhs);
+
 bool comptimeCompareTypes(const AstNode *lhs, const AstNode *rhs);
 
 static inline bool isClassOrStructAstNode(const AstNode *node)
diff --git a/src/cxy/lang/middle/eval/binary.c b/src/cxy/lang/middle/eval/binary.c
index 0a056f8..ccf2c3b 100644
--- a/src/cxy/lang/middle/eval/binary.c
+++ b/src/cxy/lang/middle/eval/binary.c
@@ -120,6 +120,9 @@ static void evalAddOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
+    if (nodeEvalIntegralExpr(node, lhs, rhs))
+        return;
+
     f64 value = nodeGetNumericLiteral(lhs) + nodeGetNumericLiteral(rhs);
     nodeSetNumericLiteral(node, lhs, rhs, value);
 }
@@ -145,6 +148,9 @@ static void evalSubOperation(EvalContext *ctx, AstNode *node)
             NULL);
     }
 
+    if (nodeEvalIntegralExpr(node, lhs, rhs))
+        return;
+
     f64 value = nodeGetNumericLiteral(lhs) - nodeGetNumericLiteral(rhs);
     nodeSetNumericLiteral(node, lhs, rhs, value);
 }
@@ -177,6 +183,9 @@ static void evalMulOperation(EvalContext *ctx, AstNode *node)
                    NULL);
     }
 
+    if (nodeEvalIntegralExpr(node, lhs, rhs))
+        return;
+
     f64 value = nodeGetNumericLiteral(lhs) * nodeGetNumericLiteral(rhs);
     nodeSetNumericLiteral(node, lhs, rhs, value);
 }
@@ -214,10 +223,9 @@ static void evalDivOperation(EvalContext *ctx, AstNode *node)
         node->floatLiteral.value =
             nodeGetNumericLiteral(lhs) / nodeGetNumericLiteral(rhs);
     }
-    else {
-        i64 value =
-            (i64)nodeGetNumericLiteral(lhs) / (i64)nodeGetNumericLiteral(rhs);
-        nodeSetNumericLiteral(node, lhs, rhs, (f64)value);
+    else if (!nodeEvalIntegralExpr(node, lhs, rhs)) {
+        logError(ctx->L, &node->loc, "comp-time division by zero", NULL);
+        node->tag = astError;
     }
 }
 
@@ -244,11 +252,10 @@ static void evalModOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
-    nodeSetNumericLiteral(node,
-                          lhs,
-                          rhs,
-                          (f64)((i64)nodeGetNumericLiteral(lhs) %
-                                (i64)nodeGetNumericLiteral(rhs)));
+    if (!nodeEvalIntegralExpr(node, lhs, rhs)) {
+        logError(ctx->L, &node->loc, "comp-time division by zero", NULL);
+        node->tag = astError;
+    }
 }
 
 static bool checkBinaryBitOperation(EvalContext *ctx, AstNode *node)
@@ -302,11 +309,8 @@ static bool checkBinaryBitOperation(EvalContext *ctx, AstNode *node)
         if (!checkBinaryBitOperation(ctx, node))                               \
             return;                                                            \
                                                                                \
-        nodeSetNumericLiteral(node,                                            \
-                              lhs,                                             \
-                              rhs,                                             \
-                              (f64)((i64)nodeGetNumericLiteral(lhs) OP(i64)    \
-                                        nodeGetNumericLiteral(rhs)));          \
+        if (!nodeEvalIntegralExpr(node, lhs, rhs))                             \
+            node->tag = astError;                                              \
     }
 
 CXY_DEFINE_BINARY_BIT_OPERATOR(Shl, <<)
@@ -412,6 +416,9 @@ static bool checkComparisonOperation(EvalContext *ctx, AstNode *node)
         if (!checkComparisonOperation(ctx, node))                              \
             return;                                                            \
                                                                                \
+        if (nodeEvalIntegralExpr(node, lhs, rhs))                              \
+            return;                                                            \
+                                                                               \
         memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
         node->tag = astBoolLit;                                                \
         node->boolLiteral.value =                                              \
@@ -456,6 +463,9 @@ CXY_DEFINE_BINARY_EQ_COMP_OPERATOR(Ne, !=)
             return;                                                            \
         }                                                                      \
                                                                                \
+        if (nodeEvalIntegralExpr(node, lhs, rhs))                              \
+            return;                                                            \
+                                                                               \
         memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
         node->tag = astBoolLit;                                                \
         node->boolLiteral.value =                                              \
diff --git a/src/cxy/lang/middle/eval/literal.c b/src/cxy/lang/middle/eval/literal.c
index eaf4757..e6357de 100644
--- a/src/cxy/lang/middle/eval/literal.c
+++ b/src/cxy/lang/middle/eval/literal.c
@@ -50,7 +50,7 @@ void nodeSetNumericLiteral(AstNode *node, AstNode *lhs, AstNode *rhs, f64 value)
     case astBoolLit:
         if (nodeIs(rhs, BoolLit)) {
             node->tag = astBoolLit;
-            node->boolLiteral.value = value == 0;
+            node->boolLiteral.value = value != 0;
         }
         else if (nodeIs(rhs, CharLit) || nodeIs(rhs, IntegerLit)) {
             node->tag = astIntegerLit;
@@ -90,7 +90,7 @@ void nodeSetNumericLiteral(AstNode *node, AstNode *lhs, AstNode *rhs, f64 value)
         }
         else {
             node->tag = astIntegerLit;
-            node->intLiteral.value = (i64)value;
+            node->intLiteral.isNegative = value < 0;
             if (node->intLiteral.isNegative)
                 node->intLiteral.value = (i64)value;
             else
@@ -106,6 +106,106 @@ void nodeSetNumericLiteral(AstNode *node, AstNode *lhs, AstNode *rhs, f64 value)
     }
 }
 
+static bool isWholeLiteral(const AstNode *node)
+{
+    return nodeIs(node, IntegerLit) || nodeIs(node, CharLit) ||
+           nodeIs(node, BoolLit);
+}
+
+static u64 integralLiteralValue(const AstNode *node, bool *isUnsigned)
+{
+    switch (node->tag) {
+    case astBoolLit:
+        return node->boolLiteral.value;
+    case astCharLit:
+        return node->charLiteral.value;
+    default:
+        if (!node->intLiteral.isNegative && node->intLiteral.uValue > INT64_MAX)
+            *isUnsigned = true;
+        return unsignedIntegerLiteralValue(node);
+    }
+}
+
+bool nodeEvalIntegralExpr(AstNode *node, AstNode *lhs, AstNode *rhs)
+{
+    const Operator op = node->binaryExpr.op;
+    if (!isWholeLiteral(lhs) || !isIntegralLiteral(rhs))
+        return false;
+
+    bool isUnsigned = false;
+    const u64 l = integralLiteralValue(lhs, &isUnsigned),
+              r = integralLiteralValue(rhs, &isUnsigned);
+    const i64 sl = (i64)l, sr = (i64)r;
+    u64 value;
+
+    switch (op) {
+#define f(OP, op_)                                                             \
+    case op##OP:                                                               \
+        clearAstBody(node);                                                    \
+        node->tag = astBoolLit;                                                \
+        node->boolLiteral.value = isUnsigned ? l op_ r : sl op_ sr;            \
+        return true;
+        f(Eq, ==);
+        f(Ne, !=);
+        f(Lt, <);
+        f(Gt, >);
+        f(Leq, <=);
+        f(Geq, >=);
+#undef f
+    case opAdd:
+        value = l + r;
+        break;
+    case opSub:
+        value = l - r;
+        break;
+    case opMul:
+        value = l * r;
+        break;
+    case opDiv:
+        if (r == 0)
+            return false;
+        value = isUnsigned ? l / r : sr == -1 ? -l : (u64)(sl / sr);
+        break;
+    case opMod:
+        if (r == 0)
+            return false;
+        value = isUnsigned ? l % r : sr == -1 ? 0 : (u64)(sl % sr);
+        break;
+    case opShl:
+        value = l << (r & 63);
+        break;
+    case opShr:
+        value = isUnsigned ? l >> (r & 63) : (u64)(sl >> (r & 63));
+        break;
+    case opBAnd:
+        value = l & r;
+        break;
+    case opBOr:
+        value = l | r;
+        break;
+    case opBXor:
+        value = l ^ r;
+        break;
+    default:
+        return false;
+    }
+
+    if (nodeIs(lhs, BoolLit) && nodeIs(rhs, BoolLit)) {
+        node->tag = astBoolLit;
+        node->boolLiteral.value = value != 0;
+    }
+    else if (nodeIs(lhs, CharLit) && !nodeIs(rhs, IntegerLit)) {
+        node->tag = astCharLit;
+        node->charLiteral.value = (wchar)value;
+    }
+    else {
+        node->tag = astIntegerLit;
+        node->intLiteral.isNegative = !isUnsigned && (i64)value < 0;
+        node->intLiteral.uValue = value;
+    }
+    return true;
+}
+
 bool evalBooleanCast(EvalContext *ctx, AstNode *node)
 {
     switch (node->tag) {
diff --git a/src/cxy/lang/middle/eval/unary.c b/src/cxy/lang/middle/eval/unary.c
index a8e881e..3ce8602 100644
--- a/src/cxy/lang/middle/eval/unary.c
+++ b/src/cxy/lang/middle/eval/unary.c
@@ -43,18 +43,15 @@ static void evalPrefixMinusOperation(EvalContext *ctx, AstNode *node)
     if (!evalVerifyIntegerOrFloatOperand(ctx, rhs, node->unaryExpr.op))
         return;
 
-    f64 value = -nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
+    if (nodeIs(rhs, FloatLit)) {
         node->tag = astFloatLit;
-        node->floatLiteral.value = value;
+        node->floatLiteral.value = -rhs->floatLiteral.value;
     }
     else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
+        AstNode zero = {.tag = astIntegerLit};
+        node->binaryExpr.op = opSub;
+        nodeEvalIntegralExpr(node, &zero, rhs);
+        node->intLiteral.isNegative = node->intLiteral.value < 0;
     }
 }
 
@@ -64,18 +61,14 @@ static void evalPrefixPlusOperation(EvalContext *ctx, AstNode *node)
     if (!evalVerifyIntegerOrFloatOperand(ctx, rhs, node->unaryExpr.op))
         return;
 
-    f64 value = +nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
+    if (nodeIs(rhs, FloatLit)) {
         node->tag = astFloatLit;
-        node->floatLiteral.value = value;
+        node->floatLiteral.value = +rhs->floatLiteral.value;
     }
     else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
+        AstNode zero = {.tag = astIntegerLit};
+        node->binaryExpr.op = opAdd;
+        nodeEvalIntegralExpr(node, &zero, rhs);
     }
 }
 
@@ -91,7 +84,7 @@ static void evalLogicNotOperation(EvalContext *ctx, AstNode *node)
 
 static void evalBitNotOperation(EvalContext *ctx, AstNode *node)
 {
-    AstNode *rhs = node->binaryExpr.lhs;
+    AstNode *rhs = node->unaryExpr.operand;
     if (!nodeIs(rhs, IntegerLit) && !nodeIs(rhs, CharLit)) {
         logError(ctx->L,
                  &node->loc,
@@ -102,8 +95,10 @@ static void evalBitNotOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
-    node->tag = astIntegerLit;
-    node->intLiteral.uValue = ~((u64)nodeGetNumericLiteral(rhs));
+    AstNode ones = {.tag = astIntegerLit,
+                    .intLiteral = {.value = -1, .isNegative = true}};
+    node->binaryExpr.op = opBXor;
+    nodeEvalIntegralExpr(node, &ones, rhs);
 }
 
 void evalUnaryExpr(AstVisitor *visitor, AstNode *node)
@@ -133,7 +128,7 @@ void evalUnaryExpr(AstVisitor *visitor, AstNode *node)
     case opNot:
         evalLogicNotOperation(ctx, node);
         break;
-    case opBAnd:
+    case opCompl:
         evalBitNotOperation(ctx, node);
         break;
     default:
diff --git a/src/cxy/lang/middle/preprocess/evaluate.c b/src/cxy/lang/middle/preprocess/evaluate.c
index 1506f60..eea33ec 100644
--- a/src/cxy/lang/middle/preprocess/evaluate.c
+++ b/src/cxy/lang/middle/preprocess/evaluate.c
@@ -22,6 +22,9 @@ static void evalAddOperation(PreprocessorContext *ctx, AstNode *node)
         return;
     }
 
+    if (nodeEvalIntegralExpr(node, lhs, rhs))
+        return;
+
     f64 value = nodeGetNumericLiteral(lhs) + nodeGetNumericLiteral(rhs);
     nodeSetNumericLiteral(node, lhs, rhs, value);
 }
@@ -38,6 +41,9 @@ static void evalSubOperation(PreprocessorContext *ctx, AstNode *node)
             NULL);
     }
 
+    if (nodeEvalIntegralExpr(node, lhs, rhs))
+        return;
+
     f64 value = nodeGetNumericLiteral(lhs) - nodeGetNumericLiteral(rhs);
     nodeSetNumericLiteral(node, lhs, rhs, value);
 }
@@ -60,6 +66,9 @@ static void evalMulOperation(PreprocessorContext *ctx, AstNode *node)
                    NULL);
     }
 
+    if (nodeEvalIntegralExpr(node, lhs, rhs))
+        return;
+
     f64 value = nodeGetNumericLiteral(lhs) * nodeGetNumericLiteral(rhs);
     nodeSetNumericLiteral(node, lhs, rhs, value);
 }
@@ -88,10 +97,9 @@ static void evalDivOperation(PreprocessorContext *ctx, AstNode *node)
         node->floatLiteral.value =
             nodeGetNumericLiteral(lhs) / nodeGetNumericLiteral(rhs);
     }
-    else {
-        i64 value =
-            (i64)nodeGetNumericLiteral(lhs) / (i64)nodeGetNumericLiteral(rhs);
-        nodeSetNumericLiteral(node, lhs, rhs, (f64)value);
+    else if (!nodeEvalIntegralExpr(node, lhs, rhs)) {
+        logError(ctx->L, &node->loc, "comp-time division by zero", NULL);
+        node->tag = astError;
     }
 }
 
@@ -108,11 +116,10 @@ static void evalModOperation(PreprocessorContext *ctx, AstNode *node)
         return;
     }
 
-    nodeSetNumericLiteral(node,
-                          lhs,
-                          rhs,
-                          (f64)((i64)nodeGetNumericLiteral(lhs) %
-                                (i64)nodeGetNumericLiteral(rhs)));
+    if (!nodeEvalIntegralExpr(node, lhs, rhs)) {
+        logError(ctx->L, &node->loc, "comp-time division by zero", NULL);
+        node->tag = astError;
+    }
 }
 
 static bool checkBinaryBitOperation(PreprocessorContext *ctx, AstNode *node)
@@ -157,11 +164,8 @@ static bool checkBinaryBitOperation(PreprocessorContext *ctx, AstNode *node)
         if (!checkBinaryBitOperation(ctx, node))                               \
             return;                                                            \
                                                                                \
-        nodeSetNumericLiteral(node,                                            \
-                              lhs,                                             \
-                              rhs,                                             \
-                              (f64)((i64)nodeGetNumericLiteral(lhs) OP(i64)    \
-                                        nodeGetNumericLiteral(rhs)));          \
+        if (!nodeEvalIntegralExpr(node, lhs, rhs))                             \
+            node->tag = astError;                                              \
     }
 
 CXY_DEFINE_BINARY_BIT_OPERATOR(Shl, <<)
@@ -205,6 +209,9 @@ static void evalIsOperation(PreprocessorContext *ctx, AstNode *node)
     {                                                                          \
         AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;      \
                                                                                \
+        if (nodeEvalIntegralExpr(node, lhs, rhs))                              \
+            return;                                                            \
+                                                                               \
         memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
         node->tag = astBoolLit;                                                \
         node->boolLiteral.value =                                              \
@@ -221,6 +228,9 @@ CXY_DEFINE_BINARY_EQ_COMP_OPERATOR(Ne, !=)
     static void eval##Name##Operation(PreprocessorContext *ctx, AstNode *node) \
     {                                                                          \
         AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;      \
+        if (nodeEvalIntegralExpr(node, lhs, rhs))                              \
+            return;                                                            \
+                                                                               \
         memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
         node->tag = astBoolLit;                                                \
         node->boolLiteral.value =                                              \
@@ -268,36 +278,29 @@ static void evalPrefixMinusOperation(PreprocessorContext *ctx, AstNode *node)
 {
     AstNode *rhs = node->unaryExpr.operand;
 
-    f64 value = -nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
+    if (nodeIs(rhs, FloatLit)) {
         node->tag = astFloatLit;
-        node->floatLiteral.value = value;
+        node->floatLiteral.value = -rhs->floatLiteral.value;
     }
     else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
+        AstNode zero = {.tag = astIntegerLit};
+        node->binaryExpr.op = opSub;
+        nodeEvalIntegralExpr(node, &zero, rhs);
+        node->intLiteral.isNegative = node->intLiteral.value < 0;
     }
 }
 
 static void evalPrefixPlusOperation(PreprocessorContext *ctx, AstNode *node)
 {
     AstNode *rhs = node->unaryExpr.operand;
-    f64 value = +nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
+    if (nodeIs(rhs, FloatLit)) {
         node->tag = astFloatLit;
-        node->floatLiteral.value = value;
+        node->floatLiteral.value = +rhs->floatLiteral.value;
     }
     else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
+        AstNode zero = {.tag = astIntegerLit};
+        node->binaryExpr.op = opAdd;
+        nodeEvalIntegralExpr(node, &zero, rhs);
     }
 }
 
@@ -310,12 +313,14 @@ static void evalLogicNotOperation(PreprocessorContext *ctx, AstNode *node)
 
 static void evalBitNotOperation(PreprocessorContext *ctx, AstNode *node)
 {
-    AstNode *rhs = node->binaryExpr.lhs;
+    AstNode *rhs = node->unaryExpr.operand;
     if (!nodeIs(rhs, IntegerLit) && !nodeIs(rhs, CharLit))
         return;
 
-    node->tag = astIntegerLit;
-    node->intLiteral.uValue = ~((u64)nodeGetNumericLiteral(rhs));
+    AstNode ones = {.tag = astIntegerLit,
+                    .intLiteral = {.value = -1, .isNegative = true}};
+    node->binaryExpr.op = opBXor;
+    nodeEvalIntegralExpr(node, &ones, rhs);
 }
 
 void preprocessorEvalUnaryExpr(PreprocessorContext *ctx, AstNode *node)
-- 
2.43.0


From 1b1b42efec04ed3927e2bf6345cb90fc49909153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:33 +0000
Subject: [PATCH 25/96] fix: compile-time string concatenation uses an
 uninitialised buffer and misprints negative integers

---
 src/cxy/lang/middle/eval/binary.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/middle/eval/binary.c b/src/cxy/lang/middle/eval/binary.c
index ccf2c3b..2956a42 100644
--- a/src/cxy/lang/middle/eval/binary.c
+++ b/src/cxy/lang/middle/eval/binary.c
@@ -29,8 +29,9 @@ bool evalStringBuilderAppend(EvalContext *ctx, StringBuilder *sb, AstNode *node)
         break;
     case astIntegerLit:
         if (node->intLiteral.isNegative)
-            stringBuilderAppendChar(sb, '-');
-        stringBuilderAppendUInt(sb, node->intLiteral.uValue);
+            stringBuilderAppendInt(sb, node->intLiteral.value);
+        else
+            stringBuilderAppendUInt(sb, node->intLiteral.uValue);
         break;
     case astFloatLit:
         stringBuilderAppendFloat(sb, node->floatLiteral.value);
@@ -57,7 +58,7 @@ void evalStringConcatenation(EvalContext *ctx,
                              AstNode *lhs,
                              AstNode *rhs)
 {
-    StringBuilder sb;
+    StringBuilder sb = {};
     stringBuilderInit(&sb);
     evalStringBuilderAppend(ctx, &sb, lhs);
     csAssert0(evalStringBuilderAppend(ctx, &sb, rhs));
-- 
2.43.0


From 8719dc361506e9356983e43d0248d0c9741b9041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:33 +0000
Subject: [PATCH 26/96] fix: parenthesised operands are not evaluated at
 compile time

---
 src/cxy/lang/middle/eval/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/eval/eval.c b/src/cxy/lang/middle/eval/eval.c
index 46a75c2..63d5f2d 100644
--- a/src/cxy/lang/middle/eval/eval.c
+++ b/src/cxy/lang/middle/eval/eval.c
@@ -102,7 +102,7 @@ bool comptimeCompareTypes(const AstNode *lhs, const AstNode *rhs)
 
 bool evaluate(AstVisitor *visitor, AstNode *node)
 {
-    if (node->tag != astUnaryExpr &&
+    if (node->tag != astUnaryExpr && node->tag != astGroupExpr &&
         (isLiteralExpr(node) || isBuiltinTypeExpr(node)))
         return true;
 
-- 
2.43.0


From 6751e1708d4926fad08df2eb5da148430d327323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:33 +0000
Subject: [PATCH 27/96] fix: #for over a range with a step or negative values

---
 src/cxy/lang/middle/eval/eval.c | 2 +-
 src/cxy/lang/middle/eval/for.c  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/middle/eval/eval.c b/src/cxy/lang/middle/eval/eval.c
index 63d5f2d..43494d0 100644
--- a/src/cxy/lang/middle/eval/eval.c
+++ b/src/cxy/lang/middle/eval/eval.c
@@ -276,7 +276,7 @@ void evalRangeExpr(AstVisitor *visitor, AstNode *node)
     }
 
     if (!nodeIs(start, IntegerLit) || !nodeIs(end, IntegerLit) ||
-        (step && nodeIs(step, IntegerLit))) {
+        (step && !nodeIs(step, IntegerLit))) {
         logError(
             ctx->L,
             &node->loc,
diff --git a/src/cxy/lang/middle/eval/for.c b/src/cxy/lang/middle/eval/for.c
index ba9cd03..d50b8f7 100644
--- a/src/cxy/lang/middle/eval/for.c
+++ b/src/cxy/lang/middle/eval/for.c
@@ -178,12 +178,13 @@ static bool evalForStmtWithRange(AstVisitor *visitor,
                    ? integerLiteralValue(range->rangeExpr.step)
                    : 1;
 
-    for (; i < count; i += step) {
+    for (; step < 0 ? i > count : i < count; i += step) {
         AstNode *body = deepCloneAstNode(ctx->pool, node->forStmt.body);
         variable->varDecl.init = makeAstNode(
             ctx->pool,
             &range->loc,
-            &(AstNode){.tag = astIntegerLit, .intLiteral.value = i});
+            &(AstNode){.tag = astIntegerLit,
+                       .intLiteral = {.value = i, .isNegative = i < 0}});
 
         if (body) {
             body->parentScope = node->parentScope;
-- 
2.43.0


From f2c9a9a9269353256e20353e8831c55a2443f0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 28/96] fix: #for over an array bound the loop variable to the
 rest of the array

---
 src/cxy/lang/middle/eval/for.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/eval/for.c b/src/cxy/lang/middle/eval/for.c
index d50b8f7..d3ebf7c 100644
--- a/src/cxy/lang/middle/eval/for.c
+++ b/src/cxy/lang/middle/eval/for.c
@@ -61,7 +61,9 @@ static bool evalExprForStmtArray(AstVisitor *visitor,
     for (; elem; elem = elem->next) {
         AstNode *body = deepCloneAstNode(ctx->pool, node->forStmt.body);
         body->parentScope = node->parentScope;
-        variable->varDecl.init = elem;
+        // only this element, not the ones that follow it in the array
+        variable->varDecl.init = deepCloneAstNode(ctx->pool, elem);
+        variable->varDecl.init->next = NULL;
 
         const Type *type = evalType(ctx, body);
 
-- 
2.43.0


From afdac5683373c18eb72575d6eba85be7023821f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 29/96] fix: compile-time ternary left the selected branch
 unevaluated

---
 src/cxy/lang/middle/eval/eval.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/middle/eval/eval.c b/src/cxy/lang/middle/eval/eval.c
index 43494d0..637ba82 100644
--- a/src/cxy/lang/middle/eval/eval.c
+++ b/src/cxy/lang/middle/eval/eval.c
@@ -198,12 +198,10 @@ void evalTernaryExpr(AstVisitor *visitor, AstNode *node)
         node->next = next;
     }
 
-    while (nodeIs(node, TernaryExpr) || hasFlag(node, Comptime)) {
-        node->flags &= ~flgComptime;
-        if (!evaluate(visitor, node)) {
-            node->tag = astError;
-            return;
-        }
+    node->flags &= ~flgComptime;
+    if (!evaluate(visitor, node)) {
+        node->tag = astError;
+        return;
     }
 
     node->flags |= visited;
-- 
2.43.0


From c57100fa6666380ecee775cbce6388da6670083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 30/96] fix: array literals inside struct, tuple, union and
 array literals generated invalid C

---
 src/cxy/lang/backend/c/generate.c | 33 +++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index db4c7a7..4c0624d 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -874,6 +874,31 @@ static void visitIdentifier(ConstAstVisitor *visitor, const AstNode *node)
     }
 }
 
+static void visitInitializer(ConstAstVisitor *visitor, const AstNode *node);
+
+static void visitArrayElements(ConstAstVisitor *visitor, const AstNode *node)
+{
+    CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    const AstNode *element = node->arrayExpr.elements;
+    format(getState(ctx), "{{", NULL);
+    for (; element; element = element->next) {
+        visitInitializer(visitor, element);
+        if (element->next)
+            format(getState(ctx), ", ", NULL);
+    }
+    format(getState(ctx), "}", NULL);
+}
+
+// Initializer of a member of an aggregate. C doesn't allow an array to be
+// initialized with a compound literal there
+static void visitInitializer(ConstAstVisitor *visitor, const AstNode *node)
+{
+    if (nodeIs(node, ArrayExpr))
+        visitArrayElements(visitor, node);
+    else
+        astConstVisit(visitor, node);
+}
+
 static void visitArrayExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
@@ -883,7 +908,7 @@ static void visitArrayExpr(ConstAstVisitor *visitor, const AstNode *node)
         generateTypeName(ctx, getState(ctx), node->type);
         format(getState(ctx), ")", NULL);
     }
-    generateMany(visitor, node->arrayExpr.elements, "{{", ", ", "}");
+    visitArrayElements(visitor, node);
 }
 
 // Generate an operand of an operator that binds tighter than (or as tight as)
@@ -1121,7 +1146,7 @@ static void visitFieldExpr(ConstAstVisitor *visitor, const AstNode *node)
     if (nullInit)
         format(getState(ctx), " {{}", NULL);
     else
-        astConstVisit(visitor, node->fieldExpr.value);
+        visitInitializer(visitor, node->fieldExpr.value);
 }
 
 static void visitStructExpr(ConstAstVisitor *visitor, const AstNode *node)
@@ -1148,7 +1173,7 @@ static void visitTupleExpr(ConstAstVisitor *visitor, const AstNode *node)
         if (i)
             format(getState(ctx), ",\n", NULL);
         format(getState(ctx), "._{u64} = ", (FormatArg[]){{.u64 = i}});
-        astConstVisit(visitor, member);
+        visitInitializer(visitor, member);
     }
     format(getState(ctx), "{<}\n}", NULL);
 }
@@ -1162,7 +1187,7 @@ static void visitUnionValue(ConstAstVisitor *visitor, const AstNode *node)
            "){{.tag = {u32}, ._{u32} = ",
            (FormatArg[]){{.u32 = node->unionValue.idx},
                          {.u32 = node->unionValue.idx}});
-    astConstVisit(visitor, node->unionValue.value);
+    visitInitializer(visitor, node->unionValue.value);
     format(getState(ctx), "}", NULL);
 }
 
-- 
2.43.0


From a4ae5ca412ce1435e6548121692874879e3c44f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 31/96] fix: classes more than two levels below a virtual base
 A class inherited the fields of its base twice when the base itself had a
 base class, and had no vtable when the base did not declare virtual functions
 of its own.

---
 src/cxy/lang/middle/sema/check.h       |  1 +
 src/cxy/lang/middle/sema/class.c       |  7 ++++---
 src/cxy/lang/middle/sema/inheritance.c | 25 ++++++++++++++++++++-----
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/cxy/lang/middle/sema/check.h b/src/cxy/lang/middle/sema/check.h
index f81a935..eadff23 100644
--- a/src/cxy/lang/middle/sema/check.h
+++ b/src/cxy/lang/middle/sema/check.h
@@ -160,6 +160,7 @@ const Type *resolveGenericDecl(AstVisitor *visitor,
                                const AstNode *generic,
                                AstNode *node);
 
+AstNode *inheritanceFindVirtualBase(AstNode *node);
 AstNode *inheritanceMakeVTableMember(TypingContext *ctx,
                                      AstNode *node,
                                      AstNode *init);
diff --git a/src/cxy/lang/middle/sema/class.c b/src/cxy/lang/middle/sema/class.c
index 7497462..314fee2 100644
--- a/src/cxy/lang/middle/sema/class.c
+++ b/src/cxy/lang/middle/sema/class.c
@@ -15,7 +15,8 @@
 static inline bool isInheritable(AstNode *member)
 {
     return nodeIs(member, FieldDecl) &&
-           !(hasFlag(member, Static) || hasFlag(member, VTable));
+           !(hasFlag(member, Static) || hasFlag(member, VTable) ||
+             hasFlag(member, Inherited));
 }
 
 static void inheritClassMembers(TypingContext *ctx,
@@ -276,7 +277,7 @@ void checkClassDecl(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
     const Type **implements = NULL, *baseType = NULL;
-    AstNode *base = node->classDecl.base, *vTableMember = NULL;
+    AstNode *vTableMember = NULL;
     ctx->cls = getDeclarationName(node);
     if (node->type)
         return;
@@ -311,7 +312,7 @@ void checkClassDecl(AstVisitor *visitor, AstNode *node)
         goto checkClassInterfacesError;
 
     u8 isVirtual = hasFlag(node, Virtual);
-    if (hasFlag(base, Virtual) && !isVirtual) {
+    if (!isVirtual && inheritanceFindVirtualBase(node)) {
         // Add - vtable: &Base_VTable member
         vTableMember = inheritanceMakeVTableMember(ctx, node, NULL);
     }
diff --git a/src/cxy/lang/middle/sema/inheritance.c b/src/cxy/lang/middle/sema/inheritance.c
index 5443590..df12aaa 100644
--- a/src/cxy/lang/middle/sema/inheritance.c
+++ b/src/cxy/lang/middle/sema/inheritance.c
@@ -222,11 +222,22 @@ AstNode *inheritanceBuildVTableType(AstVisitor *visitor, AstNode *node)
     return member;
 }
 
+// The closest class up the inheritance chain that declares virtual functions
+AstNode *inheritanceFindVirtualBase(AstNode *node)
+{
+    while (node->classDecl.base) {
+        node = resolvePath(node->classDecl.base);
+        if (hasFlag(node, Virtual))
+            return node;
+    }
+    return NULL;
+}
+
 AstNode *inheritanceMakeVTableMember(TypingContext *ctx,
                                      AstNode *node,
                                      AstNode *init)
 {
-    AstNode *type = getVTableType(resolvePath(node->classDecl.base));
+    AstNode *type = getVTableType(inheritanceFindVirtualBase(node));
     const Type *type_ = makePointerType(ctx->types, type->type, flgNone);
     AstNode *member =
         makeStructField(ctx->pool,
@@ -243,14 +254,18 @@ AstNode *inheritanceMakeVTableMember(TypingContext *ctx,
 
 AstNode *inheritanceBuildVTable(TypingContext *ctx, AstNode *node)
 {
-    AstNode *base = resolvePath(node->classDecl.base);
+    AstNode *base = inheritanceFindVirtualBase(node);
     AstNode *def = getVTableDefault(base), *type = getVTableType(base);
 
     AstNodeList value = {NULL};
     AstNode *member = def->structExpr.fields;
     for (; member; member = member->next) {
-        AstNode *func =
-            findMemberDeclInType(node->type, member->_namedNode.name);
+        AstNode *owner = node, *func = NULL;
+        for (; owner != base; owner = resolvePath(owner->classDecl.base)) {
+            func = findMemberDeclInType(owner->type, member->_namedNode.name);
+            if (func != NULL)
+                break;
+        }
         if (func != NULL) {
             // Change the function we resolve to
             insertAstNode(
@@ -261,7 +276,7 @@ AstNode *inheritanceBuildVTable(TypingContext *ctx, AstNode *node)
                     member->_namedNode.name,
                     member->flags,
                     func->funcDecl.body
-                        ? makeMemberFunctionRef(ctx, node, func)
+                        ? makeMemberFunctionRef(ctx, owner, func)
                         : makeNullLiteral(
                               ctx->pool, &func->loc, NULL, func->type),
                     member,
-- 
2.43.0


From 146b854beba0b6504a4df58fcd2724fea6c4ce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:09 +0000
Subject: [PATCH 32/96] fix: members following a member of an expression were
 ignored

---
 src/cxy/lang/frontend/parser.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index 4ff1523..ed5a2a0 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -57,6 +57,8 @@ static AstNode *callExpression(Parser *P, AstNode *callee);
 
 static AstNode *parsePath(Parser *P);
 
+static AstNode *pathElement(Parser *P);
+
 static AstNode *variable(
     Parser *P, bool isPublic, bool isExport, bool isExpression, bool woInit);
 
@@ -655,8 +657,16 @@ static AstNode *member(Parser *P, const Token *begin, AstNode *operand)
     else if (flags & flgAnnotation) {
         member = parseIdentifier(P);
     }
-    else
-        member = parsePath(P);
+    else if (check(P, tokIdent) && checkPeek(P, 1, tokLNot))
+        member = parseIdentifier(P);
+    else {
+        // only this member, any that follow are members of the result
+        Token tok = *current(P);
+        member = newAstNode(
+            P,
+            &tok,
+            &(AstNode){.tag = astPath, .path = {.elements = pathElement(P)}});
+    }
 
     return newAstNode(
         P,
-- 
2.43.0


From 7806324cf4666ef2ecf3a5798547acd7d392c358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:09 +0000
Subject: [PATCH 33/96] fix: switch with more locals than the variable table
 holds aborted the compiler

---
 src/cxy/lang/middle/mem/manage.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index a8913fd..8d6241d 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -131,13 +131,26 @@ static void restoreVariableState(MemContext *ctx, DynArray *vars)
     }
 }
 
+// The order in which variables are captured changes when the table grows
+static const VariableTrace *findCapturedVariable(const DynArray *vars,
+                                                 const AstNode *variable)
+{
+    dynArrayFor(var, VariableTrace, vars)
+    {
+        if (var->variable == variable)
+            return var;
+    }
+    return NULL;
+}
+
 static bool mergeVariableStates(DynArray *lhs, const DynArray *rhs)
 {
     bool allMaybeAssigned = true;
     for (u32 i = 0; i < lhs->size; i++) {
         VariableTrace *varLhs = &dynArrayAt(VariableTrace *, lhs, i);
-        const VariableTrace *varRhs = &dynArrayAt(VariableTrace *, rhs, i);
-        csAssert0(varLhs->variable == varRhs->variable);
+        const VariableTrace *varRhs =
+            findCapturedVariable(rhs, varLhs->variable);
+        csAssert0(varRhs);
         VariableState state;
         if (varLhs->state == varRhs->state)
             state = varLhs->state;
-- 
2.43.0


From aa2c0c468477bbafdbb9f70a8fe17f13fdb2aff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:09 +0000
Subject: [PATCH 34/96] fix: closure destroyed the structures and tuples it
 captured by reference

---
 src/cxy/lang/middle/sema/closure.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/middle/sema/closure.c b/src/cxy/lang/middle/sema/closure.c
index 62ee0a0..0a62ca0 100644
--- a/src/cxy/lang/middle/sema/closure.c
+++ b/src/cxy/lang/middle/sema/closure.c
@@ -118,7 +118,8 @@ static void transformClosureToStructExpr(AstVisitor *visitor,
                 value->flags,
                 value,
                 NULL,
-                makeReferenceType(ctx->types, fieldType, fieldType->flags));
+                makeReferenceType(
+                    ctx->types, fieldType, fieldType->flags & flgConst));
 
         insertAstNode(
             &stmts,
@@ -391,8 +392,9 @@ void checkClosureExpr(AstVisitor *visitor, AstNode *node)
         const Type *fieldType = capture->node->type;
         if (isClassOrStructType(fieldType) || isUnionType(fieldType) ||
             isTupleType(fieldType))
-            fieldType = makeReferenceType(
-                ctx->types, capture->node->type, capture->node->type->flags);
+            fieldType = makeReferenceType(ctx->types,
+                                          capture->node->type,
+                                          capture->node->type->flags & flgConst);
 
         field->structField.type =
             makeTypeReferenceNode(ctx->pool, fieldType, &capture->node->loc);
-- 
2.43.0


From 2f159bbf895ee3787b47c656badc072a533c50f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:09 +0000
Subject: [PATCH 35/96] fix: array initialized with calls or with another array
 generated invalid C

---
 src/cxy/lang/backend/c/generate.c | 47 +++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 4c0624d..0ba15b8 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -889,12 +889,53 @@ static void visitArrayElements(ConstAstVisitor *visitor, const AstNode *node)
     format(getState(ctx), "}", NULL);
 }
 
-// Initializer of a member of an aggregate. C doesn't allow an array to be
-// initialized with a compound literal there
+typedef struct ArrayIndex {
+    const struct ArrayIndex *outer;
+    u64 index;
+} ArrayIndex;
+
+static void generateArrayIndices(CodegenContext *ctx, const ArrayIndex *at)
+{
+    if (at == NULL)
+        return;
+    generateArrayIndices(ctx, at->outer);
+    format(getState(ctx), "[{u64}]", (FormatArg[]){{.u64 = at->index}});
+}
+
+static void visitArrayValue(ConstAstVisitor *visitor,
+                            const AstNode *node,
+                            const Type *type,
+                            const ArrayIndex *at)
+{
+    CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    type = unwrapType(type, NULL);
+    if (!isArrayType(type)) {
+        astConstVisit(visitor, node);
+        generateArrayIndices(ctx, at);
+        return;
+    }
+
+    format(getState(ctx), "{{", NULL);
+    for (u64 i = 0; i < type->array.len; i++) {
+        if (i)
+            format(getState(ctx), ", ", NULL);
+        visitArrayValue(visitor,
+                        node,
+                        type->array.elementType,
+                        &(ArrayIndex){.outer = at, .index = i});
+    }
+    format(getState(ctx), "}", NULL);
+}
+
+// Initializer of a variable or a member of an aggregate. C doesn't allow an
+// array to be initialized with another array (or a compound literal) there
 static void visitInitializer(ConstAstVisitor *visitor, const AstNode *node)
 {
+    const Type *type = node->type ? unwrapType(node->type, NULL) : NULL;
     if (nodeIs(node, ArrayExpr))
         visitArrayElements(visitor, node);
+    else if (isArrayType(type) && type->array.len && nodeIsLeftValue(node))
+        visitArrayValue(visitor, node, type, NULL);
     else
         astConstVisit(visitor, node);
 }
@@ -1726,6 +1767,8 @@ static void visitVariableDecl(ConstAstVisitor *visitor, const AstNode *node)
         format(getState(ctx), " = ", NULL);
         if (nullInit)
             format(getState(ctx), " {{}", NULL);
+        else if (isArrayType(type))
+            visitInitializer(visitor, node->varDecl.init);
         else
             astConstVisit(visitor, node->varDecl.init);
     }
-- 
2.43.0


From 42dbe80e2e6f9716446793f622fe4e20c4a72767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:00 +0000
Subject: [PATCH 36/96] fix: a class used by value in the type of its own field
 or of a later type is emitted before it is complete

---
 src/cxy/lang/backend/c/generate.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 0ba15b8..6505f3f 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -28,6 +28,8 @@ typedef struct CodegenContext {
     StrPool *strings;
     FormatState types;
     FormatState state;
+    DynArray classes;
+    u32 typeDepth;
     cstring loopUpdate;
     bool loopUpdateUsed;
     bool hasTestCases;
@@ -187,7 +189,13 @@ static void generateClassType(CodegenContext *ctx, const Type *type)
     format(typeState(ctx), " ", NULL);
     generateCustomTypeName(ctx, typeState(ctx), type, "Class");
     format(typeState(ctx), ";\n", NULL);
+    // Objects are only referred to through pointers, their types can be defined
+    // when the types that refer to them (possibly their own fields) are
+    pushOnDynArray(&ctx->classes, &type);
+}
 
+static void generateClassDefinition(CodegenContext *ctx, const Type *type)
+{
     for (u64 i = 0; i < type->tClass.members->count; i++) {
         const NamedTypeMember *member = &type->tClass.members->members[i];
         if (nodeIs(member->decl, FieldDecl)) {
@@ -429,6 +437,7 @@ static void generateType(CodegenContext *ctx, const Type *type)
         return;
 
     ((Type *)type)->generated = true;
+    ctx->typeDepth++;
     switch (type->tag) {
     case typClass:
         generateClassType(ctx, type);
@@ -478,6 +487,16 @@ static void generateType(CodegenContext *ctx, const Type *type)
     default:
         break;
     }
+    ctx->typeDepth--;
+
+    while (ctx->typeDepth == 0 && ctx->classes.size != 0) {
+        const Type *class =
+            dynArrayAt(const Type **, &ctx->classes, ctx->classes.size - 1);
+        popDynArray(&ctx->classes);
+        ctx->typeDepth++;
+        generateClassDefinition(ctx, class);
+        ctx->typeDepth--;
+    }
 }
 
 static void generateTypeName(CodegenContext *ctx,
@@ -1928,6 +1947,7 @@ AstNode *generateCode(CompilerDriver *driver, AstNode *node)
         .strings = driver->strings,
         .state = newFormatState("  ", true),
         .types = newFormatState("  ", true),
+        .classes = newDynArray(sizeof(const Type *)),
         .hasTestCases = driver->hasTestCases,
         .memTraceEnabled = driver->options.withMemoryTrace,
         .debug = {.enabled = driver->options.debug, .pos = {}}};
@@ -1996,6 +2016,7 @@ AstNode *generateCode(CompilerDriver *driver, AstNode *node)
     writeFormatState(&context.state, backend->output);
     freeFormatState(&context.state);
     freeFormatState(&context.types);
+    freeDynArray(&context.classes);
     return node;
 }
 
-- 
2.43.0


From 365019859fc4e44ed4e5011df2bab9c074b2a459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:00 +0000
Subject: [PATCH 37/96] fix: a class with virtual functions whose base has none
 does not start with the fields of its base

---
 src/cxy/lang/backend/c/generate.c | 48 ++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 6505f3f..a9b31bf 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -194,6 +194,39 @@ static void generateClassType(CodegenContext *ctx, const Type *type)
     pushOnDynArray(&ctx->classes, &type);
 }
 
+static bool hasVTableMember(const Type *type)
+{
+    const TypeMembersContainer *members = type->tClass.members;
+    return members->count != 0 && members->members[0].decl != NULL &&
+           hasFlag(members->members[0].decl, VTable);
+}
+
+// An object must start with the fields of its base class. When that class does
+// not have a vtable, the fields come before the vtable
+static u64 getFieldsBeforeVTable(const Type *type)
+{
+    do {
+        type = getTypeBase(type);
+        if (type != NULL)
+            type = getTypeDecl(type)->type;
+    } while (type != NULL && hasVTableMember(type));
+
+    u64 count = 0;
+    for (u64 i = 0; type && i < type->tClass.members->count; i++) {
+        if (nodeIs(type->tClass.members->members[i].decl, FieldDecl))
+            count++;
+    }
+    return count;
+}
+
+static void generateClassMember(CodegenContext *ctx,
+                                const NamedTypeMember *member)
+{
+    format(typeState(ctx), "\n", NULL);
+    generateTypeName(ctx, typeState(ctx), member->type);
+    format(typeState(ctx), " {s};", (FormatArg[]){{.s = member->name}});
+}
+
 static void generateClassDefinition(CodegenContext *ctx, const Type *type)
 {
     for (u64 i = 0; i < type->tClass.members->count; i++) {
@@ -208,14 +241,21 @@ static void generateClassDefinition(CodegenContext *ctx, const Type *type)
     generateStructAttributes(ctx, type);
     generateCustomTypeName(ctx, typeState(ctx), type, "Class");
     format(typeState(ctx), " {{{>}", NULL);
-    for (u64 i = 0; i < type->tClass.members->count; i++) {
+    const NamedTypeMember *vTable =
+        hasVTableMember(type) ? &type->tClass.members->members[0] : NULL;
+    u64 fields = vTable ? getFieldsBeforeVTable(type) : 0;
+    for (u64 i = vTable ? 1 : 0; i < type->tClass.members->count; i++) {
         const NamedTypeMember *member = &type->tClass.members->members[i];
         if (!nodeIs(member->decl, FieldDecl))
             continue;
-        format(typeState(ctx), "\n", NULL);
-        generateTypeName(ctx, typeState(ctx), member->type);
-        format(typeState(ctx), " {s};", (FormatArg[]){{.s = member->name}});
+        if (vTable && fields-- == 0) {
+            generateClassMember(ctx, vTable);
+            vTable = NULL;
+        }
+        generateClassMember(ctx, member);
     }
+    if (vTable)
+        generateClassMember(ctx, vTable);
 
     format(typeState(ctx), "{<}\n};\n\n", NULL);
 }
-- 
2.43.0


From f949b468c8d9722b2f64649d3f5662e08583635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:00 +0000
Subject: [PATCH 38/96] fix: an owner given the value of a ternary expression
 takes no reference to it

---
 src/cxy/lang/middle/mem/manage.c | 65 ++++++++++++++++++++++++++------
 1 file changed, 54 insertions(+), 11 deletions(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index 8d6241d..a88225b 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -331,6 +331,44 @@ static void transformToCopyExpr(MemContext *ctx, AstNode *node, AstNode *expr)
     node->backendCallExpr.args = expr;
 }
 
+// Either branch of a ternary expression can be the value that gets a new owner
+static void copyTernaryBranches(MemContext *ctx, AstNode *expr)
+{
+    if (expr == NULL)
+        return;
+
+    if (nodeIs(expr, GroupExpr)) {
+        copyTernaryBranches(ctx, expr->groupExpr.expr);
+    }
+    else if (nodeIs(expr, TernaryExpr)) {
+        AstNode *branches[] = {expr->ternaryExpr.body,
+                               expr->ternaryExpr.otherwise};
+        for (u64 i = 0; i < sizeof__(branches); i++) {
+            AstNode *branch = branches[i];
+            copyTernaryBranches(ctx, branch);
+            if (isLeftValueExpr(branch) && nodeNeedsMemMgmt(branch))
+                transformToCopyExpr(
+                    ctx, branch, deepCloneAstNode(ctx->pool, branch));
+        }
+    }
+}
+
+// A parameter takes over the value of a temporary variable passed to it
+static void copyMovedTemporary(MemContext *ctx, AstNode *arg)
+{
+    while (nodeIs(arg, CastExpr) || nodeIs(arg, TypedExpr))
+        arg = nodeIs(arg, CastExpr) ? arg->castExpr.expr : arg->typedExpr.expr;
+    AstNode *var = nodeIs(arg, Identifier) ? arg->ident.resolvesTo : NULL;
+    if (nodeIs(var, VarDecl) && hasFlag(var, Temporary))
+        copyTernaryBranches(ctx, var->varDecl.init);
+}
+
+static bool needsCopyForNewOwner(MemContext *ctx, AstNode *expr)
+{
+    copyTernaryBranches(ctx, expr);
+    return isLeftValueExpr(expr) && nodeNeedsMemMgmt(expr);
+}
+
 static void sealCurrentJumpPoint(MemContext *ctx, bool isReturn)
 {
     if (dynArrayEmpty(&ctx->scopes))
@@ -428,7 +466,7 @@ static void visitVariableDecl(AstVisitor *visitor, AstNode *node)
     insertVariableTrace(ctx, node, init ? vtsAssigned : vtsUninitialized);
     pushOnDynArray(ctx->locals, &node);
     astVisit(visitor, init);
-    if (isLeftValueExpr(init) && nodeNeedsMemMgmt(init))
+    if (init && needsCopyForNewOwner(ctx, init))
         node->varDecl.init = makeCopyExpr(ctx, init);
 }
 
@@ -517,8 +555,7 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
         VariableTrace *vt = findVariableTrace(ctx, lhs);
         astVisit(visitor, rhs);
         csAssert0(vt);
-        if (isLeftValueExpr(rhs) && nodeNeedsMemMgmt(rhs) &&
-            nodeNeedsMemMgmt(vt->variable)) {
+        if (nodeNeedsMemMgmt(vt->variable) && needsCopyForNewOwner(ctx, rhs)) {
             rhs = node->assignExpr.rhs = makeCopyExpr(ctx, rhs);
         }
         if (vtNeedsMemMgmt(ctx, vt)) {
@@ -544,7 +581,7 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
         astVisitFallbackVisitAll(visitor, node);
 
     AstNode *rhs = node->assignExpr.rhs;
-    if (isLeftValueExpr(rhs) && nodeNeedsMemMgmt(rhs)) {
+    if (needsCopyForNewOwner(ctx, rhs)) {
         node->assignExpr.rhs = makeCopyExpr(ctx, rhs);
     }
 
@@ -578,8 +615,14 @@ static void visitCallExpr(AstVisitor *visitor, AstNode *node)
 
     for (; arg && param; arg = arg->next, param = param->next) {
         astVisit(visitor, arg);
-        if (isLeftValueExpr(arg) && nodeNeedsMemMgmt(param) &&
-            !hasFlag(arg, Move))
+        if (!nodeNeedsMemMgmt(param))
+            continue;
+        if (hasFlag(arg, Move)) {
+            copyMovedTemporary(ctx, arg);
+            continue;
+        }
+        copyTernaryBranches(ctx, arg);
+        if (isLeftValueExpr(arg))
             transformToCopyExpr(ctx, arg, deepCloneAstNode(ctx->pool, arg));
     }
 }
@@ -596,7 +639,7 @@ static void visitTupleExpr(AstVisitor *visitor, AstNode *node)
                 expr = from;
         }
 
-        if (isLeftValueExpr(expr) && nodeNeedsMemMgmt(expr))
+        if (needsCopyForNewOwner(ctx, expr))
             transformToCopyExpr(ctx, expr, deepCloneAstNode(ctx->pool, expr));
     }
 }
@@ -608,7 +651,7 @@ static void visitStructExpr(AstVisitor *visitor, AstNode *node)
     for (; field; field = field->next) {
         AstNode *value = field->fieldExpr.value;
         astVisit(visitor, value);
-        if (isLeftValueExpr(value) && nodeNeedsMemMgmt(value))
+        if (needsCopyForNewOwner(ctx, value))
             field->fieldExpr.value = makeCopyExpr(ctx, value);
     }
 }
@@ -619,7 +662,7 @@ static void visitArrayExpr(AstVisitor *visitor, AstNode *node)
     AstNode *elem = node->arrayExpr.elements;
     for (; elem; elem = elem->next) {
         astVisit(visitor, elem);
-        if (isLeftValueExpr(elem) && nodeNeedsMemMgmt(elem))
+        if (needsCopyForNewOwner(ctx, elem))
             transformToCopyExpr(ctx, elem, deepCloneAstNode(ctx->pool, elem));
     }
 }
@@ -629,7 +672,7 @@ static void visitUnionValueExpr(AstVisitor *visitor, AstNode *node)
     MemContext *ctx = getAstVisitorContext(visitor);
     AstNode *value = node->unionValue.value;
     astVisit(visitor, value);
-    if (isLeftValueExpr(value) && nodeNeedsMemMgmt(value))
+    if (needsCopyForNewOwner(ctx, value))
         node->unionValue.value = makeCopyExpr(ctx, value);
 }
 
@@ -648,7 +691,7 @@ static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
             csAssert0(vt);
             vt->state = vtsMoved;
         }
-        else if (isLeftValueExpr(expr) && nodeNeedsMemMgmt(expr)) {
+        else if (needsCopyForNewOwner(ctx, expr)) {
             expr = makeCopyExpr(ctx, expr);
         }
 
-- 
2.43.0


From bb7e68cb84412ffe7cbee870d25c718814493665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:00 +0000
Subject: [PATCH 39/96] fix: assigning null to a local variable under memory
 management does nothing

---
 src/cxy/lang/middle/mem/manage.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index a88225b..804a066 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -565,7 +565,6 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
                                ctx, vt, vtIsUpdatedInChildScopeLoop(ctx, vt)));
         }
         if (nodeIs(rhs, NullLit)) {
-            node->tag = astNoop;
             vt->state = isClassType(lhs->type) ? vtsDropped : vtsAssigned;
             return;
         }
-- 
2.43.0


From 5bf9d72386e2a41b599d2b81b641f32dcb3e9e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:00 +0000
Subject: [PATCH 40/96] fix: leaving a loop destroys variables that have been
 moved before it

---
 src/cxy/lang/middle/mem/manage.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index 804a066..54ca669 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -263,6 +263,9 @@ static AstNode *makeDropVariable(MemContext *ctx,
                                  bool updateInChildLoop)
 {
     AstNode *var = vt->variable;
+    // Within a loop the variable might have been moved on the way here
+    if (vt->state != vtsAssigned && vt->dropFlags == NULL)
+        insertedDropFlags(ctx, vt);
     AstNode *drop = makeBackendCallExpr(
         ctx->pool,
         &var->loc,
-- 
2.43.0


From cea193728ec6d6fb23a322cf1b362abdcaae2840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:00 +0000
Subject: [PATCH 41/96] fix: a virtual function overridden without the virtual
 keyword is called statically through the overriding class

---
 src/cxy/lang/middle/sema/class.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/cxy/lang/middle/sema/class.c b/src/cxy/lang/middle/sema/class.c
index 314fee2..a1f2cec 100644
--- a/src/cxy/lang/middle/sema/class.c
+++ b/src/cxy/lang/middle/sema/class.c
@@ -119,6 +119,26 @@ static void evalClassMembers(AstVisitor *visitor, AstNode *node)
     }
 }
 
+// A function that overrides a virtual function is virtual too
+static void inheritVirtualFunctions(AstNode *node)
+{
+    AstNode *member = node->classDecl.members;
+    for (; member; member = member->next) {
+        if (!nodeIs(member, FuncDecl) || hasFlag(member, Virtual))
+            continue;
+        AstNode *base = inheritanceFindVirtualBase(node);
+        for (; base; base = inheritanceFindVirtualBase(base)) {
+            AstNode *overridden = findMemberDeclInType(
+                base->type, getDeclarationName(member));
+            if (nodeIs(overridden, FuncDecl) && hasFlag(overridden, Virtual)) {
+                member->flags |= flgVirtual;
+                node->flags |= flgVirtual;
+                break;
+            }
+        }
+    }
+}
+
 static bool preCheckClassMembers(AstNode *node, NamedTypeMember *members)
 {
     AstNode *member = node->classDecl.members;
@@ -311,6 +331,8 @@ void checkClassDecl(AstVisitor *visitor, AstNode *node)
     if (typeIs(node->type, Error))
         goto checkClassInterfacesError;
 
+    inheritVirtualFunctions(node);
+
     u8 isVirtual = hasFlag(node, Virtual);
     if (!isVirtual && inheritanceFindVirtualBase(node)) {
         // Add - vtable: &Base_VTable member
-- 
2.43.0


From 670df69fcb379e9009f49bae4b11fd75caeae49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:00 +0000
Subject: [PATCH 42/96] fix: super.func() calls the function of the object, not
 of the base class, when the class has virtual functions

---
 src/cxy/lang/middle/simplify/simplify.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index d33e087..215450a 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -790,6 +790,9 @@ static void visitCallExpr(AstVisitor *visitor, AstNode *node)
     csAssert0(nodeIs(callee, MemberExpr));
     AstNode *target = callee->memberExpr.target,
             *call = callee->memberExpr.member;
+    // `super.func()` always calls the function of the base class
+    bool isSuper =
+        nodeIs(target, Identifier) && target->ident.value == S_super;
 
     call->type = callee->type;
 
@@ -804,7 +807,7 @@ static void visitCallExpr(AstVisitor *visitor, AstNode *node)
     }
 
     target->flags |= flgReference;
-    if (isVirtualDispatch(target, call)) {
+    if (!isSuper && isVirtualDispatch(target, call)) {
         node->callExpr.callee = virtualDispatch(ctx, target, call);
         target->next = args;
         node->callExpr.args = target;
-- 
2.43.0


From a6c88473af1be74ce5a82b487ff7701c111aaab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:03 +0000
Subject: [PATCH 43/96] fix: tuples and unions of a class and of This inside
 that class are different types

---
 src/cxy/lang/frontend/ttable.c | 49 +++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/frontend/ttable.c b/src/cxy/lang/frontend/ttable.c
index 03bddbe..1a0763a 100644
--- a/src/cxy/lang/frontend/ttable.c
+++ b/src/cxy/lang/frontend/ttable.c
@@ -14,10 +14,16 @@
 
 #include <memory.h>
 
+// Must not distinguish what comparePartTypes does not
+static u64 hashableTag(const Type *type)
+{
+    return typeIs(type, This) ? typClass : type->tag;
+}
+
 static HashCode hashTypes(HashCode hash, const Type **types, u64 count)
 {
     for (u64 i = 0; i < count; i++)
-        hash = hashUint64(hash, types[i]->tag);
+        hash = hashUint64(hash, hashableTag(types[i]));
     return hash;
 }
 
@@ -26,7 +32,7 @@ static HashCode hashUnionMembers(HashCode hash,
                                  u64 count)
 {
     for (u64 i = 0; i < count; i++)
-        hash = hashUint64(hash, types[i].type->tag);
+        hash = hashUint64(hash, hashableTag(types[i].type));
     return hash;
 }
 
@@ -175,12 +181,43 @@ static bool compareManyTypes(const Type **left, const Type **right, u64 count)
     return true;
 }
 
+// A class is referred to as `This` until its members have been checked, the
+// types it is a part of must not depend on when they were built
+static bool comparePartTypes(const Type *lhs, const Type *rhs)
+{
+    u64 flags[2] = {flgNone, flgNone};
+    const Type *types[] = {unwrapType(lhs, &flags[0]),
+                           unwrapType(rhs, &flags[1])};
+    for (u64 i = 0; i < 2; i++) {
+        const Type *that =
+            typeIs(types[i], This) ? types[i]->_this.that : NULL;
+        if (typeIs(that, Class)) {
+            flags[i] |= that->flags & flgTypeApplicable;
+            types[i] = that;
+        }
+    }
+    if (types[0] == types[1])
+        return flags[0] == flags[1];
+    return compareTypes(lhs, rhs);
+}
+
+static bool compareTupleMembers(const Type **left,
+                                const Type **right,
+                                u64 count)
+{
+    for (u64 i = 0; i < count; i++) {
+        if (!comparePartTypes(left[i], right[i]))
+            return false;
+    }
+    return true;
+}
+
 static bool compareUnionMembers(const UnionMember *left,
                                 const UnionMember *right,
                                 u64 count)
 {
     for (u64 i = 0; i < count; i++) {
-        if (!compareTypes(left[i].type, right[i].type))
+        if (!comparePartTypes(left[i].type, right[i].type))
             return false;
     }
     return true;
@@ -291,9 +328,9 @@ bool compareTypes(const Type *lhs, const Type *rhs)
                                    : compareTypes(left->_this.that, right);
     case typTuple:
         return (left->tuple.count == right->tuple.count) &&
-               compareManyTypes(left->tuple.members,
-                                right->tuple.members,
-                                left->tuple.count);
+               compareTupleMembers(left->tuple.members,
+                                   right->tuple.members,
+                                   left->tuple.count);
     case typUnion:
         return (left->tUnion.count == right->tUnion.count) &&
                compareUnionMembers(left->tUnion.members,
-- 
2.43.0


From caf394814dede273eca5ae911f2a546a43ef1655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:51 +0000
Subject: [PATCH 44/96] fix: a variable moved on some of the paths through a
 switch keeps its state

---
 src/cxy/lang/middle/mem/manage.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index 54ca669..825ed0a 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -154,7 +154,9 @@ static bool mergeVariableStates(DynArray *lhs, const DynArray *rhs)
         VariableState state;
         if (varLhs->state == varRhs->state)
             state = varLhs->state;
-        else if (varLhs->state == vtsAssigned || varRhs->state == vtsAssigned)
+        else if (varLhs->state == vtsAssigned || varRhs->state == vtsAssigned ||
+                 varLhs->state == vtsMaybeAssigned ||
+                 varRhs->state == vtsMaybeAssigned)
             state = vtsMaybeAssigned;
         else
             state = vtsUninitialized;
-- 
2.43.0


From f8552dab181b9f6d502887350f824883bd7d5037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 45/96] fix: removing an entry of a hash table keeps the rest
 of a wrapped chain reachable

---
 src/cxy/core/htable.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cxy/core/htable.c b/src/cxy/core/htable.c
index 8aa1b66..01d29f2 100644
--- a/src/cxy/core/htable.c
+++ b/src/cxy/core/htable.c
@@ -181,8 +181,14 @@ void removeFromHashTable(HashTable *hashTable, void *elem, size_t elemSize)
     while (isBucketOccupied(hashTable, next_index)) {
         HashCode next_hash = hashTable->hashes[next_index];
         size_t desired_index = modPrime(next_hash, hashTable->capacity);
-        // If the next element is part of the collision chain, move it
-        if (desired_index <= index || desired_index > next_index) {
+        // If the next element is part of the collision chain, move it. It is
+        // unless its desired index is after the hole (the chain might wrap)
+        bool afterHole = index < next_index
+                             ? desired_index > index &&
+                                   desired_index <= next_index
+                             : desired_index > index ||
+                                   desired_index <= next_index;
+        if (!afterHole) {
             void *next_elem = elemAt(hashTable->elems, elemSize, next_index);
             memcpy(elem, next_elem, elemSize);
             hashTable->hashes[index] = next_hash;
-- 
2.43.0


From 8d87883d7cb1efd43f28c35b10fa9a073be6e5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 46/96] fix: hash map: an entry is replaced, not added again,
 and a cleared map can be used

---
 src/cxy/core/hmap.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cxy/core/hmap.c b/src/cxy/core/hmap.c
index c6aa618..bcaa639 100644
--- a/src/cxy/core/hmap.c
+++ b/src/cxy/core/hmap.c
@@ -135,7 +135,7 @@ static HmapStatus hmapPutInternal(Hmap *self, void *data)
         }
 
         u64 p = hmapProbe(self, i, h);
-        if (j >= p) {
+        if (j > p) {
             memcpy((char *)self->sspace1,
                    (char *)self->data + i * hmapStep(self),
                    hmapStep(self));
@@ -185,10 +185,9 @@ void hmapDestroy(Hmap *self)
 
 void hmapClear(Hmap *self)
 {
-    free(self->data);
-    self->nslots = 0;
+    if (self->data != NULL)
+        memset(self->data, 0, self->nslots * hmapStep(self));
     self->nitems = 0;
-    self->data = NULL;
 }
 
 void hmapRemove(Hmap *self, void *data)
-- 
2.43.0


From d347b8184cf971652b81f05ddd40996948f15de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 47/96] fix: a string is not interned as one it is the
 beginning of

---
 src/cxy/core/strpool.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxy/core/strpool.c b/src/cxy/core/strpool.c
index 3daa438..76a3273 100644
--- a/src/cxy/core/strpool.c
+++ b/src/cxy/core/strpool.c
@@ -26,13 +26,13 @@ typedef struct {
 static bool compareStrFind(const void *left, const void *right)
 {
     SizedString *str = (SizedString *)right;
-    return !strncmp(*(char **)left, str->s, str->len);
+    const char *s = *(char **)left;
+    return !strncmp(s, str->s, str->len) && s[str->len] == '\0';
 }
 
 static bool compareStrInsert(const void *left, const void *right)
 {
-    SizedString *str = (SizedString *)right;
-    return !strncmp(*(char **)left, str->s, str->len);
+    return !strcmp(*(char **)left, *(char **)right);
 }
 
 static cstring makeStringVargs(StrPool *strings, const char *fmt, va_list args)
@@ -95,7 +95,7 @@ const char *makeAnonymousVariable(StrPool *pool, const char *prefix)
     u64 len;
     if (prefix == NULL) {
         prefix = "cxy_anonymous_var";
-        len = 19;
+        len = strlen(prefix);
     }
     else
         len = strlen(prefix);
-- 
2.43.0


From 42b76efc7d5333e03e2f8e230cc327694e046bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 48/96] fix: string builder: deleted, empty and released
 builders

---
 src/cxy/core/sb.c | 3 +++
 src/cxy/core/sb.h | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cxy/core/sb.c b/src/cxy/core/sb.c
index 90a1558..611987b 100644
--- a/src/cxy/core/sb.c
+++ b/src/cxy/core/sb.c
@@ -48,8 +48,11 @@ Stack_str_8 wcharToStr(wchar chr)
 void stringBuilderGrow(StringBuilder *sb, u64 size)
 {
     if (sb->data == NULL) {
+        if (size < __cxy_builtins_string_builder_DEFAULT_CAPACITY)
+            size = __cxy_builtins_string_builder_DEFAULT_CAPACITY;
         sb->data = mallocOrDie(size + 1);
         sb->capacity = size;
+        sb->data[0] = '\0';
     }
     else if (size > (sb->capacity - sb->size)) {
         while (sb->capacity < sb->size + size) {
diff --git a/src/cxy/core/sb.h b/src/cxy/core/sb.h
index f64c089..8034690 100644
--- a/src/cxy/core/sb.h
+++ b/src/cxy/core/sb.h
@@ -44,7 +44,7 @@ void stringBuilderDeinit(StringBuilder *sb);
 static attr(always_inline) void stringBuilderDelete(StringBuilder *sb)
 {
     if (sb) {
-        stringBuilderInit(sb);
+        stringBuilderDeinit(sb);
         free(sb);
     }
 }
-- 
2.43.0


From cb854f06adf5e6666df51934e9764ff4ad927434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:39 +0000
Subject: [PATCH 49/96] fix: command line: long arguments do not overflow the
 error text, empty values are no numbers, enumerations say what is wrong,
 files after an odd first argument are found

---
 src/cxy/core/args.c | 146 +++++++++++++++++++++++++-------------------
 1 file changed, 84 insertions(+), 62 deletions(-)

diff --git a/src/cxy/core/args.c b/src/cxy/core/args.c
index d16f364..aa280f3 100644
--- a/src/cxy/core/args.c
+++ b/src/cxy/core/args.c
@@ -276,14 +276,11 @@ static void vmInitializeCommand(CmdCommand *cmd, CmdFlag *gArgs, u32 ngArgs)
     }
 }
 
-static bool cmdParseCommandArguments(CmdParser *P,
-                                     CmdCommand *cmd,
-                                     int *pargc,
-                                     char ***pargv)
+static bool cmdParseCommandArguments(
+    CmdParser *P, CmdCommand *cmd, int *pargc, char ***pargv, char **dst)
 {
     int argc = *pargc;
-    char **argv = *pargv,
-         **dst = strcmp(cmd->name, *(argv - 1)) != 0 ? argv : argv - 1;
+    char **argv = *pargv;
     u32 npos = 0;
     int reWrite = 0;
 
@@ -330,10 +327,11 @@ static bool cmdParseCommandArguments(CmdParser *P,
                 (dst)[reWrite++] = (char *)arg;
             }
             else if (npos >= cmd->npos) {
-                sprintf(cmd->P->error,
-                        "error: unexpected number of positional arguments "
-                        "passed, expecting %u\n",
-                        cmd->npos);
+                snprintf(cmd->P->error,
+                         sizeof(cmd->P->error),
+                         "error: unexpected number of positional arguments "
+                         "passed, expecting %u\n",
+                         cmd->npos);
                 return false;
             }
             else {
@@ -352,9 +350,10 @@ static bool cmdParseCommandArguments(CmdParser *P,
 
         // parse argument value if any
         if (flag == NULL) {
-            sprintf(cmd->P->error,
-                    "error: unrecognized command argument '%s'\n",
-                    og);
+            snprintf(cmd->P->error,
+                     sizeof(cmd->P->error),
+                     "error: unrecognized command argument '%s'\n",
+                     og);
             return false;
         }
 
@@ -364,9 +363,10 @@ static bool cmdParseCommandArguments(CmdParser *P,
                 --argc;
             }
             if (val == NULL) {
-                sprintf(cmd->P->error,
-                        "error: command flag '%s' expects a value\n",
-                        flag->name);
+                snprintf(cmd->P->error,
+                         sizeof(cmd->P->error),
+                         "error: command flag '%s' expects a value\n",
+                         flag->name);
                 return false;
             }
             if (!flag->validator(P, &flag->val, val, flag->name)) {
@@ -374,9 +374,10 @@ static bool cmdParseCommandArguments(CmdParser *P,
             }
         }
         else if (val != NULL) {
-            sprintf(cmd->P->error,
-                    "error: unexpected value passed to flag '%s'\n",
-                    flag->name);
+            snprintf(cmd->P->error,
+                     sizeof(cmd->P->error),
+                     "error: unexpected value passed to flag '%s'\n",
+                     flag->name);
             return false;
         }
         else {
@@ -442,8 +443,9 @@ bool cmdParseBoolean(CmdParser *P,
     return true;
 
 parseBoolError:
-    sprintf(
+    snprintf(
         P->error,
+        sizeof(P->error),
         "error: value '%s' passed to flag '%s' cannot be parsed as a boolean\n",
         str,
         name);
@@ -456,13 +458,15 @@ bool cmdParseDouble(CmdParser *P,
                     const char *name)
 {
     char *end;
+    errno = 0;
     dst->num = strtod(str, &end);
-    if (errno == ERANGE || *end != '\0') {
-        sprintf(P->error,
-                "error: value '%s' passed to flag '%s' cannot be parsed as a "
-                "double\n",
-                str,
-                name);
+    if (errno == ERANGE || end == str || *end != '\0') {
+        snprintf(P->error,
+                 sizeof(P->error),
+                 "error: value '%s' passed to flag '%s' cannot be parsed as a "
+                 "double\n",
+                 str,
+                 name);
         return false;
     }
     dst->state = cmdNumber;
@@ -475,13 +479,15 @@ bool cmdParseInteger(CmdParser *P,
                      const char *name)
 {
     char *end;
+    errno = 0;
     dst->num = (double)strtoll(str, &end, 0);
-    if (errno == ERANGE || *end != '\0') {
-        sprintf(P->error,
-                "error: value '%s' passed to flag '%s' cannot be parsed as a "
-                "number\n",
-                str,
-                name);
+    if (errno == ERANGE || end == str || *end != '\0') {
+        snprintf(P->error,
+                 sizeof(P->error),
+                 "error: value '%s' passed to flag '%s' cannot be parsed as a "
+                 "number\n",
+                 str,
+                 name);
         return false;
     }
 
@@ -495,13 +501,15 @@ bool cmdParseByteSize(CmdParser *P,
                       const char *name)
 {
     char *end;
+    errno = 0;
     dst->num = (double)strtoull(str, &end, 0);
-    if (errno == ERANGE) {
-        sprintf(P->error,
-                "error: value '%s' passed to flag '%s' cannot be parsed as a "
-                "number\n",
-                str,
-                name);
+    if (errno == ERANGE || end == str) {
+        snprintf(P->error,
+                 sizeof(P->error),
+                 "error: value '%s' passed to flag '%s' cannot be parsed as a "
+                 "number\n",
+                 str,
+                 name);
         return false;
     }
     if (end) {
@@ -527,11 +535,12 @@ bool cmdParseByteSize(CmdParser *P,
             break;
         default:
         unsupportedDataSizeUnit:
-            sprintf(P->error,
-                    "'%s' is not a supported data len unit "
-                    "(use g,G for gigabytes, m,M for megabytes, "
-                    "k,K for kilobytes or b, B for bytes)",
-                    end);
+            snprintf(P->error,
+                     sizeof(P->error),
+                     "'%s' is not a supported data len unit "
+                     "(use g,G for gigabytes, m,M for megabytes, "
+                     "k,K for kilobytes or b, B for bytes)",
+                     end);
             return false;
         }
     }
@@ -583,8 +592,9 @@ bool cmdParseBitFlags(CmdParser *P,
         }
 
         if (!parsed) {
-            int n = sprintf(
+            int n = snprintf(
                 P->error,
+                sizeof(P->error),
                 "'%.*s' is not a supported bit flags for argument '%s'\n",
                 size,
                 str,
@@ -606,7 +616,7 @@ bool cmdParseEnumValue(CmdParser *P,
                        const CmdEnumValueDesc *enums,
                        u32 len)
 {
-    while (*str == '\0')
+    while (isspace(*str))
         str++;
     u64 size = 0;
     while (str[size])
@@ -621,6 +631,12 @@ bool cmdParseEnumValue(CmdParser *P,
         }
     }
 
+    snprintf(P->error,
+             sizeof(P->error),
+             "error: value '%s' passed to flag '%s' is not one of the values "
+             "it supports\n",
+             str,
+             name);
     return false;
 }
 
@@ -741,7 +757,7 @@ i32 parseCommandLineArguments_(int *pargc, char ***pargv, CmdParser *P)
     CmdCommand *cmd = P->def;
     bool choseDef = true;
     if (argc) {
-        if (argv[0][0] != '-') {
+        if (argv[0][0] != '-' && argv[0][0] != '\0') {
             if ((cmd = cmdFindCommandByName(P, argv[0]))) {
                 argv++;
                 argc--;
@@ -753,11 +769,13 @@ i32 parseCommandLineArguments_(int *pargc, char ***pargv, CmdParser *P)
     }
 
     if (cmd == NULL) {
-        sprintf(P->error, "error: missing required command to execute\n");
+        snprintf(P->error,
+                 sizeof(P->error),
+                 "error: missing required command to execute\n");
         return -1;
     }
 
-    if (!cmdParseCommandArguments(P, cmd, &argc, &argv))
+    if (!cmdParseCommandArguments(P, cmd, &argc, &argv, *pargv + 1))
         return -1;
 
     cmdHandleBuiltins(cmd, choseDef);
@@ -785,10 +803,11 @@ i32 parseCommandLineArguments_(int *pargc, char ***pargv, CmdParser *P)
                 return -1;
         }
         else {
-            sprintf(P->error,
-                    "Missing flag '%s' required by command '%s'\n",
-                    flag->name,
-                    cmd->name);
+            snprintf(P->error,
+                     sizeof(P->error),
+                     "Missing flag '%s' required by command '%s'\n",
+                     flag->name,
+                     cmd->name);
             return -1;
         }
     }
@@ -815,10 +834,11 @@ i32 parseCommandLineArguments_(int *pargc, char ***pargv, CmdParser *P)
                 return -1;
         }
         else {
-            sprintf(P->error,
-                    "Missing flag '%s' required by command '%s'\n",
-                    flag->name,
-                    cmd->name);
+            snprintf(P->error,
+                     sizeof(P->error),
+                     "Missing flag '%s' required by command '%s'\n",
+                     flag->name,
+                     cmd->name);
             return -1;
         }
     }
@@ -836,12 +856,14 @@ i32 parseCommandLineArguments_(int *pargc, char ***pargv, CmdParser *P)
                 return -1;
         }
         else {
-            sprintf(P->error,
-                    "Missing positional argument %d ('%s') required by command "
-                    "'%s'\n",
-                    i,
-                    pos->name,
-                    cmd->name);
+            snprintf(
+                P->error,
+                sizeof(P->error),
+                "Missing positional argument %d ('%s') required by command "
+                "'%s'\n",
+                i,
+                pos->name,
+                cmd->name);
             return -1;
         }
     }
-- 
2.43.0


From ca6d9cfb259663a093c68821ff162ad82e9e2ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:39 +0000
Subject: [PATCH 50/96] fix: list of warnings: every item of it counts

---
 src/cxy/core/log.c | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/cxy/core/log.c b/src/cxy/core/log.c
index d1f4a5f..8c3537f 100644
--- a/src/cxy/core/log.c
+++ b/src/cxy/core/log.c
@@ -64,7 +64,7 @@ static WarningId parseNextWarningId(Log *L, char *start, char *end)
     char *p = start;
     while (isspace(*p))
         p++;
-    if (*p == '0') {
+    if (*p == '\0') {
         logError(L,
                  NULL,
                  "parsing warning failed, expecting a warning name (got '{s}')",
@@ -73,14 +73,11 @@ static WarningId parseNextWarningId(Log *L, char *start, char *end)
     }
 
     u64 len;
-    if (end) {
-        while (isspace(*end))
-            end--;
-        end[1] = '\0';
-        len = end - p;
-    }
-    else
-        len = strlen(p);
+    if (end == NULL)
+        end = p + strlen(p);
+    while (end > p && isspace(end[-1]))
+        end--;
+    len = end - p;
 
     Warning *warning = findInHashTable(&warningIds,
                                        &(Warning){.name = p, .len = len},
@@ -424,14 +421,13 @@ u64 parseWarningLevels(Log *L, cstring str)
     if (str == NULL)
         return warnings;
     char *copy = strdup(str);
-    char *start = copy, *end = strchr(str, '|');
+    char *start = copy;
 
     while (start && start[0] != '\0') {
-        char *last = end;
-        if (last) {
-            *last = '\0';
-            last--;
-            end++;
+        char *last = NULL, *end = strchr(start, '|');
+        if (end) {
+            *end = '\0';
+            last = end++;
         }
 
         while (isspace(*start))
@@ -441,12 +437,14 @@ u64 parseWarningLevels(Log *L, cstring str)
             start++;
 
         u64 warning = parseNextWarningId(L, start, last);
-        if (warning == wrn_Error || warning == wrnNone || warning == wrnAll) {
+        if (warning == wrn_Error) {
             free(copy);
             return warning;
         }
 
-        if (flip)
+        if (warning == wrnNone)
+            warnings = wrnNone;
+        else if (flip)
             warnings &= ~warning;
         else
             warnings |= warning;
@@ -455,7 +453,6 @@ u64 parseWarningLevels(Log *L, cstring str)
             end++;
 
         start = end;
-        end = last ? strchr(last, '|') : NULL;
     }
 
     free(copy);
-- 
2.43.0


From 904fdd7eb386570abaa417c44c60e8e78e423d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:39 +0000
Subject: [PATCH 51/96] fix: command line: -Os, --load-pass-plugin, headers on
 Alpine, errors that contain braces

---
 src/cxy/driver/options.c | 52 +++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/src/cxy/driver/options.c b/src/cxy/driver/options.c
index 0bf43e5..b18b8cd 100644
--- a/src/cxy/driver/options.c
+++ b/src/cxy/driver/options.c
@@ -84,18 +84,19 @@ static bool cmdOptimizationLevel(CmdParser *P,
             dst->num = O3;
             return true;
         case 's':
-            dst->num = O3;
+            dst->num = Os;
             return true;
         default:
             dst->state = cmdNoValue;
             break;
         }
     }
-    sprintf(P->error,
-            "error: value '%s' passed to flag '%s' cannot be parsed as an "
-            "optimization flag, supported values -O1, -O2, -O3 -Os -Od\n",
-            str ?: "null",
-            name);
+    snprintf(P->error,
+             sizeof(P->error),
+             "error: value '%s' passed to flag '%s' cannot be parsed as an "
+             "optimization flag, supported values -O1, -O2, -O3 -Os -Od\n",
+             str ?: "null",
+             name);
     return false;
 }
 
@@ -105,9 +106,10 @@ static bool cmdCompilerDefine(CmdParser *P,
                               const char *name)
 {
     if (str == NULL || str[0] == '\0') {
-        sprintf(P->error,
-                "error: command line argument '%s' is missing a value",
-                name);
+        snprintf(P->error,
+                 sizeof(P->error),
+                 "error: command line argument '%s' is missing a value",
+                 name);
         return false;
     }
     if (dst->array.elems == NULL)
@@ -118,10 +120,11 @@ static bool cmdCompilerDefine(CmdParser *P,
         it++;
     cstring variable = it, value = NULL;
     if (!isalpha(it[0]) && it[0] != '_') {
-        sprintf(P->error,
-                "error: define variable '%s' does not conform to cxy variable "
-                "specification",
-                name);
+        snprintf(P->error,
+                 sizeof(P->error),
+                 "error: define variable '%s' does not conform to cxy variable "
+                 "specification",
+                 name);
         return false;
     }
 
@@ -132,10 +135,11 @@ static bool cmdCompilerDefine(CmdParser *P,
         ((char *)it)[0] = '\0';
     }
     else if (it[0] != '\0') {
-        sprintf(P->error,
-                "error: define variable '%s' does not conform to cxy variable "
-                "specification",
-                name);
+        snprintf(P->error,
+                 sizeof(P->error),
+                 "error: define variable '%s' does not conform to cxy variable "
+                 "specification",
+                 name);
         return false;
     }
 
@@ -150,9 +154,10 @@ static bool cmdArrayArgument(CmdParser *P,
                              const char *name)
 {
     if (str == NULL || str[0] == '\0') {
-        sprintf(P->error,
-                "error: command line argument '%s' is missing a value",
-                name);
+        snprintf(P->error,
+                 sizeof(P->error),
+                 "error: command line argument '%s' is missing a value",
+                 name);
         return false;
     }
     if (dst->array.elems == NULL)
@@ -284,6 +289,7 @@ static void initializeOptions(StrPool *strings, Options *options)
     options->importSearchPaths = newDynArray(sizeof(char *));
     options->frameworkSearchPaths = newDynArray(sizeof(char *));
     options->libraries = newDynArray(sizeof(char *));
+    options->loadPassPlugins = newDynArray(sizeof(char *));
     options->defines = newDynArray(sizeof(CompilerDefine));
     options->operatingSystem = getenv("CXY_OS");
     bool isAlpine = options->operatingSystem &&
@@ -318,7 +324,8 @@ static void initializeOptions(StrPool *strings, Options *options)
     const char *p = includeDirs;
     while (p && p[0] != '\0') {
         const char *end = strchr(p, '\n');
-        if (isAlpine && strstr(p, "fortify") != NULL) {
+        const char *fortify = isAlpine ? strstr(p, "fortify") : NULL;
+        if (fortify != NULL && (end == NULL || fortify < end)) {
             p = end ? end + 1 : NULL;
             continue;
         }
@@ -480,7 +487,7 @@ bool parseCommandLineOptions(
         goto error;
     }
     else if (selected == -1) {
-        logError(log, NULL, P->error, NULL);
+        logError(log, NULL, "{s}", (FormatArg[]){{.s = P->error}});
         goto error;
     }
 
@@ -558,5 +565,6 @@ void deinitCommandLineOptions(Options *options)
     freeDynArray(&options->importSearchPaths);
     freeDynArray(&options->librarySearchPaths);
     freeDynArray(&options->libraries);
+    freeDynArray(&options->loadPassPlugins);
     freeDynArray(&options->defines);
 }
-- 
2.43.0


From 4d87e2a375dff70da4a857f2ff1bec90147e72f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:38 +0000
Subject: [PATCH 52/96] fix: lexer: text that ends in a number, string or
 character; numbers too large or without digits; empty character

---
 src/cxy/lang/frontend/lexer.c | 98 +++++++++++++++++++++++++----------
 1 file changed, 72 insertions(+), 26 deletions(-)

diff --git a/src/cxy/lang/frontend/lexer.c b/src/cxy/lang/frontend/lexer.c
index 7385a4b..115ece0 100644
--- a/src/cxy/lang/frontend/lexer.c
+++ b/src/cxy/lang/frontend/lexer.c
@@ -5,6 +5,7 @@
 #include "token.h"
 
 #include <ctype.h>
+#include <errno.h>
 #include <inttypes.h>
 #include <stdlib.h>
 #include <string.h>
@@ -113,7 +114,7 @@ static char getCurChar(Lexer *lexer) { return *getCurPtr(lexer); }
 
 static char peekNextChar_(const LexerBuffer *b)
 {
-    if (b->fileSize == (1 + b->filePos.byteOffset)) {
+    if (b->fileSize <= (1 + b->filePos.byteOffset)) {
         if (b->prev) {
             return peekNextChar_(b->prev);
         }
@@ -145,9 +146,14 @@ static inline bool isSpaceOrPunctuation(char c)
     return c != '_' && (isspace(c) || ispunct(c));
 }
 
+static inline bool isEndOfNumber(Lexer *lexer)
+{
+    return isEofReached(lexer) || isSpaceOrPunctuation(getCurChar(lexer));
+}
+
 static void skipUntilSpaceOrPunctuation(Lexer *lexer)
 {
-    while (!isSpaceOrPunctuation(getCurChar(lexer)))
+    while (!isEndOfNumber(lexer))
         advanceLexer(lexer);
 }
 
@@ -239,6 +245,41 @@ static Token makeInvalidToken(Lexer *lexer,
     return token;
 }
 
+static const char *getBufferPtr(const LexerBuffer *buffer)
+{
+    return buffer->fileData + buffer->filePos.byteOffset;
+}
+
+// The digits of a number are the bytes from \p ptr up to \p end
+static Token parseIntLiteral(Lexer *lexer,
+                             const FilePos *begin,
+                             const char *ptr,
+                             const char *end,
+                             int base)
+{
+    if (ptr == end)
+        return makeInvalidToken(
+            lexer, begin, "expecting digits after the base of the number");
+    errno = 0;
+    uintmax_t value = strtoumax(ptr, NULL, base);
+    if (errno == ERANGE)
+        return makeInvalidToken(lexer, begin, "integer literal is too large");
+    return makeIntLiteral(lexer, begin, value);
+}
+
+static Token parseFloatLiteral(Lexer *lexer,
+                               const FilePos *begin,
+                               const char *ptr,
+                               const char *end)
+{
+    char *digits = mallocOrDie(end - ptr + 1);
+    memcpy(digits, ptr, end - ptr);
+    digits[end - ptr] = 0;
+    double value = strtod(digits, NULL);
+    free(digits);
+    return makeFloatLiteral(lexer, begin, value);
+}
+
 static Token multilineString(Lexer *lexer)
 {
     FilePos begin = lexer->buffer->filePos;
@@ -283,7 +324,7 @@ Token advanceLexer(Lexer *lexer)
     }
 
     while (true) {
-        bool parsingStringLiteral = false;
+        bool parsingStringLiteral = false, endOfLine = false;
         FilePos begin = lexer->buffer->filePos;
         LexerBuffer *buffer = NULL;
         if (lexer->flags & lxEnterStringExpr) {
@@ -477,18 +518,20 @@ Token advanceLexer(Lexer *lexer)
 
             parsingStringLiteral = true;
         lexerLexString:
-            while (getCurChar(lexer) != '\"') {
+            while (!isEofReached(lexer) && getCurChar(lexer) != '\"') {
                 if (acceptChar(lexer, '\n')) {
                     // Backslash to continue string on another line
                     if (acceptChar(lexer, '\\'))
                         continue;
+                    endOfLine = true;
                     break;
                 }
 
                 if (getCurChar(lexer) == '\\') {
                     // accept all escape sequences
                     skipChar(lexer);
-                    skipChar(lexer);
+                    if (!isEofReached(lexer))
+                        skipChar(lexer);
                     continue;
                 }
 
@@ -511,28 +554,31 @@ Token advanceLexer(Lexer *lexer)
                 lexer->flags &= ~lxContinueStringExpr;
                 lexer->flags |= lxExitStringExpr;
             }
-            if (!acceptChar(lexer, '\"'))
+            if (endOfLine || !acceptChar(lexer, '\"'))
                 return makeInvalidToken(
                     lexer, &begin, "unterminated string literal");
             return makeToken_(lexer, buffer, &begin, tokStringLiteral);
         }
 
         if (acceptChar(lexer, '\'')) {
-            const char *ptr = getCurPtr(lexer);
+            const char *ptr = getBufferPtr(buffer);
             size_t charCount = 0;
-            for (; getCurChar(lexer) != '\'' && getCurChar(lexer) != '\n';
+            for (; !isEofReached(lexer) && getCurChar(lexer) != '\'' &&
+                   getCurChar(lexer) != '\n';
                  charCount++) {
                 if (getCurChar(lexer) == '\\') {
                     skipChar(lexer);
                     charCount++;
+                    if (isEofReached(lexer))
+                        break;
                 }
                 skipChar(lexer);
             }
 
             Token token = makeToken(lexer, &begin, tokCharLiteral);
-            if (!acceptChar(lexer, '\'') ||
+            if (!acceptChar(lexer, '\'') || charCount == 0 ||
                 convertEscapeSeq(
-                    ptr, getCurPtr(lexer) - ptr - 1, &token.cVal) != charCount)
+                    ptr, getBufferPtr(buffer) - ptr - 1, &token.cVal) != charCount)
                 return makeInvalidToken(
                     lexer, &begin, "invalid character literal");
             return token;
@@ -566,16 +612,16 @@ Token advanceLexer(Lexer *lexer)
 
         if (isdigit(getCurChar(lexer))) {
             bool wasZero = getCurChar(lexer) == '0';
-            const char *ptr = getCurPtr(lexer);
+            const char *ptr = getBufferPtr(buffer);
 
             skipChar(lexer);
             if (wasZero) {
                 if (acceptChar(lexer, 'b')) {
                     // Binary literal
-                    ptr = getCurPtr(lexer);
+                    ptr = getBufferPtr(buffer);
                     while (getCurChar(lexer) == '0' || getCurChar(lexer) == '1')
                         skipChar(lexer);
-                    if (!isSpaceOrPunctuation(getCurChar(lexer))) {
+                    if (!isEndOfNumber(lexer)) {
                         skipUntilSpaceOrPunctuation(lexer);
                         return makeInvalidToken(
                             lexer,
@@ -583,16 +629,16 @@ Token advanceLexer(Lexer *lexer)
                             "binary digit contains invalid characters");
                     }
 
-                    return makeIntLiteral(
-                        lexer, &begin, strtoumax(ptr, NULL, 2));
+                    return parseIntLiteral(
+                        lexer, &begin, ptr, getBufferPtr(buffer), 2);
                 }
                 else if (acceptChar(lexer, 'x')) {
                     // Hexadecimal literal
-                    ptr = getCurPtr(lexer);
+                    ptr = getBufferPtr(buffer);
                     while (isxdigit(getCurChar(lexer)))
                         skipChar(lexer);
 
-                    if (!isSpaceOrPunctuation(getCurChar(lexer))) {
+                    if (!isEndOfNumber(lexer)) {
                         skipUntilSpaceOrPunctuation(lexer);
                         return makeInvalidToken(
                             lexer,
@@ -600,23 +646,23 @@ Token advanceLexer(Lexer *lexer)
                             "hexadecimal digit contains invalid characters");
                     }
 
-                    return makeIntLiteral(
-                        lexer, &begin, strtoumax(ptr, NULL, 16));
+                    return parseIntLiteral(
+                        lexer, &begin, ptr, getBufferPtr(buffer), 16);
                 }
                 else if (acceptChar(lexer, 'o')) {
                     // Octal literal
-                    ptr = getCurPtr(lexer);
+                    ptr = getBufferPtr(buffer);
                     while (getCurChar(lexer) >= '0' && getCurChar(lexer) <= '7')
                         skipChar(lexer);
-                    if (!isSpaceOrPunctuation(getCurChar(lexer))) {
+                    if (!isEndOfNumber(lexer)) {
                         skipUntilSpaceOrPunctuation(lexer);
                         return makeInvalidToken(
                             lexer,
                             &begin,
                             "octal digit contains invalid characters");
                     }
-                    return makeIntLiteral(
-                        lexer, &begin, strtoumax(ptr, NULL, 8));
+                    return parseIntLiteral(
+                        lexer, &begin, ptr, getBufferPtr(buffer), 8);
                 }
             }
 
@@ -643,9 +689,9 @@ Token advanceLexer(Lexer *lexer)
                 }
             }
 
-            return hasDot ? makeFloatLiteral(lexer, &begin, strtod(ptr, NULL))
-                          : makeIntLiteral(
-                                lexer, &begin, strtoumax(ptr, NULL, 10));
+            const char *end = getBufferPtr(buffer);
+            return hasDot ? parseFloatLiteral(lexer, &begin, ptr, end)
+                          : parseIntLiteral(lexer, &begin, ptr, end, 10);
         }
 
         skipChar(lexer);
-- 
2.43.0


From d6fc58767f0130d45842bad1a3caba8e86915dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:38 +0000
Subject: [PATCH 53/96] fix: literals: escape sequences, text that is not
 ASCII, every character, all digits of floating point numbers

---
 src/cxy/core/format.c             |  11 ++-
 src/cxy/core/utils.c              | 107 ++++++++++--------------------
 src/cxy/lang/backend/c/generate.c |  51 +++++++++-----
 3 files changed, 73 insertions(+), 96 deletions(-)

diff --git a/src/cxy/core/format.c b/src/cxy/core/format.c
index f10a767..1d064d4 100644
--- a/src/cxy/core/format.c
+++ b/src/cxy/core/format.c
@@ -177,12 +177,8 @@ static const char *formatArg(FormatState *state,
             if (*ptr == 'l')
                 len = args[(*index)++].len;
             const char *p = arg->s;
-            while (*p != '\0' && i < len) {
-                u32 ch = 0;
-                p += readChar(p, len - i, &ch);
-                format(state, "{cE}", (FormatArg[]){{.u32 = ch}});
-                i++;
-            }
+            for (; *p != '\0' && i < len; i++)
+                printEscapedChar(state, *p++);
         }
         else
             writeStr(state, arg->s);
@@ -377,6 +373,9 @@ void printEscapedChar(FormatState *state, char chr)
     case '\0':
         writeStr(state, "\\0");
         return;
+    case '\\':
+        writeStr(state, "\\\\");
+        return;
     case '\"':
         writeStr(state, "\\\"");
         return;
diff --git a/src/cxy/core/utils.c b/src/cxy/core/utils.c
index aeddd88..ceaf292 100644
--- a/src/cxy/core/utils.c
+++ b/src/cxy/core/utils.c
@@ -26,12 +26,18 @@ typedef CxyPair(u32, u32) u32_u32_pair;
 
 static inline bool isodigit(int c) { return c >= '0' && c <= '7'; }
 
-static size_t convertStrToCharOrd(const char *ptr, int base, u32 *res)
+static size_t convertStrToCharOrd(const char *ptr, size_t n, int base, u32 *res)
 {
-    char *next = NULL;
-    unsigned int ord = strtoul(ptr, &next, base);
+    size_t max = base == 16 ? 2 : 3, len = 0;
+    u32 ord = 0;
+    for (; len < n && len < max; len++) {
+        char c = ptr[len];
+        if (base == 16 ? !isxdigit((u8)c) : !isodigit(c))
+            break;
+        ord = ord * base + (isdigit((u8)c) ? c - '0' : tolower(c) - 'a' + 10);
+    }
     *res = ord;
-    return ord <= 255 && !errno ? next - ptr : 0;
+    return ord <= 255 ? len : 0;
 }
 
 static u32 inline countLeadingZeros(char c)
@@ -47,10 +53,12 @@ static u32_u32_pair convertStrToUtf32(const char *s, size_t count)
 {
     u32 len = countLeadingZeros(s[0]);
 
-    if (len == 0) {
-        return (u32_u32_pair){1, (u32)s[0]};
+    if (len < 2 || len > 4 || len > count)
+        return (u32_u32_pair){0, 0};
+    for (u32 i = 1; i < len; i++) {
+        if ((s[i] & 0xC0) != 0x80)
+            return (u32_u32_pair){0, 0};
     }
-    csAssert(count <= len, "invalid UTF-8 character sequence");
 
     switch (len) {
     case 2:
@@ -63,10 +71,8 @@ static u32_u32_pair convertStrToUtf32(const char *s, size_t count)
                               ((s[0] & 0x7) << 18) | ((s[1] & 0x3F) << 12) |
                                   ((s[2] & 0x3F) << 6) | (s[3] & 0x3F)};
     default:
-        csAssert(false, "invalid UTF-8 sequence");
+        unreachable("");
     }
-
-    unreachable("");
 }
 
 size_t convertEscapeSeq(const char *ptr, size_t n, u32 *res)
@@ -107,20 +113,14 @@ size_t convertEscapeSeq(const char *ptr, size_t n, u32 *res)
         case '\\':
             *res = '\\';
             return 2;
-        case 'x':
-            if (n <= 2)
-                return 0;
-            return 2 + convertStrToCharOrd(ptr + 2, 16, res);
-        case '0':
-            if (!isodigit(ptr[2]) || !isodigit(ptr[3])) {
-                *res = '\0';
-                return 2;
-            }
-            return 1 + convertStrToCharOrd(ptr + 1, 8, res);
-        default:
-            if (isdigit(ptr[1]))
-                return 1 + convertStrToCharOrd(ptr + 1, 8, res);
-            return 0;
+        case 'x': {
+            size_t len = convertStrToCharOrd(ptr + 2, n - 2, 16, res);
+            return len == 0 ? 0 : 2 + len;
+        }
+        default: {
+            size_t len = convertStrToCharOrd(ptr + 1, n - 1, 8, res);
+            return len == 0 ? 0 : 1 + len;
+        }
         }
     }
     if (((u8 *)ptr)[0] >= 0x80) {
@@ -150,58 +150,19 @@ size_t escapeString(const char *str, size_t n, char *dst, size_t size)
     u64 i = 0, j = 0;
 
     while (i < n) {
-        if (str[i] != '\\') {
-            dst[j++] = str[i++];
+        u32 chr = 0;
+        size_t len =
+            str[i] == '\\' ? convertEscapeSeq(&str[i], n - i, &chr) : 0;
+        if (len != 0) {
+            dst[j++] = (char)chr;
+            i += len;
             continue;
         }
 
-        i++;
-        if ((n - i) < 1)
-            continue;
-
-        switch (str[i]) {
-        case 'n':
-            dst[j++] = '\n';
-            i++;
-            break;
-        case 't':
-            dst[j++] = '\t';
-            i++;
-            break;
-        case 'v':
-            dst[j++] = '\v';
-            i++;
-            break;
-        case 'r':
-            dst[j++] = '\r';
-            i++;
-            break;
-        case 'a':
-            dst[j++] = '\a';
-            i++;
-            break;
-        case 'b':
-            dst[j++] = '\b';
-            i++;
-            break;
-        case '$':
-            dst[j++] = '$';
-            i++;
-            break;
-        case '"':
-            dst[j++] = '"';
-            i++;
-            break;
-        case '0':
-            if (!isdigit(str[i + 1])) {
-                dst[j++] = '\0';
-                i++;
-                break;
-            }
-        default:
-            dst[j++] = '\\';
-            break;
-        }
+        // not an escape sequence, stands for itself
+        if (str[i] == '\\' && i + 1 < n)
+            dst[j++] = str[i++];
+        dst[j++] = str[i++];
     }
 
     dst[j] = 0;
diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index a9b31bf..a76f13e 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -14,6 +14,7 @@
 
 #include <ctype.h>
 #include <errno.h>
+#include <math.h>
 #include <string.h>
 #include <sys/stat.h>
 
@@ -840,16 +841,13 @@ static void visitBoolLit(ConstAstVisitor *visitor, const AstNode *node)
 static void visitCharLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    if (node->type->primitive.id == prtCChar) {
-        format(getState(ctx),
-               "'{cE}'",
-               (FormatArg[]){{.c = node->charLiteral.value}});
-    }
-    else {
-        format(getState(ctx),
-               "'{cE}'",
-               (FormatArg[]){{.c = node->charLiteral.value}});
-    }
+    u32 chr = node->charLiteral.value;
+    if (chr < 0x80 && isprint((int)chr) && chr != '\'' && chr != '\\')
+        format(getState(ctx), "'{c}'", (FormatArg[]){{.c = chr}});
+    else if (node->type->primitive.id == prtCChar)
+        format(getState(ctx), "((char){u32})", (FormatArg[]){{.u32 = chr}});
+    else
+        format(getState(ctx), "{u32}", (FormatArg[]){{.u32 = chr}});
 }
 
 static void visitIntegerLit(ConstAstVisitor *visitor, const AstNode *node)
@@ -890,9 +888,20 @@ static void visitIntegerLit(ConstAstVisitor *visitor, const AstNode *node)
 static void visitFloatLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    format(getState(ctx),
-           "{f64}",
-           (FormatArg[]){{.f64 = node->floatLiteral.value}});
+    if (isinf(node->floatLiteral.value) || isnan(node->floatLiteral.value)) {
+        appendString(getState(ctx),
+                     isnan(node->floatLiteral.value)  ? "__builtin_nan(\"\")"
+                     : node->floatLiteral.value > 0 ? "__builtin_inf()"
+                                                    : "(-__builtin_inf())");
+        return;
+    }
+
+    // enough digits to denote exactly the same number
+    char buf[64];
+    snprintf(buf, sizeof(buf), "%.17g", node->floatLiteral.value);
+    appendString(getState(ctx), buf);
+    if (strpbrk(buf, ".e") == NULL)
+        appendString(getState(ctx), ".0");
 }
 
 static void visitStringLit(ConstAstVisitor *visitor, const AstNode *node)
@@ -900,10 +909,18 @@ static void visitStringLit(ConstAstVisitor *visitor, const AstNode *node)
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
     cstring p = node->stringLiteral.value;
     format(getState(ctx), "\"", NULL);
-    while (*p != '\0') {
-        bool escaped =
-            p[0] != '\\' || (p[1] != 'x' && p[1] != 'X' && !isdigit(p[1]));
-        printUtf8(getState(ctx), *p++, escaped);
+    for (; *p != '\0'; p++) {
+        u8 chr = *p;
+        if (chr == '"' || chr == '\\')
+            format(getState(ctx), "\\{c}", (FormatArg[]){{.c = chr}});
+        else if (chr >= 0x80 || isprint(chr))
+            append(getState(ctx), p, 1);
+        else {
+            // always three digits, the next character can be a digit
+            char octal[8];
+            snprintf(octal, sizeof(octal), "\\%03o", chr);
+            appendString(getState(ctx), octal);
+        }
     }
     format(getState(ctx), "\"", NULL);
 }
-- 
2.43.0


From c2d8a108347fd0dc59b71950d5bae7e4f761d320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:45 +0000
Subject: [PATCH 54/96] fix: event loop: a hung up or failed descriptor wakes
 its readers too

---
 src/cxy/stdlib/native/evloop/ae.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/cxy/stdlib/native/evloop/ae.c b/src/cxy/stdlib/native/evloop/ae.c
index ab3d047..952a5cf 100644
--- a/src/cxy/stdlib/native/evloop/ae.c
+++ b/src/cxy/stdlib/native/evloop/ae.c
@@ -449,9 +449,9 @@ static int aeApiPoll(aeEventLoop *eventLoop, struct timeval *tvp)
             if (e->events & EPOLLOUT)
                 mask |= AE_WRITABLE;
             if (e->events & EPOLLERR)
-                mask |= AE_WRITABLE;
+                mask |= AE_WRITABLE | AE_READABLE;
             if (e->events & EPOLLHUP)
-                mask |= AE_WRITABLE;
+                mask |= AE_WRITABLE | AE_READABLE;
             eventLoop->fired[j].fd = e->data.fd;
             eventLoop->fired[j].mask = mask;
         }
@@ -1197,11 +1197,9 @@ int aeWait(int fd, enum Flags mask, long long milliseconds)
             retmask |= AE_READABLE;
         if (pfd.revents & POLLOUT)
             retmask |= AE_WRITABLE;
-        if (pfd.revents & POLLERR)
-            retmask |= AE_WRITABLE;
-        if (pfd.revents & POLLHUP)
-            retmask |= AE_WRITABLE;
-        return retmask;
+        if (pfd.revents & (POLLERR | POLLHUP))
+            retmask |= AE_WRITABLE | AE_READABLE;
+        return retmask & mask;
     }
     else {
         return retval;
-- 
2.43.0


From f0251b8d53d05c69cde5a02f2524a1287464da04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:45 +0000
Subject: [PATCH 55/96] fix: event loop: timeouts of file events are kept in
 the list of timers exactly while they run

---
 src/cxy/stdlib/native/evloop/ae.c | 32 ++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/cxy/stdlib/native/evloop/ae.c b/src/cxy/stdlib/native/evloop/ae.c
index 952a5cf..bba0fed 100644
--- a/src/cxy/stdlib/native/evloop/ae.c
+++ b/src/cxy/stdlib/native/evloop/ae.c
@@ -706,9 +706,18 @@ static void aeRemoveTimerEvent(aeEventLoop *eventLoop, aeTimeEvent *te)
         te->next->prev = te->prev;
 }
 
+/* Takes the timer of a file event out of the list of timers if it is there
+ * (`timer.fd` is -1 when it is not). */
+static void aeCancelFileEventTimer(aeEventLoop *eventLoop, aeFileEvent *fe)
+{
+    if (fe->timer.fd < 0)
+        return;
+    aeRemoveTimerEvent(eventLoop, (aeTimeEvent *)fe);
+    fe->timer.fd = -1;
+}
+
 static void aeFileEventTimeout(aeEventLoop *eventLoop, int fd, aeFileEvent *fe)
 {
-    fe->timer.when_ms = fe->timer.when_sec = 0;
     int mask = fe->mask;
     aeDeleteFileEvent(eventLoop, fd, fe->mask);
     if (mask & AE_READABLE)
@@ -741,8 +750,10 @@ aeEventLoop *aeCreateEventLoop(void *context, int setsize)
         goto err;
     /* Events with mask == AE_NONE are not set. So let's initialize the
      * vector with it. */
-    for (i = 0; i < setsize; i++)
+    for (i = 0; i < setsize; i++) {
         eventLoop->events[i].mask = AE_NONE;
+        eventLoop->events[i].timer.fd = -1;
+    }
     return eventLoop;
 
 err:
@@ -783,8 +794,10 @@ int aeResizeSetSize(aeEventLoop *eventLoop, int setsize)
 
     /* Make sure that if we created new slots, they are initialized with
      * an AE_NONE mask. */
-    for (i = eventLoop->maxfd + 1; i < setsize; i++)
+    for (i = eventLoop->maxfd + 1; i < setsize; i++) {
         eventLoop->events[i].mask = AE_NONE;
+        eventLoop->events[i].timer.fd = -1;
+    }
     return AE_OK;
 }
 
@@ -815,6 +828,7 @@ enum Status aeCreateFileEvent(aeEventLoop *eventLoop,
         return AE_ERR;
 
     if (timeout > 0) {
+        aeCancelFileEventTimer(eventLoop, fe);
         fe->timer.fd = fd;
         aeAddTimeEvent(eventLoop, (aeTimeEvent *)fe, timeout);
     }
@@ -845,6 +859,8 @@ void aeDeleteFileEvent(aeEventLoop *eventLoop, int fd, enum State mask)
 
     aeApiDelEvent(eventLoop, fd, mask);
     fe->mask = fe->mask & (~mask);
+    if (fe->mask == AE_NONE)
+        aeCancelFileEventTimer(eventLoop, fe);
     if (fd == eventLoop->maxfd && fe->mask == AE_NONE) {
         /* Update the max fd */
         int j;
@@ -1025,8 +1041,11 @@ static int processTimeEvents(aeEventLoop *eventLoop)
                 }
             }
             else {
-                aeRemoveTimerEvent(eventLoop, te);
                 aeFileEventTimeout(eventLoop, te->fd, (aeFileEvent *)te);
+                /* The callback may have changed the list in any way, and `te`
+                 * is no longer in it */
+                te = eventLoop->timeEventHead;
+                continue;
             }
         }
         te = te->next;
@@ -1136,9 +1155,8 @@ int aeProcessEvents(aeEventLoop *eventLoop, enum Flags flags, int64_t timeout)
              * before replying to a client. */
             int invert = fe->mask & AE_BARRIER;
 
-            aeTimeEvent *te = (aeTimeEvent *)fe;
-            if (te->when_sec > 0 || te->when_ms > 0)
-                aeRemoveTimerEvent(eventLoop, te);
+            if (fe->mask & mask)
+                aeCancelFileEventTimer(eventLoop, fe);
 
             /* Note the "fe->mask & mask & ..." code: maybe an already
              * processed event removed an element that fired and we still
-- 
2.43.0


From 04bf8412eb3a83bde1d4055396f501adb5c09320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:54 +0000
Subject: [PATCH 56/96] fix: event loop: a round waits no longer than asked and
 calls file events only when asked to

---
 src/cxy/stdlib/native/evloop/ae.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cxy/stdlib/native/evloop/ae.c b/src/cxy/stdlib/native/evloop/ae.c
index bba0fed..683b96c 100644
--- a/src/cxy/stdlib/native/evloop/ae.c
+++ b/src/cxy/stdlib/native/evloop/ae.c
@@ -1100,6 +1100,8 @@ int aeProcessEvents(aeEventLoop *eventLoop, enum Flags flags, int64_t timeout)
             long long ms = (shortest->when_sec - now_sec) * 1000 +
                            shortest->when_ms - now_ms;
 
+            if (timeout > 0 && ms > timeout)
+                ms = timeout;
             if (ms > 0) {
                 tvp->tv_sec = ms / 1000;
                 tvp->tv_usec = (ms % 1000) * 1000;
@@ -1132,6 +1134,10 @@ int aeProcessEvents(aeEventLoop *eventLoop, enum Flags flags, int64_t timeout)
          * some event fires. */
         numevents = aeApiPoll(eventLoop, tvp);
 
+        /* Don't process file events if not requested. */
+        if (!(flags & AE_FILE_EVENTS))
+            numevents = 0;
+
         /* After sleep callback. */
         if (eventLoop->aftersleep != NULL && flags & AE_CALL_AFTER_SLEEP)
             eventLoop->aftersleep(eventLoop);
-- 
2.43.0


From 838091f535feae70f240539100d10313b782565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:14 +0000
Subject: [PATCH 57/96] fix: coroutines: one that outlives the function that
 started it ends without using that function's variables

---
 src/cxy/lang/middle/builtins.h | 1 +
 src/cxy/stdlib/coro.cxy        | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/builtins.h b/src/cxy/lang/middle/builtins.h
index 2d35f55..fe79d80 100644
--- a/src/cxy/lang/middle/builtins.h
+++ b/src/cxy/lang/middle/builtins.h
@@ -13,6 +13,7 @@ extern "C" {
 // clang-format off
 #define OVERRIDABLE_BUILTINS(f)    \
     f(__scheduler)                 \
+    f(__async_done)                \
     f(__thread_launch)             \
     f(timestamp)                   \
     f(fdWaitRead)                  \
diff --git a/src/cxy/stdlib/coro.cxy b/src/cxy/stdlib/coro.cxy
index 6ed2f5b..c3126b9 100644
--- a/src/cxy/stdlib/coro.cxy
+++ b/src/cxy/stdlib/coro.cxy
@@ -323,6 +323,9 @@ func __get_scheduler() {
     return &__cxy_coro_scheduler
 }
 
+@[noinline, __override_builtin("__async_done")]
+func __asyncDone() { __scheduler().epilogue() }
+
 macro coroSuspend() __scheduler().suspend()
 macro coroResume(CO, RES) __scheduler().resume(CO!, RES!)
 macro coroYield() __scheduler().yld()
@@ -337,7 +340,9 @@ macro __async(CALL, NAME) {
         var cr = sched.prologue(NAME!, file!, line!);
         __cxy_coro_setsp!(cr !: ^void)
         CALL!
-        sched.epilogue()
+        // The function that started the coroutine may have returned by now: its
+        // variables are gone
+        __async_done()
     }
 }
 
-- 
2.43.0


From a46ee63618008eb7c26950ff5616af11ffb27cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:14 +0000
Subject: [PATCH 58/96] fix: Mutex.unlock: nobody holds a mutex that nobody
 waits for

---
 src/cxy/stdlib/coro.cxy | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxy/stdlib/coro.cxy b/src/cxy/stdlib/coro.cxy
index c3126b9..00b4f16 100644
--- a/src/cxy/stdlib/coro.cxy
+++ b/src/cxy/stdlib/coro.cxy
@@ -384,6 +384,7 @@ pub struct Mutex {
     func unlock() {
         var next = waiting.pop()
         if (next == null) {
+            holder = null
             return
         }
         holder = next
-- 
2.43.0


From 434d590a058aa3d46c83653c6f9b9e2055268d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:25 +0000
Subject: [PATCH 59/96] fix: a constant of a union type can be copied,
 assigned, passed and returned

---
 src/cxy/lang/middle/sema/check.c     | 3 ++-
 src/cxy/lang/middle/sema/node.c      | 3 ++-
 src/cxy/lang/middle/sema/struct.c    | 3 ++-
 src/cxy/lang/middle/sema/variables.c | 2 +-
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 4f2fa9e..f48cd80 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -244,7 +244,8 @@ static void checkReturnStmt(AstVisitor *visitor, AstNode *node)
 
         node->type = retType;
 
-        if (expr && isUnionType(retType) && retType != expr_) {
+        if (expr && isUnionType(retType) &&
+            retType != resolveUnThisUnwrapType(expr_)) {
             u32 idx = findUnionTypeIndex(retType, expr_);
             csAssert0(idx != UINT32_MAX);
             node->returnStmt.expr = makeUnionValueExpr(
diff --git a/src/cxy/lang/middle/sema/node.c b/src/cxy/lang/middle/sema/node.c
index 2ecd028..5baf5ae 100644
--- a/src/cxy/lang/middle/sema/node.c
+++ b/src/cxy/lang/middle/sema/node.c
@@ -583,7 +583,8 @@ AstNode *transformToUnionValue(TypingContext *ctx,
                                const Type *rhs)
 {
     const Type *stripped = stripPointerOnce(lhs, NULL),
-               *strippedRhs = resolveAndUnThisType(stripPointerOnce(rhs, NULL));
+               *strippedRhs =
+                   resolveUnThisUnwrapType(stripPointerOnce(rhs, NULL));
     if (strippedRhs != lhs && typeIs(stripped, Union) &&
         stripped != strippedRhs) {
         u32 idx = findUnionTypeIndex(stripped, strippedRhs);
diff --git a/src/cxy/lang/middle/sema/struct.c b/src/cxy/lang/middle/sema/struct.c
index 9ebd151..79beaa3 100644
--- a/src/cxy/lang/middle/sema/struct.c
+++ b/src/cxy/lang/middle/sema/struct.c
@@ -358,7 +358,8 @@ void checkStructExpr(AstVisitor *visitor, AstNode *node)
             continue;
         }
 
-        if (typeIs(member->type, Union) && member->type != type) {
+        if (typeIs(member->type, Union) &&
+            member->type != resolveUnThisUnwrapType(type)) {
             u32 idx = findUnionTypeIndex(member->type, type);
             csAssert0(idx != UINT32_MAX);
             field->fieldExpr.value = makeUnionValueExpr(ctx->pool,
diff --git a/src/cxy/lang/middle/sema/variables.c b/src/cxy/lang/middle/sema/variables.c
index bd96c28..72d1bae 100644
--- a/src/cxy/lang/middle/sema/variables.c
+++ b/src/cxy/lang/middle/sema/variables.c
@@ -85,7 +85,7 @@ void checkVarDecl(AstVisitor *visitor, AstNode *node)
     }
 
     node->type = typeIs(type_, Auto) ? init_ : type_;
-    if (typeIs(type_, Union) && type_ != init_) {
+    if (typeIs(type_, Union) && type_ != resolveUnThisUnwrapType(init_)) {
         u32 idx = findUnionTypeIndex(type_, init_);
         csAssert0(idx != UINT32_MAX);
         node->varDecl.init = makeUnionValueExpr(
-- 
2.43.0


From ff24c27c8c39127114763b6657c2c218fcafcb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:36 +0000
Subject: [PATCH 60/96] fix: a member of a constant tuple is constant

---
 src/cxy/lang/middle/sema/member.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/member.c b/src/cxy/lang/middle/sema/member.c
index 8d3ff9d..e0316b8 100644
--- a/src/cxy/lang/middle/sema/member.c
+++ b/src/cxy/lang/middle/sema/member.c
@@ -92,6 +92,9 @@ void checkMemberExpr(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    u64 constness = isConstType(target_) ? flgConst : flgNone;
+    if (target)
+        constness |= target->flags & flgConst;
     target_ = stripAll(target_);
     if (nodeIs(member, Identifier)) {
         node->type = checkMember(visitor, target_, member);
@@ -165,7 +168,7 @@ void checkMemberExpr(AstVisitor *visitor, AstNode *node)
             return;
         }
         node->type = target_->tuple.members[member->intLiteral.value];
-        node->flags =
-            (target_->flags & flgConst) | (node->type->flags & flgConst);
+        node->flags = constness | (target_->flags & flgConst) |
+                      (node->type->flags & flgConst);
     }
 }
-- 
2.43.0


From 30019d23e54d93df28236a7e4d397773b141e870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:45 +0000
Subject: [PATCH 61/96] fix: only a primitive value can be assigned to a bool

---
 src/cxy/lang/frontend/types.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index ee82b27..23b47ad 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -232,7 +232,8 @@ bool isTypeAssignableFrom(const Type *to, const Type *from)
             return isCharacterType(from);
 
         default:
-            return to->primitive.id == from->primitive.id;
+            return typeIs(from, Primitive) &&
+                   to->primitive.id == from->primitive.id;
         }
     case typPointer:
         if (isVoidPointer(to))
-- 
2.43.0


From 12c056f5bb2dabcbaf9089524d61c9110d9799b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:38 +0000
Subject: [PATCH 62/96] fix: an assignment operator needs operands it is
 defined for

---
 src/cxy/lang/middle/sema/assign.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/cxy/lang/middle/sema/assign.c b/src/cxy/lang/middle/sema/assign.c
index 8c7170a..1b23636 100644
--- a/src/cxy/lang/middle/sema/assign.c
+++ b/src/cxy/lang/middle/sema/assign.c
@@ -34,6 +34,23 @@ static void checkIndexExprAssignment(AstVisitor *visitor, AstNode *node)
     checkType(visitor, node);
 }
 
+static bool isAssignOperatorSupported(Operator op,
+                                      const Type *lhs,
+                                      const Type *rhs)
+{
+    switch (op) {
+    case opAssign:
+        return true;
+    case opAdd:
+    case opSub:
+    case opMul:
+    case opDiv:
+        return isNumericType(lhs) && isNumericType(rhs);
+    default:
+        return isIntegralType(lhs) && isIntegralType(rhs);
+    }
+}
+
 void checkAssignExpr(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
@@ -132,6 +149,16 @@ void checkAssignExpr(AstVisitor *visitor, AstNode *node)
                  (FormatArg[]){{.t = lhs}, {.t = rhs}});
         node->type = ERROR_TYPE(ctx);
     }
+    else if (!isAssignOperatorSupported(node->assignExpr.op, lhs, rhs)) {
+        logError(ctx->L,
+                 &node->loc,
+                 "assignment operator '{s}' not supported between type '{t}' "
+                 "and '{t}'",
+                 (FormatArg[]){{.s = getAssignOpString(node->assignExpr.op)},
+                               {.t = lhs},
+                               {.t = rhs}});
+        node->type = ERROR_TYPE(ctx);
+    }
 
     if (node->type == ERROR_TYPE(ctx))
         return;
-- 
2.43.0


From 790437ee8e8afd6e7f76b8110e6df7e7c210a562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:49 +0000
Subject: [PATCH 63/96] fix: % is not defined for floating point operands

---
 src/cxy/lang/middle/sema/binary.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index b2be15d..81cd764 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -272,7 +272,7 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
     switch (opKind) {
     case optNumeric:
 
-        if (isNumericType(type) ||
+        if ((isNumericType(type) && !(op == opMod && isFloatType(type))) ||
             (isPointerType(type) && (op == opAdd || op == opSub)))
             break;
 
-- 
2.43.0


From 68898b18ba1c6cc2659f6622e65172d2f899e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:49 +0000
Subject: [PATCH 64/96] fix: the elements of an array initialiser must fit the
 type of the array

---
 src/cxy/lang/middle/sema/variables.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/variables.c b/src/cxy/lang/middle/sema/variables.c
index 72d1bae..92e8ef3 100644
--- a/src/cxy/lang/middle/sema/variables.c
+++ b/src/cxy/lang/middle/sema/variables.c
@@ -57,7 +57,8 @@ void checkVarDecl(AstVisitor *visitor, AstNode *node)
     }
 
     if (isArrayType(type_) && nodeIs(init, ArrayExpr)) {
-        const Type *target = resolveAndUnThisType(init_->array.elementType),
+        const Type *target = resolveAndUnThisType(
+                       unwrapType(type_, NULL)->array.elementType),
                    *initTarget = resolveAndUnThisType(init_->array.elementType);
         if (!typeIs(initTarget, Auto) &&
             !isTypeAssignableFrom(target, initTarget)) {
-- 
2.43.0


From f3659e4f9815732fdc7338e945b7f222abbc5ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:12 +0000
Subject: [PATCH 65/96] fix: a for loop over a string visits its characters

---
 src/cxy/lang/middle/simplify/simplify.c | 46 +++++++++++++++++--------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 215450a..5888615 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -253,23 +253,41 @@ static void simplifyForArrayStmt(AstVisitor *visitor, AstNode *node)
                             : makePointerType(ctx->types, elem, flgNone));
     index->next = range;
 
-    AstNode *condition = makeBinaryExpr(
+    AstNode *condition = makeResolvedIdentifier(ctx->pool,
+                                                &range->loc,
+                                                index->varDecl.name,
+                                                0,
+                                                index,
+                                                NULL,
+                                                index->type);
+    if (typeIs(rangeType, String)) {
+        // a string ends at its terminator
+        condition = makeIndexExpr(ctx->pool,
+                                  &range->loc,
+                                  elem->flags,
+                                  makeResolvedIdentifier(ctx->pool,
+                                                         &range->loc,
+                                                         range->varDecl.name,
+                                                         0,
+                                                         range,
+                                                         NULL,
+                                                         range->type),
+                                  condition,
+                                  NULL,
+                                  elem);
+    }
+    condition = makeBinaryExpr(
         ctx->pool,
         &range->loc,
         flgNone,
-        makeResolvedIdentifier(ctx->pool,
-                               &range->loc,
-                               index->varDecl.name,
-                               0,
-                               index,
-                               NULL,
-                               index->type),
-        opLt,
-        makeUnsignedIntegerLiteral(ctx->pool,
-                                   &range->loc,
-                                   rangeType->array.len,
-                                   NULL,
-                                   getPrimitiveType(ctx->types, prtU64)),
+        condition,
+        typeIs(rangeType, String) ? opNe : opLt,
+        makeUnsignedIntegerLiteral(
+            ctx->pool,
+            &range->loc,
+            typeIs(rangeType, String) ? 0 : rangeType->array.len,
+            NULL,
+            getPrimitiveType(ctx->types, prtU64)),
         NULL,
         getPrimitiveType(ctx->types, prtBool));
 
-- 
2.43.0


From f828b0a52aed064f7110851ae42d0c3e0643fb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:15 +0000
Subject: [PATCH 66/96] fix: a string can be compared with a string

---
 src/cxy/lang/middle/sema/binary.c | 38 +++++++++++++++++++------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index 81cd764..422c072 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -159,6 +159,24 @@ static void checkBinaryOperatorOverload(AstVisitor *visitor, AstNode *node)
     checkType(visitor, node);
 }
 
+static AstNode *makeStringObject(TypingContext *ctx, AstNode *expr)
+{
+    AstNode *decl = findBuiltinDecl(S___string);
+    return makeCallExpr(ctx->pool,
+                        &expr->loc,
+                        makeResolvedPath(ctx->pool,
+                                         &expr->loc,
+                                         S___string,
+                                         flgNone,
+                                         decl,
+                                         NULL,
+                                         decl->type),
+                        expr,
+                        flgNone,
+                        NULL,
+                        NULL);
+}
+
 void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
@@ -173,22 +191,12 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
 
     if ((opKind == optComparison || opKind == optEquality) &&
         typeIs(unwrapType(left, NULL), String) && !isNullEquality) {
-        lhs = node->binaryExpr.lhs;
-        AstNode *cStringDecl = findBuiltinDecl(S___string);
-        node->binaryExpr.lhs = makeCallExpr(ctx->pool,
-                                            &lhs->loc,
-                                            makeResolvedPath(ctx->pool,
-                                                             &lhs->loc,
-                                                             S___string,
-                                                             flgNone,
-                                                             cStringDecl,
-                                                             NULL,
-                                                             cStringDecl->type),
-                                            lhs,
-                                            flgNone,
-                                            NULL,
-                                            NULL);
+        node->binaryExpr.lhs =
+            makeStringObject(ctx, node->binaryExpr.lhs);
         left_ = stripAll(checkType(visitor, node->binaryExpr.lhs));
+
+        if (typeIs(unwrapType(checkType(visitor, rhs), NULL), String))
+            node->binaryExpr.rhs = makeStringObject(ctx, rhs);
     }
 
     if (typeIs(left_, Struct) && !hasFlag(left_->tStruct.decl, Extern)) {
-- 
2.43.0


From 75cfbc29b1a3635f2df73fd9fd2d7f3293420c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:48 +0000
Subject: [PATCH 67/96] fix: a constant optional can be copied, assigned,
 passed and returned

---
 src/cxy/lang/frontend/types.c        | 2 +-
 src/cxy/lang/middle/sema/assign.c    | 2 +-
 src/cxy/lang/middle/sema/call.c      | 2 +-
 src/cxy/lang/middle/sema/cast.c      | 4 ++--
 src/cxy/lang/middle/sema/check.c     | 2 +-
 src/cxy/lang/middle/sema/struct.c    | 3 ++-
 src/cxy/lang/middle/sema/variables.c | 2 +-
 7 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index 23b47ad..7deb5b0 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -162,7 +162,7 @@ bool isTypeAssignableFrom(const Type *to, const Type *from)
     from = resolveType(from);
     if (to == from)
         return true;
-    if (hasFlag(to, Optional) && !hasFlag(from, Optional)) {
+    if (hasFlag(to, Optional) && !hasFlag(unwrapType(from, NULL), Optional)) {
         if (typeIs(from, Pointer) && typeIs(from->pointer.pointed, Null))
             return true;
 
diff --git a/src/cxy/lang/middle/sema/assign.c b/src/cxy/lang/middle/sema/assign.c
index 1b23636..a85a2fe 100644
--- a/src/cxy/lang/middle/sema/assign.c
+++ b/src/cxy/lang/middle/sema/assign.c
@@ -178,7 +178,7 @@ void checkAssignExpr(AstVisitor *visitor, AstNode *node)
 
     node->assignExpr.rhs = transformToUnionValue(ctx, right, lhs, rhs);
 
-    if (!hasFlag(lhs, Optional) || hasFlag(rhs, Optional))
+    if (!hasFlag(lhs, Optional) || hasFlag(unwrapType(rhs, NULL), Optional))
         return;
 
     const Type *target = getOptionalTargetType(lhs);
diff --git a/src/cxy/lang/middle/sema/call.c b/src/cxy/lang/middle/sema/call.c
index 8205d47..de1075b 100644
--- a/src/cxy/lang/middle/sema/call.c
+++ b/src/cxy/lang/middle/sema/call.c
@@ -311,7 +311,7 @@ void checkCallExpr(AstVisitor *visitor, AstNode *node)
             transformArrayExprToSlice(visitor, type, arg);
         }
 
-        if (!hasFlag(type, Optional) || hasFlag(expr, Optional))
+        if (!hasFlag(type, Optional) || hasFlag(unwrapType(expr, NULL), Optional))
             continue;
 
         type = getOptionalTargetType(type);
diff --git a/src/cxy/lang/middle/sema/cast.c b/src/cxy/lang/middle/sema/cast.c
index c30b82e..4091209 100644
--- a/src/cxy/lang/middle/sema/cast.c
+++ b/src/cxy/lang/middle/sema/cast.c
@@ -147,7 +147,7 @@ void checkCastExpr(AstVisitor *visitor, AstNode *node)
     castLiteral(ctx, node);
     if (isReferenceType(expr))
         expr = stripReference(expr);
-    if (!hasFlag(target, Optional) || hasFlag(expr, Optional))
+    if (!hasFlag(target, Optional) || hasFlag(unwrapType(expr, NULL), Optional))
         return;
 
     target = getOptionalTargetType(target);
@@ -200,7 +200,7 @@ void checkTypedExpr(AstVisitor *visitor, AstNode *node)
         csAssert0(node->castExpr.idx != UINT32_MAX);
     }
 
-    if (!hasFlag(type, Optional) || hasFlag(expr, Optional))
+    if (!hasFlag(type, Optional) || hasFlag(unwrapType(expr, NULL), Optional))
         return;
 
     type = getOptionalTargetType(type);
diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index f48cd80..e0daa07 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -252,7 +252,7 @@ static void checkReturnStmt(AstVisitor *visitor, AstNode *node)
                 ctx->pool, &expr->loc, expr->flags, expr, idx, NULL, retType);
         }
 
-        if (!hasFlag(retType, Optional) || hasFlag(expr_, Optional))
+        if (!hasFlag(retType, Optional) || hasFlag(unwrapType(expr_, NULL), Optional))
             return;
 
         const Type *target = getOptionalTargetType(retType);
diff --git a/src/cxy/lang/middle/sema/struct.c b/src/cxy/lang/middle/sema/struct.c
index 79beaa3..31a63b7 100644
--- a/src/cxy/lang/middle/sema/struct.c
+++ b/src/cxy/lang/middle/sema/struct.c
@@ -375,7 +375,8 @@ void checkStructExpr(AstVisitor *visitor, AstNode *node)
             value->type = member->type;
         }
 
-        if (hasFlag(member->type, Optional) && !hasFlag(type, Optional)) {
+        if (hasFlag(member->type, Optional) &&
+            !hasFlag(unwrapType(type, NULL), Optional)) {
             const Type *optionalTarget = getOptionalTargetType(member->type);
             if (nodeIs(value, NullLit)) {
                 if (!transformOptionalNone(visitor, value, optionalTarget)) {
diff --git a/src/cxy/lang/middle/sema/variables.c b/src/cxy/lang/middle/sema/variables.c
index 92e8ef3..2724303 100644
--- a/src/cxy/lang/middle/sema/variables.c
+++ b/src/cxy/lang/middle/sema/variables.c
@@ -97,7 +97,7 @@ void checkVarDecl(AstVisitor *visitor, AstNode *node)
         node->type = makeWrappedType(ctx->types, node->type, flgConst);
     }
 
-    if (!hasFlag(type_, Optional) || hasFlag(init_, Optional))
+    if (!hasFlag(type_, Optional) || hasFlag(unwrapType(init_, NULL), Optional))
         return;
 
     const Type *target = getOptionalTargetType(type_);
-- 
2.43.0


From 2decb32d4ccb31a67f023434fd5e0fd77b02fd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:57 +0000
Subject: [PATCH 68/96] fix: a constant string is truthy evaluable

---
 src/cxy/lang/frontend/types.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index 7deb5b0..22c45c6 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -1252,6 +1252,7 @@ const EnumOptionDecl *findEnumOption(const Type *type, cstring option)
 
 bool isTruthyType(const Type *type)
 {
+    type = unwrapType(type, NULL);
     return isIntegralType(type) || isFloatType(type) || typeIs(type, Pointer) ||
            typeIs(type, Optional) || typeIs(type, String) ||
            (isClassOrStructType(type) &&
-- 
2.43.0


From c2fc8548046d0e3e29396b6025d153e563f074f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:26 +0000
Subject: [PATCH 69/96] fix: an assignment operator needs operands it is
 defined for: %=

---
 src/cxy/lang/middle/sema/assign.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/lang/middle/sema/assign.c b/src/cxy/lang/middle/sema/assign.c
index a85a2fe..116d98d 100644
--- a/src/cxy/lang/middle/sema/assign.c
+++ b/src/cxy/lang/middle/sema/assign.c
@@ -46,6 +46,8 @@ static bool isAssignOperatorSupported(Operator op,
     case opMul:
     case opDiv:
         return isNumericType(lhs) && isNumericType(rhs);
+    case opMod:
+        return isNumericType(lhs) && isNumericType(rhs) && !isFloatType(lhs);
     default:
         return isIntegralType(lhs) && isIntegralType(rhs);
     }
-- 
2.43.0


From 799c2ec36cbbae0e6699dc43eccdc7263c72d3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:12 +0000
Subject: [PATCH 70/96] fix: a constant of a union or enum type can be cast
 like a variable

---
 src/cxy/lang/frontend/types.c   |  5 +++--
 src/cxy/lang/middle/sema/cast.c | 10 ++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index 22c45c6..ffc0745 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -411,7 +411,7 @@ bool isTypeCastAssignable(const Type *to, const Type *from)
         }
     case typEnum:
         if (isIntegerType(to))
-            return isTypeCastAssignable(to, from->tEnum.base);
+            return isTypeCastAssignable(to, unwrappedFrom->tEnum.base);
     case typPointer:
         if (isVoidPointer(unwrappedFrom) &&
             (isClassType(unwrappedTo) || isStructPointer(unwrappedTo)))
@@ -422,7 +422,7 @@ bool isTypeCastAssignable(const Type *to, const Type *from)
             return true;
         return isTypeAssignableFrom(to, from);
     case typUnion:
-        return findUnionTypeIndex(from,
+        return findUnionTypeIndex(unwrappedFrom,
                                   typeIs(to, Pointer) ? to->pointer.pointed
                                                       : to) != UINT32_MAX;
     case typReference:
@@ -1293,6 +1293,7 @@ const Type *getResultTargetType(const Type *type)
 
 u32 findUnionTypeIndex(const Type *tagged, const Type *type)
 {
+    tagged = unwrapType(tagged, NULL);
     if (!typeIs(tagged, Union))
         return UINT32_MAX;
     type = resolveUnThisUnwrapType(type);
diff --git a/src/cxy/lang/middle/sema/cast.c b/src/cxy/lang/middle/sema/cast.c
index 4091209..a17d4c5 100644
--- a/src/cxy/lang/middle/sema/cast.c
+++ b/src/cxy/lang/middle/sema/cast.c
@@ -138,9 +138,10 @@ void checkCastExpr(AstVisitor *visitor, AstNode *node)
                  (FormatArg[]){{.t = expr}, {.t = target}});
     }
     node->type = target;
-    if (typeIs(expr, Union)) {
+    if (typeIs(unwrapType(expr, NULL), Union)) {
         node->castExpr.idx = findUnionTypeIndex(
-            expr, typeIs(target, Pointer) ? target->pointer.pointed : target);
+            unwrapType(expr, NULL),
+            typeIs(target, Pointer) ? target->pointer.pointed : target);
         csAssert0(node->castExpr.idx != UINT32_MAX);
     }
 
@@ -194,9 +195,10 @@ void checkTypedExpr(AstVisitor *visitor, AstNode *node)
     }
 
     castLiteral(ctx, node);
-    if (typeIs(expr, Union)) {
+    if (typeIs(unwrapType(expr, NULL), Union)) {
         node->castExpr.idx = findUnionTypeIndex(
-            expr, typeIs(type, Pointer) ? type->pointer.pointed : type);
+            unwrapType(expr, NULL),
+            typeIs(type, Pointer) ? type->pointer.pointed : type);
         csAssert0(node->castExpr.idx != UINT32_MAX);
     }
 
-- 
2.43.0


From 09bd9e9e33678ea2de96a570f9d52c7ce19b7141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:07 +0000
Subject: [PATCH 71/96] fix: a range as the label of a switch case (never
 matched; duplicates missed)

---
 src/cxy/lang/backend/c/generate.c |  6 ++++++
 src/cxy/lang/middle/sema/switch.c | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index a76f13e..14f906c 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -1779,6 +1779,12 @@ static void visitCaseStmt(ConstAstVisitor *visitor, const AstNode *node)
                 format(getState(ctx), "\n", NULL);
             }
         }
+        else if (nodeIs(node->caseStmt.match, RangeExpr)) {
+            astConstVisit(visitor, node->caseStmt.match->rangeExpr.start);
+            format(getState(ctx), " ... ", NULL);
+            astConstVisit(visitor, node->caseStmt.match->rangeExpr.end);
+            format(getState(ctx), ": {{{>}\n", NULL);
+        }
         else {
             astConstVisit(visitor, node->caseStmt.match);
             format(getState(ctx), ": {{{>}\n", NULL);
diff --git a/src/cxy/lang/middle/sema/switch.c b/src/cxy/lang/middle/sema/switch.c
index a462284..c53d3ac 100644
--- a/src/cxy/lang/middle/sema/switch.c
+++ b/src/cxy/lang/middle/sema/switch.c
@@ -70,11 +70,11 @@ static int compareLiteralNode(const void *left, const void *right)
     }
     else if (nodeIs(lhs, RangeExpr)) {
         csAssert0(isIntegralLiteral(rhs));
-        return isIntegerInRange(lhs, getLiteralValue(rhs));
+        return -isIntegerInRange(lhs, getLiteralValue(rhs));
     }
     else if (nodeIs(rhs, RangeExpr)) {
         csAssert0(isIntegralLiteral(lhs));
-        return -isIntegerInRange(rhs, getLiteralValue(lhs));
+        return isIntegerInRange(rhs, getLiteralValue(lhs));
     }
 
     csAssert0(isLiteralExpr(lhs));
@@ -165,6 +165,16 @@ void checkCaseStmt(AstVisitor *visitor, AstNode *node)
             }
 
             i64 iMin = getLiteralValue(min), iMax = getLiteralValue(max);
+            if (iMin > iMax) {
+                logError(ctx->L,
+                         &node->caseStmt.match->loc,
+                         "switch case statement range is empty, {i64} is "
+                         "greater than {i64}",
+                         (FormatArg[]){{.i64 = iMin}, {.i64 = iMax}});
+                node->type = ERROR_TYPE(ctx);
+                return;
+            }
+
             if (!isIntegerTypeInRange(cond, iMin, iMax)) {
                 logError(
                     ctx->L,
-- 
2.43.0


From c2a9a45955b5dccfadeddc3ddaf1e4e8dff321f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:52 +0000
Subject: [PATCH 72/96] fix: a switch over a string (the generated C did not
 compile)

---
 src/cxy/lang/backend/c/generate.c | 30 +++++++++++++++++++++++++++++-
 src/cxy/lang/middle/sema/switch.c |  1 +
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 14f906c..06ad64a 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -1731,11 +1731,34 @@ static void visitWhileStmt(ConstAstVisitor *visitor, const AstNode *node)
     ctx->inLoop = previousInLoop;
 }
 
+// C only switches on integers, so this selects the case by its index
+static void generateStringSwitchCond(ConstAstVisitor *visitor,
+                                     const AstNode *node)
+{
+    CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    format(getState(ctx), "({{ const char *_s = ", NULL);
+    astConstVisit(visitor, node->switchStmt.cond);
+    format(getState(ctx), "; !_s ? -1 : ", NULL);
+    for (const AstNode *it = node->switchStmt.cases; it; it = it->next) {
+        if (it->caseStmt.match == NULL)
+            continue;
+        format(getState(ctx), "!__builtin_strcmp(_s, ", NULL);
+        astConstVisit(visitor, it->caseStmt.match);
+        format(getState(ctx),
+               ") ? {u32} : ",
+               (FormatArg[]){{.u32 = it->caseStmt.idx}});
+    }
+    format(getState(ctx), "-1; })", NULL);
+}
+
 static void visitSwitchStmt(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
     format(getState(ctx), "switch (", NULL);
-    astConstVisit(visitor, node->switchStmt.cond);
+    if (typeIs(unwrapType(node->switchStmt.cond->type, NULL), String))
+        generateStringSwitchCond(visitor, node);
+    else
+        astConstVisit(visitor, node->switchStmt.cond);
     format(getState(ctx), ") ", NULL);
     generateMany(visitor, node->switchStmt.cases, "{{\n", "\n", NULL);
     if (node->switchStmt.defaultCase == NULL) {
@@ -1779,6 +1802,11 @@ static void visitCaseStmt(ConstAstVisitor *visitor, const AstNode *node)
                 format(getState(ctx), "\n", NULL);
             }
         }
+        else if (nodeIs(node->caseStmt.match, StringLit)) {
+            format(getState(ctx),
+                   "{u32}: {{{>}\n",
+                   (FormatArg[]){{.u32 = node->caseStmt.idx}});
+        }
         else if (nodeIs(node->caseStmt.match, RangeExpr)) {
             astConstVisit(visitor, node->caseStmt.match->rangeExpr.start);
             format(getState(ctx), " ... ", NULL);
diff --git a/src/cxy/lang/middle/sema/switch.c b/src/cxy/lang/middle/sema/switch.c
index c53d3ac..eca47dd 100644
--- a/src/cxy/lang/middle/sema/switch.c
+++ b/src/cxy/lang/middle/sema/switch.c
@@ -275,6 +275,7 @@ void checkSwitchStmt(AstVisitor *visitor, AstNode *node)
         case_->parentScope = node;
         type = case_->type;
 
+        case_->caseStmt.idx = i;
         if (case_->caseStmt.match)
             matches[i++] = (NodeComparisonContext){
                 .node = case_->caseStmt.match, .ctx = ctx};
-- 
2.43.0


From 294207360a452ac9a835bb956ab920ebc87a5ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:27 +0000
Subject: [PATCH 73/96] fix: what the condition of an else-if needs is computed
 only when the if is not taken

---
 src/cxy/lang/middle/shake/shake.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/shake/shake.c b/src/cxy/lang/middle/shake/shake.c
index d41a4a7..fe913b6 100644
--- a/src/cxy/lang/middle/shake/shake.c
+++ b/src/cxy/lang/middle/shake/shake.c
@@ -488,14 +488,15 @@ static void shakeIfStmt(AstVisitor *visitor, AstNode *node)
 
     if (node->ifStmt.otherwise) {
         AstNode *otherwise = node->ifStmt.otherwise;
-        if (!nodeIs(otherwise, BlockStmt) && !nodeIs(otherwise, IfStmt)) {
+        // `else if` also needs a block, what its condition needs goes there
+        if (!nodeIs(otherwise, BlockStmt) && !hasFlag(otherwise, Comptime)) {
             node->ifStmt.otherwise =
                 makeAstNode(ctx->pool,
                             &otherwise->loc,
                             &(AstNode){.tag = astBlockStmt,
                                        .blockStmt = {.stmts = otherwise}});
         }
-        astVisit(visitor, otherwise);
+        astVisit(visitor, node->ifStmt.otherwise);
     }
 }
 
-- 
2.43.0


From 76d269f444a463bb534b4d627ab94740cc1a358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:27 +0000
Subject: [PATCH 74/96] fix: && || ?: computed the arguments of calls in
 operands that are not evaluated

---
 src/cxy/lang/frontend/visitor.c         |  26 +++++
 src/cxy/lang/frontend/visitor.h         |   1 +
 src/cxy/lang/middle/simplify/simplify.c | 132 ++++++++++++++++++++++++
 3 files changed, 159 insertions(+)

diff --git a/src/cxy/lang/frontend/visitor.c b/src/cxy/lang/frontend/visitor.c
index f278f27..980cea5 100644
--- a/src/cxy/lang/frontend/visitor.c
+++ b/src/cxy/lang/frontend/visitor.c
@@ -429,6 +429,32 @@ void astModifierAdd(AstModifier *ctx, AstNode *node)
     ctx->previous = last;
 }
 
+// Takes back the nodes that were added since `mark` was `ctx->previous`
+AstNode *astModifierTake(AstModifier *ctx, AstNode *mark)
+{
+    if (ctx->previous == mark)
+        return NULL;
+
+    AstNode *first = NULL;
+    if (mark) {
+        first = mark->next;
+        mark->next = ctx->current;
+    }
+    else if (nodeIs(ctx->parent, Program)) {
+        first = ctx->parent->program.decls;
+        ctx->parent->program.decls = ctx->current;
+    }
+    else {
+        csAssert0(nodeIs(ctx->parent, BlockStmt));
+        first = ctx->parent->blockStmt.stmts;
+        ctx->parent->blockStmt.stmts = ctx->current;
+    }
+
+    ctx->previous->next = NULL;
+    ctx->previous = mark;
+    return first;
+}
+
 void astModifierAddAsNext(AstModifier *ctx, AstNode *node)
 {
     if (ctx->current) {
diff --git a/src/cxy/lang/frontend/visitor.h b/src/cxy/lang/frontend/visitor.h
index e892757..a2d11c7 100644
--- a/src/cxy/lang/frontend/visitor.h
+++ b/src/cxy/lang/frontend/visitor.h
@@ -67,6 +67,7 @@ void astConstVisitManyNodes(ConstAstVisitor *visitor, const AstNode *node);
 void astModifierInit(AstModifier *ctx, AstNode *node);
 void astModifierNext(AstModifier *ctx, AstNode *node);
 void astModifierAdd(AstModifier *ctx, AstNode *node);
+AstNode *astModifierTake(AstModifier *ctx, AstNode *mark);
 void astModifierAddAsNext(AstModifier *ctx, AstNode *node);
 void astModifierAddAsLast(AstModifier *ctx, AstNode *node);
 void astModifierAddHead(AstModifier *ctx, AstNode *node);
diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 5888615..6a4f112 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -867,8 +867,139 @@ static void visitIdentifier(AstVisitor *visitor, AstNode *node)
     }
 }
 
+static AstNode *makeConditionalBlock(SimplifyContext *ctx,
+                                     AstNode *hoisted,
+                                     AstNode *var,
+                                     AstNode *value)
+{
+    const FileLoc *loc = &value->loc;
+    AstNode *assign = makeExprStmt(
+        ctx->pool,
+        loc,
+        flgNone,
+        makeAssignExpr(
+            ctx->pool,
+            loc,
+            flgNone,
+            makeResolvedIdentifier(
+                ctx->pool, loc, var->_namedNode.name, 0, var, NULL, var->type),
+            opAssign,
+            value,
+            NULL,
+            var->type),
+        NULL,
+        var->type);
+    assign->exprStmt.expr->parentScope = assign;
+
+    if (hoisted)
+        getLastAstNode(hoisted)->next = assign;
+
+    return makeBlockStmt(
+        ctx->pool, loc, hoisted ?: assign, NULL, makeVoidType(ctx->types));
+}
+
+static void replaceWithVariable(AstNode *node, AstNode *var)
+{
+    clearAstBody(node);
+    node->tag = astIdentifier;
+    node->ident.value = var->_namedNode.name;
+    node->ident.resolvesTo = var;
+    node->flags |= flgMove;
+}
+
+// The temporaries that the right operand needs must only be computed when the
+// right operand is:  `a && b` becomes `var t = a; if (t) { ...; t = b; }`
+static void visitLogicalExpr(AstVisitor *visitor, AstNode *node)
+{
+    SimplifyContext *ctx = getAstVisitorContext(visitor);
+    AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
+    astVisit(visitor, lhs);
+
+    AstNode *mark = ctx->block.previous;
+    astVisit(visitor, rhs);
+    AstNode *hoisted = astModifierTake(&ctx->block, mark);
+    if (hoisted == NULL)
+        return;
+
+    AstNode *var = makeVarDecl(ctx->pool,
+                               &lhs->loc,
+                               flgTemporary,
+                               makeAnonymousVariable(ctx->strings, "_sc"),
+                               NULL,
+                               lhs,
+                               NULL,
+                               node->type);
+    AstNode *cond = makeResolvedIdentifier(ctx->pool,
+                                           &lhs->loc,
+                                           var->_namedNode.name,
+                                           0,
+                                           var,
+                                           NULL,
+                                           node->type);
+    if (node->binaryExpr.op == opLOr)
+        cond = makeUnaryExpr(ctx->pool,
+                             &lhs->loc,
+                             flgNone,
+                             true,
+                             opNot,
+                             cond,
+                             NULL,
+                             node->type);
+
+    astModifierAdd(&ctx->block, var);
+    astModifierAdd(&ctx->block,
+                   makeIfStmt(ctx->pool,
+                              &rhs->loc,
+                              flgNone,
+                              cond,
+                              makeConditionalBlock(ctx, hoisted, var, rhs),
+                              NULL,
+                              NULL));
+    replaceWithVariable(node, var);
+}
+
+static void visitTernaryExpr(AstVisitor *visitor, AstNode *node)
+{
+    SimplifyContext *ctx = getAstVisitorContext(visitor);
+    AstNode *cond = node->ternaryExpr.cond, *body = node->ternaryExpr.body,
+            *otherwise = node->ternaryExpr.otherwise;
+    astVisit(visitor, cond);
+
+    AstNode *mark = ctx->block.previous;
+    astVisit(visitor, body);
+    AstNode *onTrue = astModifierTake(&ctx->block, mark);
+    astVisit(visitor, otherwise);
+    AstNode *onFalse = astModifierTake(&ctx->block, mark);
+    if (onTrue == NULL && onFalse == NULL)
+        return;
+
+    AstNode *var = makeVarDecl(ctx->pool,
+                               &node->loc,
+                               flgTemporary,
+                               makeAnonymousVariable(ctx->strings, "_sc"),
+                               NULL,
+                               NULL,
+                               NULL,
+                               node->type);
+    astModifierAdd(&ctx->block, var);
+    astModifierAdd(&ctx->block,
+                   makeIfStmt(ctx->pool,
+                              &node->loc,
+                              flgNone,
+                              cond,
+                              makeConditionalBlock(ctx, onTrue, var, body),
+                              makeConditionalBlock(ctx, onFalse, var, otherwise),
+                              NULL));
+    replaceWithVariable(node, var);
+}
+
 static void visitBinaryExpr(AstVisitor *visitor, AstNode *node)
 {
+    if (node->binaryExpr.op == opLAnd || node->binaryExpr.op == opLOr) {
+        visitLogicalExpr(visitor, node);
+        return;
+    }
+
     astVisitFallbackVisitAll(visitor, node);
     SimplifyContext *ctx = getAstVisitorContext(visitor);
     AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
@@ -1452,6 +1583,7 @@ static AstNode *simplifyCode(CompilerDriver *driver, AstNode *node)
         [astPathElem] = visitPathElement,
         [astIdentifier] = visitIdentifier,
         [astBinaryExpr] = visitBinaryExpr,
+        [astTernaryExpr] = visitTernaryExpr,
         [astIndexExpr] = visitIndexExpr,
         [astCallExpr] = visitCallExpr,
         [astCastExpr] = visitCastExpr,
-- 
2.43.0


From 6c57f721a0c1aae348eaa67204e85a474bfd036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:16 +0000
Subject: [PATCH 75/96] fix: && || ?: evaluated calls that can raise in
 operands that are not evaluated

---
 src/cxy/lang/middle/sema/binary.c    | 48 ++++++++++++++++++++++++++
 src/cxy/lang/middle/sema/check.c     | 32 +++++++++++++++--
 src/cxy/lang/middle/sema/check.h     |  5 +++
 src/cxy/lang/middle/sema/exception.c | 51 ++++++++++++++++++++++++++++
 4 files changed, 134 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index 422c072..e20f8a0 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -177,6 +177,51 @@ static AstNode *makeStringObject(TypingContext *ctx, AstNode *expr)
                         NULL);
 }
 
+// What the right operand needs (e.g. the check that a call did not raise) must
+// only happen when the right operand is evaluated:
+// `a && b` becomes `var t = a; if (t) { ...; t = b; }`
+static void makeRightOperandLazy(TypingContext *ctx,
+                                 AstNode *node,
+                                 AstNode *mark)
+{
+    AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
+    AstNode *hoisted = astModifierTake(&ctx->blockModifier, mark);
+    if (hoisted == NULL)
+        return;
+
+    const Type *type = getPrimitiveType(ctx->types, prtBool);
+    AstNode *var = makeVarDecl(ctx->pool,
+                               &lhs->loc,
+                               flgTemporary,
+                               makeAnonymousVariable(ctx->strings, "_sc"),
+                               NULL,
+                               lhs,
+                               NULL,
+                               type);
+    AstNode *cond = makeResolvedPath(
+        ctx->pool, &lhs->loc, var->_name, flgNone, var, NULL, type);
+    if (node->binaryExpr.op == opLOr)
+        cond = makeUnaryExpr(ctx->pool,
+                             &lhs->loc,
+                             flgNone,
+                             true,
+                             opNot,
+                             cond,
+                             NULL,
+                             type);
+
+    astModifierAdd(&ctx->blockModifier, var);
+    astModifierAdd(&ctx->blockModifier,
+                   makeIfStmt(ctx->pool,
+                              &rhs->loc,
+                              flgNone,
+                              cond,
+                              makeConditionalBlock(ctx, hoisted, var, rhs),
+                              NULL,
+                              NULL));
+    replaceWithVariable(ctx, node, var);
+}
+
 void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
@@ -221,6 +266,7 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
     ctx->catcher.variable = NULL;
     ctx->catcher.result = NULL;
     ctx->catcher.ex = NULL;
+    AstNode *mark = ctx->blockModifier.previous;
     const Type *right = checkType(visitor, node->binaryExpr.rhs);
     newCatcher = ctx->catcher;
     ctx->catcher = catcher;
@@ -313,6 +359,8 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
                      (FormatArg[]){{.s = getBinaryOpString(op)}, {.t = type}});
             node->type = ERROR_TYPE(ctx);
         }
+        else
+            makeRightOperandLazy(ctx, node, mark);
         break;
 
     case optComparison:
diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index e0daa07..2d1bbf7 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -768,8 +768,11 @@ static void checkTernaryExpr(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
     const Type *cond = checkType(visitor, node->ternaryExpr.cond);
+    AstNode *mark = ctx->blockModifier.previous;
     const Type *body = checkType(visitor, node->ternaryExpr.body);
+    AstNode *onTrue = astModifierTake(&ctx->blockModifier, mark);
     const Type *otherwise = checkType(visitor, node->ternaryExpr.otherwise);
+    AstNode *onFalse = astModifierTake(&ctx->blockModifier, mark);
 
     if (typeIs(cond, Error) || //
         typeIs(body, Error) || //
@@ -796,9 +799,34 @@ static void checkTernaryExpr(AstVisitor *visitor, AstNode *node)
                  "'{t}' and '{t}'",
                  (FormatArg[]){{.t = body}, {.t = otherwise}});
         node->type = ERROR_TYPE(ctx);
+        return;
     }
-    else
-        node->type = body;
+    node->type = body;
+
+    if (onTrue == NULL && onFalse == NULL)
+        return;
+
+    // What a branch needs (e.g. the check that a call did not raise) must only
+    // happen when the branch is taken
+    AstNode *var = makeVarDecl(ctx->pool,
+                               &node->loc,
+                               flgTemporary,
+                               makeAnonymousVariable(ctx->strings, "_sc"),
+                               NULL,
+                               NULL,
+                               NULL,
+                               unwrapType(body, NULL));
+    AstNode *branch = makeIfStmt(
+        ctx->pool,
+        &node->loc,
+        flgNone,
+        node->ternaryExpr.cond,
+        makeConditionalBlock(ctx, onTrue, var, node->ternaryExpr.body),
+        makeConditionalBlock(ctx, onFalse, var, node->ternaryExpr.otherwise),
+        NULL);
+    astModifierAdd(&ctx->blockModifier, var);
+    astModifierAdd(&ctx->blockModifier, branch);
+    replaceWithVariable(ctx, node, var);
 }
 
 const FileLoc *manyNodesLoc_(FileLoc *dst, AstNode *nodes)
diff --git a/src/cxy/lang/middle/sema/check.h b/src/cxy/lang/middle/sema/check.h
index eadff23..6fef674 100644
--- a/src/cxy/lang/middle/sema/check.h
+++ b/src/cxy/lang/middle/sema/check.h
@@ -123,6 +123,11 @@ void checkCatchBinaryOperator(AstVisitor *visitor,
                               AstNode *node,
                               struct ExceptionCather *catcher);
 
+AstNode *makeConditionalBlock(TypingContext *ctx,
+                              AstNode *hoisted,
+                              AstNode *var,
+                              AstNode *value);
+void replaceWithVariable(TypingContext *ctx, AstNode *node, AstNode *var);
 void checkCallExceptionBubbleUp(AstVisitor *visitor, AstNode *node);
 
 AstNode *makeDropReferenceCall(TypingContext *ctx,
diff --git a/src/cxy/lang/middle/sema/exception.c b/src/cxy/lang/middle/sema/exception.c
index 06de66f..7126829 100644
--- a/src/cxy/lang/middle/sema/exception.c
+++ b/src/cxy/lang/middle/sema/exception.c
@@ -347,6 +347,57 @@ void checkCatchBinaryOperator(AstVisitor *visitor,
     }
 }
 
+// { hoisted...; var = value; }
+AstNode *makeConditionalBlock(TypingContext *ctx,
+                              AstNode *hoisted,
+                              AstNode *var,
+                              AstNode *value)
+{
+    const FileLoc *loc = &value->loc;
+    AstNode *assign =
+        makeExprStmt(ctx->pool,
+                     loc,
+                     flgNone,
+                     makeAssignExpr(ctx->pool,
+                                    loc,
+                                    flgNone,
+                                    makeResolvedPath(ctx->pool,
+                                                     loc,
+                                                     var->_name,
+                                                     flgNone,
+                                                     var,
+                                                     NULL,
+                                                     var->type),
+                                    opAssign,
+                                    value,
+                                    NULL,
+                                    var->type),
+                     NULL,
+                     makeVoidType(ctx->types));
+    assign->exprStmt.expr->parentScope = assign;
+
+    if (hoisted)
+        getLastAstNode(hoisted)->next = assign;
+
+    return makeBlockStmt(
+        ctx->pool, loc, hoisted ?: assign, NULL, makeVoidType(ctx->types));
+}
+
+void replaceWithVariable(TypingContext *ctx, AstNode *node, AstNode *var)
+{
+    clearAstBody(node);
+    node->tag = astPath;
+    node->path.elements = makeResolvedPathElement(ctx->pool,
+                                                  &node->loc,
+                                                  var->_name,
+                                                  var->flags,
+                                                  var,
+                                                  NULL,
+                                                  var->type);
+    node->type = var->type;
+    node->flags |= flgMove;
+}
+
 void checkCallExceptionBubbleUp(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
-- 
2.43.0


From 21b479cb524750bb5526bf94aa5b5dc0b32f1b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:06 +0000
Subject: [PATCH 76/96] fix: a constant argument was not taken as exactly of
 its type when an overload is chosen

---
 src/cxy/lang/middle/sema/function.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/middle/sema/function.c b/src/cxy/lang/middle/sema/function.c
index 10ced8b..f84a4a5 100644
--- a/src/cxy/lang/middle/sema/function.c
+++ b/src/cxy/lang/middle/sema/function.c
@@ -78,7 +78,11 @@ const Type *matchOverloadedFunctionPerfectMatch(Log *L,
     AstNode *decls = callee->func.decl->list.first ?: callee->func.decl,
             *decl = decls;
     const Type *found = NULL;
-    u64 maxScore = argsCount * 2, matchScore = 0, declarations = 0;
+    // An argument that has to be converted weighs more than any number of
+    // arguments that merely are constants of the parameter's type
+    const u64 conversion = argsCount + 1;
+    u64 maxScore = argsCount * (conversion + 1), matchScore = 0,
+        declarations = 0;
 
     for (; decl; decl = decl->list.link) {
         const Type *type = decl->type;
@@ -111,12 +115,14 @@ const Type *matchOverloadedFunctionPerfectMatch(Log *L,
             if (!perfectMatch) {
                 compatible = isTypeAssignableFrom(paramType, argType);
                 if (compatible) {
-                    score--;
+                    bool sameType = unwrapType(paramType, NULL) ==
+                                    unwrapType(argType, NULL);
+                    score -= sameType ? 1 : conversion;
                     continue;
                 }
                 compatible = isExplicitConstructableFrom(L, paramType, argType);
                 if (compatible) {
-                    score--;
+                    score -= conversion;
                     continue;
                 }
                 break;
-- 
2.43.0


From 0ea4103ad2cf79c2790d26f6a779e6ea04741ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:55 +0000
Subject: [PATCH 77/96] fix: catch on a call that does not raise crashed the
 compiler

---
 src/cxy/lang/middle/sema/binary.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index e20f8a0..579a517 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -232,6 +232,15 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
 
     Operator op = node->binaryExpr.op;
     BinaryOperatorKind opKind = getBinaryOperatorKind(op);
+    if (op == opCatch && !typeIs(left, Error) &&
+        !isResultType(resolveUnThisUnwrapType(left))) {
+        logError(ctx->L,
+                 &lhs->loc,
+                 "catch used with a statement that does not throw",
+                 NULL);
+        node->type = ERROR_TYPE(ctx);
+        return;
+    }
     bool isNullEquality = opKind == optEquality && nodeIs(rhs, NullLit);
 
     if ((opKind == optComparison || opKind == optEquality) &&
-- 
2.43.0


From 829665e3d5b182ea48bad6ab8148983b206fb5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:55 +0000
Subject: [PATCH 78/96] fix: an array initializer longer than the array was
 accepted

---
 src/cxy/lang/middle/sema/variables.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/variables.c b/src/cxy/lang/middle/sema/variables.c
index 2724303..e17bfd2 100644
--- a/src/cxy/lang/middle/sema/variables.c
+++ b/src/cxy/lang/middle/sema/variables.c
@@ -60,8 +60,10 @@ void checkVarDecl(AstVisitor *visitor, AstNode *node)
         const Type *target = resolveAndUnThisType(
                        unwrapType(type_, NULL)->array.elementType),
                    *initTarget = resolveAndUnThisType(init_->array.elementType);
-        if (!typeIs(initTarget, Auto) &&
-            !isTypeAssignableFrom(target, initTarget)) {
+        u64 len = unwrapType(type_, NULL)->array.len;
+        if ((!typeIs(initTarget, Auto) &&
+             !isTypeAssignableFrom(target, initTarget)) ||
+            init_->array.len > len) {
             logError(ctx->L,
                      &node->loc,
                      "array initializer of type {t} cannot be assigned to "
-- 
2.43.0


From 84beb1c40e3b6ba98180ac8e1aac210a8f393bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:55 +0000
Subject: [PATCH 79/96] fix: assignment to and ++ of temporary values were
 accepted

---
 src/cxy/lang/middle/sema/assign.c | 43 +++++++++++++++++++++++++++++--
 src/cxy/lang/middle/sema/check.h  |  1 +
 src/cxy/lang/middle/sema/unary.c  | 16 ++++++++++++
 3 files changed, 58 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/assign.c b/src/cxy/lang/middle/sema/assign.c
index 116d98d..08256c1 100644
--- a/src/cxy/lang/middle/sema/assign.c
+++ b/src/cxy/lang/middle/sema/assign.c
@@ -53,6 +53,39 @@ static bool isAssignOperatorSupported(Operator op,
     }
 }
 
+// The value of such an expression is not kept anywhere, it cannot be changed
+bool isTemporaryExpr(const AstNode *node)
+{
+    switch (node->tag) {
+    case astNullLit:
+    case astBoolLit:
+    case astCharLit:
+    case astIntegerLit:
+    case astFloatLit:
+    case astStringLit:
+    case astBinaryExpr:
+    case astTernaryExpr:
+    case astTupleExpr:
+    case astStructExpr:
+    case astArrayExpr:
+        return true;
+    case astCallExpr:
+        return node->type && !typeIs(unwrapType(node->type, NULL), Reference);
+    case astGroupExpr:
+        return isTemporaryExpr(node->groupExpr.expr);
+    case astMemberExpr: {
+        const Type *target = node->memberExpr.target->type;
+        if (target == NULL)
+            return false;
+        target = resolveUnThisUnwrapType(target);
+        return (typeIs(target, Struct) || typeIs(target, Tuple)) &&
+               isTemporaryExpr(node->memberExpr.target);
+    }
+    default:
+        return false;
+    }
+}
+
 void checkAssignExpr(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
@@ -122,8 +155,14 @@ void checkAssignExpr(AstVisitor *visitor, AstNode *node)
 
     bool isLeftAuto = typeIs(lhs, Auto);
 
-    // TODO check r-value-ness
-    if ((flags & flgConst) || hasFlag(left, Const) || hasFlag(lhs, Const)) {
+    if (isTemporaryExpr(left)) {
+        logError(ctx->L,
+                 &left->loc,
+                 "lhs of assignment expression is a temporary value",
+                 NULL);
+        node->type = ERROR_TYPE(ctx);
+    }
+    else if ((flags & flgConst) || hasFlag(left, Const) || hasFlag(lhs, Const)) {
         logError(ctx->L,
                  &node->loc,
                  "lhs of assignment expressions is a constant",
diff --git a/src/cxy/lang/middle/sema/check.h b/src/cxy/lang/middle/sema/check.h
index 6fef674..abba191 100644
--- a/src/cxy/lang/middle/sema/check.h
+++ b/src/cxy/lang/middle/sema/check.h
@@ -229,6 +229,7 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node);
 void checkUnaryExpr(AstVisitor *visitor, AstNode *node);
 void checkPointerOfExpr(AstVisitor *visitor, AstNode *node);
 void checkReferenceOfExpr(AstVisitor *visitor, AstNode *node);
+bool isTemporaryExpr(const AstNode *node);
 void checkAssignExpr(AstVisitor *visitor, AstNode *node);
 void checkIndexExpr(AstVisitor *visitor, AstNode *node);
 void checkStructExpr(AstVisitor *visitor, AstNode *node);
diff --git a/src/cxy/lang/middle/sema/unary.c b/src/cxy/lang/middle/sema/unary.c
index d6365e4..cc2f4c1 100644
--- a/src/cxy/lang/middle/sema/unary.c
+++ b/src/cxy/lang/middle/sema/unary.c
@@ -65,6 +65,15 @@ static const Type *checkPrefixExpr(AstVisitor *visitor,
             operand = ERROR_TYPE(ctx);
             break;
         }
+        if (isTemporaryExpr(node->unaryExpr.operand)) {
+            logError(
+                ctx->L,
+                &node->loc,
+                "prefix operation '{s}' cannot be performed on a temporary",
+                (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)}});
+            operand = ERROR_TYPE(ctx);
+            break;
+        }
         // fallthrough
     case opMinus:
     case opPlus:
@@ -274,6 +283,13 @@ void checkUnaryExpr(AstVisitor *visitor, AstNode *node)
                  (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)}});
         operand = ERROR_TYPE(ctx);
     }
+    else if (isTemporaryExpr(node->unaryExpr.operand)) {
+        logError(ctx->L,
+                 &node->loc,
+                 "postfix operation '{s}' cannot be performed on a temporary",
+                 (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)}});
+        operand = ERROR_TYPE(ctx);
+    }
     else if (!isNumericType(operand)) {
         logError(ctx->L,
                  &node->unaryExpr.operand->loc,
-- 
2.43.0


From fb2c193417604248e612ef0183378579a6d40511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:44 +0000
Subject: [PATCH 80/96] fix: assigning to an index of a string crashed the
 compiler

---
 src/cxy/lang/middle/sema/assign.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/assign.c b/src/cxy/lang/middle/sema/assign.c
index 08256c1..793bc8d 100644
--- a/src/cxy/lang/middle/sema/assign.c
+++ b/src/cxy/lang/middle/sema/assign.c
@@ -105,7 +105,7 @@ void checkAssignExpr(AstVisitor *visitor, AstNode *node)
             return;
         }
         target = unwrapType(target, &flags);
-        if (isPointerType(target)) {
+        if (isPointerType(target) && !typeIs(target, String)) {
             lhs = typeIs(target, Pointer) ? target->pointer.pointed
                                           : target->array.elementType;
             left->type = lhs;
-- 
2.43.0


From ae99fb3dedb62c81cf5db8c790040a51a3f302a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:22 +0000
Subject: [PATCH 81/96] fix: a declaration of more variables than the tuple has
 values was accepted

---
 src/cxy/lang/middle/shake/shake.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cxy/lang/middle/shake/shake.c b/src/cxy/lang/middle/shake/shake.c
index fe913b6..0814bf7 100644
--- a/src/cxy/lang/middle/shake/shake.c
+++ b/src/cxy/lang/middle/shake/shake.c
@@ -391,6 +391,18 @@ static void shakeVariableDecl(AstVisitor *visitor, AstNode *node)
 
     AstNode *tuple = shakeVariableInitializer(ctx, init);
 
+    if (nodeIs(tuple, TupleExpr) &&
+        countAstNodes(names) > countAstNodes(tuple->tupleExpr.elements)) {
+        logError(ctx->L,
+                 &node->loc,
+                 "multi-variable declaration has {u64} variables, but its "
+                 "initializer only has {u64} values",
+                 (FormatArg[]){
+                     {.u64 = countAstNodes(names)},
+                     {.u64 = countAstNodes(tuple->tupleExpr.elements)}});
+        return;
+    }
+
     AstNode *vars = NULL, *it = NULL;
     u64 i = 0;
     for (; name; i++) {
-- 
2.43.0


From babe94d0130a56d05d70f75dd542a984a6227b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:26 +0000
Subject: [PATCH 82/96] fix: a wrong implementation of an interface method
 crashed the compiler

---
 src/cxy/lang/middle/sema/interface.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/interface.c b/src/cxy/lang/middle/sema/interface.c
index 76de477..a5633b7 100644
--- a/src/cxy/lang/middle/sema/interface.c
+++ b/src/cxy/lang/middle/sema/interface.c
@@ -49,7 +49,9 @@ void checkImplements(AstVisitor *visitor,
 
 bool checkTypeImplementsAllMembers(TypingContext *ctx, AstNode *node)
 {
-    const TypeInheritance *inheritance = getTypeInheritance(node->type);
+    // errors set the type of the node while members are still being looked up
+    const Type *type = node->type;
+    const TypeInheritance *inheritance = getTypeInheritance(type);
     csAssert0(inheritance);
 
     for (u64 i = 0; i < inheritance->interfacesCount; i++) {
@@ -58,7 +60,7 @@ bool checkTypeImplementsAllMembers(TypingContext *ctx, AstNode *node)
             const NamedTypeMember *member =
                 &interface->tInterface.members->members[j];
             const NamedTypeMember *found =
-                findStructMember(node->type, member->name);
+                findStructMember(type, member->name);
             if (found == NULL || !typeIs(found->type, Func)) {
                 logError(ctx->L,
                          &getNodeAtIndex(node->classDecl.implements, i)->loc,
-- 
2.43.0


From fb3bdaf0ac8ca9c19faf83a828bca38393045e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:26 +0000
Subject: [PATCH 83/96] fix: a struct that inherits from a primitive type
 crashed the compiler

---
 src/cxy/lang/middle/bind/resolve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/bind/resolve.c b/src/cxy/lang/middle/bind/resolve.c
index afe2948..5edf2d0 100644
--- a/src/cxy/lang/middle/bind/resolve.c
+++ b/src/cxy/lang/middle/bind/resolve.c
@@ -27,7 +27,7 @@ static void bindInheritBaseFields(AstVisitor *visitor, AstNode *node)
     AstNodeList list = {};
     AstNode *base = node->structDecl.base;
     astVisit(visitor, base);
-    AstNode *target = resolvePath(base);
+    AstNode *target = nodeIs(base, Path) ? resolvePath(base) : NULL;
     if (!nodeIs(target, StructDecl)) {
         logError(ctx->L,
                  &base->loc,
-- 
2.43.0


From 61b95b34c48ecc88b20cac92311f4c70a237f09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:26 +0000
Subject: [PATCH 84/96] fix: a class that extends itself crashed the compiler

---
 src/cxy/lang/middle/sema/class.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/cxy/lang/middle/sema/class.c b/src/cxy/lang/middle/sema/class.c
index a1f2cec..cbb4b4c 100644
--- a/src/cxy/lang/middle/sema/class.c
+++ b/src/cxy/lang/middle/sema/class.c
@@ -37,9 +37,37 @@ static void inheritClassMembers(TypingContext *ctx,
     }
 }
 
+static AstNode *getBaseClassDecl(AstNode *node)
+{
+    AstNode *base = node->classDecl.base;
+    base = nodeIs(base, Path) ? resolvePath(base) : NULL;
+    return nodeIs(base, ClassDecl) ? base : NULL;
+}
+
+static bool inheritsFromItself(AstNode *node)
+{
+    AstNode *base = getBaseClassDecl(node), *slow = base;
+    for (bool move = false; base && base != node; move = !move) {
+        base = getBaseClassDecl(base);
+        slow = move ? getBaseClassDecl(slow) : slow;
+        if (base == slow)
+            break; // a cycle further up, reported for its members
+    }
+    return base == node;
+}
+
 void checkBaseDecl(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
+    if (nodeIs(node, ClassDecl) && inheritsFromItself(node)) {
+        logError(ctx->L,
+                 &node->classDecl.base->loc,
+                 "class '{s}' cannot extend itself",
+                 (FormatArg[]){{.s = node->classDecl.name}});
+        node->type = ERROR_TYPE(ctx);
+        return;
+    }
+
     const Type *base = checkType(visitor, node->classDecl.base);
     csAssert0(base);
     if (typeIs(base, Error)) {
-- 
2.43.0


From efb5e280e24d210b1e94f4eb1ae2ee678a1fc7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:04 +0000
Subject: [PATCH 85/96] fix: a cast of an enum constant to a number crashed the
 compiler

---
 src/cxy/lang/middle/sema/cast.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/cxy/lang/middle/sema/cast.c b/src/cxy/lang/middle/sema/cast.c
index a17d4c5..532ddb7 100644
--- a/src/cxy/lang/middle/sema/cast.c
+++ b/src/cxy/lang/middle/sema/cast.c
@@ -63,6 +63,18 @@ static void castLiteral(TypingContext *ctx, AstNode *node)
             // not a literal itself, converted when evaluated
             return;
         }
+        if (isEnumLiteral(expr)) {
+            i64 value = getEnumLiteralValue(expr);
+            expr->tag = astIntegerLit;
+            if (value < 0) {
+                expr->intLiteral.isNegative = true;
+                expr->intLiteral.value = value;
+            }
+            else {
+                expr->intLiteral.isNegative = false;
+                expr->intLiteral.uValue = value;
+            }
+        }
         expr->type = node->type;
         if (isIntegerType(node->type)) {
             if (nodeIs(expr, FloatLit)) {
@@ -86,18 +98,6 @@ static void castLiteral(TypingContext *ctx, AstNode *node)
                 expr->intLiteral.isNegative = false;
                 expr->intLiteral.uValue = expr->boolLiteral.value ? 1 : 0;
             }
-            else if (isEnumLiteral(expr)) {
-                i64 value = getEnumLiteralValue(expr);
-                expr->tag = astIntegerLit;
-                if (value < 0) {
-                    expr->intLiteral.isNegative = true;
-                    expr->intLiteral.value = value;
-                }
-                else {
-                    expr->intLiteral.isNegative = false;
-                    expr->intLiteral.uValue = value;
-                }
-            }
             else {
                 csAssert0(nodeIs(expr, IntegerLit));
             }
-- 
2.43.0


From c92a838e6ff9ff91b7c97e3e39a59638de5a9203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:12 +0000
Subject: [PATCH 86/96] fix: casts of literals to types they cannot have or to
 floating point types crashed the compiler

---
 src/cxy/lang/middle/sema/cast.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/cast.c b/src/cxy/lang/middle/sema/cast.c
index 532ddb7..3b4453d 100644
--- a/src/cxy/lang/middle/sema/cast.c
+++ b/src/cxy/lang/middle/sema/cast.c
@@ -106,7 +106,11 @@ static void castLiteral(TypingContext *ctx, AstNode *node)
         }
         else if (isFloatType(node->type)) {
             if (!nodeIs(expr, FloatLit)) {
-                expr->floatLiteral.value = (f64)integerLiteralValue(expr);
+                bool isUnsigned =
+                    nodeIs(expr, IntegerLit) && !expr->intLiteral.isNegative;
+                expr->floatLiteral.value =
+                    isUnsigned ? (f64)expr->intLiteral.uValue
+                               : nodeGetNumericLiteral(expr);
                 expr->tag = astFloatLit;
             }
             if (node->type->primitive.id == prtF32)
@@ -116,10 +120,16 @@ static void castLiteral(TypingContext *ctx, AstNode *node)
         else if (isCharacterType(node->type)) {
             expr->tag = astCharLit;
             expr->charLiteral.value = (i32)nodeGetNumericLiteral(expr);
-            if (node->primitiveType.id == prtCChar)
+            if (node->type->primitive.id == prtCChar)
                 expr->charLiteral.value = (u8)expr->charLiteral.value;
             replaceAstNodeWith(node, expr);
         }
+        else if (isBooleanType(node->type)) {
+            bool value = nodeGetNumericLiteral(expr) != 0;
+            expr->tag = astBoolLit;
+            expr->boolLiteral.value = value;
+            replaceAstNodeWith(node, expr);
+        }
         else {
             unreachable("UNSUPPORTED CAST");
         }
@@ -131,11 +141,17 @@ void checkCastExpr(AstVisitor *visitor, AstNode *node)
     TypingContext *ctx = getAstVisitorContext(visitor);
     const Type *expr = checkType(visitor, node->castExpr.expr);
     const Type *target = checkType(visitor, node->castExpr.to);
+    if (typeIs(expr, Error) || typeIs(target, Error)) {
+        node->type = ERROR_TYPE(ctx);
+        return;
+    }
     if (!isTypeCastAssignable(target, expr)) {
         logError(ctx->L,
                  &node->loc,
                  "type '{t}' cannot be cast to type '{t}'",
                  (FormatArg[]){{.t = expr}, {.t = target}});
+        node->type = ERROR_TYPE(ctx);
+        return;
     }
     node->type = target;
     if (typeIs(unwrapType(expr, NULL), Union)) {
-- 
2.43.0


From a58f9f5cc2ebb8095dc73b6d91c43d6defb9f6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:36 +0000
Subject: [PATCH 87/96] fix: an enum option with a value that is no integer
 literal crashed the compiler

---
 src/cxy/lang/middle/bind/resolve.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/bind/resolve.c b/src/cxy/lang/middle/bind/resolve.c
index 5edf2d0..3913241 100644
--- a/src/cxy/lang/middle/bind/resolve.c
+++ b/src/cxy/lang/middle/bind/resolve.c
@@ -455,7 +455,13 @@ void bindEnumDecl(AstVisitor *visitor, AstNode *node)
             continue;
         }
 
-        TODO("support paths when eval is implemented");
+        // TODO support paths when eval is implemented
+        logError(ctx->L,
+                 &value->loc,
+                 "value of enum option '{s}' must be an integer literal",
+                 (FormatArg[]){{.s = option->enumOption.name}});
+        option->enumOption.value = makeIntegerLiteral(
+            ctx->pool, &option->loc, nextValue++, NULL, NULL);
     }
     node->enumDecl.len = i;
     popScope(ctx->env);
-- 
2.43.0


From d9485401f41beca81757a7271fa38cd5b91ce489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:35 +0000
Subject: [PATCH 88/96] fix: a struct missed the fields its base inherits when
 the base is declared later

---
 src/cxy/lang/middle/bind/resolve.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cxy/lang/middle/bind/resolve.c b/src/cxy/lang/middle/bind/resolve.c
index 3913241..adab2de 100644
--- a/src/cxy/lang/middle/bind/resolve.c
+++ b/src/cxy/lang/middle/bind/resolve.c
@@ -26,6 +26,8 @@ static void bindInheritBaseFields(AstVisitor *visitor, AstNode *node)
     BindContext *ctx = getAstVisitorContext(visitor);
     AstNodeList list = {};
     AstNode *base = node->structDecl.base;
+    // inherited once, perhaps for a struct that inherits from this one
+    node->structDecl.base = NULL;
     astVisit(visitor, base);
     AstNode *target = nodeIs(base, Path) ? resolvePath(base) : NULL;
     if (!nodeIs(target, StructDecl)) {
@@ -35,6 +37,9 @@ static void bindInheritBaseFields(AstVisitor *visitor, AstNode *node)
                  NULL);
         return;
     }
+    if (target->structDecl.base)
+        bindInheritBaseFields(visitor, target);
+
     AstNode *member = target->structDecl.members;
     for (; member; member = member->next) {
         if (nodeIs(member, FieldDecl)) {
-- 
2.43.0


From 4f62af1e5a3cc689658b713c55051055f03bca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:19 +0000
Subject: [PATCH 89/96] fix: an overload declared after a wrong one crashed the
 compiler

---
 src/cxy/lang/middle/sema/function.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cxy/lang/middle/sema/function.c b/src/cxy/lang/middle/sema/function.c
index f84a4a5..cc84cc4 100644
--- a/src/cxy/lang/middle/sema/function.c
+++ b/src/cxy/lang/middle/sema/function.c
@@ -347,6 +347,11 @@ const Type *checkFunctionSignature(AstVisitor *visitor, AstNode *node)
                                                 NULL,
                                                 node->flags & flgConst,
                                                 true);
+        if (found && typeIs(found, Error)) {
+            free(params_);
+            return node->type = ERROR_TYPE(ctx);
+        }
+
         if (found && found->func.decl != node) {
             // conflict
             logError(
-- 
2.43.0


From e23c2a5e4dfa130e09f20dfff27dfc8d0ef3b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:54 +0000
Subject: [PATCH 90/96] fix: unknown names in a class that extends itself made
 the compiler loop

---
 src/cxy/lang/middle/bind/resolve.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/bind/resolve.c b/src/cxy/lang/middle/bind/resolve.c
index adab2de..a10ff82 100644
--- a/src/cxy/lang/middle/bind/resolve.c
+++ b/src/cxy/lang/middle/bind/resolve.c
@@ -139,11 +139,15 @@ static AstNode *resolvePathBaseUpChain(AstVisitor *visitor, AstNode *path)
         return resolved;
     }
 
-    AstNode *base = resolvePath(parent->classDecl.base);
+    AstNode *base = resolvePath(parent->classDecl.base), *seen = NULL;
 
-    // lookup symbol upstream
+    // lookup symbol upstream, once for classes that extend themselves
     for (u64 i = 1; isClassDeclaration(base);
          base = resolvePath(underlyingDeclaration(base)->classDecl.base), i++) {
+        if (base == seen)
+            break;
+        if ((i & (i - 1)) == 0)
+            seen = base;
         if (base->type)
             resolved = findMemberDeclInType(
                 base->type, root->pathElement.alt ?: root->pathElement.name);
-- 
2.43.0


From 1f9168d0ac6909bc035f56cb750cb52c030548f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:02 +0000
Subject: [PATCH 91/96] fix: a class whose base extends a primitive type
 crashed the compiler when it uses an unknown name

---
 src/cxy/lang/frontend/ast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/ast.c b/src/cxy/lang/frontend/ast.c
index 619adfb..e5dbf38 100644
--- a/src/cxy/lang/frontend/ast.c
+++ b/src/cxy/lang/frontend/ast.c
@@ -2792,7 +2792,7 @@ AstNode *findInComptimeIterable(AstNode *node, cstring name)
 
 AstNode *resolvePath(const AstNode *path)
 {
-    if (path == NULL)
+    if (!nodeIs(path, Path))
         return NULL;
 
     AstNode *base = path->path.elements;
-- 
2.43.0


From a7aca83aecc99d04ae232d4e0daf66853c808b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:57 +0000
Subject: [PATCH 92/96] fix: a function with the name of an imported one
 crashed the compiler

---
 src/cxy/lang/middle/bind/scope.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/bind/scope.c b/src/cxy/lang/middle/bind/scope.c
index 7d189d0..9b52f64 100644
--- a/src/cxy/lang/middle/bind/scope.c
+++ b/src/cxy/lang/middle/bind/scope.c
@@ -196,7 +196,9 @@ void defineFunctionDecl(Env *env, Log *L, const char *name, AstNode *node)
         &env->scope->symbols, &symbol, hash, sizeof(Symbol), compareSymbols);
     csAssert0(sym);
 
-    if (!wasInserted && L && !nodeIs(sym->node, FuncDecl)) {
+    // names of imported functions are not overloaded here
+    bool overload = nodeIs(sym->node, FuncDecl) && sym->last != NULL;
+    if (!wasInserted && L && !overload) {
         logError(L,
                  &node->loc,
                  "symbol '{s}' already defined in current scope",
@@ -204,7 +206,7 @@ void defineFunctionDecl(Env *env, Log *L, const char *name, AstNode *node)
 
         logNote(L, &sym->node->loc, "previously declared here", NULL);
     }
-    else if (!wasInserted) {
+    else if (!wasInserted && overload) {
         node->funcDecl.index = sym->index;
         sym->last->list.link = node;
         sym->last = node;
-- 
2.43.0


From 66686067bd73eb228cb17b8f21ee36a375d26191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:21 +0000
Subject: [PATCH 93/96] fix: modules that import each other crashed the
 compiler

---
 src/cxy/driver/driver.c | 40 +++++++++++++++++++++++++++++++++++++++-
 src/cxy/driver/driver.h |  1 +
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/cxy/driver/driver.c b/src/cxy/driver/driver.c
index 60a68a0..2fed23b 100644
--- a/src/cxy/driver/driver.c
+++ b/src/cxy/driver/driver.c
@@ -74,6 +74,35 @@ static AstNode *findCachedModule(CompilerDriver *driver, cstring path)
     return NULL;
 }
 
+typedef struct ModuleImport {
+    cstring path;
+    struct ModuleImport *prev;
+} ModuleImport;
+
+static bool isModuleBeingImported(const CompilerDriver *driver, cstring path)
+{
+    const ModuleImport *it = driver->importing;
+    for (; it; it = it->prev) {
+        if (strcmp(it->path, path) == 0)
+            return true;
+    }
+    return false;
+}
+
+static AstNode *parseFile(CompilerDriver *driver,
+                          const char *fileName,
+                          bool testMode);
+
+static AstNode *parseImportedModule(CompilerDriver *driver, cstring path)
+{
+    ModuleImport *import = allocFromMemPool(driver->pool, sizeof(ModuleImport));
+    *import = (ModuleImport){.path = path, .prev = driver->importing};
+    driver->importing = import;
+    AstNode *program = parseFile(driver, path, false);
+    driver->importing = import->prev;
+    return program;
+}
+
 static void addCachedModule(CompilerDriver *driver,
                             cstring path,
                             AstNode *program)
@@ -424,7 +453,16 @@ const Type *compileModule(CompilerDriver *driver,
                 return NULL;
             }
 
-            program = parseFile(driver, path, false);
+            if (isModuleBeingImported(driver, path)) {
+                logError(driver->L,
+                         &source->loc,
+                         "module source '{s}' imports itself, directly or "
+                         "through the modules it imports",
+                         (FormatArg[]){{.s = path}});
+                return NULL;
+            }
+
+            program = parseImportedModule(driver, path);
             if (program == NULL)
                 return NULL;
 
diff --git a/src/cxy/driver/driver.h b/src/cxy/driver/driver.h
index 811bf00..3b3b773 100644
--- a/src/cxy/driver/driver.h
+++ b/src/cxy/driver/driver.h
@@ -45,6 +45,7 @@ typedef struct CompilerDriver {
     MemPool *pool;
     StrPool *strings;
     HashTable moduleCache;
+    struct ModuleImport *importing; // modules whose import is in progress
     HashTable nativeSources;
     HashTable linkLibraries;
     cstring currentDir; // Directory that cxy was executed from
-- 
2.43.0


From 5e5d474482440ef867476e6ec08b096c04fa38bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:33 +0000
Subject: [PATCH 94/96] fix: a chain of more than fifteen imports crashed the
 compiler

---
 src/cxy/core/e4c.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/core/e4c.h b/src/cxy/core/e4c.h
index 585b863..0332f19 100644
--- a/src/cxy/core/e4c.h
+++ b/src/cxy/core/e4c.h
@@ -17,7 +17,7 @@ extern "C" {
 
 /* Maximum number of nested `try` blocks */
 #ifndef E4C_MAX_FRAMES
-#define E4C_MAX_FRAMES 16
+#define E4C_MAX_FRAMES 1024
 #endif
 
 /* Maximum length (in bytes) of an exception message */
-- 
2.43.0


From 02374e057c5018807348a1a19081af7e724e80bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:10 +0000
Subject: [PATCH 95/96] fix: declarations of a module that are not public could
 be used through its name

---
 src/cxy/lang/middle/sema/path.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/path.c b/src/cxy/lang/middle/sema/path.c
index f8e9ddd..abf6b29 100644
--- a/src/cxy/lang/middle/sema/path.c
+++ b/src/cxy/lang/middle/sema/path.c
@@ -90,8 +90,23 @@ const Type *checkMember(AstVisitor *visitor, const Type *parent, AstNode *node)
         decl = resolveMemberUpInheritance(ctx, parent, node, &flags, name, 0);
         resolved = decl ? decl->type : NULL;
         break;
-    case typInterface:
     case typModule:
+        decl = resolveMember(ctx, parent, node, &flags, name);
+        if (decl && !hasFlag(decl, Public)) {
+            logError(ctx->L,
+                     &node->loc,
+                     "module member '{s}' cannot be used here, it is not "
+                     "public",
+                     (FormatArg[]){{.s = name}});
+            logNote(ctx->L,
+                    &decl->loc,
+                    "`{s}` declared here",
+                    (FormatArg[]){{.s = name}});
+            return node->type = ERROR_TYPE(ctx);
+        }
+        resolved = decl ? decl->type : NULL;
+        break;
+    case typInterface:
         decl = resolveMember(ctx, parent, node, &flags, name);
         resolved = decl ? decl->type : NULL;
         break;
-- 
2.43.0


From ef9cdcb64ec9bbbaa920396372b23f6715560f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:42 +0000
Subject: [PATCH 96/96] fix: the tests of a file that is not a module could not
 be compiled

---
 src/cxy/lang/backend/c/generate.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 06ad64a..287f12a 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -1980,10 +1980,8 @@ static void generateTestMainFunction(CodegenContext *ctx,
 {
     csAssert0(ctx->backend->testMode);
     char testsVariable[1024] = {0};
-    sprintf(testsVariable,
-            "%s%sallTestCases",
-            moduleName ?: "",
-            moduleName ? "_" : "");
+    // variables of a file that is not a module have an empty namespace
+    sprintf(testsVariable, "%s_allTestCases", moduleName ?: "");
 
     if (ctx->hasTestCases) {
         format(getState(ctx),
-- 
2.43.0

