------------------------------ MODULE Statics ------------------------------
(* The static rules of the language: which statement of a function the compiler has to refuse.

   A type is a record with a kind k:
     p (n: name of a primitive), str, void, null, ptr (t), opt (t), tup (ms), arr (t, n), st (n), cl (n), en (n), un (ms), err,
     fn (ps, r): a closure or a function taken as a value
   A program is a world W of declarations and functions over it:
     W.structs[n]  fs: fields [n, t, d: has a default], ms: methods [n, c: const, ps, nd, r], ops: operators [o, p, r],
                   ix, ixa, cal: overloads of the operators [], []= and call (methods without a name), tru: can be a condition
     W.classes[n]  base ("" or a name), fs, ms, init (parameter types), abs
     W.enums[n]    names;  W.made[n]  the integer type they are made of
     W.funs[n]     overloads [ps, nd: number of trailing parameters with defaults, r, x: raises]
     W.excs[n]     parameter types
   Names are checked before types: types are judged only if no name is wrong anywhere. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

P(n) == [k |-> "p", n |-> n]
ERR == [k |-> "err"]
VOID == [k |-> "void"]
NULL == [k |-> "null"]
STR == [k |-> "str"]
Bool == P("bool")
Signed == {"i8", "i16", "i32", "i64"}
Unsigned == {"u8", "u16", "u32", "u64"}
Size(n) == CASE n \in {"i8", "u8"} -> 1 [] n \in {"i16", "u16"} -> 2 [] n \in {"i32", "u32", "f32"} -> 4 [] OTHER -> 8
Base(W, t) == W.made[t.n]               \* what an enumeration is made of

Is(t, ns) == t.k = "p" /\ t.n \in ns
IsInt(t) == Is(t, Signed \union Unsigned)
IsFloat(t) == Is(t, {"f32", "f64"})
IsChar(t) == Is(t, {"char", "wchar"})
IsIntegral(t) == IsInt(t) \/ IsChar(t) \/ t = Bool \/ t.k = "en"
IsNumeric(t) == IsInt(t) \/ IsFloat(t) \/ IsChar(t) \/ t.k = "en"
Truthy(t) == IsIntegral(t) \/ IsFloat(t) \/ t.k \in {"ptr", "str", "opt"}

Range(s) == {s[i] : i \in DOMAIN s}
Named(s, n) == {i \in DOMAIN s : s[i].n = n}
Has(s, n) == Named(s, n) # {}
Get(s, n) == s[CHOOSE i \in Named(s, n) : TRUE]

RECURSIVE Derives(_, _, _)
Derives(W, n, b) == n = b \/ (W.classes[n].base # "" /\ Derives(W, W.classes[n].base, b))

\* a value of type `from` may be given where one of type `to` is expected
RECURSIVE Assignable(_, _, _)
Assignable(W, to, from) ==
  IF to = from THEN to.k # "err"
  ELSE CASE to.k = "err" \/ from.k = "err" \/ from.k = "void" -> FALSE
         [] to.k = "opt" -> from.k = "null" \/ (from.k # "opt" /\ Assignable(W, to.t, from))
         [] to.k = "str" -> from.k = "null"
         [] to.k = "cl" -> from.k = "null" \/ (from.k = "cl" /\ Derives(W, from.n, to.n))
         [] to.k = "ptr" -> from.k = "null" \/ (from.k = "ptr" /\ Assignable(W, to.t, from.t))
         [] to.k = "tup" -> from.k = "tup" /\ Len(to.ms) = Len(from.ms) /\ \A i \in DOMAIN to.ms : Assignable(W, to.ms[i], from.ms[i])
         [] to.k = "un" -> from \in Range(to.ms)
         [] to.k = "en" -> from.k = "en" /\ Assignable(W, Base(W, to), Base(W, from))
         [] to.k = "p" ->
              IF from.k = "en" THEN Assignable(W, to, Base(W, from))
              ELSE CASE to.n \in Signed -> IsInt(from) /\ (IF from.n \in Unsigned THEN Size(to.n) > Size(from.n) ELSE Size(to.n) >= Size(from.n))
                     [] to.n \in Unsigned -> IsInt(from) /\ Size(to.n) >= Size(from.n)
                     [] IsFloat(to) -> IsFloat(from) \/ IsInt(from)
                     [] IsChar(to) -> IsChar(from)
                     [] OTHER -> FALSE
         [] OTHER -> FALSE

\* a cast from one type to another is allowed
Castable(W, to, from) ==
  CASE to.k = "err" \/ from.k = "err" -> FALSE
    [] to = from -> TRUE
    [] from.k = "p" /\ to.k = "p" ->
         CASE IsInt(to) -> from = Bool \/ IsNumeric(from)
           [] IsFloat(to) -> IsNumeric(from)
           [] IsChar(to) -> IsChar(from) \/ Is(from, {"u8", "u16", "u32"})
           [] OTHER -> FALSE
    [] from.k = "p" /\ to.k = "opt" -> to.t = from \/ (to.t.k = "p" /\ from.k = "p" /\ IsInt(to.t) /\ (from = Bool \/ IsNumeric(from)))
    [] from.k = "en" /\ to.k = "p" -> IsInt(to) \/ Assignable(W, to, from)
    [] from.k = "cl" /\ to.k = "cl" -> TRUE
    [] from.k = "un" -> to \in Range(from.ms)
    [] OTHER -> Assignable(W, to, from)

\* the type in which an operator works on both its operands
Promote(W, l0, r0) ==
  IF l0 = r0 THEN l0
  ELSE LET l == IF l0.k = "en" THEN Base(W, l0) ELSE l0
           r == IF r0.k = "en" THEN Base(W, r0) ELSE r0
           Wide(t) == IF Size(t.n) >= 4 THEN t ELSE P("u32")
       IN CASE l0.k \in {"str", "ptr"} /\ r0.k = "null" -> l0
            [] IsInt(l) /\ IsInt(r) -> IF Size(l.n) >= Size(r.n) THEN l ELSE r
            [] IsInt(l) /\ IsFloat(r) -> r
            [] IsInt(l) /\ r = P("wchar") -> Wide(l)
            [] l = P("wchar") /\ IsInt(r) -> Wide(r)
            [] IsFloat(l) /\ IsFloat(r) -> IF Size(l.n) >= Size(r.n) THEN l ELSE r
            [] IsFloat(l) /\ (IsInt(r) \/ r = P("wchar")) -> l
            [] l.k = "ptr" /\ IsIntegral(r) -> l
            [] OTHER -> ERR

Comparisons == {"<", ">", "<=", ">="}
Equalities == {"==", "!="}
Condition(W, t) == Truthy(t) \/ (t.k = "st" /\ W.structs[t.n].tru)

BinType(W, o, l, r) ==
  CASE l.k = "err" \/ r.k = "err" \/ l.k = "void" \/ r.k = "void" -> ERR
    [] o \in Equalities /\ r.k = "null" /\ l.k # "st" -> Bool
    [] l.k = "str" /\ o \in Equalities \union Comparisons -> IF r.k = "str" THEN Bool ELSE ERR
    [] l.k = "st" ->
         LET os == {i \in DOMAIN W.structs[l.n].ops : W.structs[l.n].ops[i].o = o}
         IN IF os = {} THEN ERR
            ELSE LET op == W.structs[l.n].ops[CHOOSE i \in os : TRUE] IN IF Assignable(W, op.p, r) THEN op.r ELSE ERR
    [] OTHER ->
         LET t == Promote(W, l, r)
         IN CASE t = ERR -> ERR
              [] o \in {"+", "-", "*", "/"} -> IF IsNumeric(t) \/ (t.k = "ptr" /\ o \in {"+", "-"}) THEN t ELSE ERR
              [] o = "%" -> IF IsNumeric(t) /\ ~IsFloat(t) THEN t ELSE ERR
              [] o \in {"&", "|", "^", "<<", ">>"} -> IF IsIntegral(t) THEN t ELSE ERR
              [] o \in {"&&", "||"} -> IF t = Bool THEN t ELSE ERR
              [] o \in Comparisons -> IF IsNumeric(t) THEN Bool ELSE ERR
              [] OTHER -> IF t.k \in {"p", "ptr", "str", "en", "cl"} THEN Bool ELSE ERR

\* Which overload a call means: among those that take so many arguments, of which each is given something it may be given, one whose
\* parameters are exactly of the arguments' types, else one with the fewest conversions, the last declared of those; 0: none
\* what a parameter accepts besides its own type: what it can be assigned, or constructed from
RECURSIVE Takes(_, _, _), Makes(_, _, _)
Ctor(W, to) == IF to.k = "cl" /\ Len(W.classes[to.n].init) = 1 THEN W.classes[to.n].init ELSE <<>>
Takes(W, to, from) == Assignable(W, to, from) \/ (Ctor(W, to) # <<>> /\ Takes(W, Ctor(W, to)[1], from))
Makes(W, to, from) == Assignable(W, to, from) \/ (~W.classes[to.n].abs /\ Makes(W, Ctor(W, to)[1], from))
Fits(W, f, as) == /\ Len(as) >= Len(f.ps) - f.nd /\ Len(as) <= Len(f.ps)
                  /\ \A i \in DOMAIN as : Takes(W, f.ps[i], as[i])
Constructs(W, f, as) == \A i \in DOMAIN as : Makes(W, f.ps[i], as[i])
Exactness(f, as) == Cardinality({i \in DOMAIN as : f.ps[i] = as[i]})
Pick(W, fs, as) ==
  LET ok == {i \in DOMAIN fs : Fits(W, fs[i], as)}
      full == {i \in ok : Exactness(fs[i], as) = Len(as)}
      best == {i \in ok : \A j \in ok : Exactness(fs[i], as) >= Exactness(fs[j], as)}
  IN IF ok = {} THEN 0
     ELSE IF full # {} THEN CHOOSE i \in full : \A j \in full : i <= j
     ELSE CHOOSE i \in best : \A j \in best : i >= j

RECURSIVE Member(_, _, _), Methods(_, _, _)
\* the type of a field, and the overloads of a method, of a structure or class
Member(W, t, m) ==
  CASE t.k = "st" -> IF Has(W.structs[t.n].fs, m) THEN Get(W.structs[t.n].fs, m).t ELSE ERR
    [] t.k = "cl" -> IF Has(W.classes[t.n].fs, m) THEN Get(W.classes[t.n].fs, m).t
                     ELSE IF W.classes[t.n].base # "" THEN Member(W, [t EXCEPT !.n = W.classes[t.n].base], m) ELSE ERR
    [] t.k = "ptr" -> IF t.t.k = "st" THEN Member(W, t.t, m) ELSE ERR
    [] OTHER -> ERR
Methods(W, t, m) ==
  CASE t.k = "st" -> SelectSeq(W.structs[t.n].ms, LAMBDA f : f.n = m)
    [] t.k = "cl" -> LET own == SelectSeq(W.classes[t.n].ms, LAMBDA f : f.n = m)
                     IN IF own # <<>> \/ W.classes[t.n].base = "" THEN own ELSE Methods(W, [t EXCEPT !.n = W.classes[t.n].base], m)
    [] OTHER -> <<>>

\* An expression's type in x = [w: world, v: variable |-> [t, c: constant], r: the function may raise]; ERR: it breaks a rule
RECURSIVE Ty(_, _), Constant(_, _)
Tys(x, es) == [i \in DOMAIN es |-> Ty(x, es[i])]
AllOk(ts) == \A i \in DOMAIN ts : ts[i].k \notin {"err", "void"}

Constant(x, e) ==
  CASE e.k = "var" -> x.v[e.n].c
    [] e.k = "mem" -> Constant(x, e.e)
    [] e.k = "tix" -> Constant(x, e.e)
    [] e.k = "idx" -> Constant(x, e.e)
    [] OTHER -> FALSE

\* a call, which may raise: [t, x]
CallOf(x, e) ==
  LET as == TLCEval(Tys(x, e.as))
      i == Pick(x.w, x.w.funs[e.f], as)
  IN IF ~AllOk(as) \/ i = 0 THEN [t |-> ERR, x |-> FALSE]
     ELSE IF ~Constructs(x.w, x.w.funs[e.f][i], as) THEN [t |-> ERR, x |-> FALSE] ELSE [t |-> x.w.funs[e.f][i].r, x |-> x.w.funs[e.f][i].x]

\* of which type of overloads fs is what they give for arguments as
Result(W, fs, as) ==
  LET i == Pick(W, fs, as)
  IN IF ~AllOk(as) \/ i = 0 THEN ERR ELSE IF ~Constructs(W, fs[i], as) THEN ERR ELSE fs[i].r
Constness(x, e, fs) == IF Constant(x, e) THEN SelectSeq(fs, LAMBDA f : f.c) ELSE fs

\* a value that is not kept anywhere: it cannot be changed
RECURSIVE Temporary(_, _)
Temporary(x, e) ==
  CASE e.k \in {"lit", "null", "bin", "tern", "tup", "slit", "arr", "call", "callv", "meth", "new", "gen"} -> TRUE
    [] e.k = "mem" -> Ty(x, e.e).k = "st" /\ Temporary(x, e.e)
    [] e.k = "tix" -> Temporary(x, e.e)
    [] OTHER -> FALSE

Ty(x, e) ==
  LET W == x.w
  IN CASE e.k = "lit" -> e.t
       [] e.k = "null" -> NULL
       [] e.k = "var" -> x.v[e.n].t
       [] e.k = "un" ->
            LET t == Ty(x, e.e)
            IN CASE e.op = "-" -> IF IsNumeric(t) THEN t ELSE ERR
                 [] e.op = "~" -> IF IsInt(t) THEN t ELSE ERR
                 [] OTHER -> IF t = Bool \/ (t.k = "st" /\ W.structs[t.n].tru) THEN Bool ELSE ERR
       [] e.k = "bin" -> LET l == TLCEval(Ty(x, e.l)) IN IF l = ERR THEN ERR ELSE BinType(W, e.op, l, Ty(x, e.r))
       [] e.k = "tern" ->
            LET c == Ty(x, e.c)
                a == Ty(x, e.a)
                b == Ty(x, e.b)
            IN IF c.k = "err" \/ ~AllOk(<<a, b>>) \/ ~Condition(W, c) \/ ~Assignable(W, a, b) THEN ERR ELSE a
       [] e.k = "call" -> LET c == CallOf(x, e) IN IF c.x /\ ~x.r THEN ERR ELSE c.t
       [] e.k = "callv" ->                                          \* calls a variable
            LET t == Ty(x, [k |-> "var", n |-> e.f])
                as == TLCEval(Tys(x, e.as))
            IN CASE t.k = "fn" -> Result(W, <<[ps |-> t.ps, nd |-> 0, r |-> t.r]>>, as)
                 [] t.k = "st" -> Result(W, W.structs[t.n].cal, as)
                 [] OTHER -> ERR
       [] e.k = "clo" ->
            LET r == Ty([x EXCEPT !.v = TLCEval([m \in DOMAIN x.v \union {e.ps[i].n : i \in DOMAIN e.ps} |->
                          IF Has(e.ps, m) THEN [t |-> Get(e.ps, m).t, c |-> FALSE] ELSE x.v[m]])], e.e)
            IN IF r.k \in {"err", "void"} THEN ERR ELSE [k |-> "fn", ps |-> [i \in DOMAIN e.ps |-> e.ps[i].t], r |-> r]
       [] e.k = "fun" -> LET f == W.funs[e.f][1] IN [k |-> "fn", ps |-> f.ps, r |-> f.r]
       \* a call of a generic function: of one parameter x: T giving T; of x: T, y: T giving T; of x: T, y: U giving U; T and U are what is
       \* written, else what the first arguments for them are
       [] e.k = "gen" ->
            LET as == TLCEval(Tys(x, e.as))
                T == IF Len(e.ts) > 0 THEN e.ts[1] ELSE as[1]
                U == IF Len(e.ts) > 1 THEN e.ts[2] ELSE as[2]
                f == CASE e.f = "gid" -> [ps |-> <<T>>, nd |-> 0, r |-> T]
                       [] e.f = "gsame" -> [ps |-> <<T, T>>, nd |-> 0, r |-> T]
                       [] OTHER -> [ps |-> <<T, U>>, nd |-> 0, r |-> U]
            IN IF Len(as) # (IF e.f = "gid" THEN 1 ELSE 2) THEN ERR ELSE Result(W, <<f>>, as)
       [] e.k = "catch" ->
            LET c == CallOf(x, e.e)
                d == Ty(x, e.d)
            IN IF c.t = ERR \/ ~c.x \/ ~Assignable(W, c.t, d) THEN ERR ELSE c.t
       [] e.k = "mem" -> Member(W, Ty(x, e.e), e.m)
       [] e.k = "tix" -> LET t == Ty(x, e.e) IN IF t.k = "tup" /\ e.i < Len(t.ms) THEN t.ms[e.i + 1] ELSE ERR
       [] e.k = "idx" ->
            LET t == Ty(x, e.e)
                i == Ty(x, e.i)
            IN IF t.k = "st" THEN Result(W, Constness(x, e.e, W.structs[t.n].ix), <<i>>)
               ELSE IF ~IsInt(i) THEN ERR
               ELSE CASE t.k = "arr" -> t.t [] t.k = "ptr" -> t.t [] t.k = "str" -> P("char") [] OTHER -> ERR
       [] e.k = "slit" ->
            LET s == W.structs[e.n]
                fs == e.fs
            IN IF /\ \A i \in DOMAIN fs : /\ Has(s.fs, fs[i].n)
                                          /\ Assignable(W, Get(s.fs, fs[i].n).t, Ty(x, fs[i].e))
                  /\ \A i \in DOMAIN s.fs : s.fs[i].d \/ Has(fs, s.fs[i].n)
               THEN [k |-> "st", n |-> e.n] ELSE ERR
       [] e.k = "new" ->
            LET as == TLCEval(Tys(x, e.as))
            IN IF ~W.classes[e.n].abs /\ AllOk(as) /\ LET f == [ps |-> W.classes[e.n].init, nd |-> 0] IN Fits(W, f, as) /\ Constructs(W, f, as) THEN [k |-> "cl", n |-> e.n] ELSE ERR
       [] e.k = "meth" ->
            LET t == Ty(x, e.e)
                all == Methods(W, t, e.m)
            IN IF t = ERR THEN ERR ELSE Result(W, Constness(x, e.e, all), TLCEval(Tys(x, e.as)))
       [] e.k \in {"enum", "short"} -> IF e.m \in Range(W.enums[e.n]) THEN [k |-> "en", n |-> e.n] ELSE ERR
       [] e.k = "tup" -> LET ts == TLCEval(Tys(x, e.es)) IN IF AllOk(ts) THEN [k |-> "tup", ms |-> ts] ELSE ERR
       [] e.k = "arr" ->
            LET ts == TLCEval(Tys(x, e.es))
            IN IF AllOk(ts) /\ \A i \in DOMAIN ts : Assignable(W, ts[1], ts[i]) THEN [k |-> "arr", t |-> ts[1], n |-> Len(ts)] ELSE ERR
       [] e.k = "cast" -> LET t == Ty(x, e.e) IN IF t.k # "void" /\ Castable(W, e.t, t) THEN e.t ELSE ERR
       [] e.k = "ptrof" -> LET t == Ty(x, e.e) IN IF t = ERR THEN ERR ELSE [k |-> "ptr", t |-> t]
       [] e.k = "deref" -> LET t == Ty(x, e.e) IN CASE t.k = "ptr" -> t.t [] t.k = "opt" -> t.t [] OTHER -> ERR
       [] OTHER -> ERR

\* arrays are given element by element
Start(x, t, e) ==
  IF t.k = "arr" /\ e.k = "arr"
  THEN LET ts == TLCEval(Tys(x, e.es)) IN AllOk(ts) /\ Len(ts) <= t.n /\ Ty(x, e) # ERR /\ Assignable(x.w, t.t, Ty(x, e).t)
  ELSE Assignable(x.w, t, Ty(x, e))

Put(f, n, t, c) == [m \in DOMAIN f \union {n} |-> IF m = n THEN [t |-> t, c |-> c] ELSE f[m]]

\* The first line of a list of statements that breaks a rule, 0: none
RECURSIVE Bad(_, _, _), BadList(_, _, _, _)
BadList(x, R, ss, i) ==
  IF i > Len(ss) THEN 0
  ELSE LET s == ss[i]
           b == TLCEval(Bad(x, R, s))
       IN IF b # 0 THEN b
          ELSE IF s.k = "decl"
               THEN BadList([x EXCEPT !.v = TLCEval(Put(x.v, s.n, IF s.t.k = "none" THEN Ty(x, s.e) ELSE s.t, s.c))], R, ss, i + 1)
               ELSE IF s.k = "dec2"
               THEN LET ms == Ty(x, s.e).ms
                    IN BadList([x EXCEPT !.v = TLCEval([m \in DOMAIN x.v \union Range(s.ns) |->
                             IF m \in Range(s.ns) THEN [t |-> ms[CHOOSE j \in DOMAIN s.ns : s.ns[j] = m], c |-> s.c] ELSE x.v[m]])], R, ss, i + 1)
               ELSE BadList(x, R, ss, i + 1)
Block(x, R, ss) == BadList(x, R, ss, 1)
First(bs) == LET I == {i \in DOMAIN bs : bs[i] # 0} IN IF I = {} THEN 0 ELSE bs[CHOOSE i \in I : \A j \in I : i <= j]
Unless(ok, s) == IF ok THEN 0 ELSE s.l

\* values a case label may have in a type
\* whether some number from a to b is a value of the type t
Reaches(t, a, b) ==
  CASE Is(t, {"i8"}) -> b >= -128 /\ a <= 127
    [] Is(t, {"u8"}) -> b >= 0 /\ a <= 255
    [] Is(t, {"i16"}) -> b >= -32768 /\ a <= 32767
    [] Is(t, {"u16"}) -> b >= 0 /\ a <= 65535
    [] Is(t, Unsigned) -> b >= 0
    [] OTHER -> TRUE

Bad(x, R, s) ==
  LET W == x.w
      Cond(e) == LET t == Ty(x, e) IN Unless(t # ERR /\ Condition(W, t), s)
  IN CASE s.k = "decl" ->
            IF s.t.k = "none" THEN LET t == Ty(x, s.e) IN Unless(t.k \notin {"err", "void"}, s)
            ELSE Unless(Start(x, s.t, s.e), s)
       [] s.k = "dec2" ->                                                   \* takes a tuple apart
            LET t == TLCEval(Ty(x, s.e)) IN Unless(t.k = "tup" /\ Len(t.ms) >= Len(s.ns), s)
       [] s.k = "asgn" /\ s.to.k = "idx" /\ Ty(x, s.to.e).k = "st" ->
            LET t == Ty(x, s.to.e)
                as == TLCEval(Tys(x, <<s.to.i, s.e>>))
            IN Unless(Result(W, Constness(x, s.to.e, W.structs[t.n].ixa), as) # ERR, s)
       [] s.k = "asgn" ->
            LET l == TLCEval(Ty(x, s.to))
                r == TLCEval(Ty(x, s.e))
                v == CASE s.op = "" -> TRUE                                 \* the operator is defined for them
                       [] s.op \in {"+", "-", "*", "/"} -> IsNumeric(l) /\ IsNumeric(r)
                       [] s.op = "%" -> IsNumeric(l) /\ IsNumeric(r) /\ ~IsFloat(l)
                       [] OTHER -> IsIntegral(l) /\ IsIntegral(r)
            IN Unless(l # ERR /\ ~(s.to.k = "idx" /\ Ty(x, s.to.e).k = "str") /\ ~Temporary(x, s.to) /\ r.k \notin {"err", "void"} /\ ~Constant(x, s.to) /\ r.k # "arr" /\ v /\ Assignable(W, l, r), s)
       [] s.k = "inc" -> LET t == Ty(x, s.e) IN Unless(IsNumeric(t) /\ ~Constant(x, s.e) /\ ~Temporary(x, s.e), s)
       [] s.k = "expr" -> Unless(Ty(x, s.e) # ERR, s)
       [] s.k = "if" -> First(<<Cond(s.c), Block(x, R, s.th), Block(x, R, s.el)>>)
       [] s.k = "while" -> First(<<Cond(s.c), Block(x, R, s.b)>>)
       [] s.k = "block" -> Block(x, R, s.b)
       [] s.k = "ret" -> Unless(IF s.none THEN R.k = "void" ELSE R.k # "void" /\ Assignable(W, R, Ty(x, s.e)), s)
       [] s.k = "range" ->
            LET a == Ty(x, s.a)
                b == Ty(x, s.e)
            IN IF a.k = "err" \/ b.k = "err" \/ ~IsIntegral(a) \/ ~IsIntegral(b) \/ Promote(W, a, b) = ERR \/ s.two THEN s.l
               ELSE Block([x EXCEPT !.v = TLCEval(Put(x.v, s.n, P("i64"), s.c))], R, s.b)
       [] s.k = "each" ->
            LET t == Ty(x, s.e)
            IN IF t.k \notin {"arr", "str"} \/ s.three THEN s.l
               ELSE Block([x EXCEPT !.v = TLCEval(Put(x.v, s.n, IF t.k = "str" THEN P("char") ELSE t.t, s.c))], R, s.b)
       [] s.k = "switch" ->
            LET t == TLCEval(Ty(x, s.e))
                \* a label: a value, or all values from v to hi; one of them has to be a value of t
                Label(c) == IF Assignable(W, c.t, t) /\ (IF IsInt(t) THEN c.v <= c.hi /\ Reaches(t, c.v, c.hi) ELSE TRUE) THEN 0 ELSE c.l
                Same(a, b) == IF t.k = "str" THEN a.v = b.v ELSE a.v <= b.hi /\ b.v <= a.hi
                Dup(i) == IF \E j \in 1..(i - 1) : Same(s.cs[j], s.cs[i]) THEN s.cs[i].l ELSE 0
            IN IF t = ERR \/ ~(IsIntegral(t) \/ t.k = "str") THEN s.l
               ELSE LET ls == First([i \in DOMAIN s.cs |-> Label(s.cs[i])])
                        bs == First([i \in DOMAIN s.cs |-> Block(x, R, s.cs[i].b)] \o <<Block(x, R, s.d)>>)
                        ds == First([i \in DOMAIN s.cs |-> Dup(i)])
                    IN IF ls # 0 THEN ls ELSE IF ds # 0 THEN ds ELSE bs
       [] s.k = "match" ->
            LET t == TLCEval(Ty(x, s.e))
                Label(c) == IF c.t \in Range(t.ms) THEN 0 ELSE c.l
                Dup(i) == IF \E j \in 1..(i - 1) : s.cs[j].t = s.cs[i].t THEN s.cs[i].l ELSE 0
            IN IF t.k # "un" THEN s.l
               ELSE LET ls == First([i \in DOMAIN s.cs |-> Label(s.cs[i])])
                        ds == First([i \in DOMAIN s.cs |-> Dup(i)])
                        bs == First([i \in DOMAIN s.cs |->
                                Block(IF s.cs[i].n = "" THEN x ELSE [x EXCEPT !.v = TLCEval(Put(x.v, s.cs[i].n, s.cs[i].t, FALSE))], R, s.cs[i].b)])
                    IN IF ls # 0 THEN ls ELSE IF ds # 0 THEN ds ELSE bs
       [] s.k = "raise" ->
            LET as == TLCEval(Tys(x, s.as))
            IN Unless(x.r /\ AllOk(as) /\ LET f == [ps |-> W.excs[s.n], nd |-> 0] IN Fits(W, f, as) /\ Constructs(W, f, as), s)
       [] s.k = "raisev" -> s.l                                             \* raises what is no exception
       [] OTHER -> 0

\* what a function that does not say what it returns returns: what its first return statement does
RECURSIVE Returns(_), ReturnsAll(_)
ReturnsAll(ss) == IF ss = <<>> THEN <<>> ELSE Returns(Head(ss)) \o ReturnsAll(Tail(ss))
Returns(s) ==
  CASE s.k = "ret" -> <<IF s.none THEN VOID ELSE s.e.t>>
    [] s.k = "if" -> ReturnsAll(s.th) \o ReturnsAll(s.el)
    [] s.k \in {"while", "block", "range", "each"} -> ReturnsAll(s.b)
    [] OTHER -> <<>>
ReturnType(f) == IF f.r.k # "none" THEN f.r ELSE LET rs == ReturnsAll(f.b) IN IF rs = <<>> THEN VOID ELSE rs[1]

\* The first line of a function that breaks a rule of types; line 0 does not exist
TypeBad(W, f) ==
  Block([w |-> W, v |-> [n \in {f.ps[i].n : i \in DOMAIN f.ps} |-> [t |-> Get(f.ps, n).t, c |-> FALSE]], r |-> f.x], ReturnType(f), f.b)

(* ---- names ---- *)
\* the names an expression uses: [v: variables, f: functions, y: types]
RECURSIVE Uses(_)
UsesAll(es) == UNION {Uses(es[i]) : i \in DOMAIN es}
Uses(e) ==
  CASE e.k = "var" -> {e.n}
    [] e.k \in {"un", "mem", "tix", "cast", "ptrof", "deref"} -> Uses(e.e)
    [] e.k = "bin" -> Uses(e.l) \union Uses(e.r)
    [] e.k = "tern" -> Uses(e.c) \union Uses(e.a) \union Uses(e.b)
    [] e.k \in {"call", "gen"} -> {e.f} \union UsesAll(e.as)
    [] e.k = "fun" -> {e.f}
    [] e.k = "clo" -> Uses(e.e) \ {e.ps[i].n : i \in DOMAIN e.ps}
    [] e.k = "callv" -> {e.f} \union UsesAll(e.as)
    [] e.k = "new" -> {e.n} \union UsesAll(e.as)
    [] e.k = "catch" -> Uses(e.e) \union Uses(e.d)
    [] e.k = "idx" -> Uses(e.e) \union Uses(e.i)
    [] e.k = "slit" -> {e.n} \union UNION {Uses(e.fs[i].e) : i \in DOMAIN e.fs}
    [] e.k = "meth" -> Uses(e.e) \union UsesAll(e.as)
    [] e.k = "enum" -> {e.n}
    [] e.k \in {"tup", "arr"} -> UsesAll(e.es)
    [] OTHER -> {}

\* in y = [g: names from outside, s: names of the innermost block, loop: in a loop]: [b: first bad line, s: names of the block afterwards]
RECURSIVE NBad(_, _), NList(_, _, _)
NList(y, ss, i) ==
  IF i > Len(ss) THEN 0
  ELSE LET s == ss[i]
           b == TLCEval(NBad(y, s))
       IN IF b # 0 THEN b ELSE NList(IF s.k = "decl" THEN [y EXCEPT !.s = @ \union {s.n}] ELSE IF s.k = "dec2" THEN [y EXCEPT !.s = @ \union Range(s.ns)] ELSE y, ss, i + 1)
NBlock(y, ss) == NList([y EXCEPT !.g = y.g \union y.s, !.s = {}], ss, 1)
NBad(y, s) ==
  LET known == y.g \union y.s
      Ok(e) == Uses(e) \subseteq known
      In(n) == [y EXCEPT !.s = @ \union {n}]
  IN CASE s.k = "decl" -> Unless(Ok(s.e) /\ s.n \notin y.s, s)
       [] s.k = "dec2" -> Unless(Ok(s.e) /\ Range(s.ns) \intersect y.s = {}, s)
       [] s.k = "raisev" -> Unless(Ok(s.e), s)
       [] s.k = "asgn" -> Unless(Ok(s.to) /\ Ok(s.e), s)
       [] s.k \in {"inc", "expr"} -> Unless(Ok(s.e), s)
       [] s.k = "if" -> First(<<Unless(Ok(s.c), s), NBlock(y, s.th), NBlock(y, s.el)>>)
       [] s.k = "while" -> First(<<Unless(Ok(s.c), s), NBlock([y EXCEPT !.loop = TRUE], s.b)>>)
       [] s.k = "block" -> NBlock(y, s.b)
       [] s.k = "ret" -> IF s.none THEN 0 ELSE Unless(Ok(s.e), s)
       [] s.k = "range" -> First(<<Unless(Ok(s.a) /\ Ok(s.e), s), NBlock([In(s.n) EXCEPT !.loop = TRUE], s.b)>>)
       [] s.k = "each" -> First(<<Unless(Ok(s.e), s), NBlock([In(s.n) EXCEPT !.loop = TRUE], s.b)>>)
       [] s.k = "switch" -> First(<<Unless(Ok(s.e), s)>> \o [i \in DOMAIN s.cs |-> NBlock(y, s.cs[i].b)] \o <<NBlock(y, s.d)>>)
       [] s.k = "match" -> First(<<Unless(Ok(s.e), s)>> \o [i \in DOMAIN s.cs |-> NBlock(IF s.cs[i].n = "" THEN y ELSE In(s.cs[i].n), s.cs[i].b)])
       [] s.k = "raise" -> Unless(UNION {Uses(s.as[i]) : i \in DOMAIN s.as} \subseteq known, s)
       [] s.k \in {"break", "continue"} -> Unless(y.loop, s)
       [] OTHER -> 0

Globals(W) == {"gid", "gsame", "gpair"} \union DOMAIN W.structs \union DOMAIN W.classes \union DOMAIN W.enums \union DOMAIN W.funs \union DOMAIN W.excs
NameBad(W, f) == NBlock([g |-> Globals(W), s |-> {f.ps[i].n : i \in DOMAIN f.ps}, loop |-> FALSE], f.b)

\* Before names are looked at: declarations of more variables than values are written for
RECURSIVE Shape(_), ShapeAll(_)
ShapeAll(ss) == First([i \in DOMAIN ss |-> Shape(ss[i])])
Shape(s) ==
  CASE s.k = "dec2" -> Unless(s.e.k # "tup" \/ Len(s.e.es) >= Len(s.ns), s)
    [] s.k = "if" -> First(<<ShapeAll(s.th), ShapeAll(s.el)>>)
    [] s.k \in {"while", "block", "range", "each"} -> ShapeAll(s.b)
    [] OTHER -> 0

\* for every function of a program the line to refuse first, 0: none
Judge(W, fs) ==
  LET hs == TLCEval([i \in DOMAIN fs |-> ShapeAll(fs[i].b)])
      ns == TLCEval([i \in DOMAIN fs |-> NameBad(W, fs[i])])
  IN IF \E i \in DOMAIN fs : hs[i] # 0 THEN hs
     ELSE IF \E i \in DOMAIN fs : ns[i] # 0 THEN ns ELSE [i \in DOMAIN fs |-> TypeBad(W, fs[i])]
=============================================================================
