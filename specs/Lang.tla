-------------------------------- MODULE Lang --------------------------------
(* Operational semantics of the statement and expression language of cxy: a
   program is a set of functions given as syntax trees (records with field k);
   running a call from a state gives the events it emits, the final state and
   how it ended.  A state is [g: globals, env: locals, stk: locals of the
   callers, out: events emitted, exc: exceptions being handled, h: objects,
   lv: for every event, which objects are in use, hold: objects that may
   outlive the block being left, n: statements left before we
   give up].

   Outcomes (field c): "ok" for expressions; "next", "break", "continue",
   "return" for statements; "exc" an exception is travelling (v is its name and
   argument); "undef" the program has done something whose result the language
   does not define (overflow, division by zero, shift out of range, too long).   *)
EXTENDS BV, TLC, FiniteSets

\* ------------------------------------------------------------ arithmetic
ArithOk(op, t, w, a, b) ==
  CASE op = "+" -> Fits(Add(a, b), t) /\ (t = "i64" => AddFits(a, b)) /\ (t = "u64" => ~LtU(Add(a, b), a))
    [] op = "-" -> Fits(Sub(a, b), t) /\ (t = "i64" => SubFits(a, b)) /\ (t = "u64" => ~LtU(a, b))
    [] op = "*" -> IF t = "u64" THEN IsZero(a) \/ DivU(Mul(a, b), a) = b
                   ELSE MulFits(a, b) /\ Fits(Mul(a, b), t)
    [] op \in {"/", "%"} -> ~IsZero(b) /\ (IsSigned(t) => Fits(DivS(a, b), t) /\ ~(t = "i64" /\ a = <<0,0,0,0,0,0,0,128>> /\ b = BNot(Zero)))
    [] op = "<<" -> /\ ~Neg7(a) /\ LtU(b, <<8 * Bytes(w), 0, 0, 0, 0, 0, 0, 0>>)
                    /\ Fits(Shl(a, Small(b)), w) /\ ShrU(Shl(a, Small(b)), Small(b)) = a
                    /\ (IsSigned(w) => ~Neg7(Shl(a, Small(b))))
    [] op = ">>" -> LtU(b, <<8 * Bytes(w), 0, 0, 0, 0, 0, 0, 0>>)
    [] OTHER -> TRUE
Arith(op, t, a, b) ==
  CASE op = "+" -> Add(a, b)
    [] op = "-" -> Sub(a, b)
    [] op = "*" -> Mul(a, b)
    [] op = "/" -> IF IsSigned(t) THEN DivS(a, b) ELSE DivU(a, b)
    [] op = "%" -> IF IsSigned(t) THEN ModS(a, b) ELSE ModU(a, b)
    [] op = "&" -> BAnd(a, b)
    [] op = "|" -> BOr(a, b)
    [] op = "^" -> BXor(a, b)
    [] op = "<<" -> Shl(a, Small(b))
    [] op = ">>" -> IF IsSigned(t) THEN ShrS(a, Small(b)) ELSE ShrU(a, Small(b))
Lt(t, a, b) == IF t = "bool" THEN FALSE ELSE IF IsSigned(t) THEN LtS(a, b) ELSE LtU(a, b)
CmpOps == {"==", "!=", "<", ">", "<=", ">="}
Cmp(op, t, a, b) ==
  CASE op = "==" -> a = b
    [] op = "!=" -> a # b
    [] op = "<" -> Lt(t, a, b)
    [] op = ">" -> Lt(t, b, a)
    [] op = "<=" -> ~Lt(t, b, a)
    [] op = ">=" -> ~Lt(t, a, b)

\* ------------------------------------------------------------ results
R(s, c, v) == [s |-> s, c |-> c, v |-> v]
Undef(s) == R(s, "undef", 0)
Ok(r) == r.c = "ok"

GetVar(s, n) == IF n \in DOMAIN s.env THEN s.env[n] ELSE s.g[n]
SetVar(s, n, v) == IF n \in DOMAIN s.env THEN [s EXCEPT !.env = (n :> v) @@ @] ELSE [s EXCEPT !.g = (n :> v) @@ @]
Bind(s, n, v) == [s EXCEPT !.env = (n :> v) @@ @]

\* ------------------------------------------------------------ lifetimes
(* Which objects a value refers to is told by its shape: [k: "x"] none, "r" an object reference, "s" a sequence of parts with
   the shapes es, "u" a union with the shapes es of its alternatives.  P["@sh"]: shapes of the variables (names are unique in a
   program), P["@cs"]: shapes of the fields of each class.  A program without "@sh" has no objects to follow.               *)
RECURSIVE Refs(_, _), RefsOf(_, _, _, _), Reach(_, _, _)
Refs(sh, v) ==
  CASE sh.k = "x" -> {}
    [] sh.k = "r" -> IF v = 0 THEN {} ELSE {v}
    [] sh.k = "s" -> RefsOf(sh.es, v, 1, {})
    [] sh.k = "u" -> Refs(sh.es[v.u], v.v)
RefsOf(shs, vs, i, acc) == IF i > Len(shs) THEN acc ELSE RefsOf(shs, vs, i + 1, acc \cup Refs(shs[i], vs[i]))
Succ(P, h, o) == RefsOf(P["@cs"][h[o].c], h[o].f, 1, {})
Reach(P, h, S) == LET T == S \cup UNION {Succ(P, h, o) : o \in S} IN IF T = S THEN S ELSE Reach(P, h, T)
EnvRefs(P, env) == UNION {Refs(P["@sh"][n], env[n]) : n \in DOMAIN env \cap DOMAIN P["@sh"]}
Born(h) == {o \in 1..Len(h) : h[o].f[1] # Zero}
Ids(h, S) == {Small(h[o].f[1]) : o \in S \cap Born(h)}
\* objects in use, and objects nobody can reach any more and that no cycle of references keeps
Life(P, s) ==
  LET use == Reach(P, s.h, EnvRefs(P, s.env) \cup UNION {EnvRefs(P, s.stk[i]) : i \in 1..Len(s.stk)})
      rest == (1..Len(s.h)) \ (use \cup Reach(P, s.h, s.hold))
      stuck == Reach(P, s.h, {o \in rest : o \in Reach(P, s.h, Succ(P, s.h, o))})
  IN [use |-> Ids(s.h, use), gone |-> Ids(s.h, rest \ stuck)]
Emit(P, s, tag, v) == [s EXCEPT !.out = Append(@, <<tag, v>>), !.lv = IF "@sh" \in DOMAIN P THEN Append(@, Life(P, s)) ELSE @]
\* the number of the next object to come to life
NextId(s) == <<Cardinality(Born(s.h)) + 1, 0, 0, 0, 0, 0, 0, 0>>

\* the strings a program can name: sequences of bytes
Names == <<<<>>, <<97>>, <<97, 98>>, <<98>>, <<97, 98, 99>>, <<65, 98>>, <<97, 32, 98>>, <<126, 122>>>>

\* ------------------------------------------------- structured values
(* An aggregate (struct, tuple, array) is the sequence of its parts; an optional is a sequence of at most one value; a
   union value is [u: which alternative, v: value]; a closure is [f: function, c: captured values, n: for each the name of
   the variable when it is captured by reference, "" when by value]; an object reference
   is the index of the object in the heap s.h, 0 for null; an object is [c: class, f: fields].                          *)
RECURSIVE GetPath(_, _, _), PutPath(_, _, _, _)
GetPath(v, p, i) == IF i > Len(p) THEN v ELSE GetPath(v[p[i]], p, i + 1)
PutPath(v, p, i, new) == IF i > Len(p) THEN new ELSE [v EXCEPT ![p[i]] = PutPath(@, p, i + 1, new)]

\* What a closure sees of its surroundings: a variable captured by reference as it is now (closures do not outlive the
\* function that makes them, names are unique in a program, and while a callee runs nobody changes it).
RECURSIVE Captured(_, _, _, _)
Captured(f, s, i, acc) ==
  IF i > Len(f.c) THEN acc
  ELSE Captured(f, s, i + 1, Append(acc, IF f.n[i] # "" /\ f.n[i] \in DOMAIN s.env THEN s.env[f.n[i]] ELSE f.c[i]))

RECURSIVE EvalPath(_, _, _, _, _), WriteBack(_, _, _, _, _), Eval(_, _, _), EvalArgs(_, _, _, _, _), Exec(_, _, _), Block(_, _, _), ExecSeq(_, _, _, _, _), RunDefers(_, _, _, _),
          While(_, _, _), For(_, _, _, _, _), ForEach(_, _, _, _, _), Call(_, _, _, _), CallEnv(_, _, _, _)

\* -------------------------------------------------------- expressions
\* P: the program (functions by name)
Eval(P, e, s) ==
  CASE e.k = "lit" -> R(s, "ok", e.b)
    [] e.k = "bool" -> R(s, "ok", e.v)
    [] e.k = "var" -> R(s, "ok", GetVar(s, e.n))
    [] e.k = "grp" -> Eval(P, e.e, s)
    [] e.k = "neg" -> LET r == Eval(P, e.e, s)
                      IN IF ~Ok(r) THEN r
                         ELSE IF ~Fits(Neg(r.v), e.t) \/ (r.v # Zero /\ Neg(r.v) = r.v) THEN Undef(s) ELSE R(r.s, "ok", Neg(r.v))
    [] e.k = "cpl" -> LET r == Eval(P, e.e, s) IN IF ~Ok(r) THEN r ELSE R(r.s, "ok", Trunc(BNot(r.v), e.t))
    [] e.k = "not" -> LET r == Eval(P, e.e, s) IN IF ~Ok(r) THEN r ELSE R(r.s, "ok", ~r.v)
    [] e.k = "cast" -> LET r == Eval(P, e.e, s)
                       IN IF ~Ok(r) THEN r
                          ELSE IF e.f = "bool" THEN R(r.s, "ok", B(r.v))
                          ELSE R(r.s, "ok", Trunc(r.v, e.t))
    [] e.k = "and" -> LET r == Eval(P, e.l, s) IN IF ~Ok(r) \/ ~r.v THEN r ELSE Eval(P, e.r, r.s)
    [] e.k = "or" -> LET r == Eval(P, e.l, s) IN IF ~Ok(r) \/ r.v THEN r ELSE Eval(P, e.r, r.s)
    [] e.k = "name" -> LET r == Eval(P, e.e, s) IN IF ~Ok(r) THEN r ELSE R(r.s, "ok", Names[(r.v[1] % 8) + 1])
    [] e.k = "slit" -> R(s, "ok", e.b)
    [] e.k = "scmp" ->
       LET l == Eval(P, e.l, s) IN
       IF ~Ok(l) THEN l
       ELSE LET r == Eval(P, e.r, l.s) IN IF ~Ok(r) THEN r ELSE R(r.s, "ok", IF e.op = "==" THEN l.v = r.v ELSE l.v # r.v)
    [] e.k = "tern" -> LET r == Eval(P, e.c, s) IN IF ~Ok(r) THEN r ELSE Eval(P, IF r.v THEN e.a ELSE e.b, r.s)
    [] e.k = "bin" ->      \* t: type of the operation, w: type of the left operand
       LET l == Eval(P, e.l, s) IN
       IF ~Ok(l) THEN l
       ELSE LET r == Eval(P, e.r, l.s) IN
            IF ~Ok(r) THEN r
            ELSE IF e.op \in CmpOps THEN R(r.s, "ok", Cmp(e.op, e.t, l.v, r.v))
            ELSE IF ~ArithOk(e.op, e.t, e.w, l.v, r.v) THEN Undef(r.s)
            ELSE R(r.s, "ok", Arith(e.op, e.t, l.v, r.v))
    [] e.k = "inc" ->      \* d: 1 or -1, pre: prefix form
       LET old == GetVar(s, e.n)
           op == IF e.d = 1 THEN "+" ELSE "-"
       IN IF ~ArithOk(op, e.t, e.t, old, One) THEN Undef(s)
          ELSE LET new == Arith(op, e.t, old, One)
               IN R(SetVar(s, e.n, new), "ok", IF e.pre THEN new ELSE old)
    [] e.k = "call" -> LET a == EvalArgs(P, e.args, 1, s, <<>>) IN IF ~Ok(a) THEN a ELSE Call(P, e.f, a.v, a.s)
    [] e.k = "catch" ->    \* call catch default
       LET r == Eval(P, e.e, s) IN IF r.c = "exc" THEN Eval(P, e.d, r.s) ELSE r
    [] e.k = "catchb" ->   \* call catch { body; yield v }
       LET r == Eval(P, e.e, s) IN
       IF r.c # "exc" THEN r
       ELSE LET h == Block(P, e.body, [r.s EXCEPT !.exc = Append(@, r.v)])
                h1 == [h EXCEPT !.s.exc = r.s.exc]
            IN CASE h.c = "yield" -> R([h1.s EXCEPT !.hold = s.hold], "ok", h.v)
                 [] h.c = "exc" -> h1
                 [] h.c = "return" -> R(h1.s, "return", h.v)
                 [] OTHER -> R(h1.s, h.c, h.v)
    [] e.k = "mk" -> EvalArgs(P, e.es, 1, s, <<>>)
    [] e.k = "fld" -> LET r == Eval(P, e.e, s) IN IF ~Ok(r) THEN r ELSE R(r.s, "ok", r.v[e.i])
    [] e.k = "idx" ->
       LET r == Eval(P, e.e, s) IN
       IF ~Ok(r) THEN r
       ELSE LET x == Eval(P, e.x, r.s) IN
            IF ~Ok(x) THEN x
            ELSE IF ~LtU(x.v, <<Len(r.v), 0, 0, 0, 0, 0, 0, 0>>) THEN Undef(x.s) ELSE R(x.s, "ok", r.v[Small(x.v) + 1])
    [] e.k = "none" -> R(s, "ok", <<>>)
    [] e.k = "has" -> LET r == Eval(P, e.e, s) IN IF ~Ok(r) THEN r ELSE R(r.s, "ok", Len(r.v) > 0)
    [] e.k = "deref" -> LET r == Eval(P, e.e, s) IN IF ~Ok(r) THEN r ELSE IF Len(r.v) = 0 THEN Undef(r.s) ELSE R(r.s, "ok", r.v[1])
    [] e.k = "inj" -> LET r == Eval(P, e.e, s) IN IF ~Ok(r) THEN r ELSE R(r.s, "ok", [u |-> e.i, v |-> r.v])
    [] e.k = "proj" -> LET r == Eval(P, e.e, s) IN IF ~Ok(r) THEN r ELSE IF r.v.u # e.i THEN Undef(r.s) ELSE R(r.s, "ok", r.v.v)
    [] e.k = "lam" -> LET r == EvalArgs(P, e.caps, 1, s, <<>>) IN IF ~Ok(r) THEN r ELSE R(r.s, "ok", [f |-> e.f, c |-> r.v, n |-> e.ns])
    [] e.k = "app" ->      \* calling a closure
       LET r == Eval(P, e.e, s) IN
       IF ~Ok(r) THEN r
       ELSE LET a == EvalArgs(P, e.args, 1, r.s, <<>>) IN IF ~Ok(a) THEN a ELSE Call(P, r.v.f, Captured(r.v, a.s, 1, <<>>) \o a.v, a.s)
    [] e.k = "callr" ->    \* some arguments are references: i-th argument aliases the variable n (path p) of the caller
       LET a == EvalArgs(P, e.args, 1, s, <<>>) IN
       IF ~Ok(a) THEN a
       ELSE LET r == CallEnv(P, e.f, a.v, a.s)
                back == [r.s EXCEPT !.env = a.s.env, !.stk = a.s.stk, !.exc = a.s.exc, !.hold = a.s.hold]
            IN IF r.c = "undef" THEN r
               ELSE LET w == WriteBack(P, e.refs, 1, back, [i \in DOMAIN P[e.f].ps |-> r.s.env[P[e.f].ps[i]]])
                    IN IF ~Ok(w) THEN w
                       ELSE CASE r.c = "return" -> R(w.s, "ok", r.v)
                              [] r.c = "next" -> R(w.s, "ok", Zero)
                              [] OTHER -> R(w.s, r.c, r.v)
    [] e.k = "mv" ->       \* taking the value out of a variable, which then holds no object until it is given another one
       R([s EXCEPT !.env[e.n] = 0], "ok", s.env[e.n])
    [] e.k = "null" -> R(s, "ok", 0)
    [] e.k = "isnull" -> LET r == Eval(P, e.e, s) IN IF ~Ok(r) THEN r ELSE R(r.s, "ok", r.v = 0)
    [] e.k = "new" ->      \* a new object with fields ds, then its constructor
       LET a == EvalArgs(P, e.args, 1, s, <<>>) IN
       IF ~Ok(a) THEN a
       ELSE LET o == Len(a.s.h) + 1
                r == Call(P, e.f, <<o>> \o a.v, [a.s EXCEPT !.h = Append(@, [c |-> e.c, f |-> e.ds])])
            IN IF ~Ok(r) THEN r ELSE R(r.s, "ok", o)
    [] e.k = "ofld" -> LET r == Eval(P, e.e, s) IN
                       IF ~Ok(r) THEN r ELSE IF r.v = 0 THEN Undef(r.s) ELSE R(r.s, "ok", r.s.h[r.v].f[e.i])
    [] e.k = "mcall" ->    \* method m of the object's own class
       LET r == Eval(P, e.e, s) IN
       IF ~Ok(r) THEN r
       ELSE IF r.v = 0 THEN Undef(r.s)
       ELSE LET a == EvalArgs(P, e.args, 1, r.s, <<>>) IN
            IF ~Ok(a) THEN a ELSE Call(P, P["@vt"][a.s.h[r.v].c][e.m], <<r.v>> \o a.v, a.s)
    [] e.k = "what" -> R(s, "ok", s.exc[Len(s.exc)])

EvalArgs(P, as, i, s, acc) ==
  IF i > Len(as) THEN R(s, "ok", acc)
  ELSE LET r == Eval(P, as[i], s) IN IF ~Ok(r) THEN r ELSE EvalArgs(P, as, i + 1, r.s, Append(acc, r.v))

\* a path of an lvalue: fixed parts [k: "f", i] and indexed parts [k: "x", e, n: number of elements]
EvalPath(P, p, i, s, acc) ==
  IF i > Len(p) THEN R(s, "ok", acc)
  ELSE IF p[i].k = "f" THEN EvalPath(P, p, i + 1, s, Append(acc, p[i].i))
  ELSE LET x == Eval(P, p[i].e, s) IN
       IF ~Ok(x) THEN x
       ELSE IF ~LtU(x.v, <<p[i].n, 0, 0, 0, 0, 0, 0, 0>>) THEN Undef(x.s)
       ELSE EvalPath(P, p, i + 1, x.s, Append(acc, Small(x.v) + 1))
WriteBack(P, refs, i, s, vals) ==
  IF i > Len(refs) THEN R(s, "ok", 0)
  ELSE LET p == EvalPath(P, refs[i].p, 1, s, <<>>) IN
       IF ~Ok(p) THEN p
       ELSE WriteBack(P, refs, i + 1, SetVar(s, refs[i].n, PutPath(GetVar(s, refs[i].n), p.v, 1, vals[refs[i].i])), vals)

\* runs the body: the state returned still has the environment of the callee
CallEnv(P, f, args, s) ==
  LET fn == P[f]
      env0 == [n \in {fn.ps[i] : i \in 1..Len(fn.ps)} |-> args[CHOOSE i \in 1..Len(fn.ps) : fn.ps[i] = n]]
  IN IF s.n = 0 THEN Undef(s) ELSE Block(P, fn.body, [s EXCEPT !.env = env0, !.stk = Append(@, s.env), !.exc = <<>>, !.n = @ - 1])

Call(P, f, args, s) ==
  LET r == CallEnv(P, f, args, s)
      back == [r.s EXCEPT !.env = s.env, !.stk = s.stk, !.exc = s.exc, !.hold = s.hold]
  IN CASE r.c = "return" -> R(back, "ok", r.v)
       [] r.c = "next" -> R(back, "ok", Zero)
       [] OTHER -> R(back, r.c, r.v)

\* ---------------------------------------------------------- statements
\* leaving a block: the variables declared in it go away
\* (on the way out of an enclosing block what they referred to may stay until that block has been left too)
Leave(P, r, s) ==
  IF r.c = "undef" \/ DOMAIN r.s.env \subseteq DOMAIN s.env THEN r
  ELSE LET keep == TLCEval([n \in DOMAIN s.env \cap DOMAIN r.s.env |-> r.s.env[n]])
           held == IF r.c = "next" \/ "@sh" \notin DOMAIN P THEN {} ELSE EnvRefs(P, r.s.env)
       IN [r EXCEPT !.s.env = keep, !.s.hold = @ \cup held]
\* the way out ends here
Out(r, s) == R([r.s EXCEPT !.hold = s.hold], "next", 0)
\* an expression that did not complete normally decides the outcome of its statement
Stop(r) == R(r.s, r.c, r.v)

Exec(P, st, s0) ==
  LET s == [s0 EXCEPT !.n = @ - 1] IN
  IF s0.n = 0 THEN Undef(s0) ELSE
  CASE st.k = "decl" -> LET r == Eval(P, st.e, s) IN IF ~Ok(r) THEN Stop(r) ELSE R(Bind(r.s, st.n, r.v), "next", 0)
    [] st.k = "asg" ->
       LET r == Eval(P, st.e, s) IN
       IF ~Ok(r) THEN Stop(r)
       ELSE IF st.op = "=" THEN R(SetVar(r.s, st.n, r.v), "next", 0)
       ELSE LET old == GetVar(r.s, st.n) IN
            IF ~ArithOk(st.op, st.t, st.t, old, r.v) THEN Undef(r.s)
            ELSE R(SetVar(r.s, st.n, Arith(st.op, st.t, old, r.v)), "next", 0)
    [] st.k = "asgp" ->    \* assignment to a part of a variable
       LET r == Eval(P, st.e, s) IN
       IF ~Ok(r) THEN Stop(r)
       ELSE LET p == EvalPath(P, st.p, 1, r.s, <<>>) IN
            IF ~Ok(p) THEN Stop(p)
            ELSE LET v == GetVar(p.s, st.n)
                     old == GetPath(v, p.v, 1)
                 IN IF st.op = "=" THEN R(SetVar(p.s, st.n, PutPath(v, p.v, 1, r.v)), "next", 0)
                    ELSE IF ~ArithOk(st.op, st.t, st.t, old, r.v) THEN Undef(p.s)
                    ELSE R(SetVar(p.s, st.n, PutPath(v, p.v, 1, Arith(st.op, st.t, old, r.v))), "next", 0)
    [] st.k = "asgo" ->    \* assignment to a field of an object, or to a part of one
       LET o == Eval(P, st.o, s) IN
       IF ~Ok(o) THEN Stop(o)
       ELSE IF o.v = 0 THEN Undef(o.s)
       ELSE LET r == Eval(P, st.e, o.s) IN
            IF ~Ok(r) THEN Stop(r)
            ELSE LET p == EvalPath(P, st.p, 1, r.s, <<>>) IN
                 IF ~Ok(p) THEN Stop(p)
                 ELSE LET fs == p.s.h[o.v].f
                          old == GetPath(fs, p.v, 1)
                      IN IF st.op = "=" THEN R([p.s EXCEPT !.h[o.v].f = PutPath(fs, p.v, 1, r.v)], "next", 0)
                         ELSE IF ~ArithOk(st.op, st.t, st.t, old, r.v) THEN Undef(p.s)
                         ELSE R([p.s EXCEPT !.h[o.v].f = PutPath(fs, p.v, 1, Arith(st.op, st.t, old, r.v))], "next", 0)
    [] st.k = "match" ->
       LET r == Eval(P, st.e, s) IN
       IF ~Ok(r) THEN Stop(r)
       ELSE LET hit == {i \in 1..Len(st.cases) : st.cases[i].u = r.v.u}
                cs == st.cases[CHOOSE i \in hit : TRUE]
                x == IF hit # {} THEN Leave(P, Block(P, cs.body, IF cs.n = "" THEN r.s ELSE Bind(r.s, cs.n, r.v.v)), r.s)
                     ELSE Block(P, st.def, r.s)
            IN IF x.c = "break" THEN Out(x, s) ELSE x
    [] st.k = "expr" -> LET r == Eval(P, st.e, s) IN IF ~Ok(r) THEN Stop(r) ELSE R(r.s, "next", 0)
    [] st.k = "ev" -> LET r == Eval(P, st.e, s) IN IF ~Ok(r) THEN Stop(r) ELSE R(Emit(P, r.s, st.tag, r.v), "next", 0)
    [] st.k = "birth" ->   \* the object under construction gets its number
       LET o == s.env["this"]
           v == NextId(s)
       IN R(Emit(P, [s EXCEPT !.h[o].f[1] = v], 7000, v), "next", 0)
    [] st.k = "if" -> LET r == Eval(P, st.c, s) IN
                      IF ~Ok(r) THEN Stop(r) ELSE Block(P, IF r.v THEN st.a ELSE st.b, r.s)
    [] st.k = "while" -> While(P, st, s)
    [] st.k = "for" ->
       LET a == Eval(P, st.lo, s) IN
       IF ~Ok(a) THEN Stop(a)
       ELSE LET b == Eval(P, st.hi, a.s) IN IF ~Ok(b) THEN Stop(b) ELSE For(P, st, a.v, b.v, b.s)
    [] st.k = "foreach" ->
       LET a == EvalArgs(P, st.es, 1, s, <<>>) IN IF ~Ok(a) THEN Stop(a) ELSE ForEach(P, st, a.v, 1, a.s)
    [] st.k = "foreacha" ->
       LET a == Eval(P, st.e, s) IN IF ~Ok(a) THEN Stop(a) ELSE ForEach(P, st, a.v, 1, a.s)
    [] st.k = "foreachs" ->    \* the characters of a string
       LET a == Eval(P, st.e, s) IN IF ~Ok(a) THEN Stop(a) ELSE ForEach(P, st, [i \in DOMAIN a.v |-> <<a.v[i], 0, 0, 0, 0, 0, 0, 0>>], 1, a.s)
    [] st.k = "switch" ->
       LET r == Eval(P, st.e, s) IN
       IF ~Ok(r) THEN Stop(r)
       ELSE LET hit == {i \in 1..Len(st.cases) : \E j \in 1..Len(st.cases[i].vs) : st.cases[i].vs[j] = r.v}
                x == IF hit # {} THEN Block(P, st.cases[CHOOSE i \in hit : TRUE].body, r.s)
                     ELSE Block(P, st.def, r.s)
            IN IF x.c = "break" THEN Out(x, s) ELSE x   \* break leaves the switch
    [] st.k = "blk" -> Block(P, st.body, s)
    [] st.k = "ret" -> LET r == Eval(P, st.e, s) IN IF ~Ok(r) THEN Stop(r) ELSE R(r.s, "return", r.v)
    [] st.k = "retv" -> R(s, "return", Zero)
    [] st.k = "yield" -> LET r == Eval(P, st.e, s) IN IF ~Ok(r) THEN Stop(r) ELSE R(r.s, "yield", r.v)
    [] st.k = "brk" -> R(s, "break", 0)
    [] st.k = "cont" -> R(s, "continue", 0)
    [] st.k = "raise" -> LET r == Eval(P, st.e, s) IN IF ~Ok(r) THEN Stop(r) ELSE R(r.s, "exc", r.v)
    [] st.k = "reraise" -> R(s, "exc", s.exc[Len(s.exc)])
    [] st.k = "catchs" ->  \* call catch { body } / catch discard, value unused
       LET r == Eval(P, st.e, s) IN
       IF r.c = "ok" THEN R(r.s, "next", 0)
       ELSE IF r.c # "exc" THEN Stop(r)
       ELSE LET h == Block(P, st.body, [r.s EXCEPT !.exc = Append(@, r.v)])
            IN [h EXCEPT !.s.exc = r.s.exc]

\* a block: deferred statements run when it is left, in reverse order, whatever way it is left; then its variables go away
Block(P, ss, s) == Leave(P, ExecSeq(P, ss, 1, s, <<>>), s)
ExecSeq(P, ss, i, s, ds) ==
  IF i > Len(ss) THEN RunDefers(P, ds, Len(ds), R(s, "next", 0))
  ELSE IF ss[i].k = "defer" THEN ExecSeq(P, ss, i + 1, s, Append(ds, ss[i].s))
  ELSE LET r == Exec(P, ss[i], s) IN
       IF r.c = "next" THEN ExecSeq(P, ss, i + 1, r.s, ds)
       ELSE IF r.c = "undef" THEN r
       ELSE RunDefers(P, ds, Len(ds), r)
RunDefers(P, ds, i, r) ==
  IF i = 0 THEN r
  ELSE LET d == Exec(P, ds[i], r.s) IN
       IF d.c = "undef" THEN d ELSE RunDefers(P, ds, i - 1, [r EXCEPT !.s = d.s])

While(P, st, s) ==
  LET c == Eval(P, st.c, s) IN
  IF ~Ok(c) THEN Stop(c)
  ELSE IF ~c.v THEN R(c.s, "next", 0)
  ELSE LET r == Block(P, st.body, [c.s EXCEPT !.n = IF @ = 0 THEN 0 ELSE @ - 1]) IN
       IF r.s.n = 0 THEN Undef(r.s)
       ELSE IF r.c \in {"next", "continue"} THEN While(P, st, Out(r, s).s)
       ELSE IF r.c = "break" THEN Out(r, s) ELSE r
For(P, st, i, hi, s) ==
  IF ~Lt(st.t, i, hi) THEN R(s, "next", 0)
  ELSE LET r == Leave(P, Block(P, st.body, Bind(s, st.n, i)), s) IN
       IF r.s.n = 0 THEN Undef(r.s)
       ELSE IF r.c \in {"next", "continue"} THEN For(P, st, Add(i, One), hi, Out(r, s).s)
       ELSE IF r.c = "break" THEN Out(r, s) ELSE r
ForEach(P, st, vs, i, s) ==
  IF i > Len(vs) THEN R(s, "next", 0)
  ELSE LET b == Bind(s, st.n, vs[i])
           r == Leave(P, Block(P, st.body, IF st.k = "foreacha" /\ st.x # "" THEN Bind(b, st.x, <<i - 1, 0, 0, 0, 0, 0, 0, 0>>) ELSE b), s) IN
       IF r.s.n = 0 THEN Undef(r.s)
       ELSE IF r.c \in {"next", "continue"} THEN ForEach(P, st, vs, i + 1, Out(r, s).s)
       ELSE IF r.c = "break" THEN Out(r, s) ELSE r

\* running a whole program: globals g, entry function f, arguments
Run(P, g, f, args, n) == Call(P, f, args, [g |-> g, env |-> <<>>, stk |-> <<>>, out |-> <<>>, exc |-> <<>>, h |-> <<>>, lv |-> <<>>, hold |-> {}, n |-> n])
=============================================================================
