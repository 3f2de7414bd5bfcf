------------------------------- MODULE Decls -------------------------------
(* The rules for declarations: which of a program's top level declarations the compiler has to refuse.

   A program is a sequence of declarations, in the order of the text:
     fun    n, tp: names of type parameters, ps: parameters [n, t, d], r
     var    n, t, e                                a variable of the program (t may be NONE: that of e)
     struct n, base, fs: fields [n, t, d], ms: methods [n, ps, r]
     class  n, base, final, ifs: types it says it implements, fs, ms
     iface  n, ms
     enum   n, base, os: options [n, v: HasValue or not, x: the value]
     alias  n, t
     exc    n, ps, e: the expression that is its message
     main   ps
   Types are those of Statics, and if (n): an interface, und (n): a name that is declared nowhere, dim (t, e): an array whose
   length is the expression e.  Expressions e: [k |-> "lit", t], [k |-> "int", x], [k |-> "name", n], NONE.
   Where types stand, a declaration may be used before it; where values stand, a variable may not. *)
EXTENDS Statics

NONE == [k |-> "none"]

Twice(s) == \E i, j \in DOMAIN s : i < j /\ s[i] = s[j]
NamesOf(s) == [i \in DOMAIN s |-> s[i].n]

\* ---- names ----
RECURSIVE Known(_)
Known(t) ==
  CASE t.k = "und" -> FALSE
    [] t.k \in {"ptr", "opt", "arr", "dim"} -> Known(t.t)
    [] t.k \in {"tup", "un"} -> \A i \in DOMAIN t.ms : Known(t.ms[i])
    [] OTHER -> TRUE

\* the variables declared before the i-th declaration
VarsBefore(ds, i) == {ds[j].n : j \in {j \in 1..(i - 1) : ds[j].k = "var"}}
KnownValue(ds, i, local, e) == e.k = "name" => e.n \in local \union VarsBefore(ds, i)

Params(ds, i, ps) ==
  /\ ~Twice(NamesOf(ps))
  /\ \A p \in DOMAIN ps : Known(ps[p].t) /\ KnownValue(ds, i, {ps[q].n : q \in 1..(p - 1)}, ps[p].d)

Plain(d) == d.k = "fun" /\ d.tp = <<>>
\* the name is taken: only functions without type parameters share theirs (variables come after all others)
Taken(ds, i) ==
  LET same == {j \in 1..(i - 1) : ds[j].n = ds[i].n /\ ds[j].k # "var"}
  IN ds[i].k # "var" /\ same # {} /\ LET f == CHOOSE j \in same : \A m \in same : j <= m IN ~(Plain(ds[f]) /\ Plain(ds[i]))

StructNamed(ds, n) == CHOOSE j \in DOMAIN ds : ds[j].k = "struct" /\ ds[j].n = n
RECURSIVE AllFields(_, _)
AllFields(ds, d) ==
  (IF d.base.k = "st" THEN AllFields(ds, ds[StructNamed(ds, d.base.n)]) ELSE <<>>) \o NamesOf(d.fs)

NamesBad(ds, i) ==
  LET d == ds[i]
  IN CASE d.k = "fun" -> ~Params(ds, i, d.ps) \/ Twice(d.tp) \/ ~Known(d.r)
          [] d.k = "main" -> ~Params(ds, i, d.ps)
          [] d.k = "exc" -> ~Params(ds, i, d.ps) \/ ~KnownValue(ds, i, {d.ps[q].n : q \in DOMAIN d.ps}, d.e)
          [] d.k = "var" -> (\E j \in DOMAIN ds : ds[j].n = d.n /\ (j < i \/ ds[j].k # "var")) \/ ~Known(d.t) \/ ~KnownValue(ds, i, {}, d.e)
          [] d.k = "alias" -> ~Known(d.t)
          [] d.k = "enum" -> Twice(NamesOf(d.os)) \/ ~Known(d.base)
          [] d.k = "iface" -> \E m \in DOMAIN d.ms : ~Params(ds, i, d.ms[m].ps) \/ ~Known(d.ms[m].r)
          [] d.k \in {"struct", "class"} ->
               LET fs == IF d.k = "struct" THEN AllFields(ds, d) ELSE NamesOf(d.fs)
               IN \/ Twice(fs) \/ \E m \in DOMAIN d.ms : d.ms[m].n \in Range(fs)
                  \/ d.k = "struct" /\ d.base.k \notin {"st", "none"}
                  \/ d.k = "class" /\ (~Known(d.base) \/ \E j \in DOMAIN d.ifs : ~Known(d.ifs[j]))
                  \/ \E f \in DOMAIN d.fs : ~Known(d.fs[f].t)
                  \/ \E m \in DOMAIN d.ms : ~Params(ds, i, d.ms[m].ps) \/ ~Known(d.ms[m].r)

\* ---- types ----
Smallest(x) == IF x >= -128 /\ x <= 127 THEN P("i8") ELSE IF x >= -32768 /\ x <= 32767 THEN P("i16") ELSE P("i32")

RECURSIVE ValueType(_, _)
ValueType(ds, e) ==
  CASE e.k = "lit" -> e.t
    [] e.k = "null" -> NULL
    [] e.k = "int" -> Smallest(e.x)
    [] e.k = "name" -> LET d == ds[CHOOSE j \in DOMAIN ds : ds[j].k = "var" /\ ds[j].n = e.n]
                       IN IF d.t.k # "none" THEN d.t ELSE ValueType(ds, d.e)

\* the classes, as Statics wants them
World(ds) ==
  LET cs == {j \in DOMAIN ds : ds[j].k = "class"}
      es == {j \in DOMAIN ds : ds[j].k = "enum"}
      At(n) == ds[CHOOSE j \in cs : ds[j].n = n]
  IN [structs |-> << >>, enums |-> << >>,
      made |-> [n \in {ds[j].n : j \in es} |-> LET d == ds[CHOOSE j \in es : ds[j].n = n] IN IF d.base.k = "none" THEN P("i64") ELSE d.base],
      classes |-> [n \in {ds[j].n : j \in cs} |-> [base |-> IF At(n).base.k = "cl" THEN At(n).base.n ELSE "", fs |-> <<>>, ms |-> <<>>, init |-> <<>>, abs |-> FALSE]]]

\* a default that fits its parameter; it may be an earlier parameter
Defaults(W, ds, ps) ==
  \A p \in DOMAIN ps :
    LET e == ps[p].d
    IN e.k = "none"
       \/ LET before == {q \in 1..(p - 1) : e.k = "name" /\ ps[q].n = e.n}
              t == IF before # {} THEN ps[CHOOSE q \in before : TRUE].t ELSE ValueType(ds, e)
          IN Assignable(W, ps[p].t, t)

TypesOf(ps) == [p \in DOMAIN ps |-> ps[p].t]
\* a function of the name declared before takes the same, if need be with its defaults
Same(p, q) == /\ Len(q) <= Len(p)
              /\ \A j \in 1..Len(p) : IF j <= Len(q) THEN p[j].t = q[j].t ELSE p[j].d.k # "none"
Clash(s, i) == \E j \in DOMAIN s : j < i /\ s[j].n = s[i].n /\ Same(s[j].ps, s[i].ps)

RECURSIVE ReachesBase(_, _, _, _)
ReachesBase(ds, n, goal, left) ==
  IF left = 0 THEN FALSE
  ELSE LET d == ds[CHOOSE j \in DOMAIN ds : ds[j].k = "class" /\ ds[j].n = n]
       IN d.base.k = "cl" /\ (d.base.n = goal \/ ReachesBase(ds, d.base.n, goal, left - 1))

Implements(W, d, m) ==
  LET fs == SelectSeq(d.ms, LAMBDA f : f.n = m.n)
      j == Pick(W, [x \in DOMAIN fs |-> [ps |-> TypesOf(fs[x].ps), nd |-> Cardinality({p \in DOMAIN fs[x].ps : fs[x].ps[p].d.k # "none"})]], TypesOf(m.ps))
  IN j # 0 /\ fs[j].r = m.r

Members(W, ds, d) ==
  \/ \E f \in DOMAIN d.fs : d.fs[f].t.k # "none" /\ d.fs[f].d.k # "none" /\ ~Assignable(W, d.fs[f].t, ValueType(ds, d.fs[f].d))
  \/ \E m \in DOMAIN d.ms : Clash(d.ms, m) \/ ~Defaults(W, ds, d.ms[m].ps)

Dimension(t) == t.k = "dim" => t.e.k = "int" \/ (t.e.k = "lit" /\ IsIntegral(t.e.t))

TypesBad(W, ds, i) ==
  LET d == ds[i]
  IN CASE d.k = "fun" -> \/ ~Defaults(W, ds, d.ps)
                         \/ Plain(d) /\ \E j \in 1..(i - 1) : ds[j].k = "fun" /\ ds[j].n = d.n /\ Same(ds[j].ps, d.ps)
       [] d.k = "main" -> Len(d.ps) > 1 \/ (Len(d.ps) = 1 /\ d.ps[1].t # [k |-> "slice", t |-> STR])
       [] d.k = "exc" -> ~Defaults(W, ds, d.ps)
                         \/ LET ps == {q \in DOMAIN d.ps : d.e.k = "name" /\ d.ps[q].n = d.e.n}
                                t == IF ps # {} THEN d.ps[CHOOSE q \in ps : TRUE].t ELSE ValueType(ds, d.e)
                            IN ~Assignable(W, STR, t)
       [] d.k = "var" -> d.t.k # "none" /\ ~Assignable(W, d.t, ValueType(ds, d.e))
       [] d.k = "alias" -> ~Dimension(d.t)
       [] d.k = "enum" -> LET base == IF d.base.k = "none" THEN P("i64") ELSE d.base
                          IN ~IsInt(base) \/ \E o \in DOMAIN d.os : ~Assignable(W, base, Smallest(d.os[o].x))
       [] d.k = "iface" -> FALSE
       [] d.k = "struct" -> Members(W, ds, d)
       [] d.k = "class" ->
            \/ d.base.k \notin {"none", "cl"}
            \/ d.base.k = "cl" /\ (\/ ReachesBase(ds, d.n, d.n, Len(ds))
                                   \/ \E j \in DOMAIN ds : ds[j].k = "class" /\ ds[j].n = d.base.n /\ ds[j].final)
            \/ \E j \in DOMAIN d.ifs : d.ifs[j].k # "if"
            \/ Twice(d.ifs)
            \/ \E j \in DOMAIN d.ifs :
                 d.ifs[j].k = "if" /\ LET f == ds[CHOOSE m \in DOMAIN ds : ds[m].k = "iface" /\ ds[m].n = d.ifs[j].n]
                                      IN \E m \in DOMAIN f.ms : ~Implements(W, d, f.ms[m])
            \/ Members(W, ds, d)

\* the names of the declarations are judged first, then all other names, then types: each only if those before are right
Wrong(ds) ==
  LET taken == {i \in DOMAIN ds : Taken(ds, i)}
      bad == {i \in DOMAIN ds : NamesBad(ds, i)}
      W == TLCEval(World(ds))
  IN IF taken # {} THEN taken ELSE IF bad # {} THEN bad ELSE {i \in DOMAIN ds : TypesBad(W, ds, i)}

\* ---- what depends on what ----
RECURSIVE Mentions(_)
Mentions(t) ==
  CASE t.k \in {"st", "cl", "en", "if", "al"} -> {t.n}
    [] t.k \in {"ptr", "opt", "arr", "dim", "slice"} -> Mentions(t.t)
    [] t.k \in {"tup", "un"} -> UNION {Mentions(t.ms[i]) : i \in DOMAIN t.ms}
    [] OTHER -> {}
Value(e) == IF e.k = "name" THEN {e.n} ELSE {}
OfParams(ps) == UNION {Mentions(ps[p].t) \union Value(ps[p].d) : p \in DOMAIN ps}
OfMethods(ms) == UNION {OfParams(ms[m].ps) \union Mentions(ms[m].r) : m \in DOMAIN ms}
OfFields(fs) == UNION {Mentions(fs[f].t) \union Value(fs[f].d) : f \in DOMAIN fs}
Uses1(d) ==
  CASE d.k = "fun" -> OfParams(d.ps) \union Mentions(d.r)
    [] d.k = "main" -> OfParams(d.ps)
    [] d.k = "exc" -> OfParams(d.ps) \union Value(d.e)
    [] d.k = "var" -> Mentions(d.t) \union Value(d.e)
    [] d.k = "alias" -> Mentions(d.t)
    [] d.k = "enum" -> Mentions(d.base)
    [] d.k = "iface" -> OfMethods(d.ms)
    [] d.k = "struct" -> Mentions(d.base) \union OfFields(d.fs) \union OfMethods(d.ms)
    [] d.k = "class" -> Mentions(d.base) \union OfFields(d.fs) \union OfMethods(d.ms) \union UNION {Mentions(d.ifs[j]) : j \in DOMAIN d.ifs}

RECURSIVE Touched(_, _, _)
Touched(ds, bad, left) ==
  LET more == bad \union {i \in DOMAIN ds : \E j \in bad : ds[j].n \in Uses1(ds[i]) \union {ds[i].n}}
  IN IF left = 0 \/ more = bad THEN more ELSE Touched(ds, more, left - 1)

(* The compiler's answer, the set of declarations in which it reported errors: each that is wrong and needs no other wrong one, and
   none that is right, unless it needs a wrong one. *)
Answer(ds, errs) ==
  LET bad == Wrong(ds)
      Alone(i) == ~\E j \in bad \ {i} : i \in Touched(ds, {j}, Len(ds))
  IN /\ errs \subseteq Touched(ds, bad, Len(ds))
     /\ \A i \in bad : Alone(i) => i \in errs
     /\ bad # {} => errs # {}
=============================================================================
