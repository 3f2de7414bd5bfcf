------------------------------ MODULE StaticMC ------------------------------
(* Laws of the relations the static rules are made of, and the choice among overloads, for every list of up to N overloads and every
   list of up to two arguments over a few types. *)
EXTENDS Statics
CONSTANTS N
VARIABLES fs, as
I8 == P("i8")
I32 == P("i32")
C0 == [k |-> "cl", n |-> "C0"]
C1 == [k |-> "cl", n |-> "C1"]
W == [made |-> [E |-> P("i64"), F |-> P("u16")],
      classes |-> [C0 |-> [base |-> "", init |-> <<>>, abs |-> FALSE], C1 |-> [base |-> "C0", init |-> <<I32>>, abs |-> FALSE]]]
Types == {I8, I32, C0, C1}
Lists == {<<>>} \union {<<t>> : t \in Types} \union {<<t, u>> : t \in Types, u \in Types}
Funs == UNION {{[ps |-> ps, nd |-> d] : d \in 0..Len(ps)} : ps \in Lists}
Init == fs = <<>> /\ as \in Lists
Next == Len(fs) < N /\ \E f \in Funs : fs' = Append(fs, f) /\ UNCHANGED as
Spec == Init /\ [][Next]_<<fs, as>>

Chosen == Pick(W, fs, as)
\* a call is refused exactly if no overload takes the arguments; the one called takes them
Decided == IF Chosen = 0 THEN \A i \in DOMAIN fs : ~Fits(W, fs[i], as) ELSE Fits(W, fs[Chosen], as)
\* nothing is closer than the one called
Closest == Chosen # 0 => \A i \in DOMAIN fs : Fits(W, fs[i], as) => Exactness(fs[Chosen], as) >= Exactness(fs[i], as)
\* an overload that does not take the arguments plays no part
Without(k) == SubSeq(fs, 1, k - 1) \o SubSeq(fs, k + 1, Len(fs))
Irrelevant == \A k \in DOMAIN fs : ~Fits(W, fs[k], as) =>
                LET j == Pick(W, Without(k), as) IN IF Chosen = 0 THEN j = 0 ELSE j # 0 /\ Without(k)[j] = fs[Chosen]
\* another order of two overloads matters only where both are as close
Order == Len(fs) = 2 /\ Chosen # 0 =>
           LET j == Pick(W, <<fs[2], fs[1]>>, as) IN <<fs[2], fs[1]>>[j] = fs[Chosen] \/ Exactness(fs[1], as) = Exactness(fs[2], as)

\* ---- relations ----
Ints == {P(n) : n \in Signed \union Unsigned}
Prims == Ints \union {P(n) : n \in {"bool", "char", "wchar", "f32", "f64"}}
En == [k |-> "en", n |-> "E"]
Fn == [k |-> "en", n |-> "F"]
Atoms == Prims \union {STR, C0, C1, En, Fn}
Bits(t) == IF t.n \in Signed THEN 8 * Size(t.n) - 1 ELSE 8 * Size(t.n)
Opt(t) == [k |-> "opt", t |-> t]
Ptr(t) == [k |-> "ptr", t |-> t]
Tup(t, u) == [k |-> "tup", ms |-> <<t, u>>]
Un(t, u) == [k |-> "un", ms |-> <<t, u>>]
ASSUME Reflexive == \A t \in Atoms : Assignable(W, t, t) /\ Assignable(W, Opt(t), Opt(t)) /\ Assignable(W, Tup(t, t), Tup(t, t))
\* what a signed integer is given it can represent; an unsigned one never loses bits of an unsigned one
ASSUME Widening == \A t \in Ints, u \in Ints : (t.n \in Signed \/ u.n \in Unsigned) => (Assignable(W, t, u) <=> Bits(t) >= Bits(u) /\ (u.n \in Signed => t.n \in Signed))
ASSUME Transitive == \A t \in Ints, u \in Ints, v \in Ints :
  (t.n \in Signed /\ u.n \in Signed /\ Assignable(W, t, u) /\ Assignable(W, u, v)) => Assignable(W, t, v)
\* nothing mixes but numbers, enumerations with integers, derived classes with their bases
ASSUME Apart == \A t \in Atoms, u \in Atoms : (t # u /\ Assignable(W, t, u)) =>
  \/ (t \in Ints /\ (u \in Ints \/ u \in {En, Fn}))
  \/ (IsFloat(t) /\ (IsFloat(u) \/ u \in Ints \/ u \in {En, Fn}))
  \/ (IsChar(t) /\ IsChar(u))
  \/ (t = C0 /\ u = C1)
  \/ (t = En /\ u = Fn)          \* what an i64 is made of holds a u16
ASSUME Nothing == \A t \in Atoms : Assignable(W, t, NULL) <=> t.k \in {"str", "cl"}
ASSUME Wrapped == \A t \in Atoms, u \in Atoms :
  /\ Assignable(W, Opt(t), NULL) /\ (Assignable(W, Opt(t), u) <=> Assignable(W, t, u)) /\ ~Assignable(W, t, Opt(u))
  /\ (Assignable(W, Tup(t, I8), Tup(u, I8)) <=> Assignable(W, t, u)) /\ (Assignable(W, Ptr(t), Ptr(u)) <=> Assignable(W, t, u))
  /\ (t # u => Assignable(W, Un(t, u), t) /\ Assignable(W, Un(t, u), u) /\ ~Assignable(W, t, Un(t, u)))
\* everything that may be assigned may be cast
ASSUME Casts == \A t \in Atoms, u \in Atoms : Assignable(W, t, u) => Castable(W, t, u)
ASSUME Operators == \A t \in Prims, u \in Prims :
  /\ \A o \in Comparisons \union Equalities : BinType(W, o, t, u) \in {Bool, ERR}
  /\ \A o \in {"+", "-", "*", "/"} : BinType(W, o, t, u) = BinType(W, "+", t, u)
  /\ (IsFloat(t) \/ IsFloat(u)) => \A o \in {"%", "&", "|", "^", "<<", ">>", "&&", "||"} : BinType(W, o, t, u) = ERR
  /\ (t \in Ints /\ u \in Ints) => \A o \in {"+", "%", "&", "<<"} : BinType(W, o, t, u) \in {t, u} /\ Size(BinType(W, o, t, u).n) >= Size(t.n)
=============================================================================
