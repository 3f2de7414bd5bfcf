------------------------------- MODULE DeclMC -------------------------------
(* Every program of up to three declarations out of a pool: the order of declarations of different names makes no difference to
   which are refused (unless one uses the value of the other), a declaration that nothing of the rest mentions makes none either,
   and what is wrong about a program of wrong names is not types. *)
EXTENDS Decls

CONSTANT MaxLen
I32 == P("i32")
St(n) == [k |-> "st", n |-> n]
Cl(n) == [k |-> "cl", n |-> n]
If(n) == [k |-> "if", n |-> n]
Lit(t) == [k |-> "lit", t |-> t]
Pa(n, t, d) == [n |-> n, t |-> t, d |-> d]
Me(n, ps, r) == [n |-> n, ps |-> ps, r |-> r]
Fu(n, ps) == [k |-> "fun", n |-> n, tp |-> <<>>, ps |-> ps, r |-> VOID]
Stu(n, b, fs, ms) == [k |-> "struct", n |-> n, base |-> b, fs |-> fs, ms |-> ms]
Cla(n, b, f, is, ms) == [k |-> "class", n |-> n, base |-> b, final |-> f, ifs |-> is, fs |-> <<>>, ms |-> ms]
M0 == Me("m", <<Pa("a", I32, NONE)>>, I32)
Pool ==
  { Fu("f", <<>>), Fu("f", <<Pa("a", I32, Lit(I32))>>), Fu("f", <<Pa("a", I32, Lit(STR))>>), Fu("f", <<Pa("a", [k |-> "und", n |-> "Z"], NONE)>>),
    Stu("S", NONE, <<Pa("x", I32, NONE)>>, <<>>), Stu("T", St("S"), <<Pa("x", I32, NONE)>>, <<>>), Stu("U", St("S"), <<Pa("y", I32, Lit(Bool))>>, <<>>),
    Cla("A", NONE, FALSE, <<>>, <<M0>>), Cla("B", Cl("A"), TRUE, <<If("I")>>, <<M0>>), Cla("C", Cl("B"), FALSE, <<>>, <<M0, M0>>),
    Cla("D", Cl("D"), FALSE, <<If("I"), If("I")>>, <<>>), [k |-> "iface", n |-> "I", ms |-> <<M0>>],
    [k |-> "enum", n |-> "f", base |-> P("i8"), os |-> <<[n |-> "O", v |-> TRUE, x |-> 300]>>],
    [k |-> "var", n |-> "v", t |-> I32, e |-> Lit(P("i64"))], [k |-> "var", n |-> "w", t |-> NONE, e |-> [k |-> "name", n |-> "v"]] }

Declared(ds) == {ds[i].n : i \in DOMAIN ds}
Closed(ds) == \A i \in DOMAIN ds : \A n \in Uses1(ds[i]) : n \in Declared(ds) \/ ds[i].k = "var"

VARIABLE ds
Init == ds = <<>>
Next == Len(ds) < MaxLen /\ \E d \in Pool : ds' = Append(ds, d)

Swap(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
Moved(i, S) == {IF j = i THEN i + 1 ELSE IF j = i + 1 THEN i ELSE j : j \in S}
Independent(a, b) == a.n # b.n /\ ~(a.k = "var" /\ a.n \in Uses1(b)) /\ ~(b.k = "var" /\ b.n \in Uses1(a))
OrderFree ==
  Closed(ds) => \A i \in 1..(Len(ds) - 1) : Independent(ds[i], ds[i + 1]) => Wrong(Swap(ds, i)) = Moved(i, Wrong(ds))

Taking == {i \in DOMAIN ds : Taken(ds, i)}
NoName == Taking = {} /\ \A i \in DOMAIN ds : ~NamesBad(ds, i)
Local ==
  Closed(ds) /\ NoName /\ Len(ds) > 0 =>
    LET n == Len(ds)
        rest == SubSeq(ds, 1, n - 1)
    IN (ds[n].n \notin Declared(rest) /\ \A i \in 1..(n - 1) : ds[n].n \notin Uses1(ds[i])) => Wrong(rest) = Wrong(ds) \ {n}
\* the compiler's errors can be exactly those of the wrong declarations
Exact == Closed(ds) => Answer(ds, Wrong(ds)) /\ (Wrong(ds) = {} => \A i \in DOMAIN ds : ~Answer(ds, {i}))
=============================================================================
