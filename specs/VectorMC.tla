------------------------------ MODULE VectorMC ------------------------------
(* Exhaustive exploration of VectorSeq: every history of bounded length over *)
(* a few values; `log` is the multiset-free ledger of what went in and out.  *)
EXTENDS VectorSeq, TLC, FiniteSets
CONSTANTS Vals, MaxLen, MaxOps
VARIABLES s, cap, n, ins, outs

vars == <<s, cap, n, ins, outs>>

Init == s = <<>> /\ cap \in 0..2 /\ n = 0 /\ ins = <<>> /\ outs = <<>>

Ops == {<<"push", <<v>>>> : v \in Vals} \cup {<<"pop", <<>>>>, <<"shift", <<>>>>, <<"shrink", <<>>>>}
       \cup {<<"set", <<i, v>>>> : i \in 0..(MaxLen-1), v \in Vals}
       \cup {<<"resize", <<k>>>> : k \in 0..(MaxLen+1)}

Do(o, a) ==
  /\ ~Panics(s, o, a)
  /\ Len(After(s, o, a)) <= MaxLen
  /\ s' = After(s, o, a)
  /\ \E c \in 0..(MaxLen + 2) : CapOk(s', c, o, a) /\ (o \notin {"push", "resize", "shrink"} => c = cap)
                              /\ (o = "push" => c >= cap /\ (cap > Len(s) => c = cap)) /\ cap' = c
  /\ n' = n + 1
  /\ ins' = IF o = "push" THEN Append(ins, a[1]) ELSE ins
  /\ outs' = outs \o (IF o \in {"pop", "shift"} THEN Out(s, o, a, ToString) ELSE <<>>)

Next == n < MaxOps /\ \E p \in Ops : Do(p[1], p[2])
Spec == Init /\ [][Next]_vars

Room == cap >= Len(s)
OnlySetOrResizeBreaksQueue ==
  \* a queue discipline (push/shift only) returns values in insertion order:
  \* checked as: whatever was taken out never exceeds what was put in
  Len(outs) + Len(s) <= Len(ins)
Queries ==
  /\ Out(s, "each", <<>>, ToString) = s
  /\ Len(Out(s, "iter", <<>>, ToString)) = 2 * Len(s)
  /\ LET f == Out(s, "filter", <<>>, ToString) IN Len(f) <= Len(s) /\ \A i \in 1..Len(f) : f[i] % 2 = 0
  /\ \A v \in Vals : LET r == Out(s, "index", <<v>>, ToString) IN r[1] <=> v \in {s[i] : i \in 1..Len(s)}
=============================================================================
