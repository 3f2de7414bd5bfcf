------------------------------ MODULE MapSetMC ------------------------------
EXTENDS MapSet
CONSTANTS Keys, Vals, MaxOps
VARIABLES m, s, n, lastw   \* lastw[k]: value of the last effective write, or "none"
vars == <<m, s, n, lastw>>
Init == m = Empty /\ s = {} /\ n = 0 /\ lastw = [k \in Keys |-> 0]
Ops == {<<o, <<k, v>>>> : o \in {"insert", "insertnr", "put"}, k \in Keys, v \in Vals}
       \cup {<<o, <<k>>>> : o \in {"remove", "sinsert", "sremove"}, k \in Keys}
       \cup {<<"clear", <<>>>>, <<"sclear", <<>>>>}
Do(o, a) ==
  /\ m' = AfterM(m, o, a) /\ s' = AfterS(s, o, a) /\ n' = n + 1
  /\ lastw' = CASE o \in {"insert", "put"} -> [lastw EXCEPT ![a[1]] = a[2]]
                [] o = "insertnr" -> IF lastw[a[1]] = 0 THEN [lastw EXCEPT ![a[1]] = a[2]] ELSE lastw
                [] o = "remove" -> [lastw EXCEPT ![a[1]] = 0]
                [] o = "clear" -> [k \in Keys |-> 0]
                [] OTHER -> lastw
Next == n < MaxOps /\ \E p \in Ops : Do(p[1], p[2])
Spec == Init /\ [][Next]_vars
LastWriteWins == \A k \in Keys : (lastw[k] = 0 <=> ~Has(m, k)) /\ (Has(m, k) => m[k] = lastw[k])
Sizes == Cardinality(DOMAIN m) <= Cardinality(Keys) /\ s \subseteq Keys
=============================================================================
