----------------------------- MODULE ProbeTables -----------------------------
(* How the two open-addressing tables of src/cxy/core represent a set of keys, with every assignment of home slots to keys:
   lin: linear probing, removal moves later elements of the run back into the hole (HashTable);
   rh:  robin hood probing, an element displaces one that is nearer to its home; removal shifts the run back (Hmap).
   The representation invariant is that looking a key up answers whether it is in the set.                                   *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS N, K, Equal          \* slots, keys; Equal: an element also displaces one that is as near to its home as itself (a defect)
Slots == 0..(N - 1)
Ks == 1..K
VARIABLES home, lin, rh, set
vars == <<home, lin, rh, set>>
Nx(i) == (i + 1) % N
Dist(a, b) == (b - a + N) % N            \* from slot a forward to slot b

Init == home \in [Ks -> Slots] /\ lin = [i \in Slots |-> 0] /\ rh = [i \in Slots |-> 0] /\ set = {}

\* --- linear probing
RECURSIVE LFind(_, _, _), LIns(_, _, _), LShift(_, _, _)
LFind(t, k, i) == IF t[i] = 0 THEN -1 ELSE IF t[i] = k THEN i ELSE LFind(t, k, Nx(i))
LIns(t, k, i) == IF t[i] = 0 THEN [t EXCEPT ![i] = k] ELSE IF t[i] = k THEN t ELSE LIns(t, k, Nx(i))
LShift(t, hole, j) ==
  IF t[j] = 0 THEN [t EXCEPT ![hole] = 0]
  ELSE IF Dist(home[t[j]], j) >= Dist(hole, j) THEN LShift([t EXCEPT ![hole] = t[j]], j, Nx(j))
  ELSE LShift(t, hole, Nx(j))

\* --- robin hood
RECURSIVE RPut(_, _, _, _), RFind(_, _, _, _), RShift(_, _)
RPut(t, k, i, j) ==
  IF t[i] = 0 THEN [t EXCEPT ![i] = k]
  ELSE IF t[i] = k THEN t
  ELSE LET p == Dist(home[t[i]], i) IN
       IF p < j \/ (Equal /\ p = j) THEN RPut([t EXCEPT ![i] = k], t[i], Nx(i), p + 1) ELSE RPut(t, k, Nx(i), j + 1)
RFind(t, k, i, j) ==
  IF t[i] = 0 \/ j > Dist(home[t[i]], i) THEN -1 ELSE IF t[i] = k THEN i ELSE RFind(t, k, Nx(i), j + 1)
RShift(t, i) ==
  LET n == Nx(i) IN
  IF t[n] # 0 /\ Dist(home[t[n]], n) > 0 THEN RShift([t EXCEPT ![i] = t[n], ![n] = 0], n) ELSE [t EXCEPT ![i] = 0]

Put(k) == /\ Cardinality(set \cup {k}) < N
          /\ lin' = LIns(lin, k, home[k]) /\ rh' = RPut(rh, k, home[k], 0) /\ set' = set \cup {k} /\ UNCHANGED home
Del(k) == /\ k \in set
          /\ lin' = LShift(lin, LFind(lin, k, home[k]), Nx(LFind(lin, k, home[k])))
          /\ rh' = RShift(rh, RFind(rh, k, home[k], 0))
          /\ set' = set \ {k} /\ UNCHANGED home
Next == \E k \in Ks : Put(k) \/ Del(k)
Spec == Init /\ [][Next]_vars

Held(t) == {t[i] : i \in Slots} \ {0}
Once(t) == Cardinality({i \in Slots : t[i] # 0}) = Cardinality(set)
Represents == /\ Held(lin) = set /\ Held(rh) = set /\ Once(lin) /\ Once(rh)
              /\ \A k \in Ks : (LFind(lin, k, home[k]) # -1) = (k \in set) /\ (RFind(rh, k, home[k], 0) # -1) = (k \in set)
=============================================================================
