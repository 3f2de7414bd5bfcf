------------------------------- MODULE MapSet -------------------------------
(* HashMap and HashSet of stdlib/hash.cxy: a finite function m and a finite  *)
(* set s.  Enumeration order is unspecified; each entry shows exactly once.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Has(m, k) == k \in DOMAIN m
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Empty == [x \in {} |-> 0]

AfterM(m, op, a) ==
  CASE op \in {"insert", "put"} -> Put(m, a[1], a[2])
    [] op = "insertnr" -> IF Has(m, a[1]) THEN m ELSE Put(m, a[1], a[2])
    [] op = "remove" -> Del(m, a[1])
    [] op = "clear" -> Empty
    [] OTHER -> m

AfterS(s, op, a) ==
  CASE op = "sinsert" -> s \cup {a[1]}
    [] op = "sremove" -> s \ {a[1]}
    [] op = "sclear" -> {}
    [] OTHER -> s

(* a flat list k1,v1,k2,v2,... enumerates m: every entry once, nothing else *)
Enumerates(out, m) ==
  /\ Len(out) = 2 * Cardinality(DOMAIN m)
  /\ \A i \in 1..(Len(out) \div 2) : out[2*i-1] \in DOMAIN m /\ out[2*i] = m[out[2*i-1]]
  /\ {out[2*i-1] : i \in 1..(Len(out) \div 2)} = DOMAIN m

EnumeratesSet(out, s) ==
  /\ Len(out) = Cardinality(s)
  /\ {out[i] : i \in 1..Len(out)} = s

(* a list that is the bag of f over the entries *)
BagOf(out, m, f(_)) ==
  /\ Len(out) = Cardinality(DOMAIN m)
  /\ \A x \in {out[i] : i \in 1..Len(out)} \cup {f(m[k]) : k \in DOMAIN m} :
        Cardinality({i \in 1..Len(out) : out[i] = x}) = Cardinality({k \in DOMAIN m : f(m[k]) = x})

OutOk(m, s, op, a, out) ==
  CASE op \in {"insert", "insertnr"} -> out = << ~Has(m, a[1]) >>
    [] op \in {"get", "idx"} -> out = IF Has(m, a[1]) THEN <<TRUE, m[a[1]]>> ELSE <<FALSE>>
    [] op = "contains" -> out = << Has(m, a[1]) >>
    [] op \in {"iter", "citer", "each"} -> Enumerates(out, m)
    [] op = "map" -> BagOf(out, m, LAMBDA v : v + 1)
    [] op = "scontains" -> out = << a[1] \in s >>
    [] op \in {"siter", "sciter", "seach", "smap"} -> EnumeratesSet(out, s)
    [] OTHER -> out = <<>>
=============================================================================
