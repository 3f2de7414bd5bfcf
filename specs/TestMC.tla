------------------------------- MODULE TestMC -------------------------------
(* Every sequence of up to N small test cases: each runs once, in order, whatever became of the others; the run fails exactly if one did;
   what a case leaves in a variable the next one finds, even of a case that failed; what is deferred happens in any case. *)
EXTENDS Tests
CONSTANTS N
VARIABLES ts
Ss == << <<[k |-> "p", x |-> 1]>>,
         <<[k |-> "defer", x |-> 8], [k |-> "set", v |-> 1, x |-> 1], [k |-> "ok", v |-> 1, o |-> "<", x |-> 2], [k |-> "p", x |-> 2]>>,
         <<[k |-> "call", f |-> 1, x |-> 0], [k |-> "defer", x |-> 9], [k |-> "call", f |-> 1, x |-> 5], [k |-> "set", v |-> 1, x |-> 7]>>,
         <<[k |-> "try", f |-> 1, x |-> 5, d |-> 3]>>,
         <<[k |-> "loop", x |-> 2, ss |-> <<[k |-> "call", f |-> 2, x |-> 1]>>], [k |-> "if", v |-> 1, o |-> ">=", x |-> 3, ss |-> <<[k |-> "call", f |-> 2, x |-> 2]>>]>> >>
W == [vars |-> <<0>>, fns |-> << [v |-> 1, lim |-> 1, ok |-> FALSE], [v |-> 1, lim |-> 1, ok |-> TRUE] >>, main |-> FALSE,
      tests |-> [i \in DOMAIN ts |-> [name |-> ts[i], ss |-> Ss[ts[i]]]]]
Init == ts = <<>>
Next == Len(ts) < N /\ \E t \in DOMAIN Ss : ts' = Append(ts, t)
Spec == Init /\ [][Next]_ts

EachOnce == Len(Log(W)) = Len(ts) /\ \A i \in DOMAIN ts : Log(W)[i][1] = ts[i]
Grows == \A i \in DOMAIN ts : Log([W EXCEPT !.tests = SubSeq(@, 1, i)]) = SubSeq(Log(W), 1, i)
Fails == (Failed(W) = 0) <=> \A i \in DOMAIN ts : Log(W)[i][3] = ""
Deferred == \A i \in DOMAIN ts : LET o == Log(W)[i][2] IN (ts[i] = 2 => o[Len(o)] = 8) /\ (ts[i] = 3 => o[Len(o)] = 9)
Always == \A i \in DOMAIN ts : (ts[i] = 3 => Log(W)[i][3] = "Bad") /\ (ts[i] \in {1, 4} => Log(W)[i][3] = "")
\* the case that counts fails from its second time on, or when something else has counted
Counts == \A i \in DOMAIN ts : ts[i] = 2 => (Log(W)[i][3] = "" <=> \A j \in 1..(i - 1) : ts[j] = 1)
=============================================================================
