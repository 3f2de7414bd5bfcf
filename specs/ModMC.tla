------------------------------- MODULE ModMC -------------------------------
(* For every graph of imports among N files: what is loaded, in which order, and that every module comes to life once, after those it
   imports; names that are not public, or taken twice, are refused wherever they can be met. *)
EXTENDS Modules, SequencesExt
CONSTANTS N
VARIABLES g, c
Nodes == 1..N
File(m) == [name |-> "m" \o ToString(m), body |-> <<>>,
            imps |-> [i \in 1..Cardinality(g[m]) |-> [m |-> SetToSortSeq(g[m], <)[i], f |-> "mod", a |-> "", es |-> <<>>]],
            ds |-> <<[k |-> "fun", n |-> "ini", pub |-> FALSE, id |-> m, bump |-> "", e |-> <<>>, x |-> 0, base |-> <<>>, init |-> ""],
                     [k |-> "var", n |-> "v", pub |-> TRUE, id |-> 0, bump |-> "", x |-> 0, base |-> <<>>, init |-> "run", e |-> <<[k |-> "loc", n |-> "ini", w |-> "fun"]>>] >> ]
W0 == [m \in Nodes |-> File(m)]
\* one thing wrong, in file c[1]: 0 nothing, 1 it uses what another does not export, 2 a name is declared twice, 3 an unknown name is taken
W == IF c = <<>> THEN W0
     ELSE [W0 EXCEPT ![c[1]] =
             CASE c[2] = 1 -> [@ EXCEPT !.ds = Append(@, [k |-> "fun", n |-> "bad", pub |-> TRUE, id |-> 0, bump |-> "", x |-> 0, base |-> <<>>, init |-> "",
                                                           e |-> <<[k |-> "mem", a |-> "m" \o ToString(c[3]), n |-> "ini", w |-> "fun"]>>])]
               [] c[2] = 2 -> [@ EXCEPT !.ds = Append(@, @[1])]
               [] OTHER -> [@ EXCEPT !.imps = Append(@, [m |-> c[3], f |-> "names", a |-> "", es |-> <<[n |-> "nothing", a |-> "nothing"]>>])]]
Init == g \in [Nodes -> SUBSET Nodes] /\ c = <<>>
Next == c = <<>> /\ c' \in Nodes \X {1, 2, 3} \X Nodes /\ UNCHANGED g
Spec == Init /\ [][Next]_<<g, c>>

RECURSIVE From(_)
From(s) == LET t == s \union UNION {g[m] : m \in s} IN IF t = s THEN s ELSE From(t)
Reached == From({Main(W)})
Circle == \E m \in Reached : m \in From(g[m])
Order == Loaded(W0).seq
Circles == Loaded(W0).bad <=> Circle
Whole == ~Circle => Range(Order) = Reached /\ Len(Order) = Cardinality(Reached) /\ Last(Order) = Main(W)
After == ~Circle => \A i, j \in DOMAIN Order : Order[j] \in g[Order[i]] => j < i
Once == c = <<>> /\ ~Circle => ~Refused(W) /\ Printed(W) = Order
\* what is wrong matters where it is loaded, and only there
Spoilt == c # <<>> /\ ~Circle =>
            (Refused(W) <=> c[1] \in Reached)
          \/ (c[2] = 3 /\ Loaded(W).bad)     \* taking a name can close a circle, or load another file
=============================================================================
