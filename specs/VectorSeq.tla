----------------------------- MODULE VectorSeq -----------------------------
(* Vector[T] of stdlib/vector.cxy as a state machine: a sequence of values  *)
(* plus a capacity.  Exec gives, for every operation, whether it must panic *)
(* (an access outside the sequence), what it returns, and the sequence      *)
(* afterwards.                                                              *)
EXTENDS Integers, Sequences, SequencesExt

SelectEven(s) == SelectSeq(s, LAMBDA x : x % 2 = 0)

Pairs(s) == FoldLeft(LAMBDA acc, i : acc \o <<s[i], i - 1>>, <<>>, [i \in 1..Len(s) |-> i])

FirstIdx(s, P(_)) ==
  IF \E i \in 1..Len(s) : P(s[i])
  THEN CHOOSE i \in 1..Len(s) : P(s[i]) /\ \A j \in 1..(i-1) : ~P(s[j])
  ELSE 0

RECURSIVE Commas(_)
Commas(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o ", " \o Commas(Tail(s))

(* panics(s, op, a): the operation is outside its domain *)
Panics(s, op, a) ==
  CASE op \in {"pop", "shift"} -> Len(s) = 0
    [] op \in {"get", "set"}   -> a[1] < 0 \/ a[1] >= Len(s)
    [] OTHER -> FALSE

After(s, op, a) ==
  CASE op = "push"   -> Append(s, a[1])
    [] op = "pop"    -> SubSeq(s, 1, Len(s) - 1)
    [] op = "shift"  -> SubSeq(s, 2, Len(s))
    [] op = "set"    -> [s EXCEPT ![a[1] + 1] = a[2]]
    [] op = "resize" -> IF a[1] < Len(s) THEN SubSeq(s, 1, a[1]) ELSE s
    [] OTHER -> s

Out(s, op, a, dec(_)) ==
  CASE op = "pop"    -> <<s[Len(s)]>>
    [] op = "shift"  -> <<s[1]>>
    [] op = "get"    -> <<s[a[1] + 1]>>
    [] op \in {"iter", "citer"} -> Pairs(s)
    [] op = "each"   -> s
    [] op = "acc"    -> << FoldLeft(LAMBDA acc, x : acc * 3 + x, a[1], s) >>
    [] op = "filter" -> SelectEven(s)
    [] op = "map"    -> [i \in 1..Len(s) |-> s[i] + 1]
    [] op = "find"   -> LET i == FirstIdx(s, LAMBDA x : x > a[1])
                        IN IF i = 0 THEN <<FALSE>> ELSE <<TRUE, s[i]>>
    [] op = "index"  -> LET i == FirstIdx(s, LAMBDA x : x = a[1])
                        IN IF i = 0 THEN <<FALSE>> ELSE <<TRUE, i - 1>>
    [] op = "str"    -> << "[" \o Commas([i \in 1..Len(s) |-> dec(s[i])]) \o "]" >>
    [] OTHER -> <<>>

(* capacity after the operation: exact after resize/shrink, else only room *)
CapOk(s1, cap, op, a) ==
  /\ cap >= Len(s1)
  /\ op = "resize" => cap = a[1]
  /\ op = "shrink" => cap = Len(s1)
=============================================================================
