------------------------------- MODULE CoroMC -------------------------------
(* All short histories of three coroutines over one descriptor and two mutexes: nobody is lost, nobody is in two places,
   mutexes exclude, whoever is ready gets to run. *)
EXTENDS Coroutines
CONSTANT N
VARIABLES s, n, fin, owns
C == {0, 1, 2}
Init == s = [Co0(0) EXCEPT !.run = 0, !.ready = <<>>, !.born = {0}] /\ n = 0 /\ fin = {} /\ owns = [c \in C |-> {}]
In(S) == [k \in {0, 1} |-> s.mx[k].holder]

Do(c) ==
  \/ s' = Yield(s, c) /\ UNCHANGED <<fin>>
  \/ \E ms \in {0, 1, 2} : s' = Sleep(s, c, ms) /\ UNCHANGED fin
  \/ \E d \in C \ s.born : s' = [Spawn(s, c, d) EXCEPT !.born = @ \union {d}] /\ UNCHANGED fin
  \/ \E k \in {0, 1} : s' = Lock(s, c, k) /\ UNCHANGED fin
  \/ \E k \in {0, 1} : s.mx[k].holder = c /\ s' = Unlock(s, k) /\ UNCHANGED fin
  \/ DOMAIN s.wt = {} /\ \E m \in {"R", "W"}, to \in {0, 2} : s' = Wait(s, c, 0, m, to) /\ UNCHANGED fin
  \/ c # 0 /\ s' = Finish(s, c) /\ fin' = fin \union {c}
User == s.run >= 0 /\ n < N /\ n' = n + 1 /\ Do(s.run) /\ UNCHANGED owns
Sched ==
  /\ s.run = -1 /\ UNCHANGED <<n, fin, owns>>
  /\ \/ \E c \in C : CanRun(s, c) /\ s' = Run(s, c)
     \/ s.ready = <<>> /\ \E a \in SUBSET {"R", "W"} :
          LET rd == [f \in {0} |-> a]  ms == Most(s)  now == IF Hit(s, rd) # {} \/ ms < 0 THEN s.now ELSE s.now + ms IN
          PollOk(s, ms, rd, now) /\ s' = Poll(s, ms, rd, now)
Next == User \/ Sched
Spec == Init /\ [][Next]_<<s, n, fin, owns>>

InReady(c) == Cardinality({i \in 1..Len(s.ready) : c \in s.ready[i]})
InQ(c) == Cardinality({p \in {0, 1} \X (1..4) : p[2] <= Len(s.mx[p[1]].q) /\ s.mx[p[1]].q[p[2]] = c})
Places(c) == (IF s.run = c THEN 1 ELSE 0) + InReady(c) + (IF c \in DOMAIN s.slp THEN 1 ELSE 0) + (IF c \in DOMAIN s.wt THEN 1 ELSE 0)
             + InQ(c) + (IF c \in fin THEN 1 ELSE 0)
OnePlace == \A c \in s.born : Places(c) = 1
Held == \A k \in {0, 1} : s.mx[k].q # <<>> => s.mx[k].holder >= 0
NoEmpty == \A i \in 1..Len(s.ready) : s.ready[i] # {}
\* asked with a limit in time, the loop wakes somebody
Awake == [][(s.run = -1 /\ s.ready = <<>> /\ s'.run = -1 /\ Most(s) >= 0) => s'.ready # <<>>]_s
\* first come, first served
Fifo == [][(s.run = -1 /\ s'.run >= 0) => s'.run \in Head(s.ready)]_s
=============================================================================
