------------------------------ MODULE Coroutines ------------------------------
(* The coroutine scheduler (src/cxy/stdlib/coro.cxy): one coroutine runs until it gives way; those ready run in the order
   in which they became ready; when none is, the event loop waits for timers and descriptors.

   The state:
     now       the clock in milliseconds
     run       the coroutine that runs, -1: the scheduler is choosing
     ready     sequence of sets of coroutines: the members of a set became ready together
     slp       coroutine |-> when its sleep is over
     wt        coroutine |-> [fd, m, dl]: waits for a descriptor to be readable or writable, or for time dl (-1: never)
     res       coroutine |-> what its last wait found ({}: the time was over)
     mx        mutex |-> [holder (-1: none), q: who waits for it, in order]
     ns        coroutine |-> stack of its counters (locals that must survive everything)
     nid       the next coroutine number
     since     runs since the event loop was asked, while it may have something to say
     dead      timers are over that the loop may still have to remove (it may then wait shorter)
     idle      the last question to the event loop found nothing, without limit in time *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ k |-> f[x]]
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

Co0(now) == [now |-> now, run |-> -1, ready |-> <<{0}>>, slp |-> None, wt |-> None, res |-> None, born |-> {},
             mx |-> [k \in {0, 1} |-> [holder |-> -1, q |-> <<>>]], ns |-> None, nid |-> 0, since |-> 0, dead |-> FALSE, idle |-> FALSE]

\* whose time is over
Due(s) == {c \in DOMAIN s.slp : s.slp[c] <= s.now} \union {c \in DOMAIN s.wt : s.wt[c].dl >= 0 /\ s.wt[c].dl <= s.now}

\* c goes on
CanRun(s, c) == s.run = -1 /\ s.ready # <<>> /\ c \in Head(s.ready)
Run(s, c) == [s EXCEPT !.run = c, !.since = IF DOMAIN s.wt = {} /\ Due(s) = {} THEN 0 ELSE @ + 1,
                       !.ready = IF Head(@) = {c} THEN Tail(@) ELSE <<Head(@) \ {c}>> \o Tail(@)]
Here(s, c) == IF s.run = c THEN s ELSE Run(s, c)
IsHere(s, c) == s.run = c \/ CanRun(s, c)

Wake(s, S) == IF S = {} THEN s ELSE [s EXCEPT !.ready = Append(@, S)]
Yield(s, c) == [Wake(s, {c}) EXCEPT !.run = -1]
Spawn(s, c, d) == [Wake(s, {c}) EXCEPT !.run = d]
Sleep(s, c, ms) == IF ms <= 0 THEN s ELSE [s EXCEPT !.run = -1, !.slp = Put(@, c, s.now + ms)]
Wait(s, c, fd, m, to) == [s EXCEPT !.run = -1, !.wt = Put(@, c, [fd |-> fd, m |-> m, dl |-> IF to > 0 THEN s.now + to ELSE -1])]
Lock(s, c, k) == IF s.mx[k].holder = -1 THEN [s EXCEPT !.mx[k].holder = c]
                 ELSE [s EXCEPT !.mx[k].q = Append(@, c), !.run = -1]
Unlock(s, k) == IF s.mx[k].q = <<>> THEN [s EXCEPT !.mx[k].holder = -1]
                ELSE Wake([s EXCEPT !.mx[k] = [holder |-> Head(@.q), q |-> Tail(@.q)]], {Head(s.mx[k].q)})
Finish(s, c) == [s EXCEPT !.run = -1]

--------------------------------------------------------------------------------
(* The scheduler asks the event loop: it may do so at any time between two coroutines, and must when none is ready *)
Limits(s) == {s.slp[c] - s.now : c \in DOMAIN s.slp} \union {s.wt[c].dl - s.now : c \in {d \in DOMAIN s.wt : s.wt[d].dl >= 0}}
Most(s) == IF Limits(s) = {} THEN -1 ELSE IF Min(Limits(s)) < 0 THEN 0 ELSE Min(Limits(s))
Hit(s, rd) == {c \in DOMAIN s.wt : s.wt[c].m \in rd[s.wt[c].fd]}

PollOk(s, ms, rd, now) ==
  /\ s.run = -1
  /\ IF s.ready # <<>> THEN ms = 0
     ELSE ms = Most(s) \/ (s.dead /\ ms >= 0 /\ (Most(s) = -1 \/ ms < Most(s)))
  /\ now = IF Hit(s, rd) # {} \/ ms < 0 THEN s.now ELSE s.now + ms
Poll(s, ms, rd, now) ==
  LET h == Hit(s, rd)
      o == {c \in DOMAIN s.slp : s.slp[c] <= now}
      x == {c \in DOMAIN s.wt \ h : s.wt[c].dl >= 0 /\ s.wt[c].dl <= now}
  IN Wake(Wake([s EXCEPT !.now = now, !.since = 0, !.dead = o # {}, !.idle = (ms < 0 /\ h = {}),
                         !.slp = Drop(@, o), !.wt = Drop(@, h \union x),
                         !.res = [c \in DOMAIN @ \union h \union x |-> IF c \in h THEN rd[s.wt[c].fd] ELSE IF c \in x THEN {} ELSE @[c]]],
               h), o \union x)

\* it may look after the timers alone, without waiting
Tick(s) == Poll(s, 0, [f \in {s.wt[c].fd : c \in DOMAIN s.wt} |-> {}], s.now)
Alts(s) == {s} \union (IF s.run = -1 /\ Due(s) # {} THEN {Tick(s)} ELSE {})
\* somebody to look after is not left waiting by those who are always ready
Fair(s) == s.since <= 200 \/ (DOMAIN s.wt = {} /\ Due(s) = {})
=============================================================================
