------------------------------ MODULE EventLoop ------------------------------
(* The event loop (src/cxy/stdlib/native/evloop): file descriptors are watched for being readable or writable, timers
   go off, a descriptor's watch may be limited in time. One round of the loop waits (no longer than the nearest timer or
   the timeout allows), calls the functions of the descriptors that are ready, then those of the timers that are due.
   The functions called may do anything to the loop.

   The state:
     now, last     the clock in milliseconds; the seconds seen when timers were last processed (a clock that was set
                   back makes every timer due)
     size          descriptors from this number on cannot be watched
     regs          descriptor |-> what it is watched for, the functions, their data, dl = when the watch times out (-1: never)
     timers        id |-> when
     gone          timers deleted, whose finalizers are still to be called
     busy          the timer whose function runs (-1: none)
     st            where the round is: "idle" "before" (waiting) "files" "timers"
     ps            the round: what was asked for, snap = ready descriptors not served yet, opt = those of them whose watch
                   has changed since (serving them is not required any more), cur = the one being served,
                   due/duefd/known/must = timers to fire, watches to time out, timers there are, finalizers to call *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == [x \in {} |-> 0]
Fin(f) == [x \in DOMAIN f |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

NoCur == [fd |-> -1, rest |-> <<>>, av |-> {}, called |-> -1, touched |-> FALSE]
NoPass == [file |-> FALSE, time |-> FALSE, wait |-> FALSE, to |-> 0, after |-> FALSE, polled |-> FALSE, asked |-> FALSE,
           snap |-> None, opt |-> {}, cur |-> NoCur, due |-> {}, duefd |-> None, known |-> {}, must |-> {}, done |-> {}]
Loop0(now, size) ==
  [now |-> now, last |-> now \div 1000, size |-> size, regs |-> None, timers |-> None, gone |-> None, busy |-> -1,
   st |-> "idle", ps |-> NoPass]

--------------------------------------------------------------------------------
(* What programs ask for *)
WatchOk(s, fd) == fd < s.size

Touch(s, fd) ==
  IF s.st # "files" THEN s
  ELSE [s EXCEPT !.ps.opt = IF fd \in DOMAIN s.ps.snap THEN @ \union {fd} ELSE @,
                 !.ps.cur.touched = IF s.ps.cur.fd = fd THEN TRUE ELSE @]

Watch(s, fd, m, bar, proc, data, to) ==
  LET o == IF fd \in DOMAIN s.regs THEN s.regs[fd] ELSE [m |-> {}, bar |-> FALSE, rp |-> 0, wp |-> 0, data |-> 0, dl |-> -1] IN
  Touch([s EXCEPT !.regs = Put(@, fd, [m |-> o.m \union m, bar |-> o.bar \/ bar, rp |-> IF "R" \in m THEN proc ELSE o.rp,
                                       wp |-> IF "W" \in m THEN proc ELSE o.wp, data |-> data,
                                       dl |-> IF to > 0 THEN s.now + to ELSE o.dl])], fd)

Unwatch(s, fd, m) ==
  IF fd \notin DOMAIN s.regs THEN s
  ELSE LET r == s.regs[fd]  n == r.m \ m IN
       Touch([s EXCEPT !.regs = IF n = {} THEN Drop(@, fd)
                                ELSE [@ EXCEPT ![fd].m = n, ![fd].bar = r.bar /\ "W" \notin m]], fd)

Timer(s, id, ms) == [s EXCEPT !.timers = Put(@, id, s.now + ms)]
Fresh(s, id) == id >= 0 /\ id \notin DOMAIN s.timers /\ id \notin DOMAIN s.gone

Untimer(s, id) == IF id \in DOMAIN s.timers THEN [s EXCEPT !.gone = Put(@, id, s.timers[id]), !.timers = Drop(@, id)] ELSE s

--------------------------------------------------------------------------------
(* A round *)
Begin(s, file, time, wait, to, after) ==
  [s EXCEPT !.st = "before", !.ps = [NoPass EXCEPT !.file = file, !.time = time, !.wait = wait, !.to = to, !.after = after]]

Left(s, when) == Max2(0, when - s.now)
Minimum(S) == CHOOSE x \in S : \A y \in S : x <= y

\* how long the round may wait at most, -1: for ever; deleted timers not yet finalized may shorten it
Waits(s) ==
  IF ~s.ps.wait THEN {0}
  ELSE LET live == IF s.ps.time THEN {Left(s, s.timers[i]) : i \in DOMAIN s.timers} \union
                                     {Left(s, s.regs[f].dl) : f \in {g \in DOMAIN s.regs : s.regs[g].dl >= 0}}
                   ELSE {}
           lim == live \union (IF s.ps.to > 0 THEN {s.ps.to} ELSE {})
           dead == IF s.ps.time THEN {Left(s, s.gone[i]) : i \in DOMAIN s.gone} ELSE {}
           m == IF lim = {} THEN -1 ELSE Minimum(lim)
       IN {m} \union {d \in dead : m = -1 \/ d < m}

Ready(s, rd) == {f \in DOMAIN rd : f \in DOMAIN s.regs /\ s.regs[f].m \intersect rd[f] # {}}
Deliv(s, f, av) == f \in DOMAIN s.regs /\ s.regs[f].m \intersect av # {}

\* rd: descriptor |-> what it is ready for; now: the clock after waiting
PollOk(s, ms, rd, now) ==
  /\ s.st \in {"before", "files"} /\ s.ps.cur = NoCur
  /\ ms \in Waits(s)
  /\ now = IF Ready(s, rd) # {} \/ ms < 0 THEN s.now ELSE s.now + ms
Poll(s, rd, now) ==
  [s EXCEPT !.now = now, !.st = "files", !.ps.polled = TRUE, !.ps.asked = s.ps.after,
            !.ps.snap = IF s.ps.file THEN [f \in Ready(s, rd) |-> rd[f]] ELSE None]

Proc(r, d) == IF d = "R" THEN r.rp ELSE r.wp
\* the second function of a descriptor is called unless it is the one that was just called
May(s, d) ==
  LET c == s.ps.cur IN
  /\ c.fd \in DOMAIN s.regs /\ d \in s.regs[c.fd].m \intersect c.av
  /\ c.called = -1 \/ c.touched \/ s.regs[c.fd].rp # s.regs[c.fd].wp
Must(s, d) == May(s, d) /\ (s.ps.cur.called = -1 \/ ~s.ps.cur.touched)

CurDone(s) == \A k \in 1..Len(s.ps.cur.rest) : ~Must(s, s.ps.cur.rest[k])
FilesDone(s) ==
  /\ s.st = "files" => CurDone(s) /\ ~s.ps.asked /\ \A f \in DOMAIN s.ps.snap \ s.ps.opt : ~Deliv(s, f, s.ps.snap[f])
  /\ s.st = "before" => /\ s.ps.file => DOMAIN s.regs = {}
                        /\ ~(s.ps.time /\ s.ps.wait)

Turn(s, f) ==
  [s EXCEPT !.regs[f].dl = -1,
            !.ps.snap = Drop(@, f),
            !.ps.cur = [fd |-> f, rest |-> IF s.regs[f].bar THEN <<"W", "R">> ELSE <<"R", "W">>, av |-> s.ps.snap[f],
                        called |-> -1, touched |-> FALSE]]

\* the states in which the function of fd can be called next, with the direction it is called for
Calls(s, fd) ==
  LET go(t) == {[s |-> [t EXCEPT !.ps.cur.rest = SubSeq(@, k + 1, Len(@)), !.ps.cur.called = Proc(t.regs[fd], t.ps.cur.rest[k])],
                 d |-> t.ps.cur.rest[k]] :
                  k \in {i \in 1..Len(t.ps.cur.rest) : /\ May(t, t.ps.cur.rest[i])
                                                       /\ \A j \in 1..i-1 : ~Must(t, t.ps.cur.rest[j])}}
  IN IF s.st # "files" \/ s.ps.asked THEN {}
     ELSE (IF s.ps.cur.fd = fd THEN go(s) ELSE {}) \union
          (IF CurDone(s) /\ fd \in DOMAIN s.ps.snap /\ Deliv(s, fd, s.ps.snap[fd]) THEN go(Turn(s, fd)) ELSE {})

Enter(s) ==
  IF s.st = "timers" THEN s
  ELSE LET skew == s.now \div 1000 < s.last
           tm == IF skew THEN [i \in DOMAIN s.timers |-> 0] ELSE s.timers
           rg == IF skew THEN [f \in DOMAIN s.regs |-> [s.regs[f] EXCEPT !.dl = IF @ >= 0 THEN 0 ELSE @]] ELSE s.regs
       IN [s EXCEPT !.st = "timers", !.last = s.now \div 1000, !.timers = tm, !.regs = rg,
                    !.ps.due = {i \in DOMAIN tm : tm[i] <= s.now},
                    !.ps.duefd = [f \in {g \in DOMAIN rg : rg[g].dl >= 0 /\ rg[g].dl <= s.now} |-> rg[f].dl],
                    !.ps.known = DOMAIN tm, !.ps.must = DOMAIN s.gone, !.ps.cur = NoCur, !.ps.snap = None]
CanEnter(s) == s.ps.time /\ s.busy = -1 /\ (s.st = "timers" \/ (s.st \in {"before", "files"} /\ FilesDone(s)))

FireOk(s, id) == CanEnter(s) /\ LET t == Enter(s) IN id \in DOMAIN t.timers /\ t.timers[id] <= t.now /\ id \in t.ps.known
Fire(s, id) == [Enter(s) EXCEPT !.busy = id, !.ps.done = @ \union {id}]
Fired(s, id, next) ==
  [s EXCEPT !.busy = -1,
            !.timers = IF id \notin DOMAIN @ THEN @ ELSE IF next < 0 THEN Drop(@, id) ELSE [@ EXCEPT ![id] = s.now + next],
            !.gone = IF id \in DOMAIN s.timers /\ next < 0 THEN Put(@, id, s.timers[id])
                     ELSE IF id \in DOMAIN @ /\ next >= 0 THEN [@ EXCEPT ![id] = s.now + next] ELSE @]

TimeoutOk(s, fd) == CanEnter(s) /\ LET t == Enter(s) IN fd \in DOMAIN t.regs /\ t.regs[fd].dl >= 0 /\ t.regs[fd].dl <= t.now
Timeout(s, fd) == LET t == Enter(s) IN [t EXCEPT !.regs = Drop(@, fd)]
TimeoutProc(r) == IF "R" \in r.m THEN r.rp ELSE r.wp

FinOk(s, id) == CanEnter(s) /\ id \in DOMAIN s.gone
Finalize(s, id) == [Enter(s) EXCEPT !.gone = Drop(@, id)]

EndOk(s) ==
  IF ~s.ps.time THEN FilesDone(s)
  ELSE CanEnter(s) /\
       LET t == Enter(s) IN
       /\ t.ps.due \intersect DOMAIN t.timers \subseteq t.ps.done
       /\ \A f \in DOMAIN t.ps.duefd \intersect DOMAIN t.regs : t.regs[f].dl # t.ps.duefd[f]
       /\ t.ps.must \intersect DOMAIN t.gone = {}
End(s) == [(IF s.ps.time THEN Enter(s) ELSE s) EXCEPT !.st = "idle", !.ps = NoPass]

Clock(s, now) == [s EXCEPT !.now = now]
=============================================================================
