------------------------------- MODULE LoopMC -------------------------------
(* All short histories of the event loop over two descriptors and two timers, with any readiness at any time. *)
EXTENDS EventLoop
CONSTANT N
VARIABLES s, n, nid, fired, dead     \* ghosts: timers fired this round; timers deleted or finished

FD == {0, 1}
M == {{"R"}, {"W"}, {"R", "W"}}
Init == s = Loop0(1998, 2) /\ n = 0 /\ nid = 0 /\ fired = {} /\ dead = {}
Op == n < N /\ n' = n + 1
Keep == UNCHANGED <<n, nid, fired, dead>>

User ==
  /\ Op /\ UNCHANGED fired
  /\ \/ \E f \in FD, m \in M, to \in {0, 1, 2} : s' = Watch(s, f, m, FALSE, 0, n, to) /\ UNCHANGED <<nid, dead>>
     \/ \E f \in DOMAIN s.regs, m \in M : s' = Unwatch(s, f, m) /\ UNCHANGED <<nid, dead>>
     \/ nid < 2 /\ \E ms \in {0, 1, 2} : s' = Timer(s, nid, ms) /\ nid' = nid + 1 /\ UNCHANGED dead
     \/ \E i \in DOMAIN s.timers : s' = Untimer(s, i) /\ dead' = dead \union {i} /\ UNCHANGED nid

Top ==
  /\ s.st = "idle" /\ Op /\ UNCHANGED <<nid, dead>>
  /\ \/ \E w \in BOOLEAN, t \in {-1, 1} : s' = Begin(s, TRUE, TRUE, w, t, FALSE) /\ fired' = {}
     \/ \E d \in {-1000, 1} : s' = Clock(s, s.now + d) /\ UNCHANGED fired

Round ==
  /\ s.st # "idle"
  /\ \/ \E rd \in [FD -> SUBSET {"R", "W"}], ms \in Waits(s) :
          /\ s.st = "before"
          /\ LET now == IF Ready(s, rd) # {} \/ ms < 0 THEN s.now ELSE s.now + ms IN
             PollOk(s, ms, rd, now) /\ s' = Poll(s, rd, now)
          /\ Keep
     \/ \E f \in FD : \E c \in Calls(s, f) : s' = c.s /\ Keep
     \/ \E i \in DOMAIN s.timers : FireOk(s, i) /\ s' = Fire(s, i) /\ fired' = fired \union {i} /\ UNCHANGED <<n, nid, dead>>
     \/ s.busy >= 0 /\ \E x \in {-1, 0, 1} : /\ s' = Fired(s, s.busy, x) /\ UNCHANGED <<n, nid, fired>>
                                              /\ dead' = (IF x < 0 THEN dead \union {s.busy} ELSE dead)
     \/ \E f \in FD : TimeoutOk(s, f) /\ s' = Timeout(s, f) /\ Keep
     \/ \E i \in DOMAIN s.gone : FinOk(s, i) /\ s' = Finalize(s, i) /\ Keep
     \/ s.busy = -1 /\ EndOk(s) /\ s' = End(s) /\ Keep

Next == User \/ Top \/ Round
Spec == Init /\ [][Next]_<<s, n, nid, fired, dead>>

TypeOk ==
  /\ \A f \in DOMAIN s.regs : s.regs[f].m # {}
  /\ DOMAIN s.timers \intersect DOMAIN s.gone = {}
  /\ DOMAIN s.gone \subseteq dead /\ DOMAIN s.timers \intersect dead = {}
\* a round never gets stuck: something is left to call or it may end
NeverStuck == s.st \in {"files", "timers"} /\ s.busy = -1 =>
  \/ EndOk(s)
  \/ \E f \in FD : Calls(s, f) # {} \/ TimeoutOk(s, f)
  \/ \E i \in DOMAIN s.timers : FireOk(s, i)
  \/ \E i \in DOMAIN s.gone : FinOk(s, i)
\* what a round leaves behind
EndStep == (s.st # "idle" /\ s'.st = "idle") =>
  LET t == Enter(s) IN
  /\ \A i \in DOMAIN s'.timers : i \in t.ps.due => i \in fired
  /\ \A f \in DOMAIN s'.regs : f \in DOMAIN t.ps.duefd => s'.regs[f].dl # t.ps.duefd[f]
  /\ s.st = "files" => \A f \in DOMAIN s.ps.snap : f \in s.ps.opt \/ ~Deliv(s, f, s.ps.snap[f])
\* nothing goes off early, unless the clock was set back
FireStep == (s.busy = -1 /\ s'.busy >= 0) => s.timers[s'.busy] <= s.now \/ s.now \div 1000 < s.last
Steps == [][EndStep /\ FireStep]_<<s, n, nid, fired, dead>>
=============================================================================
