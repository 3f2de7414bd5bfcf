------------------------------ MODULE LoopTrace ------------------------------
(* Judges recorded runs of the real event loop against EventLoop. *)
EXTENDS EventLoop, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, who

Set(q) == {q[i] : i \in 1..Len(q)}
Rd(q) == [f \in {q[i].fd : i \in 1..Len(q)} |-> Set(q[CHOOSE i \in 1..Len(q) : q[i].fd = f].m)]
No(x) == PrintT(<<"EXPECTED", x>>) /\ FALSE
Is(b, x, t) == IF b THEN s' = t ELSE No(x)

Init == l = 1 /\ s = Loop0(0, 1) /\ who = None

Step(r) ==
  IF r.op = "start" THEN Is(r.same, "the size and the context given", Loop0(r.now, r.size)) /\ who' = None
  ELSE IF r.op = "timer" THEN Is(Fresh(s, r.id), "a new id", Timer(s, r.id, r.ms)) /\ who' = Put(who, r.data, r.id)
  ELSE UNCHANGED who /\
  CASE r.op = "clock" -> s' = Clock(s, r.now)
    [] r.op = "watch" -> IF WatchOk(s, r.fd) THEN Is(r.rc = 0, "accepted", Watch(s, r.fd, Set(r.m), r.bar, r.proc, r.data, r.to))
                         ELSE Is(r.rc = -1, "refused", s)
    [] r.op = "unwatch" -> s' = Unwatch(s, r.fd, Set(r.m))
    [] r.op = "untimer" -> Is((r.rc = 0) = (r.id \in DOMAIN s.timers), "found exactly when it is there", Untimer(s, r.id))
    [] r.op = "get" -> IF r.fd \in DOMAIN s.regs THEN Is(Set(r.m) = s.regs[r.fd].m /\ r.bar = s.regs[r.fd].bar /\ r.other = 0, s.regs[r.fd], s)
                       ELSE Is(Set(r.m) = {} /\ ~r.bar /\ r.other = 0, "not watched", s)
    [] r.op = "await" -> Is(Set(r.rc) = Set(r.m) \intersect Set(r.avail) /\ ~r.neg, Set(r.m) \intersect Set(r.avail), s)
    [] r.op = "before" -> Is(s.st = "idle", "not inside a round", s)
    [] r.op = "process" -> Is(s.st = "idle", "not inside a round", Begin(s, r.file, r.time, r.wait, r.to, r.after))
    [] r.op = "poll" -> Is(PollOk(s, r.ms, Rd(r.ready), r.now), <<"wait", Waits(s), "in", s>>, Poll(s, Rd(r.ready), r.now))
    [] r.op = "after" -> Is(s.st = "files" /\ s.ps.asked, "no call after waiting", [s EXCEPT !.ps.asked = FALSE])
    [] r.op = "file" ->
         LET cs == {c \in Calls(s, r.fd) : /\ r.proc = Proc(c.s.regs[r.fd], c.d) /\ r.data = c.s.regs[r.fd].data
                                           /\ c.d \in Set(r.m) /\ Set(r.m) \subseteq c.s.ps.cur.av}
         IN IF cs # {} THEN \E c \in cs : s' = c.s ELSE No(<<"none of these calls", s>>)
    [] r.op = "timeout" ->
         IF TimeoutOk(s, r.fd)
         THEN LET g == Enter(s).regs[r.fd] IN Is(r.proc = TimeoutProc(g) /\ r.data = g.data /\ r.mask = 4, g, Timeout(s, r.fd))
         ELSE No(<<"no timeout", s>>)
    [] r.op = "fire" -> Is(FireOk(s, r.id) /\ r.data \in DOMAIN who /\ who[r.data] = r.id, <<"not this timer", s>>, Fire(s, r.id))
    [] r.op = "fired" -> Is(s.busy = r.id, s, Fired(s, r.id, r.next))
    [] r.op = "fin" -> Is(r.data \in DOMAIN who /\ FinOk(s, who[r.data]), <<"not this finalizer", s>>, Finalize(s, who[r.data]))
    [] r.op = "end" -> Is(s.st # "idle" /\ EndOk(s), <<"more to do", s>>, End(s))
    [] r.op = "exit" -> Is(s.st = "idle", "not inside a round", s)
    [] OTHER -> No("to go on")

Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])

Verdict ==
  IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT("TRACE-ACCEPTED")
  ELSE PrintT("TRACE-REJECTED at " \o ToString(TLCGet("stats").diameter))
=============================================================================
