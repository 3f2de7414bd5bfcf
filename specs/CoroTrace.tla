------------------------------ MODULE CoroTrace ------------------------------
(* Judges recorded runs of coroutines (drivers/coro.cxy) against Coroutines. *)
EXTENDS Coroutines, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, want

Set(q) == {q[i] : i \in 1..Len(q)}
Rd(q) == [f \in {q[i].fd : i \in 1..Len(q)} |-> Set(q[CHOOSE i \in 1..Len(q) : q[i].fd = f].m)]
No(x) == PrintT(<<"EXPECTED", x>>) /\ FALSE
Is(b, x, t) == IF b THEN st' = t ELSE No(x)
Bits(S) == {n \in {0, 1, 2, 3} : (n % 2 = 1 => "R" \in S) /\ (n >= 2 => "W" \in S)}
Bit(m) == IF m = "R" THEN {1, 3} ELSE {2, 3}

Init == l = 1 /\ st = Co0(0) /\ want = None

Top(t, c) == t.ns[c][Len(t.ns[c])]
Count(t, c, n) == [t EXCEPT !.ns[c] = [@ EXCEPT ![Len(@)] = n]]

New(s, r, t) == IF ~IsHere(s, r.c) \/ r.c \notin DOMAIN s.ns THEN No(<<"goes on", s.run, s.ready>>)
                ELSE Is(r.n = Top(s, r.c) + 1, <<"counter", Top(s, r.c) + 1>>, t)
Back(s, r, b, x, t) == IF ~IsHere(s, r.c) \/ r.c \notin DOMAIN s.ns THEN No(<<"goes on", s.run, s.ready>>)
                    ELSE Is(r.n = Top(s, r.c) /\ b, <<"counter", Top(s, r.c), x>>, t)

Step(s, r) ==
  IF r.op = "start" THEN st' = Co0(r.now) /\ want' = None
  ELSE
  /\ want' = IF r.op = "wait" THEN Put(want, r.c, r.m) ELSE want
  /\ CASE r.op = "clock" -> st' = [s EXCEPT !.now = r.now]
    [] r.op = "begin" ->
         Is(IsHere(s, r.c) /\ r.c \notin s.born /\ r.a = s.nid, <<"begins", s.run, "numbered", s.nid>>,
            [Here(s, r.c) EXCEPT !.ns = Put(@, r.c, <<0>>), !.nid = @ + 1, !.born = @ \union {r.c}])
    [] r.op = "did" -> New(s, r, Count(Here(s, r.c), r.c, r.n))
    [] r.op = "yield" -> New(s, r, Yield(Count(Here(s, r.c), r.c, r.n), r.c))
    [] r.op = "sleep" -> New(s, r, Sleep(Count(Here(s, r.c), r.c, r.n), r.c, r.a))
    [] r.op = "spawn" -> New(s, r, Spawn(Count(Here(s, r.c), r.c, r.n), r.c, r.a))
    [] r.op = "lock" -> New(s, r, Lock(Count(Here(s, r.c), r.c, r.n), r.c, r.a))
    [] r.op = "unlock" -> New(s, r, Unlock(Count(Here(s, r.c), r.c, r.n), r.a))
    [] r.op = "try" -> New(s, r, LET t == Count(Here(s, r.c), r.c, r.n)  free == t.mx[r.a].holder = -1 IN
                                 [t EXCEPT !.mx[r.a].holder = IF free THEN r.c ELSE @,
                                           !.res = Put(@, r.c, IF free THEN {"R"} ELSE {})])
    [] r.op = "tried" -> Back(s, r, r.a = (IF s.res[r.c] = {} THEN 0 ELSE 1), s.res, s)
    [] r.op = "wait" -> Is(IsHere(s, r.c), <<"goes on", s.run>>, Wait(Here(s, r.c), r.c, r.fd, r.m, r.to))
    [] r.op = "waited" ->
         IF ~IsHere(s, r.c) \/ r.c \notin DOMAIN s.res THEN No(<<"goes on", s.run, s.ready>>)
         ELSE Is(/\ r.n = Top(s, r.c) + 1
                 /\ IF s.res[r.c] = {} THEN r.a = 4 ELSE r.a \in Bits(s.res[r.c]) \intersect Bit(want[r.c]),
                 <<"found", s.res[r.c]>>, Count(Here(s, r.c), r.c, r.n))
    [] r.op = "back" -> Back(s, r, TRUE, "", Here(s, r.c))
    [] r.op = "id" -> New(s, r, Count(Here(s, r.c), r.c, r.n))
    [] r.op = "enter" -> New(s, r, [Count(Here(s, r.c), r.c, r.n) EXCEPT !.ns[r.c] = Append([@ EXCEPT ![Len(@)] = r.n], r.n + r.a + 1)])
    [] r.op = "leave" -> Is(IsHere(s, r.c) /\ r.n = 16, "locals as they were", Here(s, r.c))
    [] r.op = "left" -> Is(/\ IsHere(s, r.c) /\ Len(s.ns[r.c]) > 1 /\ r.n = s.ns[r.c][Len(s.ns[r.c]) - 1],
                           s.ns, [Here(s, r.c) EXCEPT !.ns[r.c] = SubSeq(@, 1, Len(@) - 1)])
    [] r.op = "finish" -> Is(IsHere(s, r.c), <<"goes on", s.run, s.ready>>, Finish(Here(s, r.c), r.c))
    [] r.op = "poll" -> Is(PollOk(s, r.ms, Rd(r.ready), r.now), <<"wait", s.run, s.ready, Most(s), s.dead>>, Poll(s, r.ms, Rd(r.ready), r.now))
    [] r.op = "stuck" -> Is(s.run = -1 /\ s.ready = <<>> /\ s.idle, <<"goes on", s.ready>>, s)
    [] r.op = "exit" -> Is(IsHere(s, 0), <<"goes on", s.run, s.ready>>, s)
    [] OTHER -> No("to go on")
  /\ Fair(st') \/ No("the event loop is asked")

Next == l <= Len(Trace) /\ l' = l + 1 /\ \E t \in Alts(st) : Step(t, Trace[l])

Verdict ==
  IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT("TRACE-ACCEPTED")
  ELSE PrintT("TRACE-REJECTED at " \o ToString(TLCGet("stats").diameter))
=============================================================================
