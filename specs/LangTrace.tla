----------------------------- MODULE LangTrace -----------------------------
(* Each record is one execution of a generated program by the real compiler's
   output: the program itself (fns, g), the entry call, and what was observed:
   end ("ok": normal, result in v; "exc"; anything else is a crash or hang) and
   the events.  The record is accepted when the semantics gives the same.     *)
EXTENDS Lang, Json, IOUtils
VARIABLES l, ok
Trace == ndJsonDeserialize(IOEnv.TRACE)
Obs(o) == [i \in 1..Len(o) |-> <<o[i][1], o[i][2]>>]
Same(r, x) ==
  \/ r.c = "undef"
  \/ /\ r.c = "ok" /\ x.end = "ok" /\ r.s.out = x.out /\ r.v = x.v
  \/ /\ r.c = "exc" /\ x.end = "exc" /\ r.s.out = x.out /\ r.v = x.v
Step(x) ==
  LET r == Run(x.fns, x.g, x.f, x.args, x.fuel)
  IN /\ (~Same(r, x) => PrintT(<<"EXPECTED", r.c, r.v, r.s.out>>))
     /\ Same(r, x)
     /\ (r.c = "undef" => PrintT("UNDEF"))
Init == l = 1 /\ ok = TRUE
Next == l <= Len(Trace) /\ l' = l + 1 /\ ok' = TRUE /\ Step(Trace[l])
Verdict == LET d == TLCGet("stats").diameter IN
           IF d > Len(Trace) THEN PrintT("TRACE-ACCEPTED") ELSE PrintT("TRACE-REJECTED at " \o ToString(d))
=============================================================================
