------------------------------ MODULE CoreTrace ------------------------------
(* Judges recorded histories of the compiler's containers against CoreTables. *)
EXTENDS CoreTables, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s

Init == l = 1 /\ s = Init0

Step(r) ==
  /\ r.end = "ok"
  /\ IF r.op = "start" THEN s' = Init0
     ELSE IF r.op = "sp.anon"
     THEN IF AnonOk(s, r.b, r.out) THEN s' = [s EXCEPT !.sp = Append(@, Tail(r.out))]
          ELSE PrintT(<<"EXPECTED", "a new string with this prefix">>) /\ FALSE
     ELSE LET e == Do(s, r.op, r.i, r.a, r.b) IN
          IF e.o = r.out THEN s' = e.s ELSE PrintT(<<"EXPECTED", e.o>>) /\ FALSE

Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])

Verdict ==
  IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT("TRACE-ACCEPTED")
  ELSE PrintT("TRACE-REJECTED at " \o ToString(TLCGet("stats").diameter))
=============================================================================
