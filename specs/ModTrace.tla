------------------------------ MODULE ModTrace ------------------------------
(* What became of programs of several modules, against Modules.tla. *)
EXTENDS Modules, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Step(r) ==
  CASE r.op = "modules" ->
         LET want == IF Refused(r.w) THEN <<"refused">> ELSE <<"runs", Printed(r.w)>>
             got == IF r.refused THEN <<"refused">> ELSE <<"runs", r.out>>
         IN (want[1] = got[1] /\ (want[1] = "refused" \/ want[2] = got[2])) \/ (PrintT(<<"EXPECTED", want, "got", got>>) /\ FALSE)
    [] OTHER -> PrintT(<<"EXPECTED", "a program that is refused or runs", "got", r.op>>) /\ FALSE
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])

Verdict == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT("TRACE-ACCEPTED")
           ELSE PrintT("TRACE-REJECTED at " \o ToString(TLCGet("stats").diameter))
=============================================================================
