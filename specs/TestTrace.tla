----------------------------- MODULE TestTrace -----------------------------
(* What `cxy test' reported of files with test cases, against Tests.tla. *)
EXTENDS Tests, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* r.log: <<name, printed, raised>> of each case that ran; r.said: <<>> or <<failed, all>> as said at the end; r.fine: status 0
Step(r) ==
  CASE r.op = "tests" ->
         LET log == Log(r.w)
             f == Failed(r.w)
             said == IF f = 0 THEN <<>> ELSE <<f, Len(r.w.tests)>>
         IN \/ Len(log) = Len(r.log) /\ (\A i \in DOMAIN log : log[i] = r.log[i]) /\ r.said = said /\ r.fine = (f = 0) /\ r.none = (r.w.tests = <<>>)
            \/ (PrintT(<<"EXPECTED", log, said, f = 0, "got", r.log, r.said, r.fine>>) /\ FALSE)
    [] OTHER -> PrintT(<<"EXPECTED", "tests that run", "got", r.op>>) /\ FALSE
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])

Verdict == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT("TRACE-ACCEPTED")
           ELSE PrintT("TRACE-REJECTED at " \o ToString(TLCGet("stats").diameter))
=============================================================================
