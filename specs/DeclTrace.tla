----------------------------- MODULE DeclTrace -----------------------------
(* What the compiler said about programs of declarations, against Decls.tla. *)
EXTENDS Decls, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)

Step(r) ==
  CASE r.op = "declarations" ->
         IF Answer(r.ds, Range(r.errs)) THEN TRUE
         ELSE PrintT(<<"EXPECTED", "errors in", Wrong(r.ds), "got", r.errs>>) /\ FALSE
    [] OTHER -> PrintT(<<"EXPECTED", "a verdict">>) /\ FALSE

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])

Verdict == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT("TRACE-ACCEPTED")
           ELSE PrintT("TRACE-REJECTED at " \o ToString(TLCGet("stats").diameter))
=============================================================================
