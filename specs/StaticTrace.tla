---------------------------- MODULE StaticTrace ----------------------------
(* What the compiler said about programs against Statics.tla: one record per program: its world, its functions, and for each
   function the lines of its errors or that the compiler crashed on it alone. *)
EXTENDS Statics, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)

\* refused: with an error, the first of which in the statement at fault (or by a crash)
Agree(bad, r) == IF bad = 0 THEN r.errs = <<>> /\ ~r.crash
                 ELSE r.crash \/ (r.errs # <<>> /\ \A i \in DOMAIN r.errs : r.errs[i] >= bad /\ \E j \in DOMAIN r.errs : r.errs[j] = bad)

Step(r) ==
  CASE r.op = "program" ->
         LET want == TLCEval(Judge(r.w, r.fs))
             wrong == {i \in DOMAIN r.fs : ~Agree(want[i], r.got[i])}
         IN IF wrong = {} THEN TRUE
            ELSE LET i == CHOOSE i \in wrong : \A j \in wrong : i <= j
                 IN PrintT(<<"EXPECTED", "function", i, "line", want[i], "got", r.got[i]>>) /\ FALSE
    [] OTHER -> PrintT(<<"EXPECTED", "a verdict">>) /\ FALSE

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])

Verdict == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT("TRACE-ACCEPTED")
           ELSE PrintT("TRACE-REJECTED at " \o ToString(TLCGet("stats").diameter))
=============================================================================
