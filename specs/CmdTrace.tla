------------------------------ MODULE CmdTrace ------------------------------
(* Judges what the compiler made of command lines against CmdLine. *)
EXTENDS CmdLine, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Init == l = 1
SetOf(q) == {q[i] : i \in 1..Len(q)}
\* what every compilation starts from (the harness's compiler lists three header directories)
Alpine == <<95, 95, 65, 76, 80, 73, 78, 69, 95, 95>>
Base(r) == [ cDefines |-> <<r.base.x, r.base.d>> \o (IF r.env.os = NONE THEN <<>> ELSE <<<<45, 68>> \o r.env.os>>),
             defines |-> <<<<r.base.unix, <<49>>>>>> \o (IF r.env.os = NONE THEN <<>> ELSE <<<<r.env.os, <<49>>>>>>),
             includes |-> SelectSeq(r.base.includes, LAMBDA x : r.env.os # Alpine \/ ~MentionsName(x, "fortify")) ]
Differ(m, o) == {k \in DOMAIN m : k # "end" /\ (IF k = "warnings" THEN m[k][2] # SetOf(o[k]) ELSE m[k] # o[k])}
Says(o, text) == MentionsName(o.said, text)
OkSettings(m, o) ==
  /\ (o.end = "ok" \/ (PrintT(<<"EXPECTED", "accepted">>) /\ FALSE))
  /\ (Differ(m, o) = {} \/ (PrintT(<<"EXPECTED", [k \in Differ(m, o) |-> m[k]]>>) /\ FALSE))
OkExit(how, r) ==
  LET o == r.out IN
  \/ o.end = "exit" /\ (IF how = "version" THEN Says(o, "cxy v" \o r.version) ELSE Says(o, "Usage: cxy " \o how))
  \/ (PrintT(<<"EXPECTED", "exit", how>>) /\ FALSE)
OkError(st, o) ==
  \/ /\ o.end = "error" /\ o.errors = 1
     /\ Len(o.why) <= 127 \/ st.err = "warnings"                       \* (longer ones are cut)
     /\ st.culprit = NONE \/ Mentions(o.why, st.culprit)
     /\ st.flag = "" \/ Len(o.why) = 127 \/ MentionsName(o.why, st.flag)
  \/ (PrintT(<<"EXPECTED", "error", st.err, st.flag>>) /\ FALSE)
Ok(r) ==
  LET e == Outcome(r.args, r.env, Base(r)) IN
  IF e[1] = "ok" THEN OkSettings(e[2], r.out) ELSE IF e[1] = "exit" THEN OkExit(e[2], r) ELSE OkError(e[2], r.out)
Next == l <= Len(Trace) /\ l' = l + 1 /\ Ok(Trace[l])
Verdict ==
  IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT("TRACE-ACCEPTED")
  ELSE PrintT("TRACE-REJECTED at " \o ToString(TLCGet("stats").diameter))
=============================================================================
