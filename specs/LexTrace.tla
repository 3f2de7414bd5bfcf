------------------------------ MODULE LexTrace ------------------------------
(* Judges the tokens the compiler's lexer made of texts against Lexer. *)
EXTENDS Lexer, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Init == l = 1
SameVal(m, r) ==
  CASE m.t \in {"INT", "STRING", "CHAR"} -> m.v = r.v
    [] m.t = "FLOAT" -> Nearest(m.v[1], m.v[2], r.m, r.x)
    [] OTHER -> TRUE
Same(S, m, r) == /\ m.t = r.t /\ m.b = r.b /\ m.e = r.e /\ SameVal(m, r)
                 /\ r.row = Row(S, m.b) /\ r.col = Col(S, m.b) /\ r.erow = Row(S, m.e) /\ r.ecol = Col(S, m.e)
Ok(r) ==
  IF r.end # "ok" THEN PrintT(<<"EXPECTED", "no crash">>) /\ FALSE
  ELSE LET ts == Tokens(r.src, Start)
           n == Min2(Len(ts), Len(r.toks))
           bad == {i \in 1..n : ~Same(r.src, ts[i][1], r.toks[i]) \/ ts[i][2].errs # r.toks[i].errs}
       IN \/ bad = {} /\ Len(ts) = Len(r.toks)
          \/ (IF bad = {} THEN PrintT(<<"EXPECTED", Len(ts), "tokens">>)
              ELSE LET i == CHOOSE k \in bad : \A j \in bad : k <= j IN PrintT(<<"EXPECTED", i, ts[i], r.toks[i]>>)) /\ FALSE
Nx == l <= Len(Trace) /\ l' = l + 1 /\ Ok(Trace[l])
Verdict ==
  IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT("TRACE-ACCEPTED")
  ELSE PrintT("TRACE-REJECTED at " \o ToString(TLCGet("stats").diameter))
=============================================================================
