------------------------------ MODULE LitTrace ------------------------------
(* Judges what literals stood for in running programs (their source text, the value the program saw) against Lexer. *)
EXTENDS Lexer, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Init == l = 1
RECURSIVE Compl(_, _), Cut(_), Cat(_, _, _)
Compl(v, c) == IF v = <<>> THEN <<>> ELSE LET x == 255 - v[1] + c IN <<x % 256>> \o Compl(Tail(v), x \div 256)
Cut(v) == IF v = <<>> \/ v[1] = 0 THEN <<>> ELSE <<v[1]>> \o Cut(Tail(v))          \* a string ends with its first zero byte
CharBytes(v) == <<v % 256, (v \div 256) % 256, v \div 65536, 0, 0, 0, 0, 0>>
T1(r) == LET ts == Tokens(r.src, Start) IN
         IF Len(ts) # 2 \/ ts[1][1].t \notin {"STRING", "INT", "CHAR", "FLOAT"} THEN [t |-> "no", v |-> <<>>] ELSE ts[1][1]
\* an f-string: its pieces, and what its expressions are
Cat(S, ts, vals) ==
  IF ts = <<>> THEN <<>>
  ELSE LET k == ts[1][1] IN
       (IF k.t = "STRING" THEN k.v ELSE IF k.t = "NAME" THEN vals[Str(SubSeq(S, k.b + 1, k.e))] ELSE <<>>) \o Cat(S, Tail(ts), vals)
Expect(r) ==
  CASE r.kind = "s" -> Cut(T1(r).v)
    [] r.kind = "+" -> Cut(Tokens(r.src, Start)[1][1].v) \o Cut(Tokens(r.src2, Start)[1][1].v)
    [] r.kind = "F" -> Cat(r.src, Tokens(r.src, Start), r.vals)
    [] r.kind = "i" -> LET v == IF T1(r).t = "CHAR" THEN CharBytes(T1(r).v) ELSE T1(r).v IN IF r.neg = 1 THEN Compl(v, 1) ELSE v
    [] r.kind = "f" -> <<r.neg>>
Ok(r) ==
  \/ /\ r.end = "ok" /\ r.out = Expect(r)
     /\ r.kind = "f" => Nearest(T1(r).v[1], T1(r).v[2], r.m, r.x)
  \/ PrintT(<<"EXPECTED", Expect(r)>>) /\ FALSE
Nx == l <= Len(Trace) /\ l' = l + 1 /\ Ok(Trace[l])
Verdict ==
  IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT("TRACE-ACCEPTED")
  ELSE PrintT("TRACE-REJECTED at " \o ToString(TLCGet("stats").diameter))
=============================================================================
