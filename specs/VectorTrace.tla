---------------------------- MODULE VectorTrace ----------------------------
(* Judges recorded histories of real Vectors against VectorSeq.             *)
EXTENDS VectorSeq, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s

Init == l = 1 /\ s = <<>>

Sees(r, s1) ==
  /\ r.data = s1 /\ r.size = Len(s1) /\ r.empty = (Len(s1) = 0)
  /\ (r.live # -1 => r.live = Len(s1))     \* no element leaked or destroyed early

Step(r) ==
  CASE r.op = "new" ->
         /\ r.end = "ok" /\ s' = <<>> /\ Sees(r, <<>>) /\ r.cap >= 0
    [] r.op = "drop" -> r.end = "ok" /\ s' = <<>> /\ (r.live # -1 => r.live = 0)
    [] OTHER ->
         IF Panics(s, r.op, r.a) THEN r.end = "panic" /\ s' = s
         ELSE LET s1 == After(s, r.op, r.a) IN
              /\ r.end = "ok"
              /\ r.out = Out(s, r.op, r.a, ToString)
              /\ Sees(r, s1)
              /\ CapOk(s1, r.cap, r.op, r.a)
              /\ s' = s1

Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])

Verdict ==
  IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT("TRACE-ACCEPTED")
  ELSE PrintT("TRACE-REJECTED at " \o ToString(TLCGet("stats").diameter))
=============================================================================
