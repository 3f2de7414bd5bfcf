---------------------------- MODULE MapSetTrace ----------------------------
EXTENDS MapSet, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m, s
Init == l = 1 /\ m = Empty /\ s = {}
Sees(r, m1, s1) ==
  /\ r.live = Cardinality(DOMAIN m1)   \* values held are alive, all others destroyed
  /\ r.size = Cardinality(DOMAIN m1) /\ r.empty = (DOMAIN m1 = {}) /\ r.cap >= r.size
  /\ r.ssize = Cardinality(s1) /\ r.sempty = (s1 = {})
Step(r) ==
  CASE r.op = "new" -> r.end = "ok" /\ m' = Empty /\ s' = {} /\ Sees(r, Empty, {})
    [] r.op = "drop" -> r.end = "ok" /\ r.live = 0 /\ m' = Empty /\ s' = {}
    [] OTHER ->
        LET m1 == AfterM(m, r.op, r.a) s1 == AfterS(s, r.op, r.a) IN
        /\ r.end = "ok" /\ OutOk(m, s, r.op, r.a, r.out) /\ Sees(r, m1, s1)
        /\ m' = m1 /\ s' = s1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Verdict ==
  IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT("TRACE-ACCEPTED")
  ELSE PrintT("TRACE-REJECTED at " \o ToString(TLCGet("stats").diameter))
=============================================================================
