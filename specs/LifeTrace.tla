----------------------------- MODULE LifeTrace -----------------------------
(* Like LangTrace, for programs with objects.  The observed events include births (7000: an ordinary event of the semantics)
   and deaths (7777), which the semantics does not emit: it says, for every event, which objects are in use at that point and
   which ones nobody can reach.  Deaths are right when no object dies twice, or before it is born, or while it is in use, and
   every object that became unreachable (other than through a cycle of references) is dead at the next event.            *)
EXTENDS Lang, Json, IOUtils
VARIABLES l, ok
Trace == ndJsonDeserialize(IOEnv.TRACE)
Dead == 7777
\* events other than deaths; before[k]: objects dead before the k-th of them, in order
RECURSIVE Split(_, _, _, _, _)
Split(o, i, evs, dead, before) ==
  IF i > Len(o) THEN [evs |-> evs, before |-> Append(before, dead)]
  ELSE IF o[i][1] = Dead THEN Split(o, i + 1, evs, Append(dead, Small(o[i][2])), before)
  ELSE Split(o, i + 1, Append(evs, <<o[i][1], o[i][2]>>), dead, Append(before, dead))
Set(q) == {q[i] : i \in 1..Len(q)}
\* r: what the semantics says, b: Split of the observed events; strict: deaths must also be prompt
Bad(P, r, b) ==
  LET n == Len(r.s.lv)
      last == Life(P, [r.s EXCEPT !.env = <<>>, !.stk = <<>>])
      at(k) == IF k <= n THEN r.s.lv[k] ELSE last
  IN {<<k, what>> \in (1..(n + 1)) \X {"destroyed twice", "destroyed while in use", "not destroyed"} :
        CASE what = "destroyed twice" -> Cardinality(Set(b.before[k])) # Len(b.before[k])
          [] what = "destroyed while in use" -> Set(b.before[k]) \cap at(k).use # {}
          [] what = "not destroyed" -> ~(at(k).gone \subseteq Set(b.before[k]))}
Same(P, r, x) ==
  \/ r.c = "undef"
  \/ LET b == Split(x.out, 1, <<>>, <<>>, <<>>) IN
     /\ x.end = "ok" /\ r.c = "ok" /\ b.evs = r.s.out /\ r.v = x.v
     /\ (x.life => LET bad == Bad(P, r, b) IN bad # {} => PrintT(<<"EXPECTED", "lifetimes", bad, r.s.lv>>) /\ FALSE)
Step(x) ==
  LET r == Run(x.fns, x.g, x.f, x.args, x.fuel)
  IN /\ (~Same(x.fns, r, x) => PrintT(<<"EXPECTED", r.c, r.v, r.s.out>>))
     /\ Same(x.fns, r, x)
     /\ (r.c = "undef" => PrintT("UNDEF"))
Init == l = 1 /\ ok = TRUE
Next == l <= Len(Trace) /\ l' = l + 1 /\ ok' = TRUE /\ Step(Trace[l])
Verdict == LET d == TLCGet("stats").diameter IN
           IF d > Len(Trace) THEN PrintT("TRACE-ACCEPTED") ELSE PrintT("TRACE-REJECTED at " \o ToString(d))
=============================================================================
