------------------------------- MODULE Tests -------------------------------
(* Files with test cases: which cases run, in which order, what each does, which fail and with what, and what is said at the end.
   W: [vars: initial values of the file's variables, fns: functions, tests, main: TRUE when the file has a main function of its own]
     a function  [v, lim]       adds 1 to variable v; raises Bad when its argument is larger than lim, else returns argument + variable v
     a checker   [v, lim, ok: TRUE]  the same, but with ok!(argument <= lim)
     a test      [name, ss: statements]
   Statements:   p x            prints x                         pv v      prints variable v
                 set v x        adds x to variable v             ok a v o x    ok!(v o x)
                 call f x       prints what f gives for x        try f x d     the same, d when f raises
                 defer x        prints x when the test is left   if v o x ss   ss when v o x
                 loop n ss      ss n times *)
EXTENDS Integers, Sequences, TLC

Rel(a, o, b) == CASE o = "==" -> a = b [] o = "!=" -> a # b [] o = "<" -> a < b [] o = ">=" -> a >= b
\* s: [v: variables, o: what was printed, r: "" or what was raised, ds: what is left to print]
Say(s, x) == [s EXCEPT !.o = Append(@, x)]
Fn(W, s, f, x) ==                                 \* [s, x: what it gives]
  LET d == W.fns[f]
      t == [s EXCEPT !.v[d.v] = @ + 1]
  IN IF x > d.lim THEN [s |-> [t EXCEPT !.r = IF d.ok THEN "TestFailed" ELSE "Bad"], x |-> 0]
     ELSE [s |-> t, x |-> x + t.v[d.v]]
RECURSIVE Do(_, _, _, _), Again(_, _, _, _)
Do(W, ss, i, s) ==
  IF i > Len(ss) \/ s.r # "" THEN s
  ELSE LET c == ss[i]
       IN Do(W, ss, i + 1,
          CASE c.k = "p" -> Say(s, c.x)
            [] c.k = "pv" -> Say(s, s.v[c.v])
            [] c.k = "set" -> [s EXCEPT !.v[c.v] = @ + c.x]
            [] c.k = "ok" -> IF Rel(s.v[c.v], c.o, c.x) THEN s ELSE [s EXCEPT !.r = "TestFailed"]
            [] c.k = "call" -> LET r == Fn(W, s, c.f, c.x) IN IF r.s.r = "" THEN Say(r.s, r.x) ELSE r.s
            [] c.k = "try" -> LET r == Fn(W, s, c.f, c.x) IN IF r.s.r = "" THEN Say(r.s, r.x) ELSE Say([r.s EXCEPT !.r = ""], c.d)
            [] c.k = "defer" -> [s EXCEPT !.ds = <<c.x>> \o @]
            [] c.k = "if" -> IF Rel(s.v[c.v], c.o, c.x) THEN Do(W, c.ss, 1, s) ELSE s
            [] c.k = "loop" -> Again(W, c.ss, c.x, s))
Again(W, ss, n, s) == IF n = 0 \/ s.r # "" THEN s ELSE Again(W, ss, n - 1, Do(W, ss, 1, s))

\* one case after the other, whatever becomes of them: [v, log: <<name, printed, raised>>]
Case(W, v, t) == LET s == Do(W, t.ss, 1, [v |-> v, o |-> <<>>, r |-> "", ds |-> <<>>]) IN [v |-> s.v, log |-> <<t.name, s.o \o s.ds, s.r>>]
RECURSIVE All(_, _, _, _)
All(W, i, v, log) == IF i > Len(W.tests) THEN log
                     ELSE LET r == Case(W, v, W.tests[i]) IN All(W, i + 1, r.v, Append(log, r.log))
Log(W) == All(W, 1, W.vars, <<>>)
Failed(W) == Len(SelectSeq(Log(W), LAMBDA e : e[3] # ""))
=============================================================================
