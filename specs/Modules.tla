------------------------------ MODULE Modules ------------------------------
(* Programs of several modules: what a module's name, and the names it imports, stand for; which programs are refused; in which order
   modules come to life, and what the program does.
   W is a sequence of files; the last one is the program itself.
     name     "": the file does not say it is a module
     imps     [m: file imported, 0: there is no such file; f: "mod" (its own name), "as" (another name), "names"; a: the other name;
              es: names taken [n, a]]
     ds       [k, n, pub, ...] in the order declared
                 fun    bump: adds to this variable of its own module (or ""); e: what it returns besides
                 var    init: "lit" | "run" (made when the module comes to life); e
                 con    x          enum   x: of its constant B          st    x: added by its method
                 gen    e: what it returns besides its argument (generic function)
                 cls    e: what its method returns besides its field; or base: <<reference to the class it extends>>
     body     statements of the program: [k: "ev", e], [k: "asg", v: reference, e]
   Expressions are sequences of terms: [k: "n", x], [k: "loc", n, w], [k: "mem", a, n, w]; their values are added up. w says what the
   reference is written as: "fun", "var", "con", "enum", "st", "gen" or "cls" (the last three with 3 as argument). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}
Names(ds) == {ds[i].n : i \in DOMAIN ds}
Decl(ds, n) == ds[CHOOSE i \in DOMAIN ds : ds[i].n = n]
Main(W) == Len(W)

\* ---- what is compiled, in which order ----
\* files in the order in which they are complete; a file that is met again while its own imports are read imports itself
RECURSIVE Visit(_, _, _, _), Imports(_, _, _, _, _)
Visit(W, m, open, done) ==                      \* done: [seq, bad]
  IF m \in open THEN [done EXCEPT !.bad = TRUE]
  ELSE IF m \in Range(done.seq) THEN done
  ELSE LET d == Imports(W, m, 1, open \union {m}, done)
       IN IF d.bad THEN d ELSE [d EXCEPT !.seq = Append(@, m)]
Imports(W, m, i, open, done) ==
  IF i > Len(W[m].imps) \/ done.bad THEN done
  ELSE LET j == W[m].imps[i].m
       IN IF j = 0 \/ W[j].name = "" THEN [done EXCEPT !.bad = TRUE]
          ELSE Imports(W, m, i + 1, open, Visit(W, j, open, done))
Loaded(W) == Visit(W, Main(W), {}, [seq |-> <<>>, bad |-> FALSE])

\* ---- names ----
\* everything file m gives a name to: <<name, file, name there>>; "" there: the whole module
Given(W, m) ==
  UNION {LET i == W[m].imps[k]
         IN IF i.f = "names" THEN {<<i.es[x].a, i.m, i.es[x].n, k, x>> : x \in DOMAIN i.es}
            ELSE {<<IF i.f = "as" THEN i.a ELSE W[i.m].name, i.m, "", k, 0>>} : k \in DOMAIN W[m].imps}
  \union {<<W[m].ds[k].n, m, W[m].ds[k].n, 0, k>> : k \in DOMAIN W[m].ds}
Means(W, m, n) == CHOOSE g \in Given(W, m) : g[1] = n
Exports(W, m, n) == \E d \in Range(W[m].ds) : d.n = n /\ d.pub

\* the file and declaration a reference of file m stands for; <<>>: nothing it may use
Target(W, m, r) ==
  LET g == {x \in Given(W, m) : x[1] = (IF r.k = "loc" THEN r.n ELSE r.a)}
  IN IF g = {} THEN <<>>
     ELSE LET h == CHOOSE x \in g : TRUE
          IN IF r.k = "loc" THEN IF h[3] = "" THEN <<>> ELSE <<h[2], h[3]>>
             ELSE IF h[3] # "" \/ ~Exports(W, h[2], r.n) THEN <<>> ELSE <<h[2], r.n>>
Reads == {"var", "con"}                         \* read as the bare name
Stands(W, m, r) == LET t == Target(W, m, r) IN IF t = <<>> THEN "" ELSE Decl(W[t[1]].ds, t[2]).k
Right(W, m, r) == r.k = "n" \/ LET k == Stands(W, m, r) IN k = r.w \/ {k, r.w} \subseteq Reads

Sums(W, m) == {W[m].ds[k].e : k \in {j \in DOMAIN W[m].ds : W[m].ds[j].k \in {"fun", "var", "gen", "cls"}}} \union {W[m].body[k].e : k \in DOMAIN W[m].body}
Wrong(W, m) ==
  \/ \E k \in DOMAIN W[m].imps : W[m].imps[k].f = "names" /\ \E e \in Range(W[m].imps[k].es) : ~Exports(W, W[m].imps[k].m, e.n)
  \/ \E g \in Given(W, m), h \in Given(W, m) : g # h /\ g[1] = h[1]
  \/ \E e \in Sums(W, m) : \E t \in DOMAIN e : ~Right(W, m, e[t])
  \/ \E k \in DOMAIN W[m].body : W[m].body[k].k = "asg" /\ Stands(W, m, W[m].body[k].v) # "var"
  \/ \E d \in Range(W[m].ds) : d.k = "cls" /\ d.base # <<>> /\ Stands(W, m, d.base[1]) # "cls"
Refused(W) == LET l == Loaded(W) IN l.bad \/ \E m \in Range(l.seq) : Wrong(W, m)

\* ---- what happens ----
\* s: [v: the variables of all files, o: what was printed]
RECURSIVE Sum(_, _, _, _, _), Call(_, _, _, _)
Sum(W, m, e, i, s) ==
  IF i > Len(e) THEN [x |-> 0, s |-> s]
  ELSE LET t == IF e[i].k = "n" THEN <<>> ELSE Target(W, m, e[i])
           h == IF e[i].k = "n" THEN [x |-> e[i].x, s |-> s]
                ELSE LET d == Decl(W[t[1]].ds, t[2])
                     IN CASE d.k = "fun" -> Call(W, t[1], d, s)
                          [] d.k \in {"gen", "cls"} -> LET c == Call(W, t[1], d, s) IN [c EXCEPT !.x = @ + 3]
                          [] d.k = "var" -> [x |-> s.v[t], s |-> s]
                          [] d.k = "st" -> [x |-> 3 + d.x, s |-> s]
                          [] OTHER -> [x |-> d.x, s |-> s]
           r == Sum(W, m, e, i + 1, h.s)
       IN [x |-> h.x + r.x, s |-> r.s]
Call(W, m, d, s) ==
  IF d.k = "cls" /\ d.base # <<>>               \* the method of the class it extends, which is at home elsewhere
  THEN LET t == Target(W, m, d.base[1]) IN Call(W, t[1], Decl(W[t[1]].ds, t[2]), s) ELSE
  LET p == [s EXCEPT !.o = Append(@, d.id)]
      q == IF d.bump = "" THEN p ELSE [p EXCEPT !.v[<<m, d.bump>>] = @ + 1]
      r == Sum(W, m, d.e, 1, q)
  IN [x |-> r.x + d.id, s |-> r.s]

\* a module comes to life: its variables get their values in the order declared
RECURSIVE Alive(_, _, _, _), AllAlive(_, _, _, _), Body(_, _, _)
Alive(W, m, i, s) ==
  IF i > Len(W[m].ds) THEN s
  ELSE LET d == W[m].ds[i]
       IN IF d.k # "var" \/ d.init = "lit" THEN Alive(W, m, i + 1, s)
          ELSE LET r == Sum(W, m, d.e, 1, s) IN Alive(W, m, i + 1, [r.s EXCEPT !.v[<<m, d.n>>] = r.x])
AllAlive(W, q, i, s) == IF i > Len(q) THEN s ELSE AllAlive(W, q, i + 1, Alive(W, q[i], 1, s))
Body(W, i, s) ==
  IF i > Len(W[Main(W)].body) THEN s
  ELSE LET c == W[Main(W)].body[i]
           r == Sum(W, Main(W), c.e, 1, s)
       IN Body(W, i + 1, IF c.k = "ev" THEN [r.s EXCEPT !.o = Append(@, r.x)] ELSE [r.s EXCEPT !.v[Target(W, Main(W), c.v)] = r.x])

\* variables whose value is known are there from the start
Start(W) == LET vs == UNION {{<<m, d.n>> : d \in {c \in Range(W[m].ds) : c.k = "var"}} : m \in DOMAIN W}
            IN [o |-> <<>>, v |-> [t \in vs |-> LET d == Decl(W[t[1]].ds, t[2]) IN IF d.init = "lit" THEN d.e[1].x ELSE 0]]
Printed(W) == Body(W, 1, AllAlive(W, Loaded(W).seq, 1, Start(W))).o
=============================================================================
