----------------------------- MODULE CoreTables -----------------------------
(* The containers the compiler is built on (src/cxy/core) as the mathematical objects they stand for: a hash table and a hash
   map are finite maps, a dynamic array is a sequence, a string pool is a sequence of distinct strings (an interned string is
   its position), a string builder is a string, a memory pool is a set of blocks that keep what is written to them.
   Strings are sequences of bytes.  Do(s, op, a, b) = [s: state afterwards, o: what the operation answers].                   *)
EXTENDS BV, Functions, FiniteSets, FiniteSetsExt

Map0 == <<>>                                     \* the empty function
MPut(m, k, v) == TLCEval((k :> v) @@ m)
MDel(m, k) == TLCEval([x \in DOMAIN m \ {k} |-> m[x]])
Keys(m) == SetToSortSeq(DOMAIN m, <)
Pairs(m) == LET ks == Keys(m) IN FoldLeft(LAMBDA acc, k : acc \o <<k, m[k]>>, <<>>, ks)
Size(m) == Cardinality(DOMAIN m)
Get(m, k) == IF k \in DOMAIN m THEN <<k, m[k]>> ELSE <<-1>>

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
\* decimal digits of an unsigned 64-bit value given as eight bytes
RECURSIVE DivB(_, _, _, _)
DivB(x, i, rem, q) == IF i = 0 THEN [q |-> q, r |-> rem]
                      ELSE LET c == rem * 256 + x[i] IN DivB(x, i - 1, c % 10, <<c \div 10>> \o q)
RECURSIVE DecU(_)
DecU(x) == LET d == DivB(x, 8, 0, <<>>) IN IF d.q = Zero THEN <<48 + d.r>> ELSE DecU(d.q) \o <<48 + d.r>>
DecS(x) == IF Neg7(x) THEN <<45>> \o DecU(Neg(x)) ELSE DecU(x)

\* UTF-8 (RFC 3629)
Utf8(c) ==
  CASE c < 128     -> <<c>>
    [] c < 2048    -> <<192 + c \div 64, 128 + (c % 64)>>
    [] c < 65536   -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] c < 1114112 -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

IsSpace(c) == c = 32 \/ (9 <= c /\ c <= 13)
RECURSIVE SkipSpace(_), Word(_)
SkipSpace(s) == IF s # <<>> /\ IsSpace(Head(s)) THEN SkipSpace(Tail(s)) ELSE s
Word(s) == IF s = <<>> \/ IsSpace(Head(s)) THEN <<>> ELSE <<Head(s)>> \o Word(Tail(s))
\* the parts of a path, each followed by exactly one separator unless it is the last or empty
RECURSIVE Join(_)
Join(ps) == IF Len(ps) = 1 THEN ps[1]
            ELSE LET p == ps[1] IN (IF p = <<>> \/ p[Len(p)] = 47 THEN p ELSE p \o <<47>>) \o Join(Tail(ps))

Pos(sp, s) == IF \E i \in 1..Len(sp) : sp[i] = s THEN CHOOSE i \in 1..Len(sp) : sp[i] = s ELSE 0
Intern(st, s) == LET p == Pos(st.sp, s) IN
  IF p > 0 THEN [s |-> st, o |-> <<p>> \o s]
  ELSE [s |-> [st EXCEPT !.sp = Append(@, s)], o |-> <<Len(st.sp) + 1>> \o s]

Init0 == [ht |-> <<Map0, Map0>>, hm |-> <<Map0, Map0>>, da |-> <<<<>>, <<>>>>, sp |-> <<>>, sb |-> <<<<>>, <<>>>>]

App(st, i, x) == LET n == st.sb[i] \o x IN [s |-> [st EXCEPT !.sb[i] = n], o |-> <<Len(n)>> \o n \o <<0>>]
R(s, o) == [s |-> s, o |-> o]

(* i: the container (1 or 2), a: numbers, b: strings; "none" is the absent string *)
Do(st, op, i, a, b) ==
  CASE op = "home" -> R(st, <<>>)
    [] op \in {"ht.new", "ht.clear", "ht.free"} -> R([st EXCEPT !.ht[i] = Map0], IF op = "ht.new" THEN <<>> ELSE <<0>>)
    [] op = "ht.ins" ->       \* an element that is there already stays
         IF a[1] \in DOMAIN st.ht[i] THEN R(st, <<0, Size(st.ht[i])>>)
         ELSE R([st EXCEPT !.ht[i] = MPut(@, a[1], a[2])], <<1, Size(st.ht[i]) + 1>>)
    [] op = "ht.find" -> R(st, Get(st.ht[i], a[1]))
    [] op = "ht.rm" -> LET m == MDel(st.ht[i], a[1]) IN R([st EXCEPT !.ht[i] = m], Get(st.ht[i], a[1]) \o <<Size(m)>>)
    [] op \in {"ht.all", "ht.iter"} -> R(st, Pairs(st.ht[i]))
    [] op = "ht.some" -> R(st, <<IF Size(st.ht[i]) < a[1] THEN Size(st.ht[i]) ELSE a[1]>>)
    [] op \in {"hm.new", "hm.free"} -> R([st EXCEPT !.hm[i] = Map0], <<>>)
    [] op = "hm.clear" -> R([st EXCEPT !.hm[i] = Map0], <<0>>)
    [] op = "hm.put" ->       \* the last value put for a key is the one it has
         LET m == MPut(st.hm[i], a[1], a[2]) IN
         R([st EXCEPT !.hm[i] = m], <<IF a[1] \in DOMAIN st.hm[i] THEN 0 ELSE 1, Size(m)>>)
    [] op = "hm.get" -> R(st, Get(st.hm[i], a[1]))
    [] op = "hm.rm" -> LET m == MDel(st.hm[i], a[1]) IN R([st EXCEPT !.hm[i] = m], <<Size(m)>>)
    [] op = "hm.all" -> R(st, Pairs(st.hm[i]))
    [] op = "da.new" -> R([st EXCEPT !.da[i] = <<>>], <<>>)
    [] op = "da.free" -> R([st EXCEPT !.da[i] = <<>>], <<0>>)
    [] op = "da.sized" -> R([st EXCEPT !.da[i] = TLCEval([k \in 1..a[1] |-> k - 1])], <<>>)
    [] op = "da.from" -> R([st EXCEPT !.da[i] = a], <<>>)
    [] op = "da.push" -> R([st EXCEPT !.da[i] = Append(@, a[1])], <<Len(st.da[i]) + 1>>)
    [] op = "da.pop" -> LET d == st.da[i] IN
         IF d = <<>> THEN R(st, <<0>>) ELSE R([st EXCEPT !.da[i] = Front(@)], <<Len(d) - 1, Last(d)>>)
    [] op = "da.at" -> R(st, <<st.da[i][a[1] + 1]>>)
    [] op = "da.set" -> R([st EXCEPT !.da[i][a[1] + 1] = a[2]], <<>>)
    [] op = "da.back" -> R(st, <<Last(st.da[i])>>)
    [] op = "da.all" -> R(st, st.da[i])
    [] op = "da.copy" -> LET d == st.da[3 - i] \o st.da[i] IN R([st EXCEPT !.da[3 - i] = d], <<Len(d)>>)
    [] op = "sp.make" -> IF b[1] = <<-1>> THEN R(st, <<-1>>) ELSE Intern(st, b[1])
    [] op = "sp.sized" -> IF b[1] = <<-1>> THEN R(st, <<-1>>) ELSE Intern(st, SubSeq(b[1], 1, a[1]))
    [] op = "sp.trim" -> IF b[1] = <<-1>> THEN R(st, <<-1>>) ELSE Intern(st, Word(SkipSpace(b[1])))
    [] op = "sp.cat" -> Intern(st, FlattenSeq(b))
    [] op = "sp.fmt" -> Intern(st, b[1] \o DecS(a[1]) \o b[2])
    [] op = "sp.join" -> Intern(st, Join(b))
    [] op = "sp.free" -> R([st EXCEPT !.sp = <<>>], <<>>)
    [] op = "sb.new" -> R([st EXCEPT !.sb[i] = <<>>], <<>>)
    [] op = "sb.str" -> App(st, i, b[1])
    [] op = "sb.int" -> App(st, i, DecS(a[1]))
    [] op = "sb.uint" -> App(st, i, DecU(a[1]))
    [] op = "sb.bool" -> App(st, i, IF a[1] = 0 THEN <<102, 97, 108, 115, 101>> ELSE <<116, 114, 117, 101>>)
    [] op = "sb.chr" -> App(st, i, Utf8(a[1]))
    [] op = "sb.rel" -> R([st EXCEPT !.sb[i] = <<>>], st.sb[i])
    [] op = "sb.del" -> R([st EXCEPT !.sb[i] = <<>>], <<>>)
    [] op \in {"mp.alloc", "mp.track", "mp.cache"} -> R(st, IF op = "mp.alloc" /\ a[1] = 0 THEN <<1, 0, 0>> ELSE <<0, 0, 0>>)
    [] op = "mp.back" -> R(st, <<0>>)
    [] op = "mp.stats" -> R(st, <<1, 0>>)
    [] op \in {"mp.reset", "mp.free"} -> R(st, <<0>>)
    [] op = "held" -> R(st, <<0>>)       \* everything was released

IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
(* sp.anon: any string that begins with the prefix and was not there before *)
AnonOk(st, b, o) == /\ Len(o) > 1 /\ o[1] = Len(st.sp) + 1
                    /\ Pos(st.sp, Tail(o)) = 0
                    /\ (b[1] # <<-1>> => IsPrefixOf(b[1], Tail(o)))
=============================================================================
