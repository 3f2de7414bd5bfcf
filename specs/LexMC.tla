------------------------------- MODULE LexMC -------------------------------
(* The reader of Lexer as a machine that takes one step per token, over every text of up to N bytes of a small alphabet. *)
EXTENDS Lexer
CONSTANTS N
VARIABLES S, s, toks
Alphabet == {34, 39, 92, 47, 42, 46, 48, 120, 102, 36, 123, 125, 10, 32, 61, 101}     \* " ' \ / * . 0 x f $ { } newline space = e
Init == /\ S \in UNION {[1..n -> Alphabet] : n \in 0..N}
        /\ s = Start /\ toks = <<>>
Done == toks # <<>> /\ toks[Len(toks)].t = "EOF"
Step == ~Done /\ LET r == Next(S, s) IN s' = r[2] /\ toks' = Append(toks, r[1]) /\ UNCHANGED S
Spec == Init /\ [][Step]_<<S, s, toks>> /\ WF_<<S, s, toks>>(Step)
Ends == <>Done
Short == Len(toks) <= 2 * Len(S) + 1
\* tokens stand in the order of the text, do not overlap, and lie in it
InText == \A i \in 1..Len(toks) : 0 <= toks[i].b /\ toks[i].b <= toks[i].e /\ toks[i].e <= Len(S)
Ordered == \A i \in 1..(Len(toks) - 1) : toks[i].e <= toks[i + 1].b \/ (toks[i].t = "ERROR" /\ toks[i].b <= toks[i + 1].b)
\* what no token covers is blank, a comment, the quotes around a character or a """ string, the brace of ${
Covered == {o \in 0..(Len(S) - 1) : \E i \in 1..Len(toks) : toks[i].b <= o /\ o < toks[i].e}
Skipped == Done /\ ~(\E o \in 1..(Len(S) - 1) : S[o] = 47 /\ S[o + 1] \in {42, 47}) =>
             \A o \in (0..(Len(S) - 1)) \ Covered : S[o + 1] \in {32, 10, 34, 39, 123}
\* an error is told for every error token, and only for those (and for those inside a number that is none)
Told == s.errs >= Cardinality({i \in 1..Len(toks) : toks[i].t = "ERROR"})
Quiet == (\A i \in 1..Len(toks) : toks[i].t # "ERROR") => s.errs = 0
\* maximal munch: no symbol of the language begins where a shorter one was read
Longest == \A i \in 1..Len(toks) : toks[i].t \in Symbols /\ toks[i].t # "${" => LET n == toks[i].e - toks[i].b IN
             n < 3 /\ toks[i].e < Len(S) => Str(SubSeq(S, toks[i].b + 1, toks[i].e + 1)) \notin Symbols \/ toks[i].t = "/"
\* f-strings: every FSTR is followed by its FEND, pieces in between
RECURSIVE Level(_, _)
Level(i, d) == IF i > Len(toks) THEN d ELSE IF toks[i].t = "FSTR" THEN Level(i + 1, d + 1) ELSE IF toks[i].t = "FEND" THEN Level(i + 1, d - 1) ELSE Level(i + 1, d)
Nested == Level(1, 0) \in {0, 1} /\ (s.md = "none" /\ s.pend # "R" => Level(1, 0) = 0)
\* white space between two texts keeps their tokens apart and what they are (neither ends inside a token or an f-string)
Shift(q, k) == [i \in 1..Len(q) |-> [q[i] EXCEPT !.b = @ + k, !.e = @ + k]]
Only(r) == [i \in 1..Len(r) |-> r[i][1]]
Clean(r) == r[Len(r)][2].md = "none" /\ \A i \in 1..Len(r) : r[i][1].t # "ERROR"
Apart == Done => \A k \in 1..Len(S) : S[k] = 10 =>
           LET x == Tokens(SubSeq(S, 1, k - 1), Start)  y == Tokens(SubSeq(S, k + 1, Len(S)), Start)
           IN Clean(x) => toks = SubSeq(Only(x), 1, Len(x) - 1) \o Shift(Only(y), k) \/ At(S, k + 1) = 92
\* the state machine computes what the recursive reader does
SameAs == Done => toks = Only(Tokens(S, Start))
\* a string literal never stands for more bytes than were written, and without backslashes for exactly those
Decoded == \A i \in 1..Len(toks) : toks[i].t = "STRING" => LET raw == SubSeq(S, toks[i].b + 2, toks[i].e - 1) IN
             /\ Len(toks[i].v) <= Len(raw)
             /\ (\A j \in 1..Len(raw) : raw[j] # 92) => toks[i].v = raw
=============================================================================
