------------------------------- MODULE Lexer -------------------------------
(* How the text of a program is read: the tokens of a sequence of bytes, the value of every literal.  Reading is a state machine:
   Next maps a state [p: where, md: reading an f-string, pend: a token that takes no bytes is due, nf: no fraction may follow,
   errs: errors told] to <<token, state>>.  A token is [t: what, b, e: the bytes b..e-1 counted from 0, v: value].
   The operators take the text as the sequence S.                                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CH == <<" ","!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/","0","1","2","3","4","5","6","7","8","9",":",";","<","=",">","?",
        "@","A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","[","\\","]","^","_",
        "`","a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z","{","|","}","~">>
RECURSIVE Str(_)
Str(b) == IF b = <<>> THEN "" ELSE (IF b[1] \in 32..126 THEN CH[b[1] - 31] ELSE "<none>") \o Str(Tail(b))
Space(x) == x \in {32, 9, 10, 11, 12, 13}
Digit(x) == x \in 48..57
Alpha(x) == x \in 65..90 \/ x \in 97..122
Word(x) == Alpha(x) \/ Digit(x) \/ x = 95
Punct(x) == x \in 33..126 /\ ~Word(x)
Val(x) == IF Digit(x) THEN x - 48 ELSE IF x \in 97..102 THEN x - 87 ELSE IF x \in 65..70 THEN x - 55 ELSE 99

Symbols == {"(", ")", "[", "]", "{", "}", "@", "#", "!", "~", ".", "..", "...", "?", ",", ":", ";", "=", "==", "!=", "=>", "->", "<", "<=",
            "<<", "<<=", ">", ">=", ">>", ">>=", "+", "-", "*", "/", "%", "&", "^", "|", "&&", "||", "++", "--", "+=", "-=", "*=", "/=",
            "%=", "&=", "&.", "^=", "|=", "`", "#{", ".[", "#.", "##", "!:"}
Keywords == {"virtual", "auto", "true", "false", "null", "if", "else", "match", "for", "in", "is", "while", "break", "return", "yield",
             "continue", "func", "var", "const", "type", "native", "extern", "exception", "struct", "enum", "pub", "opaque", "catch",
             "raise", "async", "launch", "ptrof", "await", "delete", "discard", "switch", "case", "default", "defer", "macro", "void",
             "string", "range", "module", "import", "include", "cDefine", "cInclude", "cSources", "as", "asm", "from", "unsafe",
             "interface", "this", "This", "super", "class", "defined", "test", "__cc", "bool", "wchar", "char", "i8", "i16", "i32", "i64",
             "u8", "u16", "u32", "u64", "f32", "f64"}

\* --- escape sequences: <<how many bytes (0: none), value>> of what begins with the backslash S[i], looking no further than n
RECURSIVE Number(_, _, _, _, _)
Number(S, i, n, base, acc) ==              \* digits S[i..n]
  IF i > n \/ Val(S[i]) >= base THEN <<i, acc>> ELSE Number(S, i + 1, n, base, IF acc > 100000 THEN acc ELSE acc * base + Val(S[i]))
Named == [c \in {110, 116, 118, 114, 97, 98, 36, 34, 39, 92} |->
            CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 118 -> 11 [] c = 114 -> 13 [] c = 97 -> 7 [] c = 98 -> 8 [] OTHER -> c]
Escape(S, i, n) ==
  IF i + 1 > n THEN <<0, 0>>
  ELSE IF S[i + 1] \in DOMAIN Named THEN <<2, Named[S[i + 1]]>>
  ELSE LET hex == S[i + 1] = 120
           from == IF hex THEN i + 2 ELSE i + 1
           lim == IF i + 3 < n THEN i + 3 ELSE n         \* two hexadecimal or three octal digits
           r == Number(S, from, lim, IF hex THEN 16 ELSE 8, 0)
       IN IF r[1] = from \/ r[2] > 255 THEN <<0, 0>> ELSE <<r[1] - i, r[2]>>
RECURSIVE Decode(_, _, _)
Decode(S, i, n) ==                         \* the bytes a string literal with the content S[i..n] stands for
  IF i > n THEN <<>>
  ELSE IF S[i] # 92 THEN <<S[i]>> \o Decode(S, i + 1, n)
  ELSE LET x == Escape(S, i, n) IN
       IF x[1] > 0 THEN <<x[2]>> \o Decode(S, i + x[1], n)
       ELSE IF i = n THEN <<92>> ELSE <<92, S[i + 1]>> \o Decode(S, i + 2, n)
Cont(S, i, n) == i <= n /\ S[i] \in 128..191
\* the character a character literal with the content S[i..n] stands for; -1: it is none
CharOf(S, i, n) ==
  LET k == n - i + 1  c == S[i] IN
  IF k <= 0 THEN -1
  ELSE IF c = 92 THEN (LET x == Escape(S, i, n) IN IF x[1] = k THEN x[2] ELSE -1)
  ELSE IF c < 128 THEN (IF k = 1 THEN c ELSE -1)
  ELSE IF c \in 192..223 THEN (IF k = 2 /\ Cont(S, i+1, n) THEN (c - 192) * 64 + (S[i+1] - 128) ELSE -1)
  ELSE IF c \in 224..239 THEN (IF k = 3 /\ Cont(S, i+1, n) /\ Cont(S, i+2, n)
                               THEN (c - 224) * 4096 + (S[i+1] - 128) * 64 + (S[i+2] - 128) ELSE -1)
  ELSE IF c \in 240..247 THEN (IF k = 4 /\ Cont(S, i+1, n) /\ Cont(S, i+2, n) /\ Cont(S, i+3, n)
                               THEN (c - 240) * 262144 + (S[i+1] - 128) * 4096 + (S[i+2] - 128) * 64 + (S[i+3] - 128) ELSE -1)
  ELSE -1

\* --- integers: 8 bytes, least significant first; <<>>: larger than 64 bits
RECURSIVE Carry(_, _, _)
Carry(v, base, c) ==                       \* v * base + c
  IF v = <<>> THEN (IF c = 0 THEN <<>> ELSE <<-1>>)
  ELSE LET x == v[1] * base + c IN <<x % 256>> \o Carry(Tail(v), base, x \div 256)
RECURSIVE IntVal(_, _, _, _, _)
IntVal(S, i, n, base, v) ==
  IF i > n THEN v
  ELSE LET w == Carry(v, base, Val(S[i])) IN IF Len(w) > 8 THEN <<>> ELSE IntVal(S, i + 1, n, base, w)
Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>

\* --- natural numbers of any size: base 10000, least significant first
RECURSIVE NMul(_, _, _), NLess(_, _, _), NPow(_, _, _, _)
NMul(v, k, c) ==                           \* v * k + c for k, c <= 16384
  IF v = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % 10000>> \o NMul(<<>>, k, c \div 10000))
  ELSE LET x == v[1] * k + c IN <<x % 10000>> \o NMul(Tail(v), k, x \div 10000)
NPow(v, k, big, n) ==                      \* v * k^n; big = k^4 (k^4 <= 16384)
  IF n >= 4 THEN NPow(NMul(v, big, 0), k, big, n - 4) ELSE IF n > 0 THEN NPow(NMul(v, k, 0), k, big, n - 1) ELSE v
RECURSIVE NTrim(_)
NTrim(v) == IF v # <<>> /\ v[Len(v)] = 0 THEN NTrim(SubSeq(v, 1, Len(v) - 1)) ELSE v
NLess(v, w, i) == IF i = 0 THEN FALSE ELSE IF v[i] # w[i] THEN v[i] < w[i] ELSE NLess(v, w, i - 1)
NLeq(v0, w0) == LET v == NTrim(v0)  w == NTrim(w0) IN
  IF Len(v) # Len(w) THEN Len(v) < Len(w) ELSE ~NLess(w, v, Len(v))
RECURSIVE NDec(_, _, _, _)
NDec(S, i, n, v) == IF i > n THEN v ELSE NDec(S, i + 1, n, IF Digit(S[i]) THEN NMul(v, 10, Val(S[i])) ELSE v)
\* the value m * 2^x (m: 53 bits) is the double nearest to D * 10^k:  (2m-1) 2^(x-1) <= D 10^k <= (2m+1) 2^(x-1)
RECURSIVE NPred(_)
NPred(v) == IF v[1] > 0 THEN <<v[1] - 1>> \o Tail(v) ELSE <<9999>> \o NPred(Tail(v))
Nearest(D, k, m, x) ==
  IF NTrim(D) = <<>> THEN NTrim(m) = <<>>
  ELSE IF k > 280 \/ k < -280 THEN TRUE   \* (near the ends of the range of a double, not judged)
  ELSE LET mid == IF k >= 0 THEN NPow(D, 10, 10000, k) ELSE D
           scale(v) == LET a == IF k < 0 THEN NPow(v, 10, 10000, 0 - k) ELSE v IN IF x - 1 > 0 THEN NPow(a, 2, 16, x - 1) ELSE a
           mid2 == IF x - 1 < 0 THEN NPow(mid, 2, 16, 1 - x) ELSE mid
           m2 == NMul(m, 2, 0)
       IN NTrim(m) # <<>> /\ NLeq(scale(NPred(m2)), mid2) /\ NLeq(mid2, scale(NMul(m2, 1, 1)))
\* the number of a decimal literal S[i..n]: <<digits, exponent>>
Dot(S, i, n) == CHOOSE j \in i..n : S[j] = 46
Ee(S, i, n) == IF \E j \in i..n : S[j] = 101 THEN CHOOSE j \in i..n : S[j] = 101 ELSE n + 1
Decimal(S, i, n) ==
  LET d == Dot(S, i, n)  e == Ee(S, i, n)
      neg == e < n /\ S[e + 1] = 45
      x == Number(S, IF e < n /\ S[e + 1] \in {43, 45} THEN e + 2 ELSE e + 1, n, 10, 0)[2]
  IN <<NDec(S, i, e - 1, <<>>), (IF neg THEN 0 - x ELSE x) - (e - 1 - d)>>

\* --- scanning
At(S, p) == IF p <= Len(S) THEN S[p] ELSE -1
RECURSIVE WhileDigits(_, _, _), WhileWord(_, _), LineEnd(_, _), CommentEnd(_, _, _), Blank(_, _)
WhileDigits(S, p, base) == IF p <= Len(S) /\ Val(S[p]) < base THEN WhileDigits(S, p + 1, base) ELSE p
WhileWord(S, p) == IF p <= Len(S) /\ Word(S[p]) THEN WhileWord(S, p + 1) ELSE p
LineEnd(S, p) == IF p > Len(S) \/ S[p] = 10 THEN p ELSE LineEnd(S, p + 1)
CommentEnd(S, p, depth) ==                 \* comments nest; 0: not closed
  IF depth = 0 THEN p ELSE IF p > Len(S) THEN 0
  ELSE IF S[p] = 47 /\ At(S, p + 1) = 42 THEN CommentEnd(S, p + 2, depth + 1)
  ELSE IF S[p] = 42 /\ At(S, p + 1) = 47 THEN CommentEnd(S, p + 2, depth - 1)
  ELSE CommentEnd(S, p + 1, depth)
\* behind white space and comments: <<where, where an unclosed comment begins or 0>>
Blank(S, p) ==
  IF p > Len(S) THEN <<p, 0>>
  ELSE IF Space(S[p]) THEN Blank(S, p + 1)
  ELSE IF S[p] = 47 /\ At(S, p + 1) = 47 THEN Blank(S, LineEnd(S, p + 2))
  ELSE IF S[p] = 47 /\ At(S, p + 1) = 42 THEN (LET q == CommentEnd(S, p + 2, 1) IN IF q = 0 THEN <<p, p>> ELSE Blank(S, q))
  ELSE <<p, 0>>
\* the end of a string: <<how, where>>: "close" at its quote, "fmt" at ${, "no": ends with its line or the text (where: behind it)
RECURSIVE StrEnd(_, _, _), MultiEnd(_, _), CharEnd(_, _)
StrEnd(S, p, fmt) ==
  IF p > Len(S) THEN <<"no", Len(S) + 1>>
  ELSE IF S[p] = 34 THEN <<"close", p>>
  ELSE IF S[p] = 10 THEN (IF At(S, p + 1) = 92 THEN StrEnd(S, p + 2, fmt) ELSE <<"no", p + 1>>)
  ELSE IF S[p] = 92 THEN StrEnd(S, p + 2, fmt)
  ELSE IF fmt /\ S[p] = 36 /\ At(S, p + 1) = 123 THEN <<"fmt", p>>
  ELSE StrEnd(S, p + 1, fmt)
MultiEnd(S, p) == IF p + 2 > Len(S) THEN 0 ELSE IF S[p] = 34 /\ S[p+1] = 34 /\ S[p+2] = 34 THEN p ELSE MultiEnd(S, p + 1)
CharEnd(S, p) == IF p > Len(S) \/ S[p] \in {39, 10} THEN p ELSE IF S[p] = 92 THEN (IF p = Len(S) THEN p + 1 ELSE CharEnd(S, p + 2)) ELSE CharEnd(S, p + 1)
Min2(a, b) == IF a < b THEN a ELSE b

Start == [p |-> 1, md |-> "none", pend |-> "no", nf |-> FALSE, errs |-> 0]
Tok(t, b, e, v) == [t |-> t, b |-> b - 1, e |-> e - 1, v |-> v]
Err(s, b, e) == << Tok("ERROR", b, e, <<>>), [s EXCEPT !.p = e, !.errs = @ + 1] >>
Good(s, t, b, e, v) == << Tok(t, b, e, v), [s EXCEPT !.p = e] >>

NextString(S, s, b, fmt) ==                \* a string, or a piece of an f-string, whose opening quote (or brace) is S[b]
  LET r == StrEnd(S, b + 1, fmt)
      s1 == IF fmt /\ r[1] # "fmt" THEN [s EXCEPT !.md = "none", !.pend = "R"] ELSE s
      q == Min2(r[2], Len(S) + 1)
  IN CASE r[1] = "no" -> Err(s1, b, q)
       [] r[1] = "close" -> Good(s1, "STRING", b, q + 1, Decode(S, b + 1, q - 1))
       [] r[1] = "fmt" -> << Tok("STRING", b, q + 1, Decode(S, b + 1, q - 1)), [s1 EXCEPT !.p = q + 2, !.pend = "F"] >>
NumEnd(S, p) == p > Len(S) \/ Space(S[p]) \/ Punct(S[p])
RECURSIVE Next(_, _), SkipWord(_, _)
SkipWord(S, s) == IF NumEnd(S, s.p) THEN s ELSE SkipWord(S, Next(S, s)[2])
Based(S, s, b, base) ==
  LET e == WhileDigits(S, b + 2, base)  v == IntVal(S, b + 2, e - 1, base, Zero8) IN
  IF ~NumEnd(S, e) THEN (LET s1 == SkipWord(S, [s EXCEPT !.p = e]) IN Err(s1, b, s1.p))
  ELSE IF e = b + 2 \/ v = <<>> THEN Err(s, b, e)
  ELSE Good(s, "INT", b, e, v)
NextNumber(S, s, b) ==
  LET x == At(S, b + 1) IN
  IF S[b] = 48 /\ x \in {98, 120, 111} THEN Based(S, s, b, CASE x = 98 -> 2 [] x = 120 -> 16 [] x = 111 -> 8)
  ELSE LET e == WhileDigits(S, b, 10)
           frac == At(S, e) = 46 /\ At(S, e + 1) \notin {46, 91} /\ ~s.nf
           f == WhileDigits(S, e + 1, 10)
           g == IF At(S, f) = 101 THEN WhileDigits(S, IF At(S, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1, 10) ELSE f
           v == IntVal(S, b, e - 1, 10, Zero8)
       IN IF frac THEN Good(s, "FLOAT", b, g, Decimal(S, b, g - 1))
          ELSE IF v = <<>> THEN Err(s, b, e) ELSE Good(s, "INT", b, e, v)
NextSymbol(S, s, b) ==
  LET fits == {n \in 1..3 : b + n - 1 <= Len(S) /\ Str(SubSeq(S, b, b + n - 1)) \in Symbols}
      n == CHOOSE k \in fits : \A j \in fits : j <= k
      t == Str(SubSeq(S, b, b + n - 1))
  IN IF fits = {} THEN Err(s, b, b + 1) ELSE Good([s EXCEPT !.nf = @ \/ t = "."], t, b, b + n, <<>>)
Next(S, s0) ==
  IF s0.pend = "R" THEN << Tok("FEND", s0.p, s0.p, <<>>), [s0 EXCEPT !.pend = "no"] >>
  ELSE IF s0.pend = "F" THEN << Tok("${", s0.p, s0.p, <<>>), [s0 EXCEPT !.pend = "no"] >>
  ELSE
  LET s == [s0 EXCEPT !.nf = @ /\ (Digit(At(S, s0.p)) \/ At(S, s0.p) = 46)] IN
  IF s.md = "enter" THEN NextString(S, [s EXCEPT !.md = "in"], s.p, TRUE)
  ELSE
  LET bl == Blank(S, s.p)  b == bl[1]  c == At(S, b) IN
  IF bl[2] # 0 THEN Err(s, bl[2], Len(S) + 1)
  ELSE IF c = -1 THEN Good(s, "EOF", b, b, <<>>)
  ELSE IF c = 125 /\ s.md = "in" THEN NextString(S, s, b, TRUE)
  ELSE IF c = 34 THEN
    IF At(S, b + 1) = 34 /\ At(S, b + 2) = 34
    THEN (LET q == MultiEnd(S, b + 3) IN
          IF q = 0 THEN Err(s, b + 2, Len(S) + 1)
          ELSE << Tok("STRING", b + 2, q + 1, Decode(S, b + 3, q - 1)), [s EXCEPT !.p = q + 3] >>)
    ELSE NextString(S, s, b, FALSE)
  ELSE IF c = 39 THEN
    LET e == CharEnd(S, b + 1)  closed == At(S, e) = 39  v == IF closed THEN CharOf(S, b + 1, e - 1) ELSE -1 IN
    IF v = -1 THEN Err(s, b, IF closed THEN e + 1 ELSE e)
    ELSE << Tok("CHAR", b, e, v), [s EXCEPT !.p = e + 1] >>
  ELSE IF c = 102 /\ At(S, b + 1) = 34 THEN
    (IF s.md # "none" THEN Err(s, b, b + 1) ELSE Good([s EXCEPT !.md = "enter"], "FSTR", b, b + 1, <<>>))
  ELSE IF Alpha(c) \/ c = 95 THEN
    LET e == WhileWord(S, b)  n == Str(SubSeq(S, b, e - 1)) IN Good(s, IF n \in Keywords THEN n ELSE "NAME", b, e, <<>>)
  ELSE IF Digit(c) THEN NextNumber(S, s, b)
  ELSE NextSymbol(S, s, b)

RECURSIVE Tokens(_, _)
Tokens(S, s) == LET r == Next(S, s) IN IF r[1].t = "EOF" THEN << <<r[1], r[2]>> >> ELSE << <<r[1], r[2]>> >> \o Tokens(S, r[2])
\* row and column (counted from 1) of the byte number o (from 0)
Row(S, o) == 1 + Cardinality({i \in 1..Min2(o, Len(S)) : S[i] = 10})
Col(S, o) == LET nl == {i \in 1..Min2(o, Len(S)) : S[i] = 10} IN
  IF nl = {} THEN o + 1 ELSE o + 1 - (CHOOSE i \in nl : \A j \in nl : j <= i)
=============================================================================
