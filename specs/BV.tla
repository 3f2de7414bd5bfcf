--------------------------------- MODULE BV ---------------------------------
(* 64-bit two's complement integers as eight little-endian bytes.  TLC's own
   integers have 32 bits only.  An integer of a narrower type is kept sign- or
   zero-extended to 64 bits (Trunc).                                         *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

\* built eagerly, as a tuple (TLC keeps [i \in S |-> e] unevaluated)
T8(F(_)) == <<F(1), F(2), F(3), F(4), F(5), F(6), F(7), F(8)>>
Zero == <<0, 0, 0, 0, 0, 0, 0, 0>>
One  == <<1, 0, 0, 0, 0, 0, 0, 0>>

IsSigned(t) == t \in {"i8", "i16", "i32", "i64"}
Bytes(t) == CASE t \in {"i8", "u8", "bool"} -> 1
              [] t \in {"i16", "u16"} -> 2
              [] t \in {"i32", "u32"} -> 4
              [] OTHER -> 8

Neg7(a) == a[8] >= 128          \* sign bit of the 64-bit value

AddC(a, b, c0) ==
  LET s1 == a[1] + b[1] + c0   s2 == a[2] + b[2] + (s1 \div 256)
      s3 == a[3] + b[3] + (s2 \div 256)  s4 == a[4] + b[4] + (s3 \div 256)
      s5 == a[5] + b[5] + (s4 \div 256)  s6 == a[6] + b[6] + (s5 \div 256)
      s7 == a[7] + b[7] + (s6 \div 256)  s8 == a[8] + b[8] + (s7 \div 256)
  IN <<s1 % 256, s2 % 256, s3 % 256, s4 % 256, s5 % 256, s6 % 256, s7 % 256, s8 % 256>>
BNot(a) == T8(LAMBDA i : 255 - a[i])
Add(a, b) == AddC(a, b, 0)
Sub(a, b) == AddC(a, BNot(b), 1)
Neg(a) == AddC(Zero, BNot(a), 1)

RECURSIVE Carry(_, _, _)
Carry(cols, i, c) == IF i > 8 THEN <<>>
                     ELSE LET s == cols[i] + c IN <<s % 256>> \o Carry(cols, i + 1, s \div 256)
RECURSIVE Col(_, _, _, _)
Col(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + Col(a, b, k, i + 1)
Mul(a, b) == Carry(T8(LAMBDA k : Col(a, b, k, 1)), 1, 0)

BAnd(a, b) == T8(LAMBDA i : a[i] & b[i])
BOr(a, b)  == T8(LAMBDA i : a[i] | b[i])
BXor(a, b) == T8(LAMBDA i : a[i] ^^ b[i])

RECURSIVE LtUFrom(_, _, _)
LtUFrom(a, b, i) == IF i = 0 THEN FALSE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtUFrom(a, b, i - 1)
LtU(a, b) == LtUFrom(a, b, 8)
LtS(a, b) == IF Neg7(a) # Neg7(b) THEN Neg7(a) ELSE LtU(a, b)

P2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
\* shift left by n in 0..63
Shl(a, n) ==
  LET q == n \div 8  m == P2[(n % 8) + 1]
      At(i) == IF i < 1 THEN 0 ELSE a[i]
  IN T8(LAMBDA i : ((At(i - q) * m) % 256) + ((At(i - q - 1) * m) \div 256))
\* logical (fill = 0) or arithmetic (fill = 255) shift right by n in 0..63
ShrF(a, n, fill) ==
  LET q == n \div 8  m == P2[(n % 8) + 1]
      At(i) == IF i > 8 THEN fill ELSE a[i]
  IN T8(LAMBDA i : ((At(i + q) \div m) + (At(i + q + 1) * (256 \div m))) % 256)
ShrU(a, n) == ShrF(a, n, 0)
ShrS(a, n) == ShrF(a, n, IF Neg7(a) THEN 255 ELSE 0)

\* unsigned division: <<quotient, remainder>>
DivStep(a, b, acc, i) ==
  LET bit == (a[(i \div 8) + 1] \div P2[(i % 8) + 1]) % 2
      r == acc[2]
      r1 == [Shl(r, 1) EXCEPT ![1] = @ + bit]
  IN IF r[8] >= 128 \/ ~LtU(r1, b)
     THEN <<[acc[1] EXCEPT ![(i \div 8) + 1] = @ + P2[(i % 8) + 1]], Sub(r1, b)>>
     ELSE <<acc[1], r1>>
\* start at the highest byte that is not zero
RECURSIVE TopByte(_, _)
TopByte(a, i) == IF i = 0 THEN 0 ELSE IF a[i] # 0 THEN i ELSE TopByte(a, i - 1)
DivModU(a, b) == LET n == 8 * TopByte(a, 8)
                 IN FoldLeft(LAMBDA acc, k : DivStep(a, b, acc, n - k), <<Zero, Zero>>, [k \in 1..n |-> k])
AbsV(a) == IF Neg7(a) THEN Neg(a) ELSE a
\* truncating division; the remainder has the sign of the dividend
DivS(a, b) == LET q == DivModU(AbsV(a), AbsV(b))[1] IN IF Neg7(a) # Neg7(b) THEN Neg(q) ELSE q
ModS(a, b) == LET r == DivModU(AbsV(a), AbsV(b))[2] IN IF Neg7(a) THEN Neg(r) ELSE r
DivU(a, b) == DivModU(a, b)[1]
ModU(a, b) == DivModU(a, b)[2]

\* conversion to type t
Trunc(a, t) ==
  LET n == Bytes(t)
      f == IF IsSigned(t) /\ a[n] >= 128 THEN 255 ELSE 0
  IN T8(LAMBDA i : IF i <= n THEN a[i] ELSE f)
Fits(a, t) == Trunc(a, t) = a
IsZero(a) == a = Zero
\* small non-negative value as a TLC integer (for shift counts)
Small(a) == a[1]
B(p) == IF p THEN One ELSE Zero

\* exact signed 64-bit results: does the operation stay within i64?
AddFits(a, b) == ~(Neg7(a) = Neg7(b) /\ Neg7(Add(a, b)) # Neg7(a))
SubFits(a, b) == ~(Neg7(a) # Neg7(b) /\ Neg7(Sub(a, b)) # Neg7(a))
MulFits(a, b) == IF IsZero(a) \/ IsZero(b) THEN TRUE
                 ELSE LET p == TLCEval(Mul(a, b)) IN
                      /\ p # Zero
                      /\ DivModU(AbsV(p), AbsV(a)) = <<AbsV(b), Zero>>
                      /\ Neg7(p) = (Neg7(a) # Neg7(b))
=============================================================================
