------------------------------- MODULE Words -------------------------------
(* Fixed-width two's-complement machine words as little-endian byte         *)
(* sequences (TLC integers are 32 bits wide, IR integers are up to 64).     *)
(* The width of a word is 8*Len(w), except the one-bit words <<0>>, <<1>>.  *)
EXTENDS Naturals, Integers, Sequences, Bitwise, TLC

Byte == 0..255

Zero(n) == TLCEval([i \in 1..n |-> 0])
Ones(n) == TLCEval([i \in 1..n |-> 255])

RECURSIVE AddC(_, _, _, _, _)
AddC(a, b, i, c, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET s == a[i] + b[i] + c IN AddC(a, b, i + 1, s \div 256, Append(acc, s % 256))

WAdd(a, b) == AddC(a, b, 1, 0, <<>>)
WNot(a)    == TLCEval([i \in 1..Len(a) |-> 255 - a[i]])
WNeg(a)    == AddC(WNot(a), Zero(Len(a)), 1, 1, <<>>)
WSub(a, b) == AddC(a, WNot(b), 1, 1, <<>>)
WAnd(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] & b[i]])
WOr(a, b)  == TLCEval([i \in 1..Len(a) |-> a[i] | b[i]])
WXor(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])

\* schoolbook multiplication, low Len(a) bytes
RECURSIVE MulCol(_, _, _, _, _)
MulCol(a, b, k, i, s) ==
  IF i > k THEN s ELSE MulCol(a, b, k, i + 1, s + a[i] * b[k + 1 - i])
RECURSIVE MulAcc(_, _, _, _, _)
MulAcc(a, b, k, c, acc) ==
  IF k > Len(a) THEN acc
  ELSE LET s == MulCol(a, b, k, 1, c) IN MulAcc(a, b, k + 1, s \div 256, Append(acc, s % 256))
WMul(a, b) == MulAcc(a, b, 1, 0, <<>>)

RECURSIVE ULtFrom(_, _, _)
ULtFrom(a, b, i) ==
  IF i = 0 THEN FALSE
  ELSE IF a[i] < b[i] THEN TRUE
  ELSE IF a[i] > b[i] THEN FALSE
  ELSE ULtFrom(a, b, i - 1)
ULt(a, b)  == ULtFrom(a, b, Len(a))
ULe(a, b)  == ~ULt(b, a)
IsNeg(a)   == a[Len(a)] >= 128
\* signed order = unsigned order with the top bit flipped
Flip(a)    == TLCEval([a EXCEPT ![Len(a)] = (@ + 128) % 256])
SLt(a, b)  == ULt(Flip(a), Flip(b))
SLe(a, b)  == ~SLt(b, a)
IsZero(a)  == \A i \in 1..Len(a) : a[i] = 0

\* shifts by a small natural number of bits
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
ByteAt(a, i, fill) == IF i < 1 THEN 0 ELSE IF i > Len(a) THEN fill ELSE a[i]
WShl(a, n) ==
  LET q == n \div 8  r == n % 8 IN
  TLCEval([i \in 1..Len(a) |->
     ((ByteAt(a, i - q, 0) * Pow2(r)) % 256) + (ByteAt(a, i - q - 1, 0) \div Pow2(8 - r))])
ShrFill(a, n, fill) ==
  LET q == n \div 8  r == n % 8 IN
  TLCEval([i \in 1..Len(a) |->
     (ByteAt(a, i + q, fill) \div Pow2(r)) + ((ByteAt(a, i + q + 1, fill) * Pow2(8 - r)) % 256)])
WShrU(a, n) == ShrFill(a, n, 0)
WShrS(a, n) == ShrFill(a, n, IF IsNeg(a) THEN 255 ELSE 0)

\* restoring long division, one bit per step
BitOf(a, i) == (a[(i \div 8) + 1] \div Pow2(i % 8)) % 2
SetBit(a, i) == TLCEval([a EXCEPT ![(i \div 8) + 1] = @ + Pow2(i % 8)])
RECURSIVE DivStep(_, _, _, _, _)
DivStep(a, b, i, q, r) ==
  IF i < 0 THEN <<q, r>>
  ELSE LET top == r[Len(r)] >= 128
           r1  == TLCEval(LET s == WShl(r, 1) IN IF BitOf(a, i) = 1 THEN [s EXCEPT ![1] = @ + 1] ELSE s)
       IN IF top \/ ULe(b, r1)
          THEN DivStep(a, b, i - 1, SetBit(q, i), TLCEval(WSub(r1, b)))
          ELSE DivStep(a, b, i - 1, q, r1)
UDivRem(a, b) == DivStep(a, b, 8 * Len(a) - 1, Zero(Len(a)), Zero(Len(a)))
WDivU(a, b) == UDivRem(a, b)[1]
WRemU(a, b) == UDivRem(a, b)[2]
WAbs(a) == IF IsNeg(a) THEN WNeg(a) ELSE a
WDivS(a, b) == LET q == WDivU(WAbs(a), WAbs(b)) IN IF IsNeg(a) # IsNeg(b) THEN WNeg(q) ELSE q
WRemS(a, b) == LET r == WRemU(WAbs(a), WAbs(b)) IN IF IsNeg(a) THEN WNeg(r) ELSE r
MinInt(n) == TLCEval([i \in 1..n |-> IF i = n THEN 128 ELSE 0])
DivSOverflows(a, b) == a = MinInt(Len(a)) /\ b = Ones(Len(a))

\* width changes
WTrunc(a, n) == SubSeq(a, 1, n)
WZext(a, n)  == TLCEval([i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE 0])
WSext(a, n)  == TLCEval([i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE IF IsNeg(a) THEN 255 ELSE 0])

\* naturals and small signed integers
RECURSIVE NatToW(_, _)
NatToW(n, len) == IF len = 0 THEN <<>> ELSE <<n % 256>> \o NatToW(n \div 256, len - 1)
IntToW(n, len) == IF n >= 0 THEN NatToW(n, len) ELSE WNeg(NatToW(-n, len))
\* value of a word known to be small (< 2^23 in magnitude)
RECURSIVE WToNat(_)
WToNat(a) == IF a = <<>> THEN 0 ELSE a[1] + 256 * WToNat(Tail(a))
SmallPos(a) == /\ \A i \in 1..Len(a) : i > 3 => a[i] = 0
               /\ (Len(a) >= 3 => a[3] < 128)
WToInt(a) == IF IsNeg(a) /\ Len(a) > 1 THEN -WToNat(SubSeq(WNeg(a), 1, 3)) ELSE WToNat(SubSeq(a, 1, IF Len(a) < 3 THEN Len(a) ELSE 3))
IsSmall(a) == SmallPos(IF IsNeg(a) THEN WNeg(a) ELSE a)
=============================================================================
