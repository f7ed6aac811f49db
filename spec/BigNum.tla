------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Natural numbers of any size.  A number is the sequence of its digits in *)
(* base 2^15, least significant first, without leading zeros; zero is the  *)
(* empty sequence.  The base keeps every intermediate product within the   *)
(* 32-bit integers of TLC.                                                 *)
(***************************************************************************)
EXTENDS Words

LB == 15
B  == 32768

Zero == <<>>
One  == <<1>>


Norm(a) == IF Len(a) > 0 /\ a[Len(a)] = 0
           THEN LET k == SelectLastInSeq(a, LAMBDA d: d # 0) IN SubSeq(a, 1, k)
           ELSE a

IsNum(a) == /\ \A i \in 1..Len(a) : a[i] \in 0..(B - 1)
            /\ Len(a) > 0 => a[Len(a)] # 0

D(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

FromInt(n) == Norm(<<n % B, (n \div B) % B, (n \div B) \div B>>)

\* Only for numbers below 2^31
ToInt(a) == FoldRight(LAMBDA d, acc: acc * B + d, a, 0)

FitsInt(a) == Len(a) < 3 \/ (Len(a) = 3 /\ a[3] = 1)

----------------------------------------------------------------------------
\* Comparison: -1, 0 or 1
Cmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE FoldLeftDomain(LAMBDA acc, i: IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE acc, 0, a)

Less(a, b) == Cmp(a, b) < 0
Leq(a, b)  == Cmp(a, b) <= 0

Max2(x, y) == IF x > y THEN x ELSE y
Range1(n) == [i \in 1..n |-> i]

Add(a, b) ==
  LET n == Max2(Len(a), Len(b))
      r == FoldLeft(LAMBDA acc, i:
              LET t == D(a, i) + D(b, i) + acc[2]
              IN IF t >= B THEN <<Append(acc[1], t - B), 1>> ELSE <<Append(acc[1], t), 0>>,
              <<<<>>, 0>>, Range1(n))
  IN IF r[2] = 0 THEN r[1] ELSE Append(r[1], 1)

\* a - b, for b <= a
Sub(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i:
              LET t == a[i] - D(b, i) - acc[2]
              IN IF t < 0 THEN <<Append(acc[1], t + B), 1>> ELSE <<Append(acc[1], t), 0>>,
              <<<<>>, 0>>, Range1(Len(a)))
  IN Norm(r[1])

\* a * d + c for a digit d, a carry c < B
MulDigit(a, d, c) ==
  LET r == FoldLeft(LAMBDA acc, x:
              LET t == x * d + acc[2] IN <<Append(acc[1], t % B), t \div B>>,
              <<<<>>, c>>, a)
  IN Norm(Append(r[1], r[2]))

\* Shift by k digits
ShlDigits(a, k) == IF a = Zero THEN Zero ELSE [i \in 1..k |-> 0] \o a

Mul(a, b) ==
  IF Len(b) > Len(a)
  THEN FoldRight(LAMBDA d, acc: Add(MulDigit(b, d, 0), IF acc = Zero THEN Zero ELSE <<0>> \o acc), a, Zero)
  ELSE FoldRight(LAMBDA d, acc: Add(MulDigit(a, d, 0), IF acc = Zero THEN Zero ELSE <<0>> \o acc), b, Zero)

\* Quotient and remainder by a divisor below B
DivDigit(a, d) ==
  LET r == FoldRight(LAMBDA x, acc:
              LET t == acc[2] * B + x IN <<<<t \div d>> \o acc[1], t % d>>,
              a, <<<<>>, 0>>)
  IN <<Norm(r[1]), r[2]>>

\* Quotient and remainder (Knuth's algorithm D, one quotient digit a step)
DivMod(a, m) ==
  IF Cmp(a, m) < 0 THEN <<Zero, a>>
  ELSE IF Len(m) = 1 THEN LET r == DivDigit(a, m[1]) IN <<r[1], IF r[2] = 0 THEN Zero ELSE <<r[2]>>>>
  ELSE
  LET f == B \div (m[Len(m)] + 1)              \* normalising factor
      v == MulDigit(m, f, 0)
      u == MulDigit(a, f, 0)
      n == Len(v)
      Step(acc, x) ==                          \* acc = <<quotient, remainder>>, next digit x
        LET w == IF acc[2] = Zero /\ x = 0 THEN Zero ELSE <<x>> \o acc[2]
            top == D(w, n + 1) * B + D(w, n)
            est == IF top \div v[n] >= B THEN B - 1 ELSE top \div v[n]
            Fix[q \in 0..(B - 1)] == LET s == MulDigit(v, q, 0)
                                     IN IF Cmp(s, w) <= 0 THEN <<q, Sub(w, s)>> ELSE Fix[q - 1]
            qr == IF Cmp(w, v) < 0 THEN <<0, w>> ELSE Fix[est]
        IN <<<<qr[1]>> \o acc[1], qr[2]>>
      r == FoldRight(LAMBDA x, acc: Step(acc, x), u, <<<<>>, Zero>>)
  IN <<Norm(r[1]), DivDigit(r[2], f)[1]>>

Mod(a, m) == DivMod(a, m)[2]

----------------------------------------------------------------------------
\* Bits
DigitBits(d) == CHOOSE k \in 0..15 : d < 2^k /\ (k = 0 \/ d >= 2^(k - 1))
NumBits(a) == IF a = Zero THEN 0 ELSE LB * (Len(a) - 1) + DigitBits(a[Len(a)])
NumBytes(a) == (NumBits(a) + 7) \div 8

Shl(a, k) == ShlDigits(MulDigit(a, 2^(k % LB), 0), k \div LB)
Shr(a, k) ==
  IF NumBits(a) <= k THEN Zero
  ELSE DivDigit(SubSeq(a, (k \div LB) + 1, Len(a)), 2^(k % LB))[1]

Bit(a, k) == (D(a, (k \div LB) + 1) \div 2^(k % LB)) % 2

\* Number of trailing zero bits, 0 for zero
TrailingZeros(a) ==
  IF a = Zero THEN 0
  ELSE LET i == SelectInSeq(a, LAMBDA d: d # 0)
       IN LB * (i - 1) + (CHOOSE k \in 0..14 : a[i] % 2^k = 0 /\ (a[i] \div 2^k) % 2 = 1)

\* Keep the low k bits
LowBits(a, k) ==
  IF NumBits(a) <= k THEN a
  ELSE LET q == k \div LB
       IN Norm(Append(SubSeq(a, 1, q), D(a, q + 1) % 2^(k % LB)))

----------------------------------------------------------------------------
\* Little-endian bytes
Byte(s, i) == IF i <= Len(s) THEN s[i] ELSE 0

FromBytes(s) ==
  LET n == (8 * Len(s) + LB - 1) \div LB
  IN Norm([i \in 1..n |->
       LET bit == LB * (i - 1)
           k == (bit \div 8) + 1
       IN ((Byte(s, k) + 256 * Byte(s, k + 1) + 65536 * Byte(s, k + 2)) \div 2^(bit % 8)) % B])

\* The n low bytes
ToBytesN(a, n) ==
  [i \in 1..n |->
     LET bit == 8 * (i - 1)
         k == (bit \div LB) + 1
     IN ((D(a, k) + B * (D(a, k + 1) % 256)) \div 2^(bit % LB)) % 256]

ToBytes(a) == TLCEval(ToBytesN(a, NumBytes(a)))

----------------------------------------------------------------------------
\* Decimal digits as ASCII codes, most significant first
RECURSIVE DecChunks(_)
DecChunks(a) == IF a = Zero THEN <<>>
                ELSE LET r == DivDigit(a, 10000) IN Append(DecChunks(r[1]), r[2])

Dec4(n) == <<48 + n \div 1000, 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>

ToDec(a) ==
  IF a = Zero THEN <<48>>
  ELSE LET s == FoldLeft(LAMBDA acc, c: acc \o Dec4(c), <<>>, DecChunks(a))
       IN SubSeq(s, SelectInSeq(s, LAMBDA c: c # 48), Len(s))

\* The other way (digits only)
FromDec(s) == FoldLeft(LAMBDA acc, c: MulDigit(acc, 10, c - 48), Zero, s)
=============================================================================
