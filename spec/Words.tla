------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Machine words for TLC, whose integers have 32 bits with a sign: a       *)
(* 32-bit word is the pair <<high half, low half>> of two 16-bit numbers.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

H == 65536

W32(hi, lo) == <<hi, lo>>

WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WOr(a, b)  == <<a[1] | b[1], a[2] | b[2]>>
WNot(a)    == <<65535 - a[1], 65535 - a[2]>>

\* Sum of words given the sums of their halves (at most 32767 words)
WNorm(hi, lo) == <<(hi + (lo \div H)) % H, lo % H>>
WAdd(a, b) == WNorm(a[1] + b[1], a[2] + b[2])

Pow2(n) == 2 ^ n

\* Rotation to the left by n in 0..31
WRotl(a, n) ==
  LET hi == IF n < 16 THEN a[1] ELSE a[2]
      lo == IF n < 16 THEN a[2] ELSE a[1]
      k  == n % 16
  IN IF k = 0 THEN <<hi, lo>>
     ELSE LET m == 2^k
              d == 2^(16 - k)
          IN << (hi % d) * m + (lo \div d), (lo % d) * m + (hi \div d) >>

WRotr(a, n) == WRotl(a, (32 - n) % 32)

\* Logical shift to the right by n in 1..31
WShr(a, n) ==
  IF n >= 16 THEN <<0, a[1] \div 2^(n - 16)>>
  ELSE LET d == 2^n IN << a[1] \div d, (a[1] % d) * 2^(16 - n) + (a[2] \div d) >>

\* Big-endian bytes
WFromBE(b, i) == << b[i] * 256 + b[i + 1], b[i + 2] * 256 + b[i + 3] >>
WToBE(a) == << a[1] \div 256, a[1] % 256, a[2] \div 256, a[2] % 256 >>
=============================================================================
