------------------------------- MODULE Murmur -------------------------------
(***************************************************************************)
(* MurmurHash3_x64_128 (Austin Appleby) of a byte sequence.  A 64-bit word *)
(* is a sequence of 8 bytes, least significant first; the seed is such a   *)
(* word as well.                                                           *)
(***************************************************************************)
EXTENDS Words

LOCAL Z8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
LOCAL I8 == <<1, 2, 3, 4, 5, 6, 7, 8>>

QXor(a, b) == [i \in 1..8 |-> a[i] ^^ b[i]]

LOCAL Carry(c) ==                       \* columns to bytes, modulo 2^64
  FoldLeft(LAMBDA acc, x: LET t == x + acc[2] IN <<Append(acc[1], t % 256), t \div 256>>, <<<<>>, 0>>, c)[1]

QAdd(a, b) == Carry([i \in 1..8 |-> a[i] + b[i]])
QMul(a, b) == Carry([i \in 1..8 |-> FoldLeft(LAMBDA s, j: IF j > i THEN s ELSE s + a[j] * b[i + 1 - j], 0, I8)])

QRotl(a, n) ==                          \* n in 0..63
  LET w == n \div 8
      k == n % 8
      \* byte i comes from bytes i-w and i-w-1
      At(i) == a[((i - 1 + 16) % 8) + 1]
  IN [i \in 1..8 |-> ((At(i - w) * 2^k) % 256) + (At(i - w - 1) \div 2^(8 - k))]

QShr33(a) == [i \in 1..8 |-> IF i > 4 THEN 0
                 ELSE (a[i + 4] \div 2) + (IF i + 5 <= 8 THEN (a[i + 5] % 2) * 128 ELSE 0)]

LOCAL Fmix(x) ==
  LET a == TLCEval(QXor(x, QShr33(x)))
      b == QMul(a, <<205, 140, 85, 237, 215, 175, 81, 255>>)
      c == TLCEval(QXor(b, QShr33(b)))
      d == QMul(c, <<83, 236, 133, 26, 254, 185, 206, 196>>)
  IN TLCEval(QXor(d, QShr33(d)))

LOCAL C1 == <<213, 83, 66, 17, 145, 123, 195, 135>>
LOCAL C2 == <<127, 147, 69, 39, 67, 173, 245, 76>>

LOCAL Five(h, c) == QAdd(QMul(h, <<5, 0, 0, 0, 0, 0, 0, 0>>), c)
LOCAL K1(k) == QMul(TLCEval(QRotl(QMul(k, C1), 31)), C2)
LOCAL K2(k) == QMul(TLCEval(QRotl(QMul(k, C2), 33)), C1)

LOCAL MBlock(h, m, i) ==
  LET k1 == SubSeq(m, 16*i - 15, 16*i - 8)
      k2 == SubSeq(m, 16*i - 7, 16*i)
      h1 == Five(QAdd(TLCEval(QRotl(TLCEval(QXor(h[1], K1(k1))), 27)), h[2]), <<41, 231, 220, 82, 0, 0, 0, 0>>)
      h2 == Five(QAdd(TLCEval(QRotl(TLCEval(QXor(h[2], K2(k2))), 31)), h1), <<181, 90, 73, 56, 0, 0, 0, 0>>)
  IN <<h1, h2>>

Murmur3(msg, seed) ==
  LET n == Len(msg)
      nb == n \div 16
      h == FoldLeft(LAMBDA acc, i: MBlock(acc, msg, i), <<seed, seed>>, [i \in 1..nb |-> i])
      tail == SubSeq(msg, 16*nb + 1, n)
      t1 == [i \in 1..8 |-> IF i <= Len(tail) THEN tail[i] ELSE 0]
      t2 == [i \in 1..8 |-> IF i + 8 <= Len(tail) THEN tail[i + 8] ELSE 0]
      a1 == IF Len(tail) > 0 THEN TLCEval(QXor(h[1], K1(TLCEval(t1)))) ELSE h[1]
      a2 == IF Len(tail) > 8 THEN TLCEval(QXor(h[2], K2(TLCEval(t2)))) ELSE h[2]
      len == <<n % 256, (n \div 256) % 256, n \div 65536, 0, 0, 0, 0, 0>>
      b1 == TLCEval(QXor(a1, len))
      b2 == TLCEval(QXor(a2, len))
      c1 == QAdd(b1, b2)
      c2 == QAdd(b2, c1)
      d1 == Fmix(c1)
      d2 == Fmix(c2)
      e1 == QAdd(d1, d2)
      e2 == QAdd(d2, e1)
  IN e1 \o e2
=============================================================================
