-------------------------------- MODULE PRF --------------------------------
(***************************************************************************)
(* The pseudo-random integers and field elements of the library.           *)
(* Seeds are numbers (BigNum), positions are their 8 little-endian bytes.  *)
(***************************************************************************)
EXTENDS Field, SHA

\* The first n bytes of the SHA-1 chain of an input
RECURSIVE Chain(_, _, _)
Chain(input, n, acc) ==
  LET d == SHA1(input)
      out == acc \o d
  IN IF Len(out) >= n THEN SubSeq(out, 1, n) ELSE Chain(d, n, out)

PrfInput(seed, pos) == ToBytes(seed) \o pos

\* The integer for a seed, a position and a length of at least one bit
PrfInt(seed, pos, bits) ==
  LET n == (bits + 7) \div 8
      g == Chain(PrfInput(seed, pos), n, <<>>)
      cut == 2^(8 - (8 * n - bits))
  IN FromBytes([i \in 1..n |-> IF i = n THEN g[i] % cut ELSE g[i]])

\* The field element: length cut to the one of the modulus (also when none is given: 0)
PrfFieldLen(p, bits) == IF bits = 0 \/ bits > NumBits(p) THEN NumBits(p) ELSE bits
PrfField(p, mod, seed, pos, bits) == Mod(PrfInt(seed, pos, PrfFieldLen(mod, bits)), p)

\* Position given by a number below 2^31
Pos(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>
=============================================================================
