------------------------------ MODULE Helpers ------------------------------
(***************************************************************************)
(* The big-number helpers: exact functions, and conversions from sources   *)
(* (arrays of field elements) into vectors, which are copies.              *)
(***************************************************************************)
EXTENDS BigNum

VARIABLES field, src, dst      \* dst, src: name -> sequence of elements
hvars == <<field, src, dst>>
HInit == field = Zero /\ src = <<>> /\ dst = <<>>

HField(p) == field' = p /\ UNCHANGED <<src, dst>>

Log2(z) == IF z = Zero THEN 0 ELSE NumBits(z) - 1
Ceil(n, k) == LET r == DivMod(n, k) IN IF r[2] = Zero THEN r[1] ELSE Add(r[1], One)
PadTo(z, n) == IF n > NumBits(z) THEN Shl(z, n - NumBits(z) - 1) ELSE z

HLog2(z, out) == out = Log2(z) /\ UNCHANGED hvars
HBlocks(n, k, out) == k # Zero /\ out = Ceil(n, k) /\ UNCHANGED hvars
HBytes(z, out) == out = NumBytes(z) /\ UNCHANGED hvars
HPad(z, n, out, back) == out = Shl(z, n) /\ back = z /\ UNCHANGED hvars
HPadTo(z, n, out) == out = PadTo(z, n) /\ UNCHANGED hvars
HTwos(z, out) == out = TrailingZeros(z) /\ UNCHANGED hvars

\* "[]", or the numbers between "[ " and " ]", separated by ", ", and a new line
Shown(v) == (IF v = <<>> THEN <<91, 93>>
             ELSE <<91, 32>> \o FoldLeftDomain(LAMBDA acc, i: acc \o (IF i > 1 THEN <<44, 32>> ELSE <<>>) \o ToDec(v[i]), <<>>, v) \o <<32, 93>>)
            \o <<10>>
HPrint(v, out) == out = Shown(v) /\ UNCHANGED hvars

HSrc(s, v) == src' = (s :> v) @@ src /\ UNCHANGED <<field, dst>>
HPoke(s, i, n) == s \in DOMAIN src /\ i < Len(src[s]) /\ src' = [src EXCEPT ![s][i + 1] = n] /\ UNCHANGED <<field, dst>>
\* the first dim elements of the source replace whatever the destination was
HConv(s, d, dim) == s \in DOMAIN src /\ dim <= Len(src[s]) /\ dst' = (d :> SubSeq(src[s], 1, dim)) @@ dst /\ UNCHANGED <<field, src>>
\* a missing array: an existing destination stays, a new vector is empty
Dst(d) == IF d \in DOMAIN dst THEN dst[d] ELSE <<>>
HConvNull(keep, d) == dst' = (d :> IF keep THEN Dst(d) ELSE <<>>) @@ dst /\ UNCHANGED <<field, src>>
HRead(d, out) == out = Dst(d) /\ UNCHANGED hvars
HReadS(s, out) == out = src[s] /\ UNCHANGED hvars
=============================================================================
