---------------------------- MODULE ByteNumbers ----------------------------
(***************************************************************************)
(* Byte strings kept as numbers.  The state of such an object is the       *)
(* number of bytes it was declared with and the number it stands for.      *)
(***************************************************************************)
EXTENDS BigNum

VARIABLE num         \* name -> [len, z]

BInit == num = <<>>

Has(g) == g \in DOMAIN num
Val(g) == num[g].z
Cut(d, n) == IF Len(d) > n THEN SubSeq(d, 1, n) ELSE d

\* No declared byte counts as one; such a number starts at zero
BNew(g, bytes, data) ==
  /\ ~Has(g)
  /\ num' = (g :> [len |-> IF bytes = 0 THEN 1 ELSE bytes,
                   z |-> FromBytes(IF bytes = 0 THEN <<>> ELSE Cut(data, bytes))]) @@ num
BDel(g) == Has(g) /\ num' = [x \in DOMAIN num \ {g} |-> num[x]]

BSet(g, data)  == Has(g) /\ num' = [num EXCEPT ![g].z = FromBytes(Cut(data, num[g].len))]
BSetNum(g, n)  == Has(g) /\ num' = [num EXCEPT ![g].z = n]
BInc(g)        == Has(g) /\ num' = [num EXCEPT ![g].z = Add(@, One)]
BAdd(g, n)     == Has(g) /\ num' = [num EXCEPT ![g].z = Add(@, n)]

\* What can be observed
Size(z) == IF z = Zero THEN 1 ELSE NumBytes(z)
Low(z)  == FromBytes(ToBytesN(z, 8))
BigEndian(z) == Reverse(ToBytesN(z, Size(z)))

BRem(g, d, out)  == Has(g) /\ d # Zero /\ out = Mod(Val(g), d) /\ UNCHANGED num
BLow(g, out)     == Has(g) /\ out = Low(Val(g)) /\ UNCHANGED num
BSize(g, out)    == Has(g) /\ out = Size(Val(g)) /\ UNCHANGED num
BShow(g, out)    == Has(g) /\ out = ToDec(Val(g)) /\ UNCHANGED num

\* cap: what the caller's buffer takes (0: no buffer, or of unknown size);
\* own: newly allocated memory was used; len: reported length (-1: not asked for)
BBytes(g, cap, own, len, out) ==
  /\ Has(g)
  /\ own = (cap < Size(Val(g)))
  /\ len \in {-1, Size(Val(g))}
  /\ out = BigEndian(Val(g))
  /\ UNCHANGED num
=============================================================================
