------------------------------ MODULE Digests ------------------------------
(***************************************************************************)
(* Hash algorithms as objects with a life.  What such an object returns is *)
(* a function of the content and of the algorithm alone; the returned      *)
(* digest stays readable until the next request to the same object.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Sha1(_), Sha256(_), Mur(_, _), Dec(_)

VARIABLES alg      \* name -> [kind, flavour, seed, memo, last]

DInit == alg = <<>>

Has(g) == g \in DOMAIN alg
Put(g, v) == alg' = (g :> v) @@ alg
Kinds == {"bytes", "text", "element", "murmur"}

\* Every flavour that is not a SHA one is SHA-1.  The seed of a Murmur object is
\* <<>> when it was drawn at random.
DNew(g, kind, flavour, seed) ==
  /\ ~Has(g) /\ kind \in Kinds
  /\ Put(g, [kind |-> kind, flavour |-> IF kind = "murmur" THEN 128 ELSE IF flavour = 256 THEN 256 ELSE 1,
             seed |-> seed, memo |-> <<>>, last |-> <<>>])
DCopy(g, of) == ~Has(g) /\ Has(of) /\ alg[of].kind \in {"bytes", "text"} /\ Put(g, [alg[of] EXCEPT !.last = <<>>])
DAssign(g, of) ==
  /\ Has(g) /\ Has(of) /\ alg[of].kind = alg[g].kind
  /\ IF g = of THEN UNCHANGED alg ELSE Put(g, [alg[of] EXCEPT !.last = <<>>])
DDel(g) == Has(g) /\ alg' = [x \in DOMAIN alg \ {g} |-> alg[x]]

Size(a) == CASE a.flavour = 128 -> 16 [] a.flavour = 256 -> 32 [] OTHER -> 20

\* A prefix is hashed if its length is given (not 0) and shorter than the content
Prefix(d, len) == IF len > 0 /\ len < Len(d) THEN SubSeq(d, 1, len) ELSE d

Known(a) == a.kind # "murmur" \/ a.seed # <<>>
Digest(a, d) == CASE a.flavour = 128 -> Mur(d, a.seed[1]) [] a.flavour = 256 -> Sha256(d) [] OTHER -> Sha1(d)

\* d: exactly what is to be hashed
Answer(g, d, out) ==
  LET a == alg[g]
  IN /\ IF Known(a) THEN out = Digest(a, d)
        ELSE /\ Len(out) = Size(a)
             /\ d \in DOMAIN a.memo => out = a.memo[d]
     /\ Put(g, [a EXCEPT !.last = out, !.memo = IF Known(a) THEN @ ELSE (d :> out) @@ @])

\* bytes (of a given length, which may be 0: no digest then) and text
DHash(g, d, len, out) ==
  /\ Has(g) /\ alg[g].kind \in {"bytes", "text"}
  /\ IF alg[g].kind = "bytes"
     THEN IF len = 0 THEN out = <<>> /\ Put(g, [alg[g] EXCEPT !.last = <<>>])
          ELSE len <= Len(d) /\ Answer(g, SubSeq(d, 1, len), out)
     ELSE Answer(g, Prefix(d, len), out)
DHashNull(g, null) == Has(g) /\ alg[g].kind = "bytes" /\ null /\ Put(g, [alg[g] EXCEPT !.last = <<>>])

\* field elements, by the decimal digits of their representative
DElement(g, n, len, out) == Has(g) /\ alg[g].kind \in {"element", "murmur"} /\ Answer(g, Prefix(Dec(n), len), out)

DPeek(g, out) == Has(g) /\ out = alg[g].last /\ UNCHANGED alg

ShaName(a) == IF a.flavour = 256 THEN "SHA256" ELSE "SHA1"
Name(a) == CASE a.kind = "murmur" -> "Murmur Hash 3 for integers modulo p"
             [] a.kind = "element" -> ShaName(a) \o " for integers modulo p"
             [] OTHER -> ShaName(a)
DInfo(g, size, name) == Has(g) /\ size = Size(alg[g]) /\ name = Name(alg[g]) /\ UNCHANGED alg

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Hex(d) == [i \in 1..(2 * Len(d)) |-> LET b == d[(i + 1) \div 2] IN HexDigit(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]
DReadable(d, out) == out = Hex(d) /\ UNCHANGED alg
=============================================================================
