----------------------------- MODULE PolyRoots ------------------------------
(***************************************************************************)
(* The roots of a polynomial over a prime field p, known by its values y   *)
(* at distinct points x.  Either the polynomial comes with its factors     *)
(* (leading coefficient, roots with multiplicities, quadratic factors      *)
(* without roots), which are checked against the values; or the field is   *)
(* small and all its elements are tried.                                   *)
(***************************************************************************)
EXTENDS Field

Half(p) == Shr(p, 1)
IsResidue(p, a) == a = Zero \/ FPow(p, a, Half(p)) = One
Disc(p, q) == FSub(p, FMul(p, q.b, q.b), Mod(Mul(<<4>>, q.c), p))

FactorValue(p, f, x) ==
  LET rs == FoldLeft(LAMBDA acc, r: FMul(p, acc, FPow(p, FSub(p, x, r.r), <<r.m>>)), f.lead, f.roots)
  IN FoldLeft(LAMBDA acc, q: FMul(p, acc, FAdd(p, FMul(p, x, FAdd(p, x, q.b)), q.c)), rs, f.quads)
Degree(f) == FoldLeft(LAMBDA a, r: a + r.m, 0, f.roots) + 2 * Len(f.quads)

\* the factors are those of the values
Certified(p, xs, f) ==
  /\ f.lead # Zero
  /\ Degree(f) < Len(xs)
  /\ \A i \in 1..Len(xs) : FactorValue(p, f, xs[i]) = f.y[i]
  /\ \A i \in 1..Len(f.quads) : ~IsResidue(p, Disc(p, f.quads[i]))
  /\ \A i, k \in 1..Len(f.roots) : i # k => f.roots[i].r # f.roots[k].r

Accepted(pad, r) == r = Zero \/ TrailingZeros(r) >= pad
RootsOf(p, xs, f) ==
  IF f.lead # Zero
  THEN IF Assert(Certified(p, xs, f), "the factors of a polynomial are not its factors") THEN [i \in 1..Len(f.roots) |-> f.roots[i].r] ELSE <<>>
  ELSE LET c == Interpolate(p, xs, f.y)
       IN SelectSeq([i \in 1..ToInt(p) |-> FromInt(i - 1)], LAMBDA z: PEval(p, c, z) = Zero)
ValidRoots(p, xs, pad, f) ==
  LET v == SelectSeq(RootsOf(p, xs, f), LAMBDA r: Accepted(pad, r))
  IN [i \in 1..Len(v) |-> Shr(v[i], pad)]
=============================================================================
