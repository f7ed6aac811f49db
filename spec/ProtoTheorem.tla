---------------------------- MODULE ProtoTheorem ----------------------------
(***************************************************************************)
(* Why the difference of the halves tells the common elements and nothing  *)
(* else: for all buckets of load Load over a small field, all random       *)
(* monic polynomials and all pads and masks drawn from a few:              *)
(*   - the difference of the halves is wA * PA + wB * PB at every point    *)
(*     (no pad, no mask in it), which has degree 2 * Load and leading      *)
(*     coefficient 2;                                                      *)
(*   - every common element is a root;                                     *)
(*   - an element of one bucket only is a root for exactly one in p of     *)
(*     the other's random polynomials, as is an element of none.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS P, Load
VARIABLES a, b, w
F == 0..(P - 1)
Ev(f, x) == FoldRight(LAMBDA c, acc: (acc * x + c) % P, f, 0)
Pol(roots, x) == FoldLeft(LAMBDA acc, r: (acc * (P + x - r)) % P, 1, roots)
Buckets == {s \in [1..Load -> F] : \A i \in 1..(Load - 1) : s[i] <= s[i + 1]}
Tails == [1..Load -> F]
Monic(t) == t \o <<1>>
Init == a \in Buckets /\ b \in Buckets /\ w = <<>>
Next == w = <<>> /\ \E x, y \in Tails : w' = <<Monic(x), Monic(y)>> /\ UNCHANGED <<a, b>>
At(x) == (Ev(w[1], x) * Pol(a, x) + Ev(w[2], x) * Pol(b, x)) % P
In(s) == {s[i] : i \in 1..Load}
Pads == {<<0, 0, 0>>, <<1, 2, 3>>, <<P - 1, 1, P - 2>>}    \* of A, of B, the mask
Unmasked == w # <<>> => \A x \in F : \A d \in Pads :
  LET t == (d[3] + (Pol(a, x) + d[1]) * Ev(w[1], x) + (Pol(b, x) + d[2]) * Ev(w[2], x)) % P
      q == (d[3] + d[1] * Ev(w[1], x) + d[2] * Ev(w[2], x)) % P
  IN (P + t - q) % P = At(x)
CommonAreRoots == w # <<>> => \A z \in In(a) \cap In(b) : At(z) = 0
\* a finite difference of order 2 * Load is the factorial times the leading coefficient
RECURSIVE Diff(_, _)
Diff(n, x) == IF n = 0 THEN At(x % P) ELSE (P + Diff(n - 1, x + 1) - Diff(n - 1, x)) % P
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Leading == (w # <<>> /\ 2 * Load < P) => Diff(2 * Load, 0) = (2 * Fact(2 * Load)) % P
\* counted over all random polynomials
Rare == w = <<>> => \A z \in F \ (In(a) \cap In(b)) :
   P * Cardinality({x \in Tails \X Tails : (Ev(Monic(x[1]), z) * Pol(a, z) + Ev(Monic(x[2]), z) * Pol(b, z)) % P = 0})
     = Cardinality(Tails \X Tails)
=============================================================================
