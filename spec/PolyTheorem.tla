---------------------------- MODULE PolyTheorem -----------------------------
(***************************************************************************)
(* Checked for every polynomial of small degree over small fields: the     *)
(* values determine the polynomial, trying all elements gives exactly the  *)
(* roots among its factors, and factors that pass the check are enough.    *)
(***************************************************************************)
EXTENDS PolyRoots, TLC
CONSTANTS Primes, Deg
VARIABLE st
F(p) == [i \in 1..p |-> FromInt(i - 1)]
Elems(p) == {FromInt(i) : i \in 0..(p - 1)}
\* all certified products of degree at most Deg: one step for each
Multisets(p) == {s \in UNION {[1..k -> 0..(p - 1)] : k \in 0..Deg} : \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]}
Quads(p) == {<<b, c>> \in (0..(p - 1)) \X (0..(p - 1)) : ~IsResidue(FromInt(p), Disc(FromInt(p), [b |-> FromInt(b), c |-> FromInt(c)]))}
Init == \E p \in Primes : \E lead \in 1..(p - 1) : st = [p |-> p, rs |-> <<>>, q |-> <<>>, lead |-> lead]
Next == /\ st.rs = <<>> /\ st.q = <<>>
        /\ \E rs \in Multisets(st.p), q \in {<<>>} \cup Quads(st.p) : st' = [st EXCEPT !.rs = rs, !.q = q]
Fac == LET p == FromInt(st.p)
           ds == SelectSeq(F(st.p), LAMBDA z: \E i \in 1..Len(st.rs) : FromInt(st.rs[i]) = z)
       IN [lead |-> FromInt(st.lead),
           roots |-> [i \in 1..Len(ds) |-> [r |-> ds[i], m |-> Len(SelectSeq(st.rs, LAMBDA k: FromInt(k) = ds[i]))]],
           quads |-> IF st.q = <<>> THEN <<>> ELSE <<[b |-> FromInt(st.q[1]), c |-> FromInt(st.q[2])]>>]
Small == Degree(Fac) < st.p
Right ==
  Small =>
  LET p == FromInt(st.p)
      n == Degree(Fac) + 1
      xs == SubSeq(F(st.p), 1, n)
      f == [y |-> [i \in 1..n |-> FactorValue(p, Fac, xs[i])]] @@ Fac
      g == [f EXCEPT !.lead = Zero, !.roots = <<>>, !.quads = <<>>]
  IN /\ Certified(p, xs, f)
     /\ RootsOf(p, xs, g) = RootsOf(p, xs, f)
     /\ LET c == Interpolate(p, xs, f.y) IN Len(c) = n /\ c[n] = f.lead /\ \A i \in 1..n : PEval(p, c, xs[i]) = f.y[i]
=============================================================================
