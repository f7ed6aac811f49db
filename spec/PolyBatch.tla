----------------------------- MODULE PolyBatch ------------------------------
(***************************************************************************)
(* A batch of polynomials: interpolated from their values, made monic,     *)
(* factorised, and asked for their roots with enough trailing zeros; all   *)
(* in one step, or step by step.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Valid(_, _)      \* the accepted roots of a polynomial, for a pad size: a set

VARIABLES batch            \* name -> [pad, polys, factored]
bvars == <<batch>>
BInit == batch = <<>>
Has(g) == g \in DOMAIN batch

BNew(g, pad) == ~Has(g) /\ batch' = (g :> [pad |-> pad, polys |-> <<>>, factored |-> FALSE]) @@ batch
BDel(g) == Has(g) /\ batch' = [x \in DOMAIN batch \ {g} |-> batch[x]]
BSize(g, n) == n = Len(batch'[g].polys)

\* new polynomials: nothing is known about them
BInterp(g, polys) == Has(g) /\ batch' = [batch EXCEPT ![g].polys = polys, ![g].factored = FALSE]
BMonic(g) == Has(g) /\ UNCHANGED bvars
BFactor(g) == Has(g) /\ batch' = [batch EXCEPT ![g].factored = (@ \/ batch[g].polys # <<>>)]

\* r has the roots of the polynomials one after the other, each once and in any order
RECURSIVE Answers(_, _, _)
Answers(pad, polys, r) ==
  IF polys = <<>> THEN r = <<>>
  ELSE LET v == Valid(pad, Head(polys))
           k == Len(v)
       IN /\ Len(r) >= k
          /\ \A e \in {v[i] : i \in 1..k} : \E i \in 1..k : r[i] = e
          /\ Answers(pad, Tail(polys), SubSeq(r, k + 1, Len(r)))

BFind(g, r) ==
  /\ Has(g)
  /\ IF batch[g].factored THEN Answers(batch[g].pad, batch[g].polys, r) ELSE r = <<>>
  /\ UNCHANGED bvars
BWhole(g, polys, r) ==
  /\ Has(g)
  /\ Answers(batch[g].pad, polys, r)
  /\ batch' = [batch EXCEPT ![g].polys = polys, ![g].factored = TRUE]
BSay(g, text) ==
  /\ Has(g)
  /\ text = "ZZpPolynomials " \o (IF batch[g].polys = <<>> THEN "is empty!" ELSE "contains " \o ToString(Len(batch[g].polys)) \o " polynomials.")
  /\ UNCHANGED bvars
BThreads(g) == Has(g) /\ UNCHANGED bvars
=============================================================================
