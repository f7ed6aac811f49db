------------------------------- MODULE Field -------------------------------
(***************************************************************************)
(* The field of integers modulo a prime p and polynomials over it.         *)
(* An element is a number (BigNum) below p; a polynomial is the sequence   *)
(* of its coefficients, constant term first.                               *)
(***************************************************************************)
EXTENDS BigNum

FAdd(p, a, b) == LET s == Add(a, b) IN IF Cmp(s, p) >= 0 THEN Sub(s, p) ELSE s
FSub(p, a, b) == IF Cmp(a, b) >= 0 THEN Sub(a, b) ELSE Sub(Add(a, p), b)
FNeg(p, a) == IF a = Zero THEN Zero ELSE Sub(p, a)
FMul(p, a, b) == Mod(Mul(a, b), p)

RECURSIVE FPow(_, _, _)
FPow(p, a, e) ==                       \* e is a number
  IF e = Zero THEN Mod(One, p)
  ELSE LET h == FPow(p, a, Shr(e, 1))
           q == FMul(p, h, h)
       IN IF Bit(e, 0) = 1 THEN FMul(p, q, a) ELSE q

FInv(p, a) == FPow(p, a, Sub(p, <<2>>))

\* Value of a polynomial at x (Horner)
PEval(p, f, x) == FoldRight(LAMBDA c, acc: FAdd(p, FMul(p, acc, x), c), f, Zero)

\* Product over the roots of (x - r): value at x of the monic polynomial with these roots
RootsEval(p, roots, x) == FoldLeft(LAMBDA acc, r: FMul(p, acc, FSub(p, x, r)), Mod(One, p), roots)

RECURSIVE PTrim(_)
PTrim(f) == IF Len(f) > 0 /\ f[Len(f)] = Zero THEN PTrim(SubSeq(f, 1, Len(f) - 1)) ELSE f

PScale(p, f, c) == [i \in 1..Len(f) |-> FMul(p, f[i], c)]
PAdd(p, f, g) == LET n == Max2(Len(f), Len(g))
                 IN [i \in 1..n |-> FAdd(p, IF i <= Len(f) THEN f[i] ELSE Zero, IF i <= Len(g) THEN g[i] ELSE Zero)]

\* f * (X - r)
PMulRoot(p, f, r) ==
  LET n == Len(f)
  IN TLCEval([i \in 1..(n + 1) |->
       FSub(p, IF i > 1 THEN f[i - 1] ELSE Zero, IF i <= n THEN FMul(p, f[i], r) ELSE Zero)])

PFromRoots(p, roots) == FoldLeft(LAMBDA f, r: PMulRoot(p, f, r), <<One>>, roots)

\* Newton interpolation: the polynomial of degree below Len(xs) with these values
Interpolate(p, xs, ys) ==
  LET Step(acc, i) ==                 \* acc = <<polynomial, product of (X - x_k), k < i>>
        LET c == FMul(p, FSub(p, ys[i], PEval(p, acc[1], xs[i])), FInv(p, PEval(p, acc[2], xs[i])))
        IN << TLCEval(PAdd(p, acc[1], PScale(p, acc[2], c))), PMulRoot(p, acc[2], xs[i]) >>
  IN PTrim(FoldLeft(LAMBDA acc, i: Step(acc, i), << <<>>, <<One>> >>, Range1(Len(xs)))[1])
=============================================================================
