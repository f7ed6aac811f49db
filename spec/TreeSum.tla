------------------------------ MODULE TreeSum ------------------------------
(***************************************************************************)
(* How the code reads a byte string: scratch numbers, one per byte, are    *)
(* summed pairwise, round after round, in place.  A scratch number is the  *)
(* bag of terms it contains; terms of earlier requests stay behind.        *)
(*                                                                         *)
(* Checked: the first scratch number ends as the sum of exactly the terms  *)
(* of this request, each once, whatever was left by earlier ones.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Length,      \* declared bytes
          MaxLen       \* longest string given

VARIABLES b,           \* scratch: place -> (term -> how often); term 0: stale
          z,           \* the value: terms it contains
          dim          \* terms of the last request

Terms == 0..Length
Only(t) == [x \in Terms |-> IF x = t THEN 1 ELSE 0]
Plus(f, g) == [x \in Terms |-> f[x] + g[x]]
Nothing == [x \in Terms |-> 0]

Init == b = [i \in 0..(Length - 1) |-> Only(0)] /\ z = Nothing /\ dim = 0

\* one round over j numbers
Round(s, j) ==
  LET h == j \div 2
      t == [i \in DOMAIN s |-> IF i < h THEN Plus(s[i], s[h + i]) ELSE s[i]]
  IN IF j % 2 = 1 THEN [t EXCEPT ![h] = s[j - 1]] ELSE t

RECURSIVE Sum(_, _)
Sum(s, j) == IF j <= 1 THEN s ELSE Sum(Round(s, j), (j + 1) \div 2)

Min(x, y) == IF x < y THEN x ELSE y
\* what a later request finds is one stale term, whatever it was
Stale(s) == [i \in DOMAIN s |-> Only(0)]

Set(len) ==
  LET d == Min(len, Length)
      filled == [i \in DOMAIN b |-> IF i < d THEN Only(i + 1) ELSE b[i]]
      s == Sum(filled, d)
  IN /\ z' = IF d > 0 THEN s[0] ELSE Nothing
     /\ b' = Stale(s)
     /\ dim' = d

Next == \E len \in 0..MaxLen : Set(len)
Spec == Init /\ [][Next]_<<b, z, dim>>

EachTermOnce == z = [x \in Terms |-> IF x \in 1..dim THEN 1 ELSE 0]
=============================================================================
