------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Which positions of a pseudo-random stream are used for what: buckets    *)
(* j = 1..L, evaluation points i = 1..D, coefficients k = 1..h (below the  *)
(* leading one) of the random polynomials.                                 *)
(***************************************************************************)
EXTENDS Integers
PadAt(L, h, D, j, i) == (j - 1) * D + i - 1          \* a client's pad, from its secret
MaskAt(L, h, D, j, i) == (j - 1) * D + i - 1         \* the mask of a half, from the key
OmegaAAt(L, h, D, j, k) == L * D + h * (j - 1) + k - 1
OmegaBAt(L, h, D, j, k) == 2 * L * D + h * (j - 1) + k - 1
=============================================================================
