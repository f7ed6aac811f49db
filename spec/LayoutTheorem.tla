--------------------------- MODULE LayoutTheorem ----------------------------
(* No position of a stream is used twice, for all small geometries in which *)
(* the points determine the product of two polynomials of the load (D > 2h). *)
EXTENDS Layout, FiniteSets, TLC
CONSTANTS MaxL, MaxH, MaxExtra
VARIABLES g
Init == g \in [L : 1..MaxL, h : 1..MaxH, D : 3..(2 * MaxH + 1 + MaxExtra)]
Next == UNCHANGED g
Cells == (1..g.L) \X (1..g.D)
Coeffs == (1..g.L) \X (1..g.h)
Masks == {MaskAt(g.L, g.h, g.D, c[1], c[2]) : c \in Cells}
As == {OmegaAAt(g.L, g.h, g.D, c[1], c[2]) : c \in Coeffs}
Bs == {OmegaBAt(g.L, g.h, g.D, c[1], c[2]) : c \in Coeffs}
Pads == {PadAt(g.L, g.h, g.D, c[1], c[2]) : c \in Cells}
Once == g.D > 2 * g.h =>
        /\ Cardinality(Pads) = g.L * g.D
        /\ Cardinality(Masks \cup As \cup Bs) = g.L * g.D + 2 * g.L * g.h
=============================================================================
