--------------------------- MODULE TracePolyBatch ---------------------------
EXTENDS TraceBase
VARIABLES batch, field
PR == INSTANCE PolyRoots
\* a polynomial is kept as its accepted roots
First(pad, v) == v
X == INSTANCE PolyBatch WITH Valid <- First
vs == <<batch, field>>
TInit == X!BInit /\ field = <<>> /\ l = 1
Size == X!BSize(Ev.g, Ev.size)
Roots == [i \in 1..Len(Ev.polys) |-> PR!ValidRoots(field, Ev.x, batch[Ev.g].pad, Ev.polys[i])]
TNext ==
  \/ IsEvent("Case")    /\ batch' = <<>> /\ field' = <<>>
  \/ IsEvent("Ctx")     /\ field' = Ev.p /\ UNCHANGED batch
  \/ IsEvent("New")     /\ X!BNew(Ev.g, Ev.pad) /\ Ev.told = Ev.pad /\ Ev.size = 0 /\ UNCHANGED field
  \/ IsEvent("Del")     /\ X!BDel(Ev.g) /\ UNCHANGED field
  \/ IsEvent("Interp")  /\ X!BInterp(Ev.g, Roots) /\ Ev.same /\ Size /\ UNCHANGED field
  \/ IsEvent("Whole")   /\ X!BWhole(Ev.g, Roots, Ev.r) /\ Ev.same /\ Size /\ UNCHANGED field
  \/ IsEvent("Monic")   /\ X!BMonic(Ev.g) /\ Size /\ UNCHANGED field
  \/ IsEvent("Factor")  /\ X!BFactor(Ev.g) /\ Size /\ UNCHANGED field
  \/ IsEvent("Find")    /\ X!BFind(Ev.g, Ev.r) /\ Size /\ UNCHANGED field
  \/ IsEvent("Threads") /\ X!BThreads(Ev.g) /\ Size /\ UNCHANGED field
  \/ IsEvent("Say")     /\ X!BSay(Ev.g, Ev.text) /\ Size /\ UNCHANGED field
  \/ IsEvent("Exit")    /\ CleanExit /\ UNCHANGED vs
=============================================================================
