-------------------------- MODULE TraceByteNumbers --------------------------
EXTENDS TraceBase, ByteNumbers

U(b) == FromBytes(b)
TInit == BInit /\ l = 1
TNext ==
  \/ IsEvent("Case")   /\ num' = <<>>
  \/ IsEvent("Exit")   /\ CleanExit /\ UNCHANGED num
  \/ IsEvent("New")    /\ Ev.intact /\ BNew(Ev.g, Ev.bytes, Ev.data)
  \/ IsEvent("Del")    /\ BDel(Ev.g)
  \/ IsEvent("Set")    /\ Ev.intact /\ BSet(Ev.g, Ev.data)
  \/ IsEvent("SetNum") /\ BSetNum(Ev.g, U(Ev.n))
  \/ IsEvent("Inc")    /\ BInc(Ev.g)
  \/ IsEvent("Add")    /\ BAdd(Ev.g, U(Ev.n))
  \/ IsEvent("Rem")    /\ BRem(Ev.g, U(Ev.d), U(Ev.out))
  \/ IsEvent("Lsb")    /\ BLow(Ev.g, U(Ev.out))
  \/ IsEvent("Size")   /\ BSize(Ev.g, Ev.out)
  \/ IsEvent("Str")    /\ BShow(Ev.g, Ev.out) /\ Ev.shown = Ev.out
  \/ IsEvent("Bytes")  /\ Ev.intact /\ BBytes(Ev.g, Ev.cap, Ev.own, Ev.len, Ev.out)
=============================================================================
