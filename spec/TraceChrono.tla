---------------------------- MODULE TraceChrono ----------------------------
EXTENDS TraceBase
VARIABLES cbm, now
X == INSTANCE Chrono
vs == <<cbm, now>>
TInit == X!CInit /\ l = 1
St == X!CState(Ev.g, Ev.paused, Ev.stopped)
TNext ==
  \/ IsEvent("Case")   /\ cbm' = <<>> /\ now' = <<>>
  \/ IsEvent("Tick")   /\ X!CTick(Ev.d)
  \/ IsEvent("New")    /\ X!CNew(Ev.g) /\ St
  \/ IsEvent("Copy")   /\ X!CCopy(Ev.g, Ev.of) /\ St
  \/ IsEvent("Assign") /\ X!CAssign(Ev.g, Ev.of) /\ St
  \/ IsEvent("Del")    /\ X!CDel(Ev.g)
  \/ IsEvent("Start")  /\ X!CStart(Ev.g) /\ St
  \/ IsEvent("Reset")  /\ X!CReset(Ev.g) /\ St
  \/ IsEvent("Cont")   /\ X!CStep(Ev.g, "") /\ St
  \/ IsEvent("Step")   /\ X!CStep(Ev.g, Ev.c) /\ St
  \/ IsEvent("Many")   /\ X!CMany(Ev.g, Ev.n, Ev.d) /\ St
  \/ IsEvent("Pause")  /\ X!CPause(Ev.g, Ev.c) /\ St
  \/ IsEvent("Stop")   /\ X!CStop(Ev.g, Ev.c) /\ St
  \/ IsEvent("Bench")  /\ X!CBench(Ev.g, Ev.n, Ev.r) /\ St
  \/ IsEvent("BenchS") /\ X!CBenchS(Ev.g, Ev.c, Ev.r) /\ St
  \/ IsEvent("Cum")    /\ X!CCum(Ev.g, Ev.n, Ev.np, Ev.r) /\ St
  \/ IsEvent("CumS")   /\ X!CCumS(Ev.g, Ev.c, Ev.np, Ev.r) /\ St
  \/ IsEvent("Stat")   /\ X!CStat(Ev.g, Ev.np, Ev.min, Ev.max, Ev.avg, Ev.var, Ev.std) /\ St
  \/ IsEvent("Exit")   /\ CleanExit /\ UNCHANGED vs
=============================================================================
