-------------------------- MODULE TraceGenerators --------------------------
(* Binds Generators to the exact functions and to recorded traces. *)
EXTENDS TraceBase, PRF

VARIABLES field, zg, pg

Wider(p) == NumBits(p) > 40
G == INSTANCE Generators WITH
       PrfI <- PrfInt, PrfF <- PrfField, PosOf <- Pos, Wide <- Wider,
       ZeroSeed <- Zero, OneSeed <- One

TInit == G!GInit /\ l = 1

TCase == IsEvent("Case") /\ field' = <<>> /\ zg' = <<>> /\ pg' = <<>>
TExit == IsEvent("Exit") /\ CleanExit /\ UNCHANGED <<field, zg, pg>>

TNext ==
  \/ TCase
  \/ TExit
  \/ IsEvent("Ctx")      /\ G!SetField(Ev.p)
  \/ IsEvent("New")      /\ G!NewZ(Ev.g)
  \/ IsEvent("Copy")     /\ G!CopyZ(Ev.g, Ev.of)
  \/ IsEvent("Del")      /\ G!DelZ(Ev.g)
  \/ IsEvent("Gen")      /\ G!GenZ(Ev.g, Ev.seed, Ev.pos, Ev.bits, Ev.drawn, Ev.out)
  \/ IsEvent("Auto")     /\ G!AutoZ(Ev.g, Ev.pos, Ev.bits, Ev.drawn, Ev.out)
  \/ IsEvent("Default")  /\ G!DefaultZ(Ev.g, Ev.out)
  \/ IsEvent("NewP")     /\ G!NewP(Ev.g, Ev.m)
  \/ IsEvent("CopyP")    /\ G!CopyP(Ev.g, Ev.of)
  \/ IsEvent("DelP")     /\ G!DelP(Ev.g)
  \/ IsEvent("SetMod")   /\ G!SetMod(Ev.g, Ev.m)
  \/ IsEvent("GetMod")   /\ G!GetMod(Ev.g, Ev.out)
  \/ IsEvent("GenP")     /\ G!GenP(Ev.g, Ev.seed, Ev.pos, Ev.bits, Ev.drawn, Ev.out)
  \/ IsEvent("AutoP")    /\ G!AutoP(Ev.g, Ev.pos, Ev.bits, Ev.drawn, Ev.out)
  \/ IsEvent("NextP")    /\ G!NextP(Ev.g, Ev.drawn, Ev.out)
  \/ IsEvent("SkipP")    /\ G!SkipP(Ev.g, Ev.n, Ev.drawn)
  \/ IsEvent("DefaultP") /\ G!DefaultP(Ev.g, Ev.out)

TSpec == TInit /\ [][TNext]_<<field, zg, pg, l>>
=============================================================================
