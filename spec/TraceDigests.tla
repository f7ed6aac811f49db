---------------------------- MODULE TraceDigests ----------------------------
EXTENDS TraceBase, SHA, Murmur, BigNum
VARIABLES alg, field
G == INSTANCE Digests WITH Sha1 <- SHA1, Sha256 <- SHA256, Mur <- Murmur3, Dec <- ToDec
KindOf(k) == IF k = "zzp" THEN "element" ELSE k
TInit == G!DInit /\ field = Zero /\ l = 1
TNext ==
  \/ IsEvent("Case")     /\ alg' = <<>> /\ field' = Zero
  \/ IsEvent("Exit")     /\ CleanExit /\ UNCHANGED <<alg, field>>
  \/ IsEvent("Ctx")      /\ field' = Ev.p /\ UNCHANGED alg
  \/ UNCHANGED field /\
     \/ IsEvent("New")      /\ G!DNew(Ev.g, KindOf(Ev.kind), Ev.flavour, Ev.seed)
     \/ IsEvent("Copy")     /\ G!DCopy(Ev.g, Ev.of)
     \/ IsEvent("Assign")   /\ G!DAssign(Ev.g, Ev.of)
     \/ IsEvent("Del")      /\ G!DDel(Ev.g)
     \/ IsEvent("Hash")     /\ Ev.intact /\ G!DHash(Ev.g, Ev.data, Ev.len, Ev.out)
     \/ IsEvent("HashNull") /\ G!DHashNull(Ev.g, Ev.null)
     \/ IsEvent("HashEl")   /\ Less(Ev.n, field) /\ G!DElement(Ev.g, Ev.n, Ev.len, Ev.out)
     \/ IsEvent("Peek")     /\ G!DPeek(Ev.g, Ev.out)
     \/ IsEvent("Info")     /\ G!DInfo(Ev.g, Ev.size, Ev.name)
     \/ IsEvent("Readable") /\ G!DReadable(Ev.data, Ev.out)
=============================================================================
