----------------------------- MODULE GenDigests -----------------------------
(* Life of hash objects with toy digests: model checked, and simulated for histories. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS Names, Contents, Cuts, Record

VARIABLES alg, hist
Toy1(d) == <<1, d>>
Toy2(d) == <<2, d>>
Toy3(d, s) == <<3, s, d>>
ToyDec(n) == n
D == INSTANCE Digests WITH Sha1 <- Toy1, Sha256 <- Toy2, Mur <- Toy3, Dec <- ToyDec

MCContents == {<<1>>, <<1, 2>>, <<2, 1, 2>>}

Log(r) == hist' = IF Record THEN Append(hist, r) ELSE hist
Con(c) == IF Record THEN <<1, 2, 3, 4, 5, 6, 7>> ELSE c
Gs == DOMAIN alg
SHAs == {g \in Gs : alg[g].kind \in {"bytes", "text"}}
Els == {g \in Gs : alg[g].kind \notin {"bytes", "text"}}
\* a digest drawn with an unknown seed: any fixed function will do
ToyAnswer(a, d) == IF D!Known(a) THEN D!Digest(a, d) ELSE [i \in 1..16 |-> <<4, d>>]

DoNew == \E g \in Names, k \in D!Kinds, f \in {1, 256} : D!DNew(g, k, f, <<>>) /\ Log([op |-> "new", g |-> g, kind |-> k, f |-> f])
DoNewS == \E g \in Names : D!DNew(g, "murmur", 128, <<9>>) /\ Log([op |-> "news", g |-> g])
DoCopy == \E g \in Names, h \in SHAs : D!DCopy(g, h) /\ Log([op |-> "copy", g |-> g, h |-> h])
DoAssign == \E g \in SHAs, h \in SHAs : D!DAssign(g, h) /\ Log([op |-> "assign", g |-> g, h |-> h])
DoDel == \E g \in Gs : D!DDel(g) /\ Log([op |-> "del", g |-> g])
DoHash == \E g \in SHAs, c \in Contents, n \in Cuts :
  LET d == IF alg[g].kind = "text" THEN D!Prefix(Con(c), n) ELSE SubSeq(Con(c), 1, n)
      out == IF alg[g].kind = "bytes" /\ n = 0 THEN <<>> ELSE ToyAnswer(alg[g], d)
  IN (alg[g].kind = "text" \/ n <= Len(Con(c))) /\ D!DHash(g, Con(c), n, out) /\ Log([op |-> "hash", g |-> g, kind |-> alg[g].kind, c |-> c, n |-> n])
DoNull == \E g \in SHAs : alg[g].kind = "bytes" /\ D!DHashNull(g, TRUE) /\ Log([op |-> "hashnull", g |-> g])
DoEl == \E g \in Els, c \in Contents, n \in Cuts :
  D!DElement(g, Con(c), n, ToyAnswer(alg[g], D!Prefix(Con(c), n))) /\ Log([op |-> "el", g |-> g, c |-> c, n |-> n])
DoPeek == \E g \in Gs : D!DPeek(g, alg[g].last) /\ Log([op |-> "peek", g |-> g])
DoInfo == \E g \in Gs : D!DInfo(g, D!Size(alg[g]), D!Name(alg[g])) /\ Log([op |-> "info", g |-> g])

Live == DoNew \/ DoNewS \/ DoCopy \/ DoAssign \/ DoDel \/ DoHash \/ DoNull \/ DoEl \/ DoPeek \/ DoInfo
Depth == atoi(IOEnv.DEPTH)
Done == hist' = Append(hist, [op |-> "done"]) /\ UNCHANGED alg
Init == D!DInit /\ hist = <<>>
Next == IF Record /\ Len(hist) >= Depth THEN Len(hist) = Depth /\ Done ELSE Live
Emit == Len(hist) = Depth + 1 => PrintT("@@" \o ToJson(SubSeq(hist, 1, Depth)))

\* what was returned last is the digest of some content by the algorithm of the object
LastIsOwn == \A g \in Gs : alg[g].last # <<>> /\ D!Known(alg[g]) => alg[g].last[1] = (CASE alg[g].flavour = 128 -> 3 [] alg[g].flavour = 256 -> 2 [] OTHER -> 1)
\* requests to one object never change another
Isolated == [][\A g \in Gs : (g \in DOMAIN alg' /\ alg'[g] # alg[g]) => \A h \in Gs \ {g} : h \in DOMAIN alg' => alg'[h] = alg[h]]_alg
=============================================================================
