--------------------------- MODULE GenGenerators ---------------------------
(***************************************************************************)
(* Life of the generators with symbolic values: model checked exhaustively *)
(* for a few generators, and simulated to obtain behaviours to replay.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS Names, Seeds, Poss, Lens, Mods, Record

VARIABLES field, zg, pg, hist

ToyI(s, p, b) == <<s, p, b>>
ToyF(f, m, s, p, b) == <<f, m, s, p, b>>
ToyPos(n) == n
ToyWide(f) == TRUE

G == INSTANCE Generators WITH PrfI <- ToyI, PrfF <- ToyF, PosOf <- ToyPos, Wide <- ToyWide, ZeroSeed <- 0, OneSeed <- 1

Log(r) == hist' = IF Record THEN Append(hist, r) ELSE hist
Init == G!GInit /\ hist = <<>>

\* the next seed: one that no generator has
Free == CHOOSE s \in 7..20 : s \notin G!InUse(zg) \cup G!InUse(pg) /\ \A t \in 7..(s - 1) : t \in G!InUse(zg) \cup G!InUse(pg)
Drawn(gens, g) == IF gens[g].seed = <<>> THEN <<Free>> ELSE <<>>
S(gens, g) == IF gens[g].seed = <<>> THEN Free ELSE gens[g].seed[1]
Zs == DOMAIN zg
Ps == DOMAIN pg

DSetField == \E p \in Mods : field = <<>> /\ G!SetField(p) /\ Log([op |-> "ctx", m |-> p])
DNewZ  == \E g \in Names : G!NewZ(g) /\ Log([op |-> "new", g |-> g])
DCopyZ == \E g \in Names, h \in Zs : g # h /\ g \notin Zs /\ G!CopyZ(g, h) /\ Log([op |-> "copy", g |-> g, h |-> h])
DAssignZ == \E g \in Zs, h \in Zs : G!CopyZ(g, h) /\ Log([op |-> "assign", g |-> g, h |-> h])
DDelZ  == \E g \in Zs : G!DelZ(g) /\ Log([op |-> "del", g |-> g])
DGenZ  == \E g \in Zs, s \in Seeds, p \in Poss, b \in Lens \ {0} :
            G!GenZ(g, s, p, b, <<>>, ToyI(s, p, b)) /\ Log([op |-> "gen", g |-> g, s |-> s, p |-> p, b |-> b])
DAutoZ == \E g \in Zs, p \in Poss, b \in Lens \ {0} :
            (\E d \in {Drawn(zg, g)}, x \in {S(zg, g)} : G!AutoZ(g, p, b, d, ToyI(x, p, b))) /\ Log([op |-> "auto", g |-> g, p |-> p, b |-> b])
DDefZ  == \E g \in Zs : G!DefaultZ(g, 0) /\ Log([op |-> "default", g |-> g])
DNewP  == \E g \in Names, m \in Mods : G!NewP(g, m) /\ field # <<>> /\ Log([op |-> "newp", g |-> g, m |-> m, h |-> IF Zs = {} THEN "" ELSE CHOOSE h \in Zs : TRUE])
DCopyP == \E g \in Names, h \in Ps : g \notin Ps /\ G!CopyP(g, h) /\ Log([op |-> "copyp", g |-> g, h |-> h])
DAssignP == \E g \in Ps, h \in Ps : G!CopyP(g, h) /\ Log([op |-> "assignp", g |-> g, h |-> h])
DDelP  == \E g \in Ps : G!DelP(g) /\ Log([op |-> "delp", g |-> g])
DSetMod == \E g \in Ps, m \in Mods : G!SetMod(g, m) /\ Log([op |-> "setmod", g |-> g, m |-> m])
DGetMod == \E g \in Ps : G!GetMod(g, pg[g].m) /\ Log([op |-> "getmod", g |-> g])
DGenP  == \E g \in Ps, s \in Seeds, p \in Poss, b \in Lens :
            G!GenP(g, s, p, b, <<>>, ToyF(field[1], pg[g].m, s, p, b)) /\ Log([op |-> "genp", g |-> g, s |-> s, p |-> p, b |-> b])
DAutoP == \E g \in Ps, p \in Poss, b \in Lens :
            (\E d \in {Drawn(pg, g)}, x \in {S(pg, g)} : G!AutoP(g, p, b, d, ToyF(field[1], pg[g].m, x, p, b))) /\ Log([op |-> "autop", g |-> g, p |-> p, b |-> b])
DNextP == \E g \in Ps :
            (\E d \in {Drawn(pg, g)}, x \in {S(pg, g)} : G!NextP(g, d, ToyF(field[1], pg[g].m, x, pg[g].next, 0))) /\ Log([op |-> "nextp", g |-> g])
DDefP  == \E g \in Ps : G!DefaultP(g, 1) /\ Log([op |-> "defaultp", g |-> g])

Live == DSetField \/ DNewZ \/ DCopyZ \/ DAssignZ \/ DDelZ \/ DGenZ \/ DAutoZ \/ DDefZ \/ DNewP \/ DCopyP
        \/ DAssignP \/ DDelP \/ DSetMod \/ DGetMod \/ DGenP \/ DAutoP \/ DNextP \/ DDefP

Depth == atoi(IOEnv.DEPTH)
\* When recording, a behaviour ends after Depth operations with a single last step
Done == hist' = Append(hist, [op |-> "done"]) /\ UNCHANGED <<field, zg, pg>>
\* only the integers
LiveI == DNewZ \/ DCopyZ \/ DAssignZ \/ DDelZ \/ DGenZ \/ DAutoZ \/ DDefZ
NextI == IF Len(hist) >= Depth THEN Len(hist) = Depth /\ Done ELSE LiveI
Next == IF Record /\ Len(hist) >= Depth THEN Len(hist) = Depth /\ Done ELSE Live

\* Bound of the exhaustive run
Bound == \A g \in Ps : pg[g].next <= 2

Drawable == {<<>>} \cup {<<s>> : s \in 7..20}
TypeOK == /\ \A g \in Zs : zg[g].seed \in Drawable
          /\ \A g \in Ps : pg[g].m \in Mods /\ pg[g].seed \in Drawable /\ pg[g].next \in Nat
\* generators get one seed from one another only as copies
Shared == [][/\ \A g, h \in DOMAIN zg' : g # h /\ zg'[g].seed = zg'[h].seed /\ zg'[g].seed # <<>> => \E x \in DOMAIN zg : zg[x].seed = zg'[g].seed
             /\ \A g \in DOMAIN zg', h \in DOMAIN pg' : zg'[g].seed # pg'[h].seed \/ zg'[g].seed = <<>>]_<<zg, pg>>
\* a generator that gave an automatic value has a seed
SeededBeforeNext == \A g \in Ps : pg[g].next > 0 => pg[g].seed # <<>>
\* a seed once drawn stays until the generator is replaced as a whole
SeedKept == [][\A g \in DOMAIN zg \cap DOMAIN zg' : zg[g].seed # <<>> /\ zg'[g].seed = <<>> => \E h \in DOMAIN zg : zg'[g] = zg[h]]_<<zg>>

Emit == Len(hist) = Depth + 1 => PrintT("@@" \o ToJson(SubSeq(hist, 1, Depth)))
=============================================================================
