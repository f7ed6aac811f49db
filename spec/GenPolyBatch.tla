---------------------------- MODULE GenPolyBatch ----------------------------
(* All small lives of batches; a polynomial is known by its accepted roots. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Names, Polys, MaxN, Record
VARIABLES batch, answer, fresh, hist
Roots == [p \in Polys |-> CASE p = 0 -> <<>> [] p = 1 -> <<1>> [] p = 2 -> <<2, 1>> [] OTHER -> <<p>>]
V(pad, p) == Roots[p]
X == INSTANCE PolyBatch WITH Valid <- V
Log(r) == hist' = IF Record THEN Append(hist, r) ELSE hist
Lists == UNION {[1..k -> Polys] : k \in 0..MaxN}
RECURSIVE All(_)
All(ps) == IF ps = <<>> THEN <<>> ELSE Roots[Head(ps)] \o All(Tail(ps))
\* the values that were given last to each batch
Keep == UNCHANGED <<answer, fresh>>
DoNew == \E g \in Names : X!BNew(g, 1) /\ fresh' = (g :> <<>>) @@ fresh /\ UNCHANGED answer /\ Log([op |-> "new", g |-> g])
DoDel == \E g \in DOMAIN batch : X!BDel(g) /\ fresh' = [x \in DOMAIN batch \ {g} |-> fresh[x]] /\ UNCHANGED answer /\ Log([op |-> "del", g |-> g])
DoInterp == \E g \in DOMAIN batch, ps \in Lists : X!BInterp(g, ps) /\ fresh' = [fresh EXCEPT ![g] = ps] /\ UNCHANGED answer /\ Log([op |-> "interp", g |-> g, ps |-> ps])
DoMonic == \E g \in DOMAIN batch : X!BMonic(g) /\ Keep /\ Log([op |-> "monic", g |-> g])
DoFactor == \E g \in DOMAIN batch, a \in 0..2 : X!BFactor(g) /\ Keep /\ Log([op |-> "factor", g |-> g, a |-> a])
DoFind == \E g \in DOMAIN batch : LET r == IF batch[g].factored THEN All(batch[g].polys) ELSE <<>>
            IN X!BFind(g, r) /\ answer' = <<g, r>> /\ UNCHANGED fresh /\ Log([op |-> "find", g |-> g])
DoWhole == \E g \in DOMAIN batch, ps \in Lists, a \in 0..2 :
            X!BWhole(g, ps, All(ps)) /\ fresh' = [fresh EXCEPT ![g] = ps] /\ answer' = <<g, All(ps)>> /\ Log([op |-> "whole", g |-> g, ps |-> ps, a |-> a])
DoSay == \E g \in DOMAIN batch : Record /\ UNCHANGED <<batch>> /\ Keep /\ Log([op |-> "say", g |-> g])
Live == DoNew \/ DoDel \/ DoInterp \/ DoMonic \/ DoFactor \/ DoFind \/ DoWhole \/ DoSay
LiveR == IF batch = <<>> THEN DoNew ELSE
         CASE Len(hist) % 7 = 0 -> DoNew \/ DoDel \/ DoSay \/ DoMonic \/ DoFind \/ DoFactor [] Len(hist) % 3 = 0 -> DoInterp \/ DoWhole [] OTHER -> DoMonic \/ DoFactor \/ DoFind
Depth == atoi(IOEnv.DEPTH)
Done == hist' = Append(hist, [op |-> "done"]) /\ UNCHANGED <<batch, answer, fresh>>
Init == X!BInit /\ answer = <<>> /\ fresh = <<>> /\ hist = <<>>
Next == IF Record THEN (IF Len(hist) >= Depth THEN Len(hist) = Depth /\ Done ELSE LiveR) ELSE Live
Emit == Len(hist) = Depth + 1 => PrintT("@@" \o ToJson(SubSeq(hist, 1, Depth)))
\* an answer is never that of values given earlier
NeverStale == [][answer' # answer => LET g == answer'[1] IN answer'[2] = <<>> \/ answer'[2] = All(fresh'[g])]_<<batch, answer, fresh>>
FactorsOfNow == \A g \in DOMAIN batch : batch[g].factored => batch[g].polys = fresh[g]
=============================================================================
