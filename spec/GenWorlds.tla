----------------------------- MODULE GenWorlds -----------------------------
(* All orders in which the blocks of the worlds can be performed *)
EXTENDS Worlds, Json
Done == \A w \in Ws : at[w] = Size
Say == Done => PrintT("@@" \o ToJson(order))
=============================================================================
