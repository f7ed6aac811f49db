----------------------------- MODULE GenErrors -----------------------------
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS Names, Msgs, Codes, Record
VARIABLES err, default, ended, hist
Same(t) == t
X == INSTANCE Errors WITH Text <- Same, NoText <- 0
\* where an error is made makes no difference to it
Where == {"plain", "handler", "unwinding", "within", "thread"}
Kinds == {"general", "protocol", "bound"}
Log(r) == hist' = IF Record THEN Append(hist, r) ELSE hist
Msg(g) == IF err[g].msg # <<>> THEN err[g].msg[1] ELSE 99
DoMake == \E g \in Names, k \in Kinds, m \in Msgs, c \in Codes, w \in Where :
            X!EMake(g, k, m, IF k = "bound" THEN 1 ELSE c) /\ Log([op |-> "make", g |-> g, kind |-> k, m |-> m, c |-> c, where |-> w])
DoFatal == \E k \in Kinds, m \in Msgs, c \in Codes, w \in Where :
            X!EMakeFatal(IF k = "bound" THEN 1 ELSE c) /\ Log([op |-> "fatal", g |-> "z", kind |-> k, m |-> m, c |-> c, where |-> w])
DoCopy == \E g \in Names, h \in DOMAIN err : X!ECopy(g, h) /\ Log([op |-> "copy", g |-> g, h |-> h])
DoAssign == \E g \in DOMAIN err, h \in DOMAIN err : X!EAssign(g, h) /\ Log([op |-> "assign", g |-> g, h |-> h])
DoDel == \E g \in DOMAIN err : X!EDel(g) /\ Log([op |-> "del", g |-> g])
DoMsg == \E g \in DOMAIN err, m \in Msgs : X!ESetMsg(g, m) /\ Log([op |-> "setmsg", g |-> g, m |-> m])
DoSetFatal == \E g \in DOMAIN err, f \in BOOLEAN : X!ESetFatal(g, f) /\ Log([op |-> "setfatal", g |-> g, f |-> f])
DoCode == \E g \in DOMAIN err, c \in Codes : X!ESetCode(g, c) /\ Log([op |-> "setcode", g |-> g, c |-> c])
DoGet == \E g \in DOMAIN err : X!EGet(g, Msg(g), Msg(g), err[g].fatal, err[g].code) /\ Log([op |-> "get", g |-> g])
DoHold == \E g \in DOMAIN err : X!EHold(g) /\ Log([op |-> "hold", g |-> g])
DoHeld == \E g \in DOMAIN err : X!EHeld(g, Msg(g), Msg(g)) /\ Log([op |-> "held", g |-> g])
DoThrow == \E g \in DOMAIN err : X!EThrow(g, err[g].kind, Msg(g), Msg(g), err[g].fatal, err[g].code) /\ Log([op |-> "throw", g |-> g])
Live == DoMake \/ DoFatal \/ DoCopy \/ DoAssign \/ DoDel \/ DoMsg \/ DoSetFatal \/ DoCode \/ DoGet \/ DoHold \/ DoHeld \/ DoThrow
Depth == atoi(IOEnv.DEPTH)
Stop == ended # <<>> \/ Len(hist) >= Depth
Done == hist' = Append(hist, [op |-> "done"]) /\ UNCHANGED <<err, default, ended>>
Init == X!EInit /\ hist = <<>>
\* when recording, most behaviours should not end at once
LiveR == IF Len(hist) < Depth - 1 THEN DoMake \/ DoCopy \/ DoAssign \/ DoDel \/ DoMsg \/ DoSetFatal \/ DoCode \/ DoGet \/ DoHold \/ DoHeld \/ DoThrow ELSE Live
Next == IF Record THEN (IF Len(hist) >= Depth THEN Len(hist) = Depth /\ Done ELSE LiveR) ELSE Live
Emit == Len(hist) = Depth + 1 => PrintT("@@" \o ToJson(SubSeq(hist, 1, Depth)))
\* the program ends exactly when a fatal error is made: never by marking or copying
EndsOnlyByMaking == [][ended' # ended => err' = err]_<<err, default, ended>>
EndsWithCode == ended # <<>> => \E c \in Codes \cup {1} : ended = <<c % 256>>
=============================================================================
