----------------------------- MODULE GenParties -----------------------------
(* All small lives of messages and parties. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Messages, Objects, Values, MaxMsg, Record
VARIABLES msg, party, hist, n
NullC == 0
X == INSTANCE Parties WITH Null <- NullC, AddressSize <- 8
st == <<msg, party>>
Log(r) == hist' = (IF Record THEN Append(hist, r) ELSE hist) /\ (Record \/ n < MaxMsg) /\ n' = n + 1
V == Values
Ms == DOMAIN msg
DoMNew == \E m \in Messages \ Ms, d \in {0} \cup V, k \in V, t \in {0, 5} : X!MNew(m, d, k, t, 0) /\ Log([op |-> "mnew", m |-> m, d |-> d, k |-> k, t |-> t])
DoMCopy == \E m \in Messages, x \in Ms : m # x /\ X!MCopy(m, x) /\ Log([op |-> "mcopy", m |-> m, x |-> x])
DoMId == \E m \in Ms, v \in V : X!MSet(m, "id", v) /\ Log([op |-> "mid", m |-> m, v |-> v])
DoMType == \E m \in Ms, v \in 0..1 : X!MSet(m, "type", v) /\ Log([op |-> "mtype", m |-> m, v |-> v])
DoMData == \E m \in Ms, d \in {0} \cup V, k \in V : X!MData(m, d, k) /\ Log([op |-> "mdata", m |-> m, d |-> d, k |-> k])
DoPNew == \E o \in Objects \ DOMAIN party, i \in V : X!PNew(o, IF o = "a" THEN "client" ELSE "server", 0, i, 1, 1) /\ Log([op |-> "pnew", o |-> o, i |-> i])
DoPId == \E o \in DOMAIN party, v \in V : X!PSet(o, "id", v) /\ Log([op |-> "pid", o |-> o, v |-> v])
DoPKind == \E o \in DOMAIN party, v \in 0..1 : X!PSet(o, "kind", v) /\ Log([op |-> "pkind", o |-> o, v |-> v])
DoPField == \E o \in DOMAIN party, v \in V : X!PSet(o, "field", v) /\ Log([op |-> "pfield", o |-> o, v |-> v])
DoPDegree == \E o \in DOMAIN party, v \in V : X!PSet(o, "degree", v) /\ Log([op |-> "pdegree", o |-> o, v |-> v])
DoAuth == \E o, s \in DOMAIN party : X!PAuth(o, s) /\ Log([op |-> "auth", o |-> o, s |-> s])
DoSend == \E o, s \in DOMAIN party, m \in {0} \cup Ms, r \in {"ok", "refused"} :
            X!PSend(o, s, m, r, IF m = 0 THEN <<>> ELSE <<<<s, m>>>>, IF m = 0 THEN "null" ELSE r) /\ Log([op |-> "send", o |-> o, s |-> s, m |-> m, r |-> r])
M == DoMNew \/ DoMCopy \/ DoMId \/ DoMType \/ DoMData
Pa == DoPNew \/ DoPId \/ DoPKind \/ DoPField \/ DoPDegree
Live == M \/ Pa \/ DoAuth \/ DoSend
Depth == atoi(IOEnv.DEPTH)
LiveR == IF n < 2 THEN DoMNew ELSE IF n < 5 THEN DoPNew ELSE
         CASE n % 5 = 0 -> M [] n % 5 = 1 -> Pa [] n % 5 = 2 -> DoSend [] n % 5 = 3 -> DoAuth [] OTHER -> DoMData \/ DoPId \/ DoMId \/ DoMType
Init == X!Init /\ hist = <<>> /\ n = 0
Done == hist' = Append(hist, [op |-> "done"]) /\ UNCHANGED <<st, n>>
Next == IF Record THEN (IF Len(hist) >= Depth THEN Len(hist) = Depth /\ Done ELSE LiveR) ELSE Live
Emit == Len(hist) = Depth + 1 => PrintT("@@" \o ToJson(SubSeq(hist, 1, Depth)))
\* no value changes with another one
OneAtATime ==
  [][ /\ \A m \in DOMAIN msg : Cardinality({f \in {"id", "type"} : msg'[m][f] # msg[m][f]}) <= 1 \/ m \notin DOMAIN msg' \/ \E x \in DOMAIN msg : msg'[m] = msg[x]
      /\ \A o \in DOMAIN party : Cardinality({f \in {"kind", "id", "field", "degree", "auth"} : party'[o][f] # party[o][f]}) <= 1
      /\ Cardinality({o \in DOMAIN party : party'[o] # party[o]}) <= 1 ]_st
Lengths == \A m \in DOMAIN msg : msg[m].data = 0 => msg[m].len = 8
NeverOneself == [][\A o \in DOMAIN party : party'[o].auth # party[o].auth => party[o].id \in DOMAIN party[o].auth \/ party[o].id \notin DOMAIN party'[o].auth]_st
\* whom a party does not recognise, of whatever name, is not listened to
Strangers == \A o \in DOMAIN party, m \in DOMAIN msg : ~X!Knows(o, msg[m].id) => ~X!Answers(party, o, msg[m], TRUE)
=============================================================================
