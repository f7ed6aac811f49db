---------------------------- MODULE TraceParties ----------------------------
(* Recorded lives of messages and parties against the specification. *)
EXTENDS TraceBase, Integers, FiniteSets
VARIABLES msg, party
NullC == "null"
Eight == <<8, 0, 0, 0, 0, 0, 0, 0>>
X == INSTANCE Parties WITH Null <- NullC, AddressSize <- Eight
st == <<msg, party>>
\* what is read of everything afterwards
Reads ==
  /\ Len(Ev.msgs) = Cardinality(DOMAIN msg')
  /\ \A i \in 1..Len(Ev.msgs) : LET x == Ev.msgs[i] IN x.m \in DOMAIN msg' /\ msg'[x.m] = [id |-> x.id, type |-> x.type, data |-> x.data, len |-> x.len]
  /\ Len(Ev.parties) = Cardinality(DOMAIN party')
  /\ \A i \in 1..Len(Ev.parties) :
       LET x == Ev.parties[i] IN
       /\ x.o \in DOMAIN party'
       /\ LET p == party'[x.o] IN
          /\ p.kind = x.kind /\ p.id = x.id /\ p.field = x.field /\ p.degree = x.degree
          \* asked for each other party, for itself, and for names
          /\ \A j \in 1..Len(x.knows) : x.knows[j][2] = (x.knows[j][1] \in DOMAIN p.auth)
          \* asked whether it takes each message
          /\ \A j \in 1..Len(x.takes) : X!Answers(party', x.o, msg'[x.takes[j][1]], x.takes[j][2])
TInit == X!Init /\ l = 1
TNext ==
  \/ IsEvent("Case") /\ msg' = <<>> /\ party' = <<>>
  \/ IsEvent("MNew") /\ X!MNew(Ev.m, Ev.data, Ev.len, Ev.type, <<>>) /\ Reads
  \/ IsEvent("MCopy") /\ X!MCopy(Ev.m, Ev.x) /\ Reads
  \/ IsEvent("MId") /\ X!MSet(Ev.m, "id", Ev.v) /\ Reads
  \/ IsEvent("MType") /\ X!MSet(Ev.m, "type", Ev.v) /\ Reads
  \/ IsEvent("MData") /\ X!MData(Ev.m, Ev.data, Ev.len) /\ Reads
  \/ IsEvent("PNew") /\ X!PNew(Ev.o, Ev.sort, Ev.kind, Ev.id, Ev.field, Ev.degree) /\ Reads
  \/ IsEvent("PSet") /\ X!PSet(Ev.o, Ev.f, Ev.v) /\ Reads
  \/ IsEvent("Auth") /\ X!PAuth(Ev.o, Ev.s) /\ Reads
  \/ IsEvent("Send") /\ X!PSend(Ev.o, Ev.s, Ev.m, Ev.ends, Ev.got, Ev.r) /\ Ev.text = Ev.said /\ Reads
  \/ IsEvent("Exit") /\ CleanExit /\ UNCHANGED st
=============================================================================
