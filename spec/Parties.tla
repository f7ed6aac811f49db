------------------------------ MODULE Parties -------------------------------
(***************************************************************************)
(* Messages and parties as they are kept: every value is the one set last, *)
(* no value depends on another one; who recognises whom; where messages go.*)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Null, AddressSize
VARIABLES
  msg,      \* message -> [id, type, data, len]
  party     \* object -> [sort, kind, id, field, degree, auth]; auth: identity -> object
vars == <<msg, party>>
Unknown == 5
Init == msg = <<>> /\ party = <<>>
Length(data, len) == IF data = Null THEN AddressSize ELSE len

\* messages
MNew(m, data, len, type, none) ==
  /\ msg' = (m :> [id |-> none, type |-> type, data |-> data, len |-> Length(data, len)]) @@ msg
  /\ UNCHANGED party
MCopy(m, x) == x \in DOMAIN msg /\ msg' = (m :> msg[x]) @@ msg /\ UNCHANGED party
MSet(m, f, v) == m \in DOMAIN msg /\ f \in {"id", "type"} /\ msg' = [msg EXCEPT ![m][f] = v] /\ UNCHANGED party
MData(m, data, len) == m \in DOMAIN msg /\ msg' = [msg EXCEPT ![m].data = data, ![m].len = Length(data, len)] /\ UNCHANGED party

\* parties
PNew(o, sort, kind, id, field, degree) ==
  /\ o \notin DOMAIN party
  /\ party' = (o :> [sort |-> sort, kind |-> kind, id |-> id, field |-> field, degree |-> degree, auth |-> <<>>]) @@ party
  /\ UNCHANGED msg
PSet(o, f, v) == o \in DOMAIN party /\ f \in {"kind", "id", "field", "degree"} /\ party' = [party EXCEPT ![o][f] = v] /\ UNCHANGED msg
\* one way, never of oneself, the last one counts for an identity
PAuth(o, s) ==
  /\ o \in DOMAIN party /\ s \in DOMAIN party
  /\ party' = IF party[s].id = party[o].id THEN party ELSE [party EXCEPT ![o].auth = (party[s].id :> s) @@ @]
  /\ UNCHANGED msg
Knows(o, id) == id \in DOMAIN party[o].auth

\* which messages a party takes: by its sort, the type of the message, the kind of the sender
ClientKind == 0
CloudKind == 1
Takes(sort, type, kind) ==
  \/ sort = "client" /\ type \in {1, 4} /\ kind = ClientKind
  \/ sort = "client" /\ type = 3 /\ kind = CloudKind
  \/ sort = "server" /\ type \in {0, 2} /\ kind = ClientKind
\* open: between clouds, and senders who changed their name since
Open(P, o, g) ==
  LET s == P[P[o].auth[g.id]] IN
  \/ s.id # g.id
  \/ P[o].sort = "server" /\ s.kind = CloudKind /\ g.type \in {0, 2, 3}
\* a party asked for a message answers with this
Answers(P, o, g, yes) ==
  IF g.id \notin DOMAIN P[o].auth THEN ~yes
  ELSE Open(P, o, g) \/ yes = Takes(P[o].sort, g.type, P[P[o].auth[g.id]].kind)

\* a message is delivered to the party that it is sent to, once, as it is; the sender sees how that ended
PSend(from, to, m, ends, deliveries, outcome) ==
  /\ from \in DOMAIN party /\ to \in DOMAIN party
  /\ IF m = Null THEN deliveries = <<>> /\ outcome = "null"
     ELSE m \in DOMAIN msg /\ deliveries = <<<<to, m>>>> /\ outcome = ends
  /\ UNCHANGED vars
=============================================================================
