------------------------------ MODULE Protocol ------------------------------
(***************************************************************************)
(* Clients and clouds that exchange messages.  Deliveries are calls: a     *)
(* message is received, the receiver may send others before it returns,    *)
(* and it returns normally or refuses with a protocol error, which the     *)
(* sender sees.  Objects (o, s) are told apart from the identities that    *)
(* they have and that messages claim.                                      *)
(*                                                                         *)
(*   requester                delegate                 cloud               *)
(*      | -- request(secret) --> |                                         *)
(*      |                        | -- request(key) ----> |                 *)
(*      | <------------------------------ t(key, A, B) - |                 *)
(*      | <-- q(key, sA, sB) --- |                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

CONSTANTS
  ParseReq(_),           \* request to a client: <<>> or <<[id, secret]>>
  ParseCloud(_),         \* request to a cloud: <<>> or <<[id, partner, key]>>
  CloudPayload(_, _, _), \* its content for two identities and a key
  GoodKey(_),            \* has a key the right size?
  Unlike(_, _),          \* are two keys unrelated?
  TOf(_, _, _, _),       \* the cloud's half: parameters, key, matrix of the delegate, matrix of the requester
  QOf(_, _, _, _),       \* the client's half: parameters, key, secret of the delegate, secret of the requester
  Outcome(_, _, _, _)    \* parameters; may two halves t, q give the result r?

VARIABLES
  par,       \* the public parameters, the same for all
  party,     \* object -> [kind, id, auth, secret, data, t, q, cap, store]
  stack,     \* deliveries in progress, the last one innermost
  keys,      \* the keys drawn so far
  over       \* <<>>, or the exit status of the program
pvars == <<par, party, stack, keys, over>>

Outsourcing == 0
ClientRequest == 1
CloudRequest == 2
OutputT == 3
PolynomialQ == 4

PInit == party = <<>> /\ stack = <<>> /\ keys = <<>> /\ over = <<>>
On == over = <<>>
Has(o) == o \in DOMAIN party
Idle == On /\ stack = <<>>
Servers == {o \in DOMAIN party : party[o].kind = "server"}

PNew(o, kind, id, secret) ==
  /\ Idle /\ ~Has(o)
  /\ party' = (o :> [kind |-> kind, id |-> id, auth |-> <<>>, secret |-> secret, data |-> <<>>, t |-> <<>>, q |-> <<>>,
                     cap |-> <<>>, store |-> <<>>]) @@ party
  /\ UNCHANGED <<stack, keys, over>>

\* one way, never of oneself, the last one for an identity counts
PAuth(o, s) ==
  /\ Idle /\ Has(o) /\ Has(s)
  /\ party' = IF party[s].id = party[o].id THEN party ELSE [party EXCEPT ![o].auth = (party[s].id :> s) @@ @]
  /\ UNCHANGED <<stack, keys, over>>
Knows(o, id) == id \in DOMAIN party[o].auth
PKnows(o, id, answer) == Idle /\ Has(o) /\ answer = Knows(o, id) /\ UNCHANGED pvars

\* the matrix that a client makes of its set and keeps
PData(o, value) ==
  /\ Idle /\ Has(o) /\ party[o].kind = "client" /\ party[o].data = <<>>
  /\ party' = [party EXCEPT ![o].data = <<value>>]
  /\ UNCHANGED <<stack, keys, over>>
PNoData(o) == Idle /\ Has(o) /\ UNCHANGED pvars
PEnds(code) == Idle /\ over' = <<code>> /\ UNCHANGED <<party, stack, keys>>
PSecret(o, s) == Idle /\ Has(o) /\ party' = [party EXCEPT ![o].secret = s] /\ UNCHANGED <<stack, keys, over>>
PSetId(o, id) == Idle /\ Has(o) /\ party' = [party EXCEPT ![o].id = id] /\ UNCHANGED <<stack, keys, over>>
\* clients go; none of the others refers to them
Unreferred(os) == \A y \in DOMAIN party \ os : \A x \in DOMAIN party[y].auth : party[y].auth[x] \notin os
PDrop(os) ==
  /\ Idle /\ os \subseteq DOMAIN party /\ (\A o \in os : party[o].kind = "client") /\ Unreferred(os)
  /\ party' = [x \in DOMAIN party \ os |-> party[x]]
  /\ UNCHANGED <<stack, keys, over>>

----------------------------------------------------------------------------
\* The object behind a claimed sender; known under its present name too
SenderOf(o, from) == party[o].auth[from]
KnownSender(o, from) == from # party[o].id /\ Knows(o, from) /\ Knows(o, party[SenderOf(o, from)].id)
KindOf(o, from) == party[SenderOf(o, from)].kind

\* may a party of this kind send this to a party of that kind
May(kind, type, to) ==
  CASE to = "client" -> (type \in {ClientRequest, PolynomialQ} /\ kind = "client") \/ (type = OutputT /\ kind = "server")
    [] to = "server" -> type \in {CloudRequest, Outsourcing} /\ kind = "client"
    [] OTHER -> FALSE
\* the question whether a message is authorised: between clouds the answer is left open,
\* since they know of such messages but serve none
PAsk(o, type, from, answer) ==
  /\ Idle /\ Has(o)
  /\ LET known == Knows(o, from) /\ Knows(o, party[SenderOf(o, from)].id)
     IN IF ~known THEN ~answer
        ELSE IF party[o].kind = "server" /\ KindOf(o, from) = "server" THEN answer \in BOOLEAN
        ELSE answer = May(KindOf(o, from), type, party[o].kind)
  /\ UNCHANGED pvars

Allowed(o, type, from, c) == KnownSender(o, from) /\ May(KindOf(o, from), type, party[o].kind) /\ c # <<>>

\* What the receiver does first: refuse, return, send something, or end the program
Start(o, type, from, c) ==
  IF ~Allowed(o, type, from, c) THEN "refuse"
  ELSE LET name == party[SenderOf(o, from)].id
       IN CASE type = ClientRequest ->
                 LET r == ParseReq(c[1])
                 IN IF r = <<>> THEN "refuse" ELSE IF r[1].id # name THEN "refuse"
                    ELSE IF \E x \in DOMAIN party[o].auth : party[party[o].auth[x]].kind = "server" THEN "ask the cloud" ELSE "exit"
            [] type = CloudRequest ->
                 LET r == ParseCloud(c[1])
                 IN IF r = <<>> THEN "refuse"
                    ELSE IF r[1].id # name \/ ~Knows(o, r[1].partner) THEN "refuse"
                    ELSE IF name \notin DOMAIN party[o].store \/ r[1].partner \notin DOMAIN party[o].store THEN "refuse"
                    ELSE "send the half"
            \* without a set of its own a client can make nothing of a half
            [] type \in {OutputT, PolynomialQ} -> IF party[o].data = <<>> THEN "refuse" ELSE "return"
            [] OTHER -> "return"
Frame(o, type, from, c, key) == [o |-> o, type |-> type, from |-> from, c |-> c, pc |-> Start(o, type, from, c), key |-> key]
Top == stack[Len(stack)]
WithTop(f) == [stack EXCEPT ![Len(stack)] = f]

\* A message arrives from outside
PDeliver(o, type, from, c) ==
  /\ Idle /\ Has(o)
  /\ stack' = <<Frame(o, type, from, c, <<>>)>>
  /\ UNCHANGED <<party, keys, over>>

\* The delegated client asks one of its clouds, with a new key
PAskCloud(o, c) ==
  /\ On /\ stack # <<>> /\ Top.pc = "ask the cloud"
  /\ \E x \in DOMAIN party[Top.o].auth : party[Top.o].auth[x] = o
  /\ Has(o) /\ party[o].kind = "server"
  /\ c # <<>> /\ ParseCloud(c[1]) # <<>>
  /\ \E key \in {ParseCloud(c[1])[1].key} :
        /\ c[1] = CloudPayload(party[Top.o].id, party[SenderOf(Top.o, Top.from)].id, key)
        /\ GoodKey(key) /\ \A i \in 1..Len(keys) : Unlike(key, keys[i])
        /\ keys' = Append(keys, key)
        /\ stack' = Append(WithTop([Top EXCEPT !.pc = "asking the cloud", !.key = key]),
                           Frame(o, CloudRequest, party[Top.o].id, c, <<>>))
  /\ UNCHANGED <<party, over>>

\* The cloud answers to the partner
PSendT(o) ==
  /\ On /\ stack # <<>> /\ Top.pc = "send the half"
  /\ LET r == ParseCloud(Top.c[1])[1]
         name == party[SenderOf(Top.o, Top.from)].id
         st == party[Top.o].store
     IN /\ o = party[Top.o].auth[r.partner]
        /\ stack' = Append(WithTop([Top EXCEPT !.pc = "sending the half"]),
                           Frame(o, OutputT, party[Top.o].id, <<TOf(par, r.key, st[name], st[r.partner])>>, <<>>))
  /\ UNCHANGED <<party, keys, over>>

\* The delegated client sends its half to the requester
PSendQ(o) ==
  /\ On /\ stack # <<>> /\ Top.pc = "send the other half"
  /\ o = SenderOf(Top.o, Top.from)
  /\ stack' = Append(WithTop([Top EXCEPT !.pc = "sending the other half"]),
                     Frame(o, PolynomialQ, party[Top.o].id, <<QOf(par, Top.key, party[Top.o].secret, ParseReq(Top.c[1])[1].secret)>>, <<>>))
  /\ UNCHANGED <<party, keys, over>>

\* the caller goes on
Resumed(f, ok) ==
  [f EXCEPT !.pc = CASE f.pc = "asking the cloud" -> IF ok THEN "send the other half" ELSE "exit"
                     [] OTHER -> IF ok THEN "return" ELSE "refuse"]
Return(ok) ==
  LET n == Len(stack) - 1
      s == SubSeq(stack, 1, n)
  IN stack' = IF n = 0 THEN <<>> ELSE [s EXCEPT ![n] = Resumed(@, ok)]

\* A refused message leaves no trace
PRefuse(o, cap) ==
  /\ On /\ stack # <<>> /\ Top.o = o /\ Top.pc = "refuse"
  /\ cap = party[o].cap
  /\ Return(FALSE)
  /\ UNCHANGED <<party, keys, over>>

\* A served one has its effect, of which only the receiver's result can be seen
PReturn(o, cap) ==
  /\ On /\ stack # <<>> /\ Top.o = o /\ Top.pc = "return"
  /\ LET f == Top
         me == party[o]
         t == IF f.type = OutputT THEN f.c ELSE me.t
         q == IF f.type = PolynomialQ THEN f.c ELSE me.q
     IN IF f.type \in {OutputT, PolynomialQ} /\ t # <<>> /\ q # <<>>
        THEN /\ Outcome(par, t[1], q[1], cap) = TRUE
             /\ party' = [party EXCEPT ![o].t = <<>>, ![o].q = <<>>, ![o].cap = cap]
        ELSE /\ cap = me.cap
             /\ party' = [party EXCEPT ![o].t = t, ![o].q = q,
                            ![o].store = IF f.type = Outsourcing THEN (party[SenderOf(o, f.from)].id :> f.c[1]) @@ @ ELSE @]
  /\ Return(TRUE)
  /\ UNCHANGED <<keys, over>>

\* Asked to compute without any cloud, or refused by it
PExit(code) ==
  /\ On /\ stack # <<>> /\ Top.pc = "exit" /\ code = 2
  /\ over' = <<code>>
  /\ UNCHANGED <<party, stack, keys>>

\* What can be seen of a client
PLook(o, cap, secret) ==
  Idle /\ Has(o) /\ cap = party[o].cap /\ secret = party[o].secret /\ UNCHANGED pvars
=============================================================================
