---------------------------- MODULE GenProtocol ----------------------------
(***************************************************************************)
(* All small worlds of clients and clouds, with symbolic sets, secrets and *)
(* keys, and an environment that outsources, requests, authenticates,      *)
(* changes secrets and identities and injects any other message.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
CONSTANTS Clients, Clouds,   \* objects
          Twin,              \* a client object with the identity of another one, or ""
          TwinOf,
          Sets,              \* what clients may have
          AuthMode,          \* "all", "any": the relation in the beginning
          Junk,              \* kinds of other messages from outside: subset of {"forged", "malformed", "stray"}
          Changes,           \* may authentications, secrets and identities change: subset of {"auth", "secret", "id"}
          MaxOps, Record
VARIABLES par, party, stack, keys, over, hist, n, seen, latest
KOf(m, f) == m.k = f
Req(c) == IF c.k = "req" /\ c.full THEN <<c>> ELSE <<>>
CReq(c) == IF c.k = "creq" /\ c.full THEN <<c>> ELSE <<>>
Payload(a, b, key) == [k |-> "creq", id |-> a, partner |-> b, key |-> key, full |-> TRUE]
T(w, key, ma, mb) == [k |-> "t", key |-> key, A |-> ma, B |-> mb]
Q(w, key, sa, sb) == [k |-> "q", key |-> key, sa |-> sa, sb |-> sb]
Match(t, q) == t.k = "t" /\ q.k = "q" /\ t.key = q.key /\ t.A.k = "b" /\ t.B.k = "b" /\ t.A.sec = q.sa /\ t.B.sec = q.sb
Result(t, q) == IF t.k = "t" /\ q.k = "q" /\ t.key = q.key
                THEN (IF t.A.k = "b" /\ t.B.k = "b" THEN (IF Match(t, q) THEN t.A.set \cap t.B.set ELSE {}) ELSE {}) ELSE {}
Out(w, t, q, r) == r = Result(t, q)
Whatever(k) == TRUE
Differ(a, b) == a # b
X == INSTANCE Protocol WITH ParseReq <- Req, ParseCloud <- CReq, CloudPayload <- Payload, GoodKey <- Whatever, Unlike <- Differ,
                            TOf <- T, QOf <- Q, Outcome <- Out
pv == <<par, party, stack, keys, over>>

Objects == Clients \cup Clouds
IdOf(o) == IF o = Twin THEN TwinOf ELSE o
Ids == {IdOf(o) : o \in Objects}
Fresh(o) == [kind |-> IF o \in Clouds THEN "server" ELSE "client", id |-> IdOf(o), auth |-> <<>>,
             secret |-> IF o \in Clouds THEN <<>> ELSE <<o, 0>>, data |-> <<>>, t |-> <<>>, q |-> <<>>, cap |-> {}, store |-> <<>>]
Relation(o, others) == [x \in {IdOf(y) : y \in others} |-> CHOOSE y \in others : IdOf(y) = x]
Others(o) == {y \in Objects : IdOf(y) # IdOf(o)}
\* in the beginning the twin is not known to anyone
Apart(o) == {y \in Others(o) : y # Twin}
Worlds == IF AuthMode = "any" THEN {r \in [Objects -> SUBSET Objects] : \A o \in Objects : r[o] \subseteq Apart(o)} ELSE {[o \in Objects |-> Apart(o)]}
World(r) == [o \in Objects |-> [Fresh(o) EXCEPT !.auth = Relation(o, r[o])]]
Init ==
  /\ \E r \in Worlds : party = World(r)
  /\ par = <<>> /\ stack = <<>> /\ keys = <<>> /\ over = <<>> /\ n = 0
  /\ seen = [o \in Objects |-> {}] /\ latest = <<>> /\ hist = <<>>
\* for histories: a world in which now and then someone does not know another one
SomeWorld ==
  /\ party' = World([o \in Objects |-> {y \in Apart(o) : AuthMode = "all" \/ RandomElement(1..9) # 1}])
  /\ hist' = <<[op |-> "world", auth |-> [o \in Objects |-> {<<x, party'[o].auth[x]>> : x \in DOMAIN party'[o].auth}]]>>
  /\ UNCHANGED <<par, stack, keys, over, n, seen, latest>>

Depth == atoi(IOEnv.DEPTH)
Log(r) == hist' = IF Record THEN Append(hist, r) ELSE hist
Own == n < MaxOps /\ n' = n + 1 /\ UNCHANGED <<seen, latest>>
Matrix(o) == party[o].data[1]
WithData == {o \in Clients : party[o].data # <<>>}

DoData == \E o \in Clients, s \in Sets : Own /\ X!PData(o, [k |-> "b", o |-> o, set |-> s, sec |-> party[o].secret]) /\ UNCHANGED par
             /\ Log([op |-> "data", o |-> o, s |-> SetToSeq(s)])
DoOutsource == \E o \in WithData, s \in Clouds :
             Own /\ X!PDeliver(s, 0, party[o].id, <<Matrix(o)>>) /\ UNCHANGED par /\ Log([op |-> "out", o |-> o, s |-> s])
\* would this request end the program?  (only looked at to make long histories)
CloudsOf(d) == {party[d].auth[i] : i \in {i \in DOMAIN party[d].auth : party[party[d].auth[i]].kind = "server"}}
Fatal(d, from, c) ==
  /\ X!Start(d, 1, from, c) = "ask the cloud"
  /\ LET name == party[X!SenderOf(d, from)].id IN
     \E s \in CloudsOf(d) :
       \/ X!Start(s, 2, party[d].id, <<Payload(party[d].id, name, 0)>>) # "send the half"
       \/ X!Start(party[s].auth[name], 3, party[s].id, <<0>>) # "return"
Careful(d, type, from, c) == (Record /\ type = 1 /\ n + 2 < Depth) => (~Fatal(d, from, c) /\ X!Start(d, 1, from, c) # "exit")
DoRequest == \E o \in Clients, d \in Clients :
             /\ o # d /\ Own
             /\ Careful(d, 1, party[o].id, <<[k |-> "req", id |-> party[o].id, secret |-> party[o].secret, full |-> TRUE]>>)
             /\ X!PDeliver(d, 1, party[o].id, <<[k |-> "req", id |-> party[o].id, secret |-> party[o].secret, full |-> TRUE]>>)
             /\ UNCHANGED par /\ Log([op |-> "req", o |-> o, d |-> d])
DoAuth == "auth" \in Changes /\ \E o, s \in Objects : Own /\ o # s /\ X!PAuth(o, s) /\ UNCHANGED par /\ Log([op |-> "auth", o |-> o, s |-> s])
DoSecret == "secret" \in Changes /\ \E o \in Clients : Own /\ X!PSecret(o, <<o, n>>) /\ UNCHANGED par /\ Log([op |-> "secret", o |-> o])
DoId == "id" \in Changes /\ \E o \in Objects, i \in Ids : Own /\ X!PSetId(o, i) /\ UNCHANGED par /\ Log([op |-> "id", o |-> o, id |-> i])

\* other messages: forged (honest content under another name or of another type, or from nobody),
\* malformed (no content, broken content), stray (halves from nowhere)
Requests == {<<[k |-> "req", id |-> i, secret |-> <<"?", 0>>, full |-> f]>> : i \in Ids \cup {"nobody"}, f \in BOOLEAN}
CloudRequests == {<<[k |-> "creq", id |-> i, partner |-> j, key |-> 0 - 1, full |-> f]>> : i \in Ids, j \in Ids \cup {"nobody"}, f \in BOOLEAN}
ContentsOf(type) == {<<>>} \cup (CASE type = 0 -> {<<Matrix(o)>> : o \in WithData}
                                   [] type = 1 -> Requests
                                   [] type = 2 -> CloudRequests
                                   [] OTHER -> {<<[k |-> "half"]>>})
KindOfContent(c) == IF c = <<>> THEN "null" ELSE c[1].k
Shape(o, type, from, c) ==
  CASE c = <<>> -> "malformed"
    [] type \in {1, 2} -> IF c[1].full THEN "forged" ELSE "malformed"
    \* a half that would be served is a stray one
    [] type \in {3, 4} -> IF X!Allowed(o, type, from, c) THEN "stray" ELSE "forged"
    [] OTHER -> "forged"
DoJunk == \E o \in Objects, type \in 0..5, from \in Ids \cup {"nobody"} : \E c \in ContentsOf(type) :
             /\ Shape(o, type, from, c) \in Junk
             /\ Own /\ Careful(o, type, from, c) /\ X!PDeliver(o, type, from, c) /\ UNCHANGED par
             /\ Log([op |-> "junk", o |-> o, type |-> type, from |-> from, k |-> KindOfContent(c),
                     c |-> IF c = <<>> THEN [x |-> 0] ELSE IF c[1].k = "b" THEN [o |-> c[1].o] ELSE c[1]])

\* deliveries
Saw == seen' = IF Record THEN seen ELSE LET f == stack'[Len(stack')] IN [seen EXCEPT ![f.o] = @ \cup {f.c[1]}]
Stay == n' = n /\ hist' = hist /\ UNCHANGED par
DoAskCloud == \E o \in Clouds : Stay /\ latest' = latest
                /\ stack # <<>> /\ X!PAskCloud(o, <<Payload(party[X!Top.o].id, party[X!SenderOf(X!Top.o, X!Top.from)].id, Len(keys) + 1)>>) /\ Saw
DoSendT == \E o \in Objects : Stay /\ latest' = latest /\ X!PSendT(o) /\ Saw
DoSendQ == \E o \in Objects : Stay /\ latest' = latest /\ X!PSendQ(o) /\ Saw
DoRefuse == stack # <<>> /\ Stay /\ UNCHANGED <<latest, seen>> /\ X!PRefuse(X!Top.o, party[X!Top.o].cap)
\* what each cloud was given last under each name
DoReturn == /\ stack # <<>> /\ Stay /\ UNCHANGED seen
            /\ LET f == X!Top  me == party[f.o]
                   t == IF f.type = 3 THEN f.c ELSE me.t
                   q == IF f.type = 4 THEN f.c ELSE me.q
               IN /\ X!PReturn(f.o, IF f.type \in {3, 4} /\ t # <<>> /\ q # <<>> THEN Result(t[1], q[1]) ELSE me.cap)
                  /\ latest' = IF f.type = 0 THEN (<<f.o, party[X!SenderOf(f.o, f.from)].id>> :> f.c[1]) @@ latest ELSE latest
DoExit == Stay /\ UNCHANGED <<latest, seen>> /\ X!PExit(2)
Deliver == DoAskCloud \/ DoSendT \/ DoSendQ \/ DoRefuse \/ DoReturn \/ DoExit

Live == DoData \/ DoOutsource \/ DoRequest \/ DoAuth \/ DoSecret \/ DoId \/ DoJunk \/ Deliver
\* for histories: the ones where something happens
Outsourced(o) == {s \in Clouds : party[o].id \in DOMAIN party[s].store}
LiveR == IF hist = <<>> THEN SomeWorld ELSE IF stack # <<>> THEN Deliver
         ELSE CASE Cardinality(WithData) < 2 -> DoData
                [] n % 11 = 5 /\ Changes # {} -> DoAuth \/ DoSecret \/ DoId
                [] n % 5 = 3 /\ Junk # {} -> DoJunk
                [] n % 4 = 0 \/ n < 5 -> DoOutsource
                [] n % 7 = 6 /\ Cardinality(WithData) < 3 -> DoData
                [] ENABLED DoRequest -> DoRequest
                [] OTHER -> DoOutsource \/ DoAuth
Next == IF Record THEN (IF over # <<>> \/ (n >= Depth /\ stack = <<>>) THEN n < 1000 /\ n' = 1000 /\ UNCHANGED <<pv, hist, seen, latest>> ELSE LiveR) ELSE Live
Emit == n = 1000 => PrintT("@@" \o ToJson([h |-> hist, over |-> over]))
vars == <<pv, hist, n, seen, latest>>

----------------------------------------------------------------------------
\* Without halves from nowhere:
\* every completed computation is the one that the two clients asked for
Honest == "stray" \notin Junk
Done2(f) == f.type = 4 /\ Len(stack) >= 2 /\ stack[Len(stack) - 1].pc = "sending the other half"
\* the cloud's half came in the same run and was made of what the cloud had at that moment (nothing is stored during a run)
RightResult ==
  [][ (stack # <<>> /\ Len(stack') < Len(stack)) =>
      LET f == stack[Len(stack)] IN
      (Done2(f) /\ f.pc = "return") =>
         LET d == stack[Len(stack) - 1].o
             a == f.o
         \* where the cloud takes the name for the same party
         IN \E s \in Clouds : (X!Knows(s, party[a].id) /\ party[s].auth[party[a].id] = a) =>
              /\ <<s, party[d].id>> \in DOMAIN latest /\ <<s, party[a].id>> \in DOMAIN latest
              /\ LET A == latest[<<s, party[d].id>>]  B == latest[<<s, party[a].id>>]
                     sa == party[d].secret  sb == Req(stack[Len(stack) - 1].c[1])[1].secret
                 IN party'[a].cap = IF A.k = "b" /\ B.k = "b" THEN (IF A.sec = sa /\ B.sec = sb THEN A.set \cap B.set ELSE {}) ELSE {}
    ]_vars
\* if all is as it should be, the result is the intersection of the two sets
HonestRun ==
  [][ (stack # <<>> /\ Len(stack') < Len(stack)) =>
      LET f == stack[Len(stack)] IN
      (Done2(f) /\ f.pc = "return") =>
         LET d == stack[Len(stack) - 1].o
             a == f.o
         IN (Req(stack[Len(stack) - 1].c[1])[1].secret = party[a].secret /\ party[a].data # <<>> /\ party[d].data # <<>> /\ Cardinality(Clouds) = 1
             /\ \A s \in Clouds : /\ X!Knows(s, party[a].id) /\ party[s].auth[party[a].id] = a
                                  /\ <<s, party[d].id>> \in DOMAIN latest /\ latest[<<s, party[d].id>>] = Matrix(d)
                                  /\ <<s, party[a].id>> \in DOMAIN latest /\ latest[<<s, party[a].id>>] = Matrix(a)
             /\ Matrix(d).sec = party[d].secret /\ Matrix(a).sec = party[a].secret)
            => party'[a].cap = Matrix(d).set \cap Matrix(a).set
    ]_vars
\* only the receiver of a half gets a new result
OnlyRequester == [][\A o \in Objects : party'[o].cap # party[o].cap => X!Top.o = o /\ X!Top.type \in {3, 4} /\ X!Top.pc = "return"]_vars
\* during a run nothing changes but halves and results
RunsKeepTheRest == [][stack # <<>> /\ stack[1].type # 0 => \A o \in Objects : [party'[o] EXCEPT !.t = <<>>, !.q = <<>>, !.cap = {}] = [party[o] EXCEPT !.t = <<>>, !.q = <<>>, !.cap = {}]]_vars
RefusedForNothing == [][(stack # <<>> /\ stack[1].pc = "refuse" /\ Len(stack) = 1) => (stack' = <<>> \/ stack' = stack) /\ party' = party]_vars
\* what is sent to whom
Parties(kind) == {o \in Objects : party[o].kind = kind}
Secrecy == /\ \A o \in Parties("client") : \A c \in seen[o] : c.k \in {"t", "q"}
           /\ \A o \in Parties("server") : \A c \in seen[o] : c.k = "creq"
\* one who is not the delegate of the run never holds its key
KeysFresh == \A i, j \in 1..Len(keys) : i # j => keys[i] # keys[j]
Latest == \A s \in Clouds : \A i \in DOMAIN party[s].store : party[s].store[i] = latest[<<s, i>>]
NoHalfLeft == (Honest /\ stack = <<>>) => \A o \in Clients : party[o].q = <<>>
Ended == over = <<>> \/ over = <<2>>
=============================================================================
