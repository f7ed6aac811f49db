--------------------------- MODULE TraceProtocol ---------------------------
(***************************************************************************)
(* Recorded histories of the protocol against the specification, with the  *)
(* exact matrices.  A matrix is kept with where it comes from:             *)
(*   k = "b": a client's, [m, roots (the buckets), sec, raw]               *)
(*   k = "t", "q": the halves, with the key and what they are made of      *)
(*   k = "x": anything else                                                *)
(* Of a large world only a view is recorded: some buckets js and points is;*)
(* the view has every bucket that has an element of some client.           *)
(***************************************************************************)
EXTENDS TraceBase, PRF, Murmur, Layout, FiniteSets
VARIABLES par,       \* with the points that follow from them
          made,      \* the matrices made so far
          party, stack, keys, over
pv == <<party, stack, keys, over>>

\* byte strings
ZeroAt(s, i) == IF \E k \in i..Len(s) : s[k] = 0 THEN CHOOSE k \in i..Len(s) : s[k] = 0 /\ \A n \in i..(k - 1) : s[n] # 0 ELSE 0
Req(s) ==
  LET z == ZeroAt(s, 1)
  IN IF z = 0 \/ Len(s) < z + 1 THEN <<>>
     ELSE <<[id |-> SubSeq(s, 1, z - 1), secret |-> FromBytes(SubSeq(s, z + 1, Len(s) - 1))]>>
KeyLen == 16
CloudReq(s) ==
  LET z == ZeroAt(s, 1)
      y == IF z = 0 THEN 0 ELSE ZeroAt(s, z + 1)
  IN IF z = 0 \/ y = 0 \/ Len(s) < y + KeyLen THEN <<>>
     ELSE <<[id |-> SubSeq(s, 1, z - 1), partner |-> SubSeq(s, z + 1, y - 1), key |-> FromBytes(SubSeq(s, y + 1, y + KeyLen))]>>
Payload(a, b, key) ==
  LET k == ToBytes(key) IN a \o <<0>> \o b \o <<0>> \o k \o [i \in 1..(KeyLen - Len(k)) |-> 0] \o <<0>>
Exact128(key) == NumBits(key) = 128
\* no third of two keys is the same
UnlikeKeys(a, b) == \A i \in 0..2 : SubSeq(a, 3 * i + 1, 3 * i + 3) # SubSeq(b, 3 * i + 1, 3 * i + 3)

----------------------------------------------------------------------------
\* w: the public parameters
FB(w) == NumBits(w.p)
\* the next pseudo-random field elements of a seed: exactly what the integer is, in the field
Elem(w, seed, pos) == Mod(PrfInt(seed, Pos(pos), FB(w)), w.p)
Points(p, is) == [i \in 1..Len(is) |-> Mod(PrfInt(<<4>>, Pos(is[i] - 1), NumBits(p)), p)]
NJ(w) == 1..Len(w.js)
NI(w) == 1..Len(w.is)
Digest(w, d) == CASE w.alg = "sha256" -> SHA256(d) [] w.alg = "murmur" -> Murmur3(d, w.seed) [] OTHER -> SHA1(d)
BucketOf(w, el) == IF w.alg = "none" THEN 0 ELSE ToInt(Mod(FromBytes(Digest(w, ToDec(el))), FromInt(w.L)))
PadOf(w, bits) == FB(w) - bits - 1

\* what a client makes of its buckets and its secret
Blinded(w, roots, sec) ==
  [j \in NJ(w) |-> [i \in NI(w) |->
     FAdd(w.p, RootsEval(w.p, roots[j], w.xs[i]), Elem(w, sec, PadAt(w.L, w.h, w.D, w.js[j], w.is[i])))]]
\* random monic polynomials of the degree of the load
OmegaA(w, key, j) == [k \in 1..w.h |-> Elem(w, key, OmegaAAt(w.L, w.h, w.D, w.js[j], k))] \o <<One>>
OmegaB(w, key, j) == [k \in 1..w.h |-> Elem(w, key, OmegaBAt(w.L, w.h, w.D, w.js[j], k))] \o <<One>>
Combined(w, key, ma, mb) ==
  [j \in NJ(w) |->
     LET oa == TLCEval(OmegaA(w, key, j)) ob == TLCEval(OmegaB(w, key, j))
     IN [i \in NI(w) |->
           FAdd(w.p, Elem(w, key, MaskAt(w.L, w.h, w.D, w.js[j], w.is[i])),
             FAdd(w.p, FMul(w.p, ma[j][i], PEval(w.p, oa, w.xs[i])), FMul(w.p, mb[j][i], PEval(w.p, ob, w.xs[i]))))]]
PadsOf(w, sec) == [j \in NJ(w) |-> [i \in NI(w) |-> Elem(w, sec, PadAt(w.L, w.h, w.D, w.js[j], w.is[i]))]]
InField(w, s) == Mod(s, w.p)
TValue(w, key, ma, mb) == [k |-> "t", m |-> Combined(w, key, ma.m, mb.m), key |-> key, A |-> ma, B |-> mb]
QValue(w, key, sa, sb) == [k |-> "q", m |-> Combined(w, key, TLCEval(PadsOf(w, InField(w, sa))), TLCEval(PadsOf(w, InField(w, sb)))),
                           key |-> key, sa |-> InField(w, sa), sb |-> InField(w, sb)]

----------------------------------------------------------------------------
\* The result of two halves
Accept(w, z) == z = Zero \/ TrailingZeros(z) >= w.pad
Elems(s) == {s[i] : i \in 1..Len(s)}
CountIn(s, v) == Len(SelectSeq(s, LAMBDA x: x = v))
SameBag(a, b) == Len(a) = Len(b) /\ \A v \in Elems(a) \cup Elems(b) : CountIn(a, v) = CountIn(b, v)
Diff(w, t, q) == [j \in NJ(w) |-> [i \in NI(w) |-> FSub(w.p, t.m[j][i], q.m[j][i])]]
SmallField(w) == FitsInt(w.p) /\ ToInt(w.p) < 300 /\ Len(w.is) = w.D /\ Len(w.js) = w.L
\* all roots of the interpolated differences, by trying every element
TriedRoots(w, t, q) ==
  LET d == Diff(w, t, q)
      per == [j \in NJ(w) |->
               LET f == TLCEval(Interpolate(w.p, w.xs, d[j]))
               IN SelectSeq([i \in 1..ToInt(w.p) |-> FromInt(i - 1)], LAMBDA z: Accept(w, z) /\ PEval(w.p, f, z) = Zero)]
      all == TLCEval(FlattenSeq(per))
  IN [i \in 1..Len(all) |-> Shr(all[i], w.pad)]
Fits(t, q) == t.k = "t" /\ q.k = "q" /\ t.A.k = "b" /\ t.B.k = "b" /\ t.key = q.key /\ t.A.sec = q.sa /\ t.B.sec = q.sb
\* roots that both buckets have
Common(w, t) ==
  LET per == [j \in NJ(w) |-> SetToSeq({z \in Elems(t.A.roots[j]) \cap Elems(t.B.roots[j]) : Accept(w, z)})]
      all == TLCEval(FlattenSeq(per))
  IN [i \in 1..Len(all) |-> Shr(all[i], w.pad)]
\* the polynomial of bucket j at z is zero
IsRootAt(w, t, j, z) ==
  FAdd(w.p, FMul(w.p, PEval(w.p, OmegaA(w, t.key, j), z), RootsEval(w.p, t.A.roots[j], z)),
            FMul(w.p, PEval(w.p, OmegaB(w, t.key, j), z), RootsEval(w.p, t.B.roots[j], z))) = Zero
Sure(w) == w.pad >= 40
ResultOf(w, t, q, r) ==
  IF SmallField(w) THEN SameBag(r, TriedRoots(w, t, q))
  ELSE IF ~Fits(t, q) THEN (Sure(w) => r = <<>>)
  ELSE LET c == TLCEval(Common(w, t))
       IN /\ \A v \in Elems(c) : CountIn(r, v) >= CountIn(c, v)
          /\ IF Sure(w) THEN Len(r) = Len(c) /\ Elems(r) = Elems(t.A.raw) \cap Elems(t.B.raw)
             ELSE \A v \in Elems(r) : CountIn(r, v) > CountIn(c, v) => \E j \in NJ(w) : IsRootAt(w, t, j, Shl(v, w.pad))

X == INSTANCE Protocol WITH ParseReq <- Req, ParseCloud <- CloudReq, CloudPayload <- Payload, GoodKey <- Exact128, Unlike <- UnlikeKeys,
                            TOf <- TValue, QOf <- QValue, Outcome <- ResultOf

----------------------------------------------------------------------------
\* The buckets: the padded elements where their digests say, in order, then fillers
Padded(raw, pad) == [i \in 1..Len(raw) |-> Mod(Shl(raw[i], pad), par.p)]
Placed(els) == [j \in NJ(par) |-> SelectSeq(els, LAMBDA x: x[1] = par.js[j] - 1)]
InView(els) == \A i \in 1..Len(els) : \E j \in NJ(par) : par.js[j] = els[i][1] + 1
WithBuckets(els) == [i \in 1..Len(els) |-> <<BucketOf(par, els[i]), els[i]>>]
Fit(b) == \A j \in NJ(par) : Len(b[j]) <= par.h

\* what the driver saw of the table
CellsOk(els, b, cells) ==
  /\ Assert(InView(els), "an element outside of the view")
  /\ Fit(b)
  /\ Len(cells) = Len(par.js)
  /\ \A j \in NJ(par) : Len(cells[j]) = par.h /\ \A i \in 1..Len(b[j]) : cells[j][i] = b[j][i][2]
  /\ \A j \in NJ(par) : \A i \in 1..par.h : Less(cells[j][i], par.p)
DataOk ==
  \E pad \in {PadOf(par, Ev.bits)} : \E els \in {WithBuckets(Padded(Ev.raw, pad))} : \E b \in {Placed(els)} :
     /\ CellsOk(els, b, Ev.cells) = TRUE
     /\ \E sec \in {InField(par, party[Ev.o].secret)} :
        \E v \in {[k |-> "b", m |-> Blinded(par, Ev.cells, sec), roots |-> Ev.cells, sec |-> sec, raw |-> Ev.raw]} :
           /\ X!PData(Ev.o, v)
           /\ v.m = Ev.rows
           /\ made' = Append(made, v)
     /\ par' = IF par.pad = -1 THEN [par EXCEPT !.pad = pad] ELSE par
     /\ par'.pad = pad
     /\ Ev.size = par.L * par.D /\ Ev.raws = Len(Ev.raw)
DataTooMuch(e) ==
  /\ e.raw # <<>>
  /\ party[e.o].data # <<>> \/ ~Fit(TLCEval(Placed(TLCEval(WithBuckets(Padded(e.raw, PadOf(par, e.bits)))))))

\* where a matrix from outside comes from
Origin(rows) ==
  IF \E i \in 1..Len(made) : made[i].m = rows THEN made[CHOOSE i \in 1..Len(made) : made[i].m = rows]
  ELSE [k |-> "x", m |-> rows]
Content == CASE Ev.c = "null" -> <<>> [] Ev.c = "bytes" -> <<Ev.b>> [] Ev.c = "rows" -> <<Origin(Ev.rows)>>

Arrives ==
  IF Ev.top
  THEN /\ X!PDeliver(Ev.o, Ev.type, Ev.from, Content) /\ UNCHANGED made
  ELSE /\ \/ Ev.type = 2 /\ Ev.c = "bytes" /\ X!PAskCloud(Ev.o, <<Ev.b>>) /\ UNCHANGED made
          \/ Ev.type = 3 /\ Ev.c = "rows" /\ X!PSendT(Ev.o) /\ Last(stack').c[1].m = Ev.rows /\ made' = Append(made, Last(stack').c[1])
          \/ Ev.type = 4 /\ Ev.c = "rows" /\ X!PSendQ(Ev.o) /\ Last(stack').c[1].m = Ev.rows /\ made' = Append(made, Last(stack').c[1])
       /\ Last(stack').from = Ev.from

\* the way out that the next Sent line must tell
SentAs == Ev.r = (IF Trace[l - 1].ok THEN "ok" ELSE "refused")

None == [p |-> <<>>, L |-> 0, h |-> 0, D |-> 0, alg |-> "", seed |-> <<>>, xs |-> <<>>, js |-> <<>>, is |-> <<>>, pad |-> -1]
TInit == X!PInit /\ par = None /\ made = <<>> /\ l = 1
Keep == UNCHANGED <<par, made>>
TNext ==
  \/ IsEvent("Case") /\ par' = None /\ made' = <<>> /\ party' = <<>> /\ stack' = <<>> /\ over' = <<>> /\ UNCHANGED keys
  \/ IsEvent("Ctx")  /\ par' = [p |-> Ev.p, L |-> Ev.L, h |-> Ev.h, D |-> Ev.D, alg |-> Ev.alg, seed |-> Ev.seed, js |-> Ev.js, is |-> Ev.is, xs |-> Points(Ev.p, Ev.is), pad |-> -1]
                     /\ UNCHANGED <<made, pv>>
  \/ IsEvent("Client") /\ X!PNew(Ev.o, "client", Ev.id, IF Ev.how = "zz" THEN Ev.secret ELSE FromBytes(Ev.secret)) /\ Keep
  \/ IsEvent("Server") /\ X!PNew(Ev.o, "server", Ev.id, <<>>) /\ Keep
  \/ IsEvent("Move")   /\ X!Idle /\ party[Ev.o].kind = "server" /\ UNCHANGED <<par, made, pv>>
  \/ IsEvent("Drop")   /\ LET os == Elems(Ev.os) IN Assert(X!Unreferred(os), "a client that others refer to") /\ X!PDrop(os) /\ Keep
  \/ IsEvent("Auth")   /\ X!PAuth(Ev.o, Ev.s) /\ Keep
  \/ IsEvent("Knows")  /\ X!PKnows(Ev.o, Ev.id, Ev.r) /\ Keep
  \/ IsEvent("SetId")  /\ X!PSetId(Ev.o, Ev.id) /\ Keep
  \/ IsEvent("Secret") /\ X!PSecret(Ev.o, Ev.secret) /\ Keep
  \/ IsEvent("Data")   /\ Ev.raw # <<>> /\ DataOk
  \/ IsEvent("Data")   /\ Ev.raw = <<>> /\ X!PNoData(Ev.o) /\ Keep /\ Ev.size = par.L * par.D
  \/ IsEvent("Ask")    /\ X!PAsk(Ev.o, Ev.type, Ev.from, Ev.r) /\ Keep
  \/ IsEvent("AskNull") /\ ~Ev.r /\ UNCHANGED <<par, made, pv>>
  \/ IsEvent("SendNull") /\ Ev.r = "refused" /\ UNCHANGED <<par, made, pv>>
  \/ IsEvent("In")     /\ Arrives /\ UNCHANGED par
  \/ IsEvent("Out")    /\ Ev.ok /\ X!PReturn(Ev.o, Ev.cap) /\ Keep
  \/ IsEvent("Out")    /\ ~Ev.ok /\ X!PRefuse(Ev.o, Ev.cap) /\ Keep
  \/ IsEvent("Sent")   /\ SentAs /\ stack = <<>> /\ UNCHANGED <<par, made, pv>>
  \/ IsEvent("Look")   /\ X!PLook(Ev.o, Ev.cap, Ev.secret) /\ Ev.same /\ Ev.size = par.L * par.D
                       /\ Ev.raws = (IF party[Ev.o].data = <<>> THEN 0 ELSE Len(party[Ev.o].data[1].raw)) /\ Keep
  \/ IsEvent("Exit")   /\ Keep /\ Ev.sig = 0
                       /\ \/ CleanExit /\ stack = <<>> /\ UNCHANGED pv
                          \/ Ev.op.e = "Data" /\ Ev.code = 1 /\ DataTooMuch(Ev.op) /\ X!PEnds(1)
                          \/ X!PExit(Ev.code)
=============================================================================
