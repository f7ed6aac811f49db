----------------------------- MODULE GenTables -----------------------------
(***************************************************************************)
(* Tables of a few cells with toy elements: model checked exhaustively,    *)
(* and simulated for histories to replay.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

CONSTANTS Names, Gens, Elems, Ks, Hs, Record
VARIABLES field, tab, gen, over, hist

ToyBucket(a, e, k) == (e + a) % k
ToyRand(f, m, s, pos) == 100 + pos
H == INSTANCE Tables WITH Bucket <- ToyBucket, Rand <- ToyRand

Log(r) == hist' = IF Record THEN Append(hist, r) ELSE hist
Ts == DOMAIN tab
ToyDrawn(g, c) == IF gen[g].seed = <<>> /\ c > 0 THEN <<g>> ELSE <<>>

\* When recording, the real placement is not known here: buckets have no bound
Roomy == IF Record THEN 100 ELSE 0

DNew == \E t \in Names, k \in Ks, h \in Hs, a \in {<<>>, <<0>>} : H!TNew(t, k, h + Roomy, a) /\ Log([op |-> "new", t |-> t, k |-> k, h |-> h, a |-> a])
DDel == \E t \in Ts : H!TDel(t) /\ Log([op |-> "del", t |-> t])
DAlg == \E t \in Ts, a \in {<<>>, <<1>>} : H!TAlg(t, a) /\ Log([op |-> "alg", t |-> t, a |-> a])
DAdd == \E t \in Ts, e \in Elems : H!TAdd(t, e) /\ Log([op |-> "add", t |-> t, el |-> e])
DAddTo == \E t \in Ts, e \in Elems, i \in 0..2 : H!TAddTo(t, i, e) /\ Log([op |-> "addto", t |-> t, el |-> e, i |-> i])
DList == \E t \in Ts, e \in Elems, f \in Elems : H!TList(t, <<e, f>>) /\ Log([op |-> "list", t |-> t, els |-> <<e, f>>])
DXAdd == \E t \in Ts, e \in Elems : H!XAdd(t, e) /\ Log([op |-> "x"])
DXAddTo == \E t \in Ts, i \in 0..2 : H!XAddTo(t, i) /\ Log([op |-> "x"])
DXList == \E t \in Ts, e \in Elems, f \in Elems : H!XList(t, <<e, f>>) /\ Log([op |-> "x"])
DXGet == \E t \in Ts, i \in 0..2 : H!XGet(t, i) /\ Log([op |-> "x"])
DGNew == \E g \in Gens : H!GNew(g, 0) /\ Log([op |-> "newp", g |-> g])
Count(r) == H!Sum([i \in 1..r.k |-> H!Missing(r, i)])
Filled(r, vals) ==                    \* one of the allowed orders
  FoldLeftDomain(LAMBDA acc, i: <<Append(acc[1], r.cells[i] \o SubSeq(acc[2], 1, H!Missing(r, i))), SubSeq(acc[2], H!Missing(r, i) + 1, Len(acc[2]))>>,
                 <<<<>>, vals>>, r.cells)[1]
DConceal == \E t \in Ts, g \in DOMAIN gen :
  LET d == ToyDrawn(g, Count(tab[t]))
  IN field # <<>> /\ H!TConceal(t, g, d, Filled(tab[t], H!Values(g, d, Count(tab[t])))) /\ Log([op |-> "conceal", t |-> t, g |-> g])
DObs == \E t \in Ts, k \in {"stats", "dump", "get"} : Record /\ UNCHANGED <<field, tab, gen, over>> /\ Log([op |-> k, t |-> t])

Depth == IF Record THEN atoi(IOEnv.DEPTH) ELSE 0
Done == hist' = Append(hist, [op |-> "done"]) /\ UNCHANGED <<field, tab, gen, over>>
Init == field = <<0>> /\ tab = <<>> /\ gen = <<>> /\ over = <<>> /\ hist = <<>>
Live == DNew \/ DDel \/ DAlg \/ DAdd \/ DAddTo \/ DList \/ DGNew \/ DConceal
Ends == DXAdd \/ DXAddTo \/ DXList \/ DXGet
Next == IF Record THEN (IF Len(hist) >= Depth THEN Len(hist) = Depth /\ Done ELSE Live \/ DObs) ELSE Live \/ Ends
Emit == Len(hist) = Depth + 1 => PrintT("@@" \o ToJson(SubSeq(hist, 1, Depth)))

\* Bound of the exhaustive run
Bound == \A g \in DOMAIN gen : gen[g].next <= 5

NeverOverfull == \A t \in Ts : \A i \in 1..tab[t].k : Len(tab[t].cells[i]) <= tab[t].h
IsRandom(e) == e >= 100
Reals(s) == Len(SelectSeq(s, LAMBDA e: ~IsRandom(e)))
Counted == \A t \in Ts : tab[t].n = H!Sum([i \in 1..tab[t].k |-> Reals(tab[t].cells[i])])
\* real elements come first once concealed, and marked buckets have only random cells
MarkedAreRandom == \A t \in Ts : \A i \in tab[t].marks : Reals(tab[t].cells[i]) = 0 \/ tab[t].h > Len(tab[t].cells[i])
\* no value of a generator is used twice
NoReuse == LET all == {<<t, i, c>> : t \in Ts, i \in 1..2, c \in 1..2}
               cell(x) == tab[x[1]].cells[x[2]][x[3]]
               there == {x \in all : x[2] <= tab[x[1]].k /\ x[3] <= Len(tab[x[1]].cells[x[2]])}
               rand == {x \in there : IsRandom(cell(x))}
           IN \A x, y \in rand : cell(x) = cell(y) => x = y
\* cells never disappear or move
Kept == [][\A t \in Ts : t \in DOMAIN tab' /\ tab'[t].k = tab[t].k => \A i \in 1..tab[t].k : IsPrefix(tab[t].cells[i], tab'[t].cells[i]) \/ tab'[t].n = 0]_<<tab>>
=============================================================================
