------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Hash tables of buckets with a maximum load, and their concealing.       *)
(*                                                                         *)
(* A table: k buckets of at most h cells, an algorithm (<<>>: none), the   *)
(* cells, the marked buckets and the number of elements added.  Buckets    *)
(* are counted from 1 here and from 0 in the interface.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS Bucket(_, _, _),   \* 0-based bucket of an element: algorithm, element, buckets
          Rand(_, _, _, _)   \* element of a generator: field, modulus, seed, position

VARIABLES field,             \* <<>> or <<p>>
          tab,               \* name -> table
          gen,               \* name -> [m, seed, next]
          over               \* <<>>, or the code the program ended with
tvars == <<field, tab, gen, over>>

HInit == field = <<>> /\ tab = <<>> /\ gen = <<>> /\ over = <<>>

On == over = <<>>
Has(t) == t \in DOMAIN tab

SetField(p) == On /\ field' = <<p>> /\ UNCHANGED <<tab, gen, over>>

TNew(t, k, h, alg) ==
  /\ On /\ ~Has(t) /\ k > 0
  /\ tab' = (t :> [k |-> k, h |-> h, alg |-> alg, cells |-> [i \in 1..k |-> <<>>], marks |-> {}, n |-> 0]) @@ tab
  /\ UNCHANGED <<field, gen, over>>
TDel(t) == On /\ Has(t) /\ tab' = [x \in DOMAIN tab \ {t} |-> tab[x]] /\ UNCHANGED <<field, gen, over>>
\* a missing algorithm changes nothing
TAlg(t, alg) == On /\ Has(t) /\ tab' = (IF alg = <<>> THEN tab ELSE [tab EXCEPT ![t].alg = alg]) /\ UNCHANGED <<field, gen, over>>

Room(r, i) == i \in 1..r.k /\ Len(r.cells[i]) < r.h
Place(r, i, el) == [r EXCEPT !.cells[i] = Append(@, el), !.n = @ + 1]
Index(r, el) == IF r.alg = <<>> THEN 1 ELSE Bucket(r.alg[1], el, r.k) + 1

\* i is 0-based, and -1 for what is beyond every table
TAddTo(t, i, el) == On /\ Has(t) /\ Room(tab[t], i + 1) /\ tab' = [tab EXCEPT ![t] = Place(@, i + 1, el)] /\ UNCHANGED <<field, gen, over>>
TAdd(t, el) == On /\ Has(t) /\ (\E i \in {Index(tab[t], el)} : Room(tab[t], i) /\ tab' = [tab EXCEPT ![t] = Place(@, i, el)]) /\ UNCHANGED <<field, gen, over>>

\* elements one after the other, until one has no room: <<table, all done>>
AddSome(r, els) ==
  IF r.alg = <<>> THEN    \* all of them go to the first bucket
    LET n == IF Len(els) < r.h - Len(r.cells[1]) THEN Len(els) ELSE r.h - Len(r.cells[1])
    IN <<[r EXCEPT !.cells[1] = @ \o SubSeq(els, 1, n), !.n = @ + n], n = Len(els)>>
  ELSE FoldLeft(LAMBDA acc, el: LET i == Index(acc[1], el)
                           IN IF ~acc[2] THEN acc ELSE IF Room(acc[1], i) THEN <<Place(acc[1], i, el), TRUE>> ELSE <<acc[1], FALSE>>,
           <<r, TRUE>>, els)
TList(t, els) == On /\ Has(t) /\ (\E a \in {AddSome(tab[t], els)} : a[2] /\ tab' = [tab EXCEPT ![t] = a[1]]) /\ UNCHANGED <<field, gen, over>>

\* No room or no such bucket: the program ends, with nothing changed by the call
\* (or, for several elements, by the first that has no room)
Ends == over' = <<1>> /\ UNCHANGED <<field, gen>>
XAddTo(t, i) == On /\ Has(t) /\ ~Room(tab[t], i + 1) /\ Ends /\ UNCHANGED tab
XAdd(t, el) == On /\ Has(t) /\ ~Room(tab[t], Index(tab[t], el)) /\ Ends /\ UNCHANGED tab
XList(t, els) == On /\ Has(t) /\ (\E a \in {AddSome(tab[t], els)} : ~a[2] /\ tab' = [tab EXCEPT ![t] = a[1]]) /\ Ends
XGet(t, i) == On /\ Has(t) /\ i + 1 \notin 1..tab[t].k /\ Ends /\ UNCHANGED tab

TGet(t, i, out, marked) ==
  On /\ Has(t) /\ i + 1 \in 1..tab[t].k /\ out = tab[t].cells[i + 1] /\ marked = (i + 1 \in tab[t].marks) /\ UNCHANGED tvars

Marks(r) == [i \in 1..r.k |-> i \in r.marks]
\* the whole content
Shows(r, cells, marks, n, k, h) == cells = r.cells /\ marks = Marks(r) /\ n = r.n /\ k = r.k /\ h = r.h
TDump(t, cells, marks, n, k, h) == Has(t) /\ Shows(tab[t], cells, marks, n, k, h) /\ UNCHANGED tvars

(*----------------------------- concealing --------------------------------*)
GNew(g, m) == On /\ g \notin DOMAIN gen /\ gen' = (g :> [m |-> m, seed |-> <<>>, next |-> 0]) @@ gen /\ UNCHANGED <<field, tab, over>>

SeedOf(g, drawn) == IF gen[g].seed # <<>> THEN gen[g].seed ELSE drawn
\* the seed is drawn with the first value only
Draws(g, drawn, count) == IF gen[g].seed = <<>> /\ count > 0 THEN Len(drawn) = 1 ELSE drawn = <<>>
Values(g, drawn, count) == [c \in 1..count |-> Rand(field[1], gen[g].m, SeedOf(g, drawn)[1], gen[g].next + c - 1)]
Moves(g, drawn, count) == gen' = [gen EXCEPT ![g].next = @ + count, ![g].seed = IF count > 0 THEN SeedOf(g, drawn) ELSE @]

GNext(g, drawn, out) ==
  On /\ g \in DOMAIN gen /\ field # <<>> /\ Draws(g, drawn, 1) /\ out = Values(g, drawn, 1)[1] /\ Moves(g, drawn, 1) /\ UNCHANGED <<field, tab, over>>

Missing(r, i) == IF Len(r.cells[i]) < r.h THEN r.h - Len(r.cells[i]) ELSE 0
Sum(s) == FoldLeft(LAMBDA x, y: x + y, 0, s)
Occurs(s, v) == Len(SelectSeq(s, LAMBDA x: x = v))
SameBag(s, t) ==
  /\ Len(s) = Len(t)
  /\ LET a == {s[i] : i \in 1..Len(s)} b == {t[i] : i \in 1..Len(t)}
     IN a = b /\ (Cardinality(a) = Len(s) \/ \A x \in a : Occurs(s, x) = Occurs(t, x))

Grown(r, cells) ==
  /\ Len(cells) = r.k
  /\ \A i \in 1..r.k : Len(cells[i]) = Len(r.cells[i]) + Missing(r, i) /\ SubSeq(cells[i], 1, Len(r.cells[i])) = r.cells[i]
Added(r, cells) == FoldLeftDomain(LAMBDA acc, i: acc \o SubSeq(cells[i], Len(r.cells[i]) + 1, Len(cells[i])), <<>>, cells)

\* The new content: every bucket keeps what it had, in front, and is filled;
\* what was filled in are the next values of the generator, in some order
TConceal(t, g, drawn, cells) ==
  /\ On /\ Has(t) /\ g \in DOMAIN gen /\ field # <<>>
  /\ \E count \in {Sum([i \in 1..tab[t].k |-> Missing(tab[t], i)])} : \E empty \in {{i \in 1..tab[t].k : tab[t].cells[i] = <<>>}} :
        /\ Draws(g, drawn, count)
        /\ Grown(tab[t], cells) = TRUE
        /\ SameBag(Added(tab[t], cells), Values(g, drawn, count)) = TRUE
        /\ tab' = [tab EXCEPT ![t].cells = cells, ![t].marks = @ \cup empty]
        /\ Moves(g, drawn, count)
  /\ UNCHANGED <<field, over>>

(*----------------------------- statistics --------------------------------*)
Sizes(r) == [i \in 1..r.k |-> Len(r.cells[i])]
Total(r) == Sum(Sizes(r))
First(s, x) == (CHOOSE i \in 1..Len(s) : s[i] = x /\ \A m \in 1..(i - 1) : s[m] # x) - 1
Least(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : x <= s[i]
Most(s)  == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : x >= s[i]
\* mean = Total / k; variance = VarNum / k^2
VarNum(r) == r.k * Sum([i \in 1..r.k |-> Len(r.cells[i]) * Len(r.cells[i])]) - Total(r) * Total(r)
Listed(r, full) == LET n == IF full \/ r.k < 30 THEN r.k ELSE 30 IN [i \in 1..n |-> <<i - 1, Len(r.cells[i])>>]
=============================================================================
