------------------------------- MODULE Chrono -------------------------------
(***************************************************************************)
(* The chronometer: the times it took, which of them started a pause, the  *)
(* cursors given to them, and the statistics of the intervals between      *)
(* them.  Times are in nanoseconds, as exact numbers.                      *)
(***************************************************************************)
EXTENDS BigNum, TLC

VARIABLES cbm,      \* name -> [times, breaks, cursors, stopped]
          now       \* the present time

cvars == <<cbm, now>>
CInit == cbm = <<>> /\ now = Zero
Has(g) == g \in DOMAIN cbm
Empty == [times |-> <<>>, breaks |-> <<>>, cursors |-> <<>>, stopped |-> FALSE]

N(c) == Len(c.times)
\* in a pause: the last time taken started one, and nothing stopped it
Paused(c) == ~c.stopped /\ N(c) > 0 /\ c.breaks[N(c)]
\* the present time is taken; a named time can be asked for later
Take(c, pausing, name) ==
  [c EXCEPT !.times = Append(@, now), !.breaks = Append(@, pausing),
            !.cursors = IF name = "" THEN @ ELSE (name :> N(c)) @@ @]

Started(c) == Take(Empty, FALSE, "")
Stepped(c, name) == IF N(c) = 0 THEN Started(c) ELSE IF c.stopped THEN c ELSE Take(c, FALSE, name)
Broken(c, name) == IF N(c) = 0 \/ Paused(c) \/ c.stopped THEN c ELSE Take(c, TRUE, name)
Stopped(c, name) == IF c.stopped THEN c ELSE [(IF Paused(c) THEN c ELSE Take(c, FALSE, name)) EXCEPT !.stopped = TRUE]

----------------------------------------------------------------------------
Thousand == FromInt(1000)
Micros(d) == DivMod(d, Thousand)[1]
\* interval i lies between the times i and i+1; it is a pause if a pause started it
Gap(c, i) == Micros(Sub(c.times[i + 1], c.times[i]))
Ivs(c) == [i \in 1..(N(c) - 1) |-> i]
Counted(c, np) == SelectSeq(Ivs(c), LAMBDA i: ~np \/ ~c.breaks[i])
Total(c, is) == FoldLeft(LAMBDA a, i: Add(a, Gap(c, i)), Zero, is)

\* the cursor of a name: the number of its interval; 0 when there is none
CursorOf(c, name) == IF name \in DOMAIN c.cursors THEN FromInt(c.cursors[name]) ELSE Zero
\* 0 stands for the last interval
Bench(c, n) ==
  IF N(c) < 2 \/ ~Less(n, FromInt(N(c))) THEN Zero
  ELSE Gap(c, IF n = Zero THEN N(c) - 1 ELSE ToInt(n))
\* the time since the start: without pauses, or altogether; 0 stands for the end
Cum(c, n, np) ==
  IF ~Less(n, FromInt(N(c))) THEN Zero
  ELSE LET k == IF n = Zero THEN N(c) - 1 ELSE ToInt(n)
       IN IF np THEN Total(c, SelectSeq(Counted(c, TRUE), LAMBDA i: i <= k))
          ELSE Micros(Sub(c.times[k + 1], c.times[1]))

Lengths(c, np) == LET is == Counted(c, np) IN [j \in 1..Len(is) |-> Gap(c, is[j])]
Least(s) == IF s = <<>> THEN Zero ELSE FoldLeft(LAMBDA a, x: IF Less(x, a) THEN x ELSE a, s[1], s)
Most(s) == FoldLeft(LAMBDA a, x: IF Less(a, x) THEN x ELSE a, Zero, s)
SumOf(s) == FoldLeft(Add, Zero, s)
SumSq(s) == FoldLeft(LAMBDA a, x: Add(a, Mul(x, x)), Zero, s)
\* variance about the mean t / n, times the square of the number n of intervals
VarN2(s, t) == LET u == SumOf(s) d == IF Less(t, u) THEN Sub(u, t) ELSE Sub(t, u)
               IN Add(Sub(Mul(FromInt(Len(s)), SumSq(s)), Mul(u, u)), Mul(d, d))

----------------------------------------------------------------------------
\* A measured value m * 2^e against the exact fraction a / b, to a millionth
Diff(x, y) == IF Less(x, y) THEN Sub(y, x) ELSE Sub(x, y)
NearTo(v, a, b) ==
  LET x == IF v.e >= 0 THEN Mul(Shl(v.m, v.e), b) ELSE Mul(v.m, b)
      y == IF v.e >= 0 THEN a ELSE Shl(a, 0 - v.e)
      u == IF v.e >= 0 THEN b ELSE Shl(b, 0 - v.e)
      million == FromInt(1000000)
  IN Leq(Mul(million, Diff(x, y)), Add(y, u))
Squared(v) == [m |-> Mul(v.m, v.m), e |-> 2 * v.e]

\* the time that the mean divides: with pauses, it is not cut per interval
Whole(c, np) == IF N(c) < 2 THEN Zero ELSE Cum(c, Zero, np)

----------------------------------------------------------------------------
CTick(d) == now' = Add(now, d) /\ UNCHANGED cbm
CNew(g) == ~Has(g) /\ cbm' = (g :> [Empty EXCEPT !.stopped = TRUE]) @@ cbm /\ UNCHANGED now
CCopy(g, of) == ~Has(g) /\ Has(of) /\ cbm' = (g :> cbm[of]) @@ cbm /\ UNCHANGED now
CAssign(g, of) == Has(g) /\ Has(of) /\ cbm' = [cbm EXCEPT ![g] = cbm[of]] /\ UNCHANGED now
CDel(g) == Has(g) /\ cbm' = [x \in DOMAIN cbm \ {g} |-> cbm[x]] /\ UNCHANGED now
Change(g, c) == Has(g) /\ cbm' = [cbm EXCEPT ![g] = c] /\ UNCHANGED now
CStart(g) == Has(g) /\ Change(g, Started(cbm[g]))
CReset(g) == Has(g) /\ Change(g, Empty)
CStep(g, name) == Has(g) /\ Change(g, Stepped(cbm[g], name))
CPause(g, name) == Has(g) /\ Change(g, Broken(cbm[g], name))
CStop(g, name) == Has(g) /\ Change(g, Stopped(cbm[g], name))
\* a great many unnamed steps, d apart
CMany(g, n, d) ==
  /\ Has(g) /\ N(cbm[g]) > 0 /\ ~cbm[g].stopped
  /\ \E ts \in {[i \in 1..n |-> Add(now, Mul(FromInt(i), d))]} : \E bs \in {[i \in 1..n |-> FALSE]} :
     /\ now' = ts[n]
     /\ cbm' = [cbm EXCEPT ![g].times = @ \o ts, ![g].breaks = @ \o bs]
\* the state it tells
CState(g, paused, stopped) == cbm'[g].stopped = stopped /\ Paused(cbm'[g]) = paused
CBench(g, n, r) == Has(g) /\ r = Bench(cbm[g], n) /\ UNCHANGED cvars
CBenchS(g, name, r) == Has(g) /\ r = Bench(cbm[g], CursorOf(cbm[g], name)) /\ UNCHANGED cvars
CCum(g, n, np, r) == Has(g) /\ r = Cum(cbm[g], n, np) /\ UNCHANGED cvars
CCumS(g, name, np, r) == Has(g) /\ r = Cum(cbm[g], CursorOf(cbm[g], name), np) /\ UNCHANGED cvars
CStat(g, np, mn, mx, av, va, sd) ==
  /\ Has(g)
  /\ \E s \in {Lengths(cbm[g], np)} : \E t \in {Whole(cbm[g], np)} : \E v \in {VarN2(s, t)} :
     LET n == FromInt(Len(s)) n2 == Mul(FromInt(Len(s)), FromInt(Len(s)))
     IN /\ mn = Least(s) /\ mx = Most(s)
        /\ IF s = <<>> THEN av.m = Zero /\ va.m = Zero /\ sd.m = Zero
           ELSE NearTo(av, t, n) /\ NearTo(va, v, n2) /\ NearTo(Squared(sd), v, n2)
  /\ UNCHANGED cvars
=============================================================================
