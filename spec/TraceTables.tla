---------------------------- MODULE TraceTables ----------------------------
EXTENDS TraceBase, PRF, Murmur
VARIABLES field, tab, gen, over

\* alg = [kind, seed, txt]; elements are texts (bytes) or field elements (numbers)
Digest(a, d) == CASE a.kind = "sha256" -> SHA256(d) [] a.kind = "murmur" -> Murmur3(d, a.seed) [] OTHER -> SHA1(d)
ExactBucket(a, el, k) == ToInt(Mod(FromBytes(Digest(a, IF a.txt THEN el ELSE ToDec(el))), FromInt(k)))
ExactRand(f, m, s, pos) == PrfField(f, m, s, Pos(pos), 0)
HT == INSTANCE Tables WITH Bucket <- ExactBucket, Rand <- ExactRand

vs == <<field, tab, gen, over>>
I(b) == LET z == FromBytes(b) IN IF FitsInt(z) THEN ToInt(z) ELSE -1
Alg(e, txt) == IF e.alg = "none" THEN <<>> ELSE <<[kind |-> e.alg, seed |-> e.seed, txt |-> txt]>>

AbsDiff(a, b) == IF Cmp(a, b) >= 0 THEN Sub(a, b) ELSE Sub(b, a)
RECURSIVE Pow10(_)
Pow10(s) == IF s = 0 THEN One ELSE MulDigit(Pow10(s - 1), 10, 0)
\* v = m / 10^s is num / den to the printed precision (6 digits)
Near(v, num, den) ==
  IF num = Zero THEN v.m = Zero
  ELSE LET n == Mul(num, Pow10(v.s)) IN IsNum(v.m) /\ Leq(Mul(AbsDiff(Mul(v.m, den), n), Pow10(5)), n)
NearRoot(v, num, den) ==
  IF num = Zero THEN v.m = Zero
  ELSE LET n == Mul(num, Pow10(2 * v.s)) IN IsNum(v.m) /\ Leq(Mul(AbsDiff(Mul(Mul(v.m, v.m), den), n), Pow10(5)), MulDigit(n, 3, 0))
Exactly(v, n) == v.s = 0 /\ v.m = FromInt(n)

Stats(e) ==
  LET r == tab[e.t]
      s == TLCEval(HT!Sizes(r))
      t == HT!Total(r)
  IN /\ HT!On /\ HT!Has(e.t)
     /\ Exactly(e.total, t)
     /\ Near(e.fill, FromInt(t * 100), FromInt(r.k * r.h))
     /\ Exactly(e.min, HT!Least(s)) /\ Exactly(e.minb, HT!First(s, HT!Least(s)))
     /\ Exactly(e.max, HT!Most(s))  /\ Exactly(e.maxb, HT!First(s, HT!Most(s)))
     /\ Near(e.avg, FromInt(t), FromInt(r.k))
     /\ Near(e.var, FromInt(HT!VarNum(r)), FromInt(r.k * r.k))
     /\ NearRoot(e.dev, FromInt(HT!VarNum(r)), FromInt(r.k * r.k))
     /\ e.shown = HT!Listed(r, e.full)
     /\ UNCHANGED vs

\* What ended the program, as its last operation
Fatal(op) ==
  CASE op.e = "Add"   -> HT!XAdd(op.t, op.el)
    [] op.e = "AddTo" -> HT!XAddTo(op.t, I(op.i))
    [] op.e = "List"  -> HT!XList(op.t, op.els)
    [] op.e = "Get"   -> HT!XGet(op.t, I(op.i))
    [] OTHER -> FALSE

TInit == HT!HInit /\ l = 1
TNext ==
  \/ IsEvent("Case")    /\ field' = <<>> /\ tab' = <<>> /\ gen' = <<>> /\ over' = <<>>
  \/ IsEvent("Ctx")     /\ HT!SetField(Ev.p)
  \/ IsEvent("New")     /\ HT!TNew(Ev.t, Ev.k, Ev.h, Alg(Ev, Ev.txt))
  \/ IsEvent("Del")     /\ HT!TDel(Ev.t)
  \/ IsEvent("Alg")     /\ HT!TAlg(Ev.t, Alg(Ev, Ev.txt))
  \/ IsEvent("Add")     /\ HT!TAdd(Ev.t, Ev.el)
  \/ IsEvent("AddTo")   /\ HT!TAddTo(Ev.t, I(Ev.i), Ev.el)
  \/ IsEvent("List")    /\ HT!TList(Ev.t, Ev.els)
  \/ IsEvent("Get")     /\ HT!TGet(Ev.t, I(Ev.i), Ev.out, Ev.marked)
  \/ IsEvent("Dump")    /\ HT!On /\ HT!TDump(Ev.t, Ev.cells, Ev.marks, Ev.n, Ev.k, Ev.h)
  \/ IsEvent("NewP")    /\ HT!GNew(Ev.g, Ev.m)
  \/ IsEvent("NextP")   /\ HT!GNext(Ev.g, Ev.drawn, Ev.out)
  \/ IsEvent("Conceal") /\ HT!TConceal(Ev.t, Ev.g, Ev.drawn, Ev.cells) /\ HT!Shows(tab'[Ev.t], Ev.cells, Ev.marks, Ev.n, Ev.k, Ev.h)
  \/ IsEvent("Stats")   /\ Stats(Ev)
  \* at a fatal end: the content that is left, and then how the program ended
  \/ IsEvent("Left")    /\ Trace[l + 1].e = "Exit" /\ Fatal(Trace[l + 1].op)
                        /\ Trace[l + 1].op.t = Ev.t /\ HT!Shows(tab'[Ev.t], Ev.cells, Ev.marks, Ev.n, Ev.k, Ev.h)
  \/ IsEvent("Exit")    /\ Ev.sig = 0 /\ (IF HT!On THEN Ev.op.e = "End" /\ Ev.code = 0 ELSE over = <<Ev.code>>) /\ UNCHANGED vs
=============================================================================
