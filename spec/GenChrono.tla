----------------------------- MODULE GenChrono -----------------------------
(* All small lives of chronometers: model checked, and used as scripts. *)
EXTENDS BigNum, Json, IOUtils, TLC
CONSTANTS Names, Cursors, Ticks, MaxTimes, MaxNow, Record
VARIABLES cbm, now, hist
X == INSTANCE Chrono
Log(r) == hist' = IF Record THEN Append(hist, r) ELSE hist
Room(g) == X!N(cbm[g]) < MaxTimes
Cs == Cursors \cup {""}
DoTick == \E d \in Ticks : (Record \/ ToInt(now) + d <= MaxNow) /\ X!CTick(FromInt(d)) /\ Log([op |-> "tick", d |-> d])
DoNew == \E g \in Names : X!CNew(g) /\ Log([op |-> "new", g |-> g])
DoCopy == \E g \in Names, h \in DOMAIN cbm : X!CCopy(g, h) /\ Log([op |-> "copy", g |-> g, h |-> h])
DoAssign == \E g \in DOMAIN cbm, h \in DOMAIN cbm : X!CAssign(g, h) /\ Log([op |-> "assign", g |-> g, h |-> h])
DoDel == \E g \in DOMAIN cbm : X!CDel(g) /\ Log([op |-> "del", g |-> g])
DoStart == \E g \in DOMAIN cbm : X!CStart(g) /\ Log([op |-> "start", g |-> g])
DoReset == \E g \in DOMAIN cbm : X!CReset(g) /\ Log([op |-> "reset", g |-> g])
DoCont == \E g \in DOMAIN cbm : Room(g) /\ X!CStep(g, "") /\ Log([op |-> "cont", g |-> g])
DoStep == \E g \in DOMAIN cbm, c \in Cs : Room(g) /\ X!CStep(g, c) /\ Log([op |-> "step", g |-> g, c |-> c])
DoPause == \E g \in DOMAIN cbm, c \in Cs : Room(g) /\ X!CPause(g, c) /\ Log([op |-> "pause", g |-> g, c |-> c])
DoStop == \E g \in DOMAIN cbm, c \in Cs : Room(g) /\ X!CStop(g, c) /\ Log([op |-> "stop", g |-> g, c |-> c])
DoAsk == \E g \in DOMAIN cbm : Record /\ UNCHANGED <<cbm, now>> /\ Log([op |-> "ask", g |-> g])
Live == DoTick \/ DoNew \/ DoCopy \/ DoAssign \/ DoDel \/ DoStart \/ DoReset \/ DoCont \/ DoStep \/ DoPause \/ DoStop \/ DoAsk
LiveR == IF cbm = <<>> THEN DoNew ELSE IF Len(hist) % 2 = 0 THEN DoTick \/ DoAsk ELSE
  DoStart \/ DoStep \/ DoPause \/ DoCont \/ DoStop \/ (Len(hist) % 5 = 0 /\ (DoReset \/ DoDel \/ DoCopy \/ DoAssign \/ DoNew))
Depth == atoi(IOEnv.DEPTH)
Done == hist' = Append(hist, [op |-> "done"]) /\ UNCHANGED <<cbm, now>>
Init == X!CInit /\ hist = <<>>
Next == IF Record THEN (IF Len(hist) >= Depth THEN Len(hist) = Depth /\ Done ELSE LiveR) ELSE Live
Emit == Len(hist) = Depth + 1 => PrintT("@@" \o ToJson(SubSeq(hist, 1, Depth)))
----------------------------------------------------------------------------
Ordered == \A g \in DOMAIN cbm : LET t == cbm[g].times IN \A i \in 1..(Len(t) - 1) : Leq(t[i], t[i + 1])
\* two times that start a pause never follow each other
NoDoublePause == \A g \in DOMAIN cbm : LET b == cbm[g].breaks IN \A i \in 1..(Len(b) - 1) : ~(b[i] /\ b[i + 1])
Between == \A g \in DOMAIN cbm : \A np \in BOOLEAN :
  LET s == X!Lengths(cbm[g], np) IN s # <<>> => Leq(X!Least(s), X!Most(s)) /\ Leq(Mul(FromInt(Len(s)), X!Least(s)), X!SumOf(s)) /\ Leq(X!SumOf(s), Mul(FromInt(Len(s)), X!Most(s)))
\* pauses and the rest make up the whole, up to the cutting to microseconds
Whole == \A g \in DOMAIN cbm : X!N(cbm[g]) > 0 =>
  LET c == cbm[g] IN /\ Leq(X!Cum(c, Zero, TRUE), X!Cum(c, Zero, FALSE))
                     /\ ~(\E i \in 1..X!N(c) : c.breaks[i]) => Leq(X!Cum(c, Zero, FALSE), Add(X!Cum(c, Zero, TRUE), FromInt(X!N(c))))
CursorsRight == \A g \in DOMAIN cbm : \A n \in DOMAIN cbm[g].cursors : cbm[g].cursors[n] \in 1..(X!N(cbm[g]) - 1) \cup {0}
\* the first interval is never a pause, so there is always something to average
FirstInterval == \A g \in DOMAIN cbm : X!N(cbm[g]) > 0 => ~cbm[g].breaks[1]
\* asked for nothing, a stopped chronometer with times keeps them until it starts again
StoppedStays == [][\A g \in DOMAIN cbm :
   (cbm[g].stopped /\ X!N(cbm[g]) > 0 /\ DOMAIN cbm' = DOMAIN cbm /\ cbm'[g] # cbm[g])
     => \/ X!N(cbm'[g]) < 2 /\ ~cbm'[g].stopped
        \/ \E h \in DOMAIN cbm : cbm'[g] = cbm[h]]_<<cbm, now>>
=============================================================================
