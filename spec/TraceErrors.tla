---------------------------- MODULE TraceErrors ----------------------------
EXTENDS TraceBase
VARIABLES err, default, ended
\* what() is a C string: it shows up to the first zero byte
RECURSIVE UpTo0(_)
UpTo0(t) == IF t = <<>> \/ Head(t) = 0 THEN <<>> ELSE <<Head(t)>> \o UpTo0(Tail(t))
X == INSTANCE Errors WITH Text <- UpTo0, NoText <- <<>>
vs == <<err, default, ended>>
TInit == X!EInit /\ l = 1
TNext ==
  \/ IsEvent("Case")     /\ err' = <<>> /\ UNCHANGED default /\ ended' = <<>>
  \/ IsEvent("Make")     /\ ~Ev.fatal /\ X!EMake(Ev.g, Ev.kind, Ev.msg, Ev.code)
  \/ IsEvent("Copy")     /\ X!ECopy(Ev.g, Ev.of)
  \/ IsEvent("Assign")   /\ X!EAssign(Ev.g, Ev.of)
  \/ IsEvent("Del")      /\ X!EDel(Ev.g)
  \/ IsEvent("SetMsg")   /\ X!ESetMsg(Ev.g, Ev.msg)
  \/ IsEvent("SetFatal") /\ X!ESetFatal(Ev.g, Ev.fatal)
  \/ IsEvent("SetCode")  /\ X!ESetCode(Ev.g, Ev.code)
  \/ IsEvent("Get")      /\ X!EGet(Ev.g, Ev.msg, Ev.what, Ev.fatal, Ev.code)
  \/ IsEvent("Hold")     /\ X!EHold(Ev.g)
  \/ IsEvent("Held")     /\ X!EHeld(Ev.g, Ev.msg, Ev.what)
  \/ IsEvent("Throw")    /\ X!EThrow(Ev.g, Ev.caught, Ev.msg, Ev.what, Ev.fatal, Ev.code)
  \/ IsEvent("Exit")     /\ Ev.sig = 0
                         /\ (IF Ev.op.e = "Make" /\ Ev.op.fatal
                            THEN X!EMakeFatal(Ev.op.code)
                            ELSE Ev.op.e = "End" /\ X!EReturn)
                         /\ ended' = <<Ev.code>>
=============================================================================
