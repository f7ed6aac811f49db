------------------------------- MODULE Errors -------------------------------
(***************************************************************************)
(* Errors as objects, and the end of the program by a fatal one.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Text(_),          \* what a text shows as
          NoText            \* the empty text

VARIABLES err,              \* name -> [kind, msg, fatal, code, held]; held: somebody
                            \* keeps the explanation it gave, and it was not changed since
          default,          \* <<>>, or the explanation given for bounds by default
          ended             \* <<>>, or the code the program ended with

evars == <<err, default, ended>>
EInit == err = <<>> /\ default = <<>> /\ ended = <<>>
Running == ended = <<>>
Has(g) == g \in DOMAIN err
Put(g, v) == err' = (g :> v) @@ err

\* A bound error without message explains itself (always in the same way);
\* how is learnt from the first one that is read: <<>> until then
Made(kind, msg) == IF kind = "bound" /\ msg = NoText THEN <<>> ELSE <<msg>>

EMake(g, kind, msg, code) ==
  /\ Running /\ ~Has(g)
  /\ Put(g, [kind |-> kind, msg |-> Made(kind, msg), fatal |-> FALSE, code |-> code, held |-> FALSE])
  /\ UNCHANGED <<default, ended>>
\* only the low byte of the code reaches the one who started the program
EMakeFatal(code) == Running /\ ended' = <<code % 256>> /\ UNCHANGED <<err, default>>

ECopy(g, of) == Running /\ ~Has(g) /\ Has(of) /\ Put(g, [err[of] EXCEPT !.held = FALSE]) /\ UNCHANGED <<default, ended>>
EAssign(g, of) == Running /\ Has(g) /\ Has(of) /\ Put(g, [err[of] EXCEPT !.kind = err[g].kind, !.held = FALSE]) /\ UNCHANGED <<default, ended>>
EDel(g) == Running /\ Has(g) /\ err' = [x \in DOMAIN err \ {g} |-> err[x]] /\ UNCHANGED <<default, ended>>
ESetMsg(g, m) == Running /\ Has(g) /\ err' = [err EXCEPT ![g].msg = <<m>>, ![g].held = FALSE] /\ UNCHANGED <<default, ended>>
ESetFatal(g, f) == Running /\ Has(g) /\ err' = [err EXCEPT ![g].fatal = f, ![g].held = FALSE] /\ UNCHANGED <<default, ended>>
ESetCode(g, c) == Running /\ Has(g) /\ err' = [err EXCEPT ![g].code = c, ![g].held = FALSE] /\ UNCHANGED <<default, ended>>

\* the message of an error: given, or the default one, which says something
Says(g, msg) ==
  IF err[g].msg # <<>> THEN msg = err[g].msg[1] /\ UNCHANGED default
  ELSE IF default # <<>> THEN msg = default[1] /\ UNCHANGED default
  ELSE msg # NoText /\ default' = <<msg>>

EGet(g, msg, what, fatal, code) ==
  /\ Running /\ Has(g)
  /\ Says(g, msg) /\ what = Text(msg)
  /\ fatal = err[g].fatal /\ code = err[g].code
  /\ UNCHANGED <<err, ended>>
\* the explanation is kept by somebody, and still reads the same later, whatever
\* other errors explained in between
EHold(g) == Running /\ Has(g) /\ err' = [err EXCEPT ![g].held = TRUE] /\ UNCHANGED <<default, ended>>
EHeld(g, msg, what) ==
  /\ Running /\ Has(g) /\ err[g].held
  /\ Says(g, msg) /\ what = Text(msg)
  /\ UNCHANGED <<err, ended>>
\* thrown, it is caught by its own kind with all its content
EThrow(g, caught, msg, what, fatal, code) == caught = err[g].kind /\ EGet(g, msg, what, fatal, code)
\* the program runs to its end
EReturn == Running /\ ended' = <<0>> /\ UNCHANGED <<err, default>>
=============================================================================
