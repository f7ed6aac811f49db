------------------------------ MODULE Worlds ------------------------------
(***************************************************************************)
(* Several worlds in one program: groups of objects that were never given  *)
(* to one another.  Each performs its own operations on its own memory; a  *)
(* step of the program is a step of one of them.  A program may also keep  *)
(* a memo that all worlds share: it may only be keyed by all that the      *)
(* remembered value depends on.                                            *)
(*                                                                         *)
(* C20: whatever the order of the steps, what each world sees is what it   *)
(* would see alone.                                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Ws,        \* the worlds
          Size,      \* blocks of operations in each
          Kinds,     \* what a block may do
          WholeKey   \* whether the memo is keyed by all that its values depend on

Mems == 0 .. 3
Blocks == Kinds

\* the effect of a block on the memory of its world, and what is seen of it
Effect(b, m) == CASE b = "make" -> 1
                  [] b = "add"  -> (m + 1) % 4
                  [] b = "dbl"  -> (2 * m) % 4
                  [] b = "ask"  -> m
                  [] b = "long" -> m
Seen(b, m)   == IF b \in {"ask", "long"} THEN <<b, Effect(b, m)>> ELSE <<b>>

\* what is remembered: the answer to a "long" question, which depends on the memory
Key(b, m) == IF WholeKey THEN <<b, m>> ELSE <<b>>

VARIABLES prog, at, mem, log, memo, order
vars == <<prog, at, mem, log, memo, order>>

RECURSIVE Alone(_, _)
Alone(p, n) ==                 \* memory and log after n blocks, alone
  IF n = 0 THEN <<0, <<>>>>
  ELSE LET before == Alone(p, n - 1)
       IN <<Effect(p[n], before[1]), Append(before[2], Seen(p[n], before[1]))>>

Init ==
  /\ prog \in [Ws -> [1 .. Size -> Blocks]]
  /\ at = [w \in Ws |-> 0]
  /\ mem = [w \in Ws |-> 0]
  /\ log = [w \in Ws |-> <<>>]
  /\ memo = <<>>               \* a function from keys
  /\ order = <<>>

Step(w) ==
  /\ at[w] < Size
  /\ LET b == prog[w][at[w] + 1]
         k == Key(b, mem[w])
         known == b = "long" /\ k \in DOMAIN memo
         s == IF known THEN memo[k] ELSE Seen(b, mem[w])
     IN /\ mem' = [mem EXCEPT ![w] = Effect(b, @)]
        /\ log' = [log EXCEPT ![w] = Append(@, s)]
        /\ memo' = IF b = "long" /\ ~known THEN (k :> s) @@ memo ELSE memo
  /\ at' = [at EXCEPT ![w] = @ + 1]
  /\ order' = Append(order, w)
  /\ UNCHANGED prog

Next == \E w \in Ws : Step(w)
Spec == Init /\ [][Next]_vars

\* the order is for the generator only
View == <<prog, at, mem, log, memo>>

Independent == \A w \in Ws : <<mem[w], log[w]>> = Alone(prog[w], at[w])
Bounded == \A w \in Ws : at[w] <= Size /\ mem[w] \in Mems
=============================================================================
