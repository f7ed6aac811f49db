----------------------------- MODULE Generators -----------------------------
(***************************************************************************)
(* The generators of pseudo-random integers and field elements as objects  *)
(* with a life: made, copied, assigned, used with explicit seeds or with a *)
(* seed of their own.                                                      *)
(*                                                                         *)
(* What a generator returns is a function of (seed, position, length); its *)
(* only state is the seed it drew for itself, if it ever needed one, and   *)
(* (for field elements) the modulus and the next automatic position.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS PrfI(_, _, _),        \* integer for seed, position, bits >= 1
          PrfF(_, _, _, _, _),  \* element for field, modulus, seed, position, bits (0: not given)
          PosOf(_),             \* position of a number
          Wide(_),              \* the field has room enough for every seed to be another one
          ZeroSeed, OneSeed     \* constant seeds

VARIABLES field,   \* <<>> or <<p>>: the current field of the elements
          zg,      \* integer generators: name -> [seed]
          pg       \* field generators:   name -> [m, seed, next]

gvars == <<field, zg, pg>>

Ex(f, g) == g \in DOMAIN f
Put(f, g, v) == (g :> v) @@ f
Drop(f, g) == [x \in DOMAIN f \ {g} |-> f[x]]

GInit == field = <<>> /\ zg = <<>> /\ pg = <<>>

SetField(p) == field' = <<p>> /\ UNCHANGED <<zg, pg>>

(*------------------------------ integers --------------------------------*)
NewZ(g) == ~Ex(zg, g) /\ zg' = Put(zg, g, [seed |-> <<>>]) /\ UNCHANGED <<field, pg>>

\* copy construction and assignment
CopyZ(g, of) == Ex(zg, of) /\ zg' = Put(zg, g, zg[of]) /\ UNCHANGED <<field, pg>>

DelZ(g) == Ex(zg, g) /\ zg' = Drop(zg, g) /\ UNCHANGED <<field, pg>>

GenZ(g, seed, pos, bits, drawn, out) ==
  /\ Ex(zg, g) /\ bits >= 1
  /\ drawn = <<>>
  /\ out = PrfI(seed, pos, bits)
  /\ UNCHANGED gvars

\* The seed of the generator: drawn at the first use without seed, then kept
OwnSeed(g, gens, drawn) == IF gens[g].seed = <<>> THEN Len(drawn) = 1 ELSE drawn = <<>>
\* it is not that of another generator
InUse(gens) == UNION {{gens[x].seed[i] : i \in DOMAIN gens[x].seed} : x \in DOMAIN gens}
ItsOwn(drawn) == drawn # <<>> => drawn[1] \notin InUse(zg) \cup InUse(pg)
ItsOwnP(drawn) == drawn # <<>> /\ Wide(field[1]) => ItsOwn(drawn)
TheSeed(g, gens, drawn) == IF gens[g].seed = <<>> THEN drawn[1] ELSE gens[g].seed[1]

AutoZ(g, pos, bits, drawn, out) ==
  /\ Ex(zg, g) /\ bits >= 1
  /\ OwnSeed(g, zg, drawn) /\ ItsOwn(drawn) = TRUE
  /\ LET s == TheSeed(g, zg, drawn)
     IN /\ out = PrfI(s, pos, bits)
        /\ zg' = [zg EXCEPT ![g].seed = <<s>>]
  /\ UNCHANGED <<field, pg>>

DefaultZ(g, out) == Ex(zg, g) /\ out = ZeroSeed /\ UNCHANGED gvars

(*--------------------------- field elements ------------------------------*)
NewP(g, m) == ~Ex(pg, g) /\ pg' = Put(pg, g, [m |-> m, seed |-> <<>>, next |-> 0]) /\ UNCHANGED <<field, zg>>

CopyP(g, of) == Ex(pg, of) /\ pg' = Put(pg, g, pg[of]) /\ UNCHANGED <<field, zg>>

DelP(g) == Ex(pg, g) /\ pg' = Drop(pg, g) /\ UNCHANGED <<field, zg>>

SetMod(g, m) == Ex(pg, g) /\ pg' = [pg EXCEPT ![g].m = m] /\ UNCHANGED <<field, zg>>

GetMod(g, out) == Ex(pg, g) /\ out = pg[g].m /\ UNCHANGED gvars

GenP(g, seed, pos, bits, drawn, out) ==
  /\ Ex(pg, g) /\ field # <<>>
  /\ drawn = <<>>
  /\ out = PrfF(field[1], pg[g].m, seed, pos, bits)
  /\ UNCHANGED gvars

AutoP(g, pos, bits, drawn, out) ==
  /\ Ex(pg, g) /\ field # <<>>
  /\ OwnSeed(g, pg, drawn) /\ ItsOwnP(drawn) = TRUE
  /\ LET s == TheSeed(g, pg, drawn)
     IN /\ out = PrfF(field[1], pg[g].m, s, pos, bits)
        /\ pg' = [pg EXCEPT ![g].seed = <<s>>]
  /\ UNCHANGED <<field, zg>>

NextP(g, drawn, out) ==
  /\ Ex(pg, g) /\ field # <<>>
  /\ OwnSeed(g, pg, drawn) /\ ItsOwnP(drawn) = TRUE
  /\ LET s == TheSeed(g, pg, drawn)
     IN /\ out = PrfF(field[1], pg[g].m, s, PosOf(pg[g].next), 0)
        /\ pg' = [pg EXCEPT ![g].seed = <<s>>, ![g].next = @ + 1]
  /\ UNCHANGED <<field, zg>>

\* n of them, that are not looked at
SkipP(g, n, drawn) ==
  /\ Ex(pg, g) /\ field # <<>> /\ n >= 1
  /\ OwnSeed(g, pg, drawn) /\ ItsOwnP(drawn) = TRUE
  /\ pg' = [pg EXCEPT ![g].seed = <<TheSeed(g, pg, drawn)>>, ![g].next = @ + n]
  /\ UNCHANGED <<field, zg>>

DefaultP(g, out) == Ex(pg, g) /\ field # <<>> /\ out = OneSeed /\ UNCHANGED gvars
=============================================================================
