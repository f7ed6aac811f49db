----------------------------- MODULE GenHelpers -----------------------------
(***************************************************************************)
(* Laws of the helpers, checked for every number up to a bound (digits at  *)
(* the bounds of the representation included), and the independence of     *)
(* conversions, for all histories over few names; simulated for histories. *)
(***************************************************************************)
EXTENDS Helpers, Json, IOUtils
CONSTANTS Names, Elems, MaxLen, Record
VARIABLE hist
Log(r) == hist' = IF Record THEN Append(hist, r) ELSE hist
E(n) == IF Record THEN Zero ELSE FromInt(n)

DSrc == \E s \in Names, k \in 0..MaxLen, x \in Elems : HSrc(s, [i \in 1..k |-> IF Record THEN Zero ELSE E((x + i) % 2)]) /\ Log([op |-> "src", s |-> s, k |-> k])
DPoke == \E s \in DOMAIN src, i \in 0..(MaxLen - 1), x \in Elems : HPoke(s, i, E(x)) /\ Log([op |-> "poke", s |-> s, i |-> i])
DConv == \E s \in DOMAIN src, d \in Names, how \in {"vec", "vecnew", "arr", "arrnew"} : HConv(s, d, Len(src[s])) /\ Log([op |-> "conv", how |-> how, s |-> s, d |-> d])
DConvN == \E s \in DOMAIN src, d \in Names, how \in {"arr", "arrnew"}, n \in 0..MaxLen : n < Len(src[s]) /\ HConv(s, d, n) /\ Log([op |-> "convn", how |-> how, s |-> s, d |-> d, n |-> n])
DConvNull == \E d \in DOMAIN dst, how \in {"arr", "arrnew"} : HConvNull(how = "arr", d) /\ Log([op |-> "convnull", how |-> how, d |-> d])
DRead == \E d \in DOMAIN dst : HRead(d, dst[d]) /\ Log([op |-> "read", d |-> d])
Live == DSrc \/ DPoke \/ DConv \/ DConvN \/ DConvNull \/ DRead
Depth == atoi(IOEnv.DEPTH)
Done == hist' = Append(hist, [op |-> "done"]) /\ UNCHANGED hvars
Init == HInit /\ hist = <<>>
Next == IF Record /\ Len(hist) >= Depth THEN Len(hist) = Depth /\ Done ELSE Live
Emit == Len(hist) = Depth + 1 => PrintT("@@" \o ToJson(SubSeq(hist, 1, Depth)))

\* a vector only changes when something is converted into it: sources do not show
Copies == [][src' # src => dst' = dst]_hvars

\* Laws
Nums == 0..300 \cup {32767, 32768, 32769, 65535, 65536, 1073741823, 1073741824, 2147483647}
ASSUME \A n \in Nums : LET z == FromInt(n) IN
  /\ ToInt(Shr(Shl(z, 7), 7)) = n
  /\ Log2(z) = (IF n = 0 THEN 0 ELSE CHOOSE k \in 0..30 : 2^k <= n /\ (k = 30 \/ n < 2^(k + 1)))
  /\ ToInt(Ceil(z, FromInt(7))) = (IF n > 2147483640 THEN 306783379 ELSE (n + 6) \div 7)
  /\ \A t \in {1, 2, 8, 15, 16, 31, 40} :
       LET q == PadTo(z, t)
       IN /\ n > 0 /\ NumBits(z) < t => NumBits(q) = t - 1 
          /\ NumBits(z) >= t => q = z
  /\ n > 0 => LET k == TrailingZeros(z) IN Bit(z, k) = 1 /\ Shl(Shr(z, k), k) = z
  /\ FromDec(ToDec(z)) = z
=============================================================================
