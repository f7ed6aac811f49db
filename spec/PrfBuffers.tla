----------------------------- MODULE PrfBuffers -----------------------------
(***************************************************************************)
(* The integer generator shaped like its implementation: an output buffer, *)
(* an input buffer and a digest buffer that are reused by later requests   *)
(* and keep stale content.  Bytes have 2 bits here and the digest 2 bytes. *)
(*                                                                         *)
(* Checked: whatever the history of requests, the result is the pure       *)
(* function of (seed, position, bits) that PRF.tla defines.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Seeds,      \* byte strings of different lengths
          Positions,  \* position byte strings, all of length 1
          MaxBits

BPB == 2               \* bits per byte
HS == 2               \* bytes per digest
Bytes == 0..3
MCSeeds == {<<0>>, <<2, 3>>, <<3, 0, 2, 1>>}
MCPositions == {<<1>>}

\* A toy hash that depends on every byte, its place and the length
RECURSIVE Mix(_, _, _)
Mix(s, i, acc) == IF i > Len(s) THEN acc ELSE Mix(s, i + 1, (acc * 7 + s[i] * 3 + i) % 64)
Hash(s) == LET m == Mix(s, 1, Len(s)) IN <<m % 4, (m \div 4) % 4>>

Ceil(b) == (b + BPB - 1) \div BPB

VARIABLES gen, inb, dig,    \* buffers (their length is the allocated size)
          req, ret          \* last request and result

vars == <<gen, inb, dig, req, ret>>

\* Overwrite buffer b from place k on (0-based) with s
Write(b, k, s) == [i \in 1..Len(b) |-> IF i > k /\ i <= k + Len(s) THEN s[i - k] ELSE b[i]]
Fresh(n) == [i \in 1..n |-> 3]          \* uninitialised memory

\* The copy loop: r bytes are still to be produced; the digest buffer is input and output
RECURSIVE Loop(_, _, _, _)
Loop(g, input, n, r) ==
  LET d == Hash(input)
      k == IF r < HS THEN r ELSE HS
      g2 == Write(g, n - r, SubSeq(d, 1, k))
  IN IF r - k = 0 THEN <<g2, d>> ELSE Loop(g2, d, n, r - k)

Cut(x, bits, n) == x % (2 ^ (BPB - (n * BPB - bits)))

Generate(seed, pos, bits) ==
  LET n == Ceil(bits)
      len == Len(seed) + Len(pos)
      g0 == IF n > Len(gen) THEN Fresh(n) ELSE gen
      i0 == IF len > Len(inb) THEN Fresh(IF len < HS THEN HS ELSE len) ELSE inb
      i1 == Write(i0, 0, seed \o pos)
      r == Loop(g0, SubSeq(i1, 1, len), n, n)
      g3 == [r[1] EXCEPT ![n] = Cut(@, bits, n)]
  IN /\ gen' = g3
     /\ inb' = i1
     /\ dig' = r[2]
     /\ req' = <<seed, pos, bits>>
     /\ ret' = SubSeq(g3, 1, n)

Init == gen = <<>> /\ inb = <<>> /\ dig = Fresh(HS) /\ req = <<>> /\ ret = <<>>
Next == \E s \in Seeds, p \in Positions, b \in 1..MaxBits : Generate(s, p, b)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
RECURSIVE PureChain(_, _, _)
PureChain(x, n, acc) == LET d == Hash(x) IN IF Len(acc \o d) >= n THEN SubSeq(acc \o d, 1, n) ELSE PureChain(d, n, acc \o d)
Pure(q) == LET n == Ceil(q[3])
               c == PureChain(q[1] \o q[2], n, <<>>)
           IN [c EXCEPT ![n] = Cut(@, q[3], n)]

HistoryIndependent == req # <<>> => ret = Pure(req)
WithinLength == req # <<>> =>
  LET n == Len(ret) IN n = Ceil(req[3]) /\ ret[n] < 2 ^ (BPB - (n * BPB - req[3]))
=============================================================================
