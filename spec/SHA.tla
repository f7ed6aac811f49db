-------------------------------- MODULE SHA --------------------------------
(***************************************************************************)
(* SHA-1 and SHA-256 (FIPS 180-4) of byte sequences, in TLA+.              *)
(***************************************************************************)
EXTENDS Words

\* Message padding: 0x80, zeros, length in bits on 8 bytes (big-endian).
\* Contents are shorter than 2^28 bytes.
LOCAL PadMsg(m) ==
  LET n == Len(m)
      z == (119 - (n % 64)) % 64
      bits == n * 8
  IN m \o <<128>> \o [i \in 1..z |-> 0]
       \o <<0, 0, 0, 0, bits \div 16777216, (bits \div 65536) % 256, (bits \div 256) % 256, bits % 256>>

LOCAL BlockWords(m, k) == [i \in 1..16 |-> WFromBE(m, 64*(k - 1) + 4*(i - 1) + 1)]

----------------------------------------------------------------------------
LOCAL Sha1Init == << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>> >>
LOCAL Sha1K == << <<23170, 31129>>, <<28377, 60321>>, <<36635, 48348>>, <<51810, 49622>> >>

LOCAL Sha1Schedule(w16) ==
  FoldLeft(LAMBDA w, t:
     Append(w, WRotl(WXor(WXor(w[t - 3], w[t - 8]), WXor(w[t - 14], w[t - 16])), 1)),
     w16, [i \in 1..64 |-> i + 16])

LOCAL Sha1Round(s, w, t) ==
  LET a == s[1]  b == s[2]  c == s[3]  d == s[4]  e == s[5]
      f == IF t <= 20 THEN WXor(d, WAnd(b, WXor(c, d)))
           ELSE IF t <= 40 \/ t > 60 THEN WXor(b, WXor(c, d))
           ELSE WOr(WAnd(b, c), WAnd(d, WOr(b, c)))
      k == Sha1K[((t - 1) \div 20) + 1]
      r == WRotl(a, 5)
  IN << WNorm(r[1] + f[1] + e[1] + k[1] + w[1], r[2] + f[2] + e[2] + k[2] + w[2]),
        a, WRotl(b, 30), c, d >>

LOCAL Sha1Block(h, m, k) ==
  LET w == Sha1Schedule(TLCEval(BlockWords(m, k)))
      s == FoldLeftDomain(LAMBDA acc, t: Sha1Round(acc, w[t], t), h, w)
  IN [i \in 1..5 |-> WAdd(h[i], s[i])]

SHA1(msg) ==
  LET m == TLCEval(PadMsg(msg))
      h == FoldLeft(LAMBDA acc, k: TLCEval(Sha1Block(acc, m, k)), Sha1Init, [i \in 1..(Len(m) \div 64) |-> i])
  IN TLCEval(FoldLeft(LAMBDA acc, w: acc \o WToBE(w), <<>>, h))

----------------------------------------------------------------------------
LOCAL Sha256Init ==
  << <<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>,
     <<20750, 21119>>, <<39685, 26764>>, <<8067, 55723>>, <<23520, 52505>> >>

LOCAL Sha256K == <<
  <<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>, <<14678, 49755>>, <<23025, 4593>>, <<37439, 33444>>, <<43804, 24277>>,
  <<55303, 43672>>, <<4739, 23297>>, <<9265, 34238>>, <<21772, 32195>>, <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>, <<49563, 61812>>,
  <<58523, 27073>>, <<61374, 18310>>, <<4033, 40390>>, <<9228, 41420>>, <<11753, 11375>>, <<19060, 33962>>, <<23728, 43484>>, <<30457, 35034>>,
  <<38974, 20818>>, <<43057, 50797>>, <<45059, 10184>>, <<48985, 32711>>, <<50912, 3059>>, <<54695, 37191>>, <<1738, 25425>>, <<5161, 10599>>,
  <<10167, 2693>>, <<11803, 8504>>, <<19756, 28156>>, <<21304, 3347>>, <<25866, 29524>>, <<30314, 2747>>, <<33218, 51502>>, <<37490, 11397>>,
  <<41663, 59553>>, <<43034, 26187>>, <<49739, 35696>>, <<51052, 20899>>, <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202, 41072>>,
  <<6564, 49430>>, <<7735, 27656>>, <<10056, 30540>>, <<13488, 48309>>, <<14620, 3251>>, <<20184, 43594>>, <<23452, 51791>>, <<26670, 28659>>,
  <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>, <<37054, 65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>> >>

LOCAL Sha256Schedule(w16) ==
  FoldLeft(LAMBDA w, t:
     LET x == w[t - 15]
         y == w[t - 2]
         s0 == WXor(WXor(WRotr(x, 7), WRotr(x, 18)), WShr(x, 3))
         s1 == WXor(WXor(WRotr(y, 17), WRotr(y, 19)), WShr(y, 10))
         u == w[t - 16]
         v == w[t - 7]
     IN Append(w, WNorm(s0[1] + s1[1] + u[1] + v[1], s0[2] + s1[2] + u[2] + v[2])),
     w16, [i \in 1..48 |-> i + 16])

LOCAL Sha256Round(s, w, t) ==
  LET a == s[1]  b == s[2]  c == s[3]  d == s[4]
      e == s[5]  f == s[6]  g == s[7]  h == s[8]
      S1 == WXor(WXor(WRotr(e, 6), WRotr(e, 11)), WRotr(e, 25))
      ch == WXor(g, WAnd(e, WXor(f, g)))
      S0 == WXor(WXor(WRotr(a, 2), WRotr(a, 13)), WRotr(a, 22))
      mj == WOr(WAnd(a, b), WAnd(c, WOr(a, b)))
      k == Sha256K[t]
      t1 == WNorm(h[1] + S1[1] + ch[1] + k[1] + w[1], h[2] + S1[2] + ch[2] + k[2] + w[2])
  IN << WNorm(t1[1] + S0[1] + mj[1], t1[2] + S0[2] + mj[2]), a, b, c, WAdd(d, t1), e, f, g >>

LOCAL Sha256Block(h, m, k) ==
  LET w == Sha256Schedule(TLCEval(BlockWords(m, k)))
      s == FoldLeftDomain(LAMBDA acc, t: Sha256Round(acc, w[t], t), h, w)
  IN [i \in 1..8 |-> WAdd(h[i], s[i])]

SHA256(msg) ==
  LET m == TLCEval(PadMsg(msg))
      h == FoldLeft(LAMBDA acc, k: TLCEval(Sha256Block(acc, m, k)), Sha256Init, [i \in 1..(Len(m) \div 64) |-> i])
  IN TLCEval(FoldLeft(LAMBDA acc, w: acc \o WToBE(w), <<>>, h))
=============================================================================
