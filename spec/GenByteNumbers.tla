--------------------------- MODULE GenByteNumbers ---------------------------
(* Model checked with few values; simulated for histories to replay. *)
EXTENDS ByteNumbers, Json, IOUtils

CONSTANTS Names, Lens, Datas, Nums, Divisors, Record, MaxBits

VARIABLE hist
Log(r) == hist' = IF Record THEN Append(hist, r) ELSE hist

MCDatas == {<<>>, <<0>>, <<255>>, <<1, 0>>, <<255, 255>>, <<0, 3>>, <<7, 0, 1>>}
MCNums == {Zero, One, <<255>>, <<256>>}
MCDivisors == {One, <<3>>, <<256>>}

\* In recorded histories, data and numbers are indices into pools
DataOf(d) == IF Record THEN <<>> ELSE d
NumOf(n) == IF Record THEN Zero ELSE n

DNew == \E g \in Names, n \in Lens, d \in Datas : BNew(g, n, DataOf(d)) /\ Log([op |-> "new", g |-> g, n |-> n, d |-> d])
DDel == \E g \in DOMAIN num : BDel(g) /\ Log([op |-> "del", g |-> g])
DSet == \E g \in DOMAIN num, d \in Datas : BSet(g, DataOf(d)) /\ Log([op |-> "set", g |-> g, d |-> d])
DSetNum == \E g \in DOMAIN num, n \in Nums : BSetNum(g, NumOf(n)) /\ Log([op |-> "setnum", g |-> g, n |-> n])
DInc == \E g \in DOMAIN num : BInc(g) /\ Log([op |-> "inc", g |-> g])
DAdd == \E g \in DOMAIN num, n \in Nums : BAdd(g, NumOf(n)) /\ Log([op |-> "add", g |-> g, n |-> n])
DObs == \E g \in DOMAIN num, k \in {"rem", "lsb", "size", "str", "bytes"}, n \in Nums :
          Record /\ UNCHANGED num /\ Log([op |-> k, g |-> g, n |-> n])

Live == DNew \/ DDel \/ DSet \/ DSetNum \/ DInc \/ DAdd
Depth == atoi(IOEnv.DEPTH)
Done == hist' = Append(hist, [op |-> "done"]) /\ UNCHANGED num
Init == BInit /\ hist = <<>>
Next == IF Record THEN (IF Len(hist) >= Depth THEN Len(hist) = Depth /\ Done ELSE Live \/ DObs) ELSE Live
Emit == Len(hist) = Depth + 1 => PrintT("@@" \o ToJson(SubSeq(hist, 1, Depth)))

Bound == \A g \in DOMAIN num : NumBits(num[g].z) <= MaxBits

\* The value layer is consistent on every number that is reached
WellFormed == \A g \in DOMAIN num : IsNum(num[g].z)
Decimal == \A g \in DOMAIN num : FromDec(ToDec(num[g].z)) = num[g].z
BytesBack == \A g \in DOMAIN num : FromBytes(Reverse(BigEndian(num[g].z))) = num[g].z
Remainder == \A g \in DOMAIN num, d \in Divisors :
   LET r == DivMod(num[g].z, d) IN Cmp(r[2], d) < 0 /\ Add(Mul(r[1], d), r[2]) = num[g].z
\* a number that was just read from bytes fits the declared bytes
SetFits == [][\A g \in DOMAIN num' : (g \in DOMAIN num /\ (\E d \in Datas : BSet(g, DataOf(d)))) => NumBytes(num'[g].z) <= num'[g].len]_num
=============================================================================
