---------------------------- MODULE TraceHelpers ----------------------------
EXTENDS TraceBase, Helpers
U(b) == FromBytes(b)
TInit == HInit /\ l = 1
TNext ==
  \/ IsEvent("Case")   /\ field' = Zero /\ src' = <<>> /\ dst' = <<>>
  \/ IsEvent("Exit")   /\ CleanExit /\ UNCHANGED hvars
  \/ IsEvent("Ctx")    /\ HField(Ev.p)
  \/ IsEvent("Log2")   /\ HLog2(Ev.z, Ev.out)
  \/ IsEvent("Blocks") /\ HBlocks(U(Ev.n), U(Ev.k), U(Ev.out))
  \/ IsEvent("BytesN") /\ HBlocks(U(Ev.n), <<8>>, U(Ev.out))
  \/ IsEvent("BytesZ") /\ HBytes(Ev.z, Ev.out)
  \/ IsEvent("Pad")    /\ Ev.intact /\ HPad(Ev.z, Ev.n, Ev.out, Ev.back)
  \/ IsEvent("PadTo")  /\ Ev.intact /\ HPadTo(Ev.z, Ev.n, Ev.out)
  \/ IsEvent("Twos")   /\ HTwos(Ev.z, Ev.out)
  \/ IsEvent("Print")  /\ HPrint(Ev.v, Ev.out)
  \/ IsEvent("Src")    /\ HSrc(Ev.s, Ev.v)
  \/ IsEvent("Poke")   /\ HPoke(Ev.s, Ev.i, Ev.n)
  \/ IsEvent("Conv")   /\ HConv(Ev.s, Ev.d, Ev.dim)
  \/ IsEvent("ConvNull") /\ HConvNull(Ev.keep, Ev.d)
  \/ IsEvent("Read")   /\ HRead(Ev.d, Ev.out)
  \/ IsEvent("ReadS")  /\ HReadS(Ev.s, Ev.out)
=============================================================================
