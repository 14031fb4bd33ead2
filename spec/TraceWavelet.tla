---------------------------- MODULE TraceWavelet ----------------------------
EXTENDS Wavelet, TraceKit
VARIABLES l, bad
Dwt(e) ==
  LET n == Len(e.x)
      t == Slack(e.levels, MaxAbs(e.o.c))
      c == Transform(e.x, e.levels) IN
  Ck(Close(e.o.c, c, t), "transform") \cup
  Ck(Close(e.o.z, Rebuild(e.x, e.levels), Slack(e.levels, MaxAbs(e.o.z))), "inverse transform") \cup
  Ck(Close(e.o.y, e.x, 1), "the inverse gives the samples back") \cup
  Ck(Close(Rebuild(c, e.levels), e.x, 2 * t), "the specified inverse gives the samples back")
\* decoded blocks of known coefficients
Dec(e) ==
  LET n == Len(e.blocks[1].x)
      m == MaxAbs(e.o.sig) IN
  Ck(Len(e.o.fx) = Len(e.blocks), "as many blocks as before") \cup
  (IF Len(e.o.fx) # Len(e.blocks) THEN {} ELSE
   UNION {LET b == e.blocks[k] IN
          Ck(e.o.fx[k].pos = b.pos, "the position of a block") \cup
          Ck(Close(e.o.fx[k].s, Samples(b.x, b.wav, b.lev, e.s), Slack(Levels(n), MaxAbs(e.o.fx[k].s))), "the samples of a block") :
          k \in 1..Len(e.blocks)} \cup
   Ck(Close(e.o.sig, Signal([k \in 1..Len(e.blocks) |-> <<At(e.blocks[k].pos, e.up, e.ts), e.o.fx[k].s>>], n), 0),
      "the blocks placed in the signal"))
\* what the encoder makes of a signal
BlockOf(sig, k, n) == [i \in 1..n |-> IF (k - 1) * n + i <= Len(sig) THEN sig[(k - 1) * n + i] ELSE 0]
Rt(e) ==
  LET n == e.bl
      o == e.o
      nb == (Len(e.sig) + n - 1) \div n
      ticks == (n * e.ts) \div e.fs
      levels == Levels(n) IN
  Ck(o.ok /\ o.io, "encoded, written and read") \cup
  Ck(o.type = 3 /\ o.lo = e.lo /\ o.up = e.fs /\ o.blk = <<ticks>>, "the band") \cup
  Ck(Len(o.blocks) = nb /\ Len(o.fx) = nb, "as many blocks as the signal needs") \cup
  (IF Len(o.blocks) # nb \/ Len(o.fx) # nb THEN {} ELSE
   UNION {LET x == BlockOf(e.sig, k, n)
              c == Transform(x, levels)
              m == MaxAbs(c)
              bits == Min2(e.budget, 15 * (levels + 1))
              b == o.blocks[k] IN
          Ck(o.blocks[k].pos = (k - 1) * ticks /\ o.fx[k].pos = (k - 1) * ticks, "the position of a block") \cup
          \* the scale is the largest coefficient, rounded up to the steps of its code (below 1 the last step is 127 / 128)
          Ck(m < 100 \/ e.budget = 0 \/ (b.bytes = 0 /\ e.budget <= levels) \/ LET w == (o.blocks[k].wav * 10000) \div 128 IN w >= Min2(m, IF m < 10000 + Slack(levels, m) THEN 9921 ELSE m) - Slack(levels, m) /\ w <= m + (IF m < 10000 THEN 80 ELSE 1260) + Slack(levels, m),
             "the scale of a block") \cup
          \* the bits of the budget are spent: no part can have fewer than its even share if it has the most
          Ck(b.bytes = 0 \/ b.lev \in ((bits + levels) \div (levels + 1))..Min2(15, bits), "the bits of a block") \cup
          Ck(Len(b.c) = n /\ \A i \in 1..n : Abs(b.c[i] - c[i]) <= Abs(c[i]) + Slack(levels, m), "no coefficient is farther off than if it were left out") \cup
          \* with all the bits the samples come back
          Ck(e.budget < 15 * (levels + 1) \/ Close(o.fx[k].s, x, (IF m > 9921 - Slack(levels, m) /\ m < 10000 + Slack(levels, m) THEN 160 ELSE 2) + (m * Pow2(levels)) \div 8192), "the samples of a block") :
          k \in 1..nb} \cup
   Ck(o.sig = Signal([k \in 1..nb |-> <<(k - 1) * n, o.fx[k].s>>], n), "the signal") \cup
   Ck(~o.io \/ e.ts # 1000 \/ o.file = [fx |-> o.fx, sig |-> o.sig], "the same samples out of a file"))
Judge(e) ==
  IF e.end # "ok" THEN {"terminates normally (" \o e.end \o ")"}
  ELSE CASE e.k = "dwt" -> Dwt(e) [] e.k = "dec" -> Dec(e) [] e.k = "rt" -> Rt(e)
Init == l = 1 /\ bad = 0
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l]) IN
             /\ IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", Trace[l].id, v>>)
             /\ bad' = bad + (IF v = {} THEN 0 ELSE 1)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
