---------------------------- MODULE TracePcm ----------------------------
EXTENDS Pcm, TraceKit
VARIABLES l, bad
CurveBand(e, b, s) ==
  LET p == Points(s, e.rate, e.ts) IN
  Ck(b.curve = <<CurveOf(e.mod)>> /\ b.lo = 0 /\ b.up = (IF e.cf > 0 THEN e.cf \div 100 ELSE e.rate), "the curve band") \cup
  (IF e.cf > 0
   \* the turns of what is below the cutoff: every point lies on it, the ends are there
   THEN IF Len(b.fx) # 1 THEN {"a curve of one effect"}
        ELSE LET q == b.fx[1].kfs
                 m == Len(q)
                 lo == e.o.low IN
             Ck(Len(s) = 0 \/ (m > 0 /\ q[1].p = <<0>> /\ q[m].p = <<Tick(Len(s) - 1, e.rate, e.ts)>>), "the curve reaches from end to end") \cup
             Ck(e.rate # e.ts \/ \A i \in 1..m : Near(q[i].a[1], lo[e.at][q[i].p[1] + 1], 1), "the points of the curve lie on what is below the cutoff")
   ELSE IF Len(b.fx) # 1 \/ Len(b.fx[1].kfs) # Len(p) THEN {"a curve has a point at each turn of the signal, and at its ends"}
   ELSE Ck(b.fx[1].pos = 0 /\ \A i \in 1..Len(p) : b.fx[1].kfs[i].p = <<p[i][1]>> /\ b.fx[1].kfs[i].f = <<>> /\
             Has(b.fx[1].kfs[i].a) /\ Near(b.fx[1].kfs[i].a[1], Amp(p[i][2]), 1), "the points of the curve are the samples at their times"))
WaveBand(e, b) ==
  LET t == (e.bl * e.ts) \div e.rate IN
  Ck(b.lo = e.cf \div 100 /\ b.up = e.rate /\ b.blk = <<t>>, "the wavelet band") \cup
  Ck(Len(b.fx) = Blocks(e) /\ \A i \in 1..Len(b.fx) : b.fx[i].pos = (i - 1) * t, "a block for each block length of samples, one after the other")
Chan(e, k, c) ==
  LET s == e.data[k]
      bt == Bands(e) IN
  Ck(c.fs = <<e.rate>> /\ c.sc = <<Len(s)>>, "the rate and number of samples") \cup
  Ck(IF k <= e.chans THEN c.desc = "kept" ELSE c.gain = SC, "channels that are there are kept") \cup
  (IF [i \in 1..Len(c.bands) |-> c.bands[i].type] # bt THEN {"a curve and a wavelet band as the settings say"}
   ELSE UNION {IF bt[i] = Curve THEN CurveBand([e EXCEPT !.at = k], c.bands[i], s) ELSE WaveBand(e, c.bands[i]) : i \in 1..Len(bt)}) \cup
  Ck(~High(e) \/ \A i \in 1..Len(s) : Near(e.o.play[k][i], Amp(s[i]) - e.o.low[k][i], Loss(e)), "what is played is what is above the cutoff") \cup
  Ck(~Whole(e) \/ \A i \in 1..Len(s) : Near(e.o.play[k][i], Amp(s[i]), Loss(e)), "what is played is the recording") \cup
  \* a straight curve through every turn stays between the samples it joins
  Ck(e.w = 1 \/ e.cf > 0 \/ e.ts # e.rate \/ CurveOf(e.mod) # 2 \/
     \A i \in 1..Len(s) : (i = 1 \/ i = Len(s) \/ Turn(s, i)) => Near(e.o.play[k][i], Amp(s[i]), 1), "what is played goes through every turn of the recording")
Judge(e) ==
  IF e.end # "ok" THEN {"terminates normally (" \o e.end \o ")"}
  ELSE IF ~Usable(e) THEN Ck(e.o.ret # 0, "a file that is no recording, or too small for the channels, is refused")
  ELSE IF e.o.ret # 0 \/ Len(e.o.chans) # Len(e.data) THEN {"a channel for each track"}
  ELSE UNION {Chan(e, k, e.o.chans[k]) : k \in 1..Len(e.data)}
Init == l = 1 /\ bad = 0
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l]) IN
             /\ IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", Trace[l].id, v>>)
             /\ bad' = bad + (IF v = {} THEN 0 ELSE 1)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
