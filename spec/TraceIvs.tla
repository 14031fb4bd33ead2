------------------------------ MODULE TraceIvs ------------------------------
EXTENDS Ivs, TraceKit
VARIABLES l, bad
\* f: the frequency of period f ms (0: a magsweep)
FreqOk(v, f) == IF f = 0 THEN v = 170 ELSE Abs(v * f - 1000) < f
EffectOk(x, at, b, la, ts) ==
  LET k == Keyframes(b, la) IN
  /\ Tick(x.pos, at, ts) /\ x.type = Basis /\ OptOr(x.base, -1) = Wave(b) /\ OptOr(x.phase, 0) = 0
  /\ Len(x.kfs) = Len(k)
  /\ \A i \in 1..Len(k) : /\ Has(x.kfs[i].p) /\ Tick(x.kfs[i].p[1], k[i].p, ts)
                          /\ Has(x.kfs[i].a) /\ Near(x.kfs[i].a[1], k[i].a, 3)
                          /\ IF Has(k[i].f) THEN Has(x.kfs[i].f) /\ FreqOk(x.kfs[i].f[1], k[i].f[1]) ELSE ~Has(x.kfs[i].f)
End(f) == f.pos + f.kfs[Len(f.kfs)].p[1]
Apart(b) == \A i, j \in 1..Len(b.fx) : i >= j \/ End(b.fx[i]) <= b.fx[j].pos \/ End(b.fx[j]) <= b.fx[i].pos
JudgeChannel(ch, tl, bs, ts, mod, old) ==
  LET played == {i \in 1..Len(tl.launch) : Plays2(bs, tl.launch[i])}
      ex == LET RECURSIVE G(_) G(i) == IF i > Len(tl.launch) THEN <<>>
                  ELSE (IF i \in played THEN LET p == Plays(tl.repeats, tl.launch[i].time) IN [m \in 1..Len(p) |-> [at |-> p[m], l |-> i]] ELSE <<>>) \o G(i + 1) IN G(1)
      fx == LET RECURSIVE G(_) G(i) == IF i > Len(ch.bands) THEN <<>> ELSE ch.bands[i].fx \o G(i + 1) IN G(1)
      Ok(x, y) == EffectOk(x, y.at, bs[Find(bs, tl.launch[y.l].effect)], tl.launch[y.l], ts)
      Like(y, z) == y.at = z.at /\ (y.l = z.l \/ (tl.launch[y.l] = tl.launch[z.l])) IN
  Ck(\A i \in 1..Len(ch.bands) : ch.bands[i].type = Vectorial /\ ch.bands[i].lo = 0 /\ ch.bands[i].up = 1000, "vectorial bands of 0 to 1000 Hz") \cup
  Ck(Len(fx) = Len(ex), "an effect for each time a launched effect is played") \cup
  Ck(\A m \in 1..Len(ex) : Cardinality({i \in 1..Len(fx) : Ok(fx[i], ex[m])}) >= Cardinality({n \in 1..Len(ex) : Like(ex[m], ex[n])}), "what is launched is played when it should be") \cup
  Ck(\A i \in 1..Len(ch.bands) : Apart(ch.bands[i]), "effects of a band do not overlap") \cup
  Ck(ch.desc = IF old THEN "kept" ELSE tl.name \o " - " \o mod, "a channel is named after its timeline")
Judge(e) ==
  IF e.end # "ok" THEN {"terminates normally (" \o e.end \o ")"}
  ELSE IF e.odd THEN {}
  ELSE IF e.kind # "ok" THEN Ck(e.o.ret # 0, "a file that is no XML is refused")
  ELSE IF e.o.ret # 0 THEN {"a well formed file is imported"}
  ELSE IF Len(e.o.chans) # Max2(Len(e.timelines), e.chans) THEN {"a channel for each timeline"}
  ELSE
  UNION {JudgeChannel(e.o.chans[i], e.timelines[i], e.basis, e.ts, e.mod, i <= e.chans) : i \in 1..Len(e.timelines)} \cup
  Ck(\A i, j \in 1..Len(e.o.chans) : i = j \/ e.o.chans[i].id # e.o.chans[j].id, "channels have identifiers of their own")
Init == l = 1 /\ bad = 0
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l]) IN
             /\ IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", Trace[l].id, v>>)
             /\ bad' = bad + (IF v = {} THEN 0 ELSE 1)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
