----------------------------- MODULE TraceAhap -----------------------------
EXTENDS Ahap, TraceKit
VARIABLES l, bad
Judge(e) ==
  IF e.end # "ok" THEN {"terminates normally (" \o e.end \o ")"}
  ELSE IF e.odd THEN {}
  ELSE IF e.kind # "ok" \/ e.chans > 1 \/ \E i \in 1..Len(e.items) : ~WellFormed(e.items[i])
  THEN Ck(e.o.ret # 0, "a file that is no AHAP pattern, or a second channel, is refused")
  ELSE IF e.o.ret # 0 THEN {"a well formed pattern is imported"}
  ELSE IF Len(e.o.chans) # 1 THEN {"one channel"}
  ELSE
  LET ca == CurveOf(e.items, "HapticIntensityControl")
      cf == CurveOf(e.items, "HapticSharpnessControl")
      ch == e.o.chans[1]
      T == Transients(e.items)
      C == Continuous(e.items)
      tb == {i \in 1..Len(ch.bands) : ch.bands[i].type = Transient}
      vb == {i \in 1..Len(ch.bands) : ch.bands[i].type = Vectorial}
      ks == LET RECURSIVE G(_) G(i) == IF i > Len(ch.bands) THEN <<>>
                  ELSE (IF i \in tb THEN LET RECURSIVE H(_) H(j) == IF j > Len(ch.bands[i].fx) THEN <<>>
                                             ELSE [m \in 1..Len(ch.bands[i].fx[j].kfs) |->
                                                    [t |-> ch.bands[i].fx[j].pos + ch.bands[i].fx[j].kfs[m].p[1], a |-> ch.bands[i].fx[j].kfs[m].a, f |-> ch.bands[i].fx[j].kfs[m].f]] \o H(j + 1) IN H(1)
                        ELSE <<>>) \o G(i + 1) IN G(1)
      fx == LET RECURSIVE G(_) G(i) == IF i > Len(ch.bands) THEN <<>> ELSE (IF i \in vb THEN ch.bands[i].fx ELSE <<>>) \o G(i + 1) IN G(1)
      KOk(k, it) == /\ k.t = it.t /\ Has(k.a) /\ Near(k.a[1], TransientAmp(Last(it.params, "HapticIntensity"), ca, it.t), 5)
                    /\ Has(k.f) /\ (cf # <<>> \/ k.f[1] = 90)
      Same(i, j) == e.items[i].t = e.items[j].t /\ Last(e.items[i].params, "HapticIntensity") = Last(e.items[j].params, "HapticIntensity")
      SameC(i, j) == Same(i, j) /\ e.items[i].d = e.items[j].d /\ Last(e.items[i].params, "HapticSharpness") = Last(e.items[j].params, "HapticSharpness") IN
  Ck(tb \cup vb = 1..Len(ch.bands) /\ \A i \in 1..Len(ch.bands) : ch.bands[i].lo = 65 /\ ch.bands[i].up = 300, "transient and vectorial bands of 65 to 300 Hz") \cup
  Ck(Len(ks) = Cardinality(T) /\ \A i \in T : Cardinality({m \in 1..Len(ks) : KOk(ks[m], e.items[i])}) >= Cardinality({j \in T : Same(i, j)}), "a keyframe for each transient") \cup
  Ck(\A m \in 1..(Len(ks) - 1) : ks[m].t <= ks[m + 1].t, "transients in order of time") \cup
  Ck(Len(fx) = Cardinality(C), "an effect for each continuous event") \cup
  Ck(\A i \in C : Cardinality({m \in 1..Len(fx) : EffectOk(fx[m], e.items[i], ca, cf)}) >= Cardinality({j \in C : SameC(i, j)}), "intensity and sharpness of a continuous event") \cup
  Ck(\A i \in vb : Apart(ch.bands[i]), "effects of a band do not overlap") \cup
  Ck(e.chans = 0 \/ ch.desc = "kept", "the channel of the perception is used")
Init == l = 1 /\ bad = 0
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l]) IN
             /\ IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", Trace[l].id, v>>)
             /\ bad' = bad + (IF v = {} THEN 0 ELSE 1)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
