------------------------------- MODULE Ahap -------------------------------
(* Import of AHAP patterns.  Times are ticks, values are scaled by SC; a    *)
(* curve is a sequence of points [t, v] in order of time.  A transient      *)
(* becomes a keyframe, a continuous event an effect; the intensity curve    *)
(* multiplies and the sharpness curve is added while it lasts.              *)
EXTENDS Hap
First(c, x) == IF \E i \in 1..Len(c) : c[i].t >= x
               THEN CHOOSE i \in 1..Len(c) : c[i].t >= x /\ \A j \in 1..(i - 1) : c[j].t < x ELSE 0
\* of several points at a time the last one counts from then on
LastAt(c, x) == CHOOSE k \in 1..Len(c) : c[k].t = x /\ \A j \in (k + 1)..Len(c) : c[j].t # x
Mul(a, b) == (a * b) \div SC
\* the value between two points; the sharpness between two points rises half as fast (see DESIGN)
Mid(p, q, x) == p.v + ((q.v - p.v) * (x - p.t)) \div (q.t - p.t)
Half(p, q, x) == p.v + ((q.v - p.v) * (x - p.t)) \div (2 * (q.t - p.t))
\* --- transients
TransientAmp(v, c, x) ==
  LET f == First(c, x)
      b == Mul(7920, v) IN
  IF v = -1 THEN IF f = 0 THEN 5000 ELSE IF f = 1 THEN Mul(5000, c[1].v) ELSE Mul(5000, Mid(c[f - 1], c[f], x))
  ELSE IF f = 0 THEN b ELSE IF f = 1 THEN Mul(b, c[1].v) ELSE Mul(b, Mid(c[f - 1], c[f], x))
\* --- continuous events: begin x, duration d
Inside(c, x, d) == {i \in 1..Len(c) : x < c[i].t /\ c[i].t < x + d}
StartVal(c, x, base, At(_), Between(_, _)) ==
  LET f == First(c, x) IN
  IF f = 0 THEN base
  ELSE IF c[f].t = x THEN IF f = Len(c) THEN base ELSE At(c[f])
  ELSE IF f = 1 THEN base ELSE Between(c[f - 1], c[f])
EndVal(c, x, d, base, Between(_, _)) ==
  LET g == First(c, x + d) IN IF g <= 1 THEN base ELSE Between(c[g - 1], c[g])
AmpBase(v) == IF v = -1 THEN 5000 ELSE Mul(6138, v)
AmpAt(v, c, x, d, p) ==
  LET b == AmpBase(v) IN
  IF p = 0 THEN StartVal(c, x, b, LAMBDA q : Mul(b, q.v), LAMBDA q, r : Mul(b, Mid(q, r, x)))
  ELSE IF p = d THEN EndVal(c, x, d, b, LAMBDA q, r : Mul(b, Mid(q, r, x + d)))
  ELSE LET i == LastAt(c, x + p) IN IF i = Len(c) THEN b ELSE Mul(b, c[i].v)
Hz(s) == (650000 + 235 * Clamp(s, 0, SC) + 5000) \div SC
FreqBase(s) == IF s = -1 THEN 90 ELSE Hz(s)
FreqAt(s, c, x, d, p) ==
  LET b == FreqBase(s) IN
  IF p = 0 THEN StartVal(c, x, b, LAMBDA q : Hz(s + q.v), LAMBDA q, r : Hz(s + Half(q, r, x)))
  ELSE IF p = d THEN EndVal(c, x, d, b, LAMBDA q, r : Hz(s + Half(q, r, x + d)))
  ELSE LET i == LastAt(c, x + p) IN IF i = Len(c) THEN b ELSE Hz(s + c[i].v)
AmpPos(c, x, d) == {0, d} \cup {c[i].t - x : i \in Inside(c, x, d)}
\* --- a whole pattern: the values of parameters are -1 when not given
Last(ps, id) == LET I == {i \in 1..Len(ps) : ps[i].id = id} IN
                IF I = {} THEN -1 ELSE ps[CHOOSE i \in I : \A j \in I : j <= i].v
CurveOf(items, id) ==
  LET RECURSIVE G(_) G(i) == IF i > Len(items) THEN <<>>
        ELSE (IF items[i].k = "curve" /\ items[i].id = id THEN items[i].pts ELSE <<>>) \o G(i + 1)
      RECURSIVE Ins(_, _)
      Ins(s, p) == IF s = <<>> \/ s[Len(s)].t <= p.t THEN Append(s, p) ELSE Append(Ins(SubSeq(s, 1, Len(s) - 1), p), s[Len(s)])
      RECURSIVE Sort(_, _)
      Sort(s, i) == IF i = 0 THEN <<>> ELSE Ins(Sort(s, i - 1), s[i])
      all == G(1) IN Sort(all, Len(all))
WellFormed(it) ==
  CASE it.k = "curve" -> it.id \notin {"HapticIntensityControl", "HapticSharpnessControl"} \/ it.whole
    [] it.k = "event" -> it.id \notin {"HapticTransient", "HapticContinuous"} \/ it.whole
    [] OTHER -> TRUE
Transients(items) == {i \in 1..Len(items) : items[i].k = "event" /\ items[i].id = "HapticTransient"}
Continuous(items) == {i \in 1..Len(items) : items[i].k = "event" /\ items[i].id = "HapticContinuous"}
\* --- the comparison with what was imported
KfOk(k, it, ca, cf) ==
  LET p == OptOr(k.p, -1)
      v == Last(it.params, "HapticIntensity")
      s == Last(it.params, "HapticSharpness") IN
  /\ IF p \in AmpPos(ca, it.t, it.d) THEN Has(k.a) /\ Near(k.a[1], AmpAt(v, ca, it.t, it.d, p), 5) ELSE ~Has(k.a)
  /\ IF p \in AmpPos(cf, it.t, it.d) THEN Has(k.f) /\ Near(k.f[1], FreqAt(s, cf, it.t, it.d, p), 1) ELSE ~Has(k.f)
EffectOk(f, it, ca, cf) ==
  LET ps == AmpPos(ca, it.t, it.d) \cup AmpPos(cf, it.t, it.d) IN
  /\ f.pos = it.t /\ f.type = Basis /\ Len(f.kfs) = Cardinality(ps)
  /\ OptOr(f.base, 0) = 0 /\ OptOr(f.phase, 0) = 0
  /\ \A i \in 1..Len(f.kfs) : OptOr(f.kfs[i].p, -1) \in ps /\ KfOk(f.kfs[i], it, ca, cf)
  /\ \A i \in 1..(Len(f.kfs) - 1) : f.kfs[i].p[1] < f.kfs[i + 1].p[1]
End(f) == f.pos + f.kfs[Len(f.kfs)].p[1]
Apart(b) == \A i, j \in 1..Len(b.fx) : i >= j \/ End(b.fx[i]) <= b.fx[j].pos \/ End(b.fx[j]) <= b.fx[i].pos
=============================================================================
