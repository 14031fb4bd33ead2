---------------------------- MODULE TraceRender ----------------------------
EXTENDS Render, TraceKit
VARIABLES l, bad
Tol == 25
\* curves may overshoot far; slopes of long Akima curves are rounded
Ok(v, right, tol) == \E r \in right : Near(v, r, Max2(tol, Abs(r) \div 400))
Rough(b, step) == IF b.type = Curve /\ OptOr(b.curve, 0) = 3 THEN Tol + Sum(b.fx, LAMBDA e : End(e)) \div step ELSE Tol
Kind(t) == CASE t = 0 -> "transient" [] t = 1 -> "curve" [] t = 2 -> "vectorial" [] t = 3 -> "wavelet"
Clamped(s) == LET RECURSIVE G(_, _)
                  G(k, v) == IF k > Len(s) THEN v ELSE G(k + 1, Clamp(v + s[k], -SC, SC)) IN G(1, 0)
Judge(e) ==
  IF e.end # "ok" THEN {"terminates normally (" \o e.end \o ")"}
  ELSE
  LET o == e.o
      nb == Len(e.bands)
      nt == Len(e.at) IN
  UNION {Ck((e.bands[b].type = Curve /\ OptOr(e.bands[b].curve, 0) \notin {1, 2}) \/ \A i \in 1..nt : Ok(o.bands[b][i], Value(e.bands[b], e.at[i], e.ts), Tol), "the value of a " \o Kind(e.bands[b].type) \o " band") : b \in 1..nb} \cup
  UNION {Ck(\A i \in 1..Len(o.sband[b]) : Ok(o.sband[b][i], Sample(e.bands[b], i - 1, e.fs, e.pad, e.ts), Rough(e.bands[b], e.ts \div e.fs)), "the samples of a " \o Kind(e.bands[b].type) \o " band") : b \in 1..nb} \cup
  Ck(\A i \in 1..Len(o.sampled) : Near(o.sampled[i], Clamped([b \in 1..nb |-> o.sband[b][i]]), nb + 1), "a sampled channel is the sum of its bands within -1 and 1") \cup
  Ck(\A i \in 1..nt : Near(o.chan[i], Clamp(Sum([b \in 1..nb |-> o.bands[b][i]], LAMBDA x : x), -SC, SC), nb), "a channel is the sum of its bands within -1 and 1") \cup
  Ck(\A b \in 1..nb : Near(o.len[b], Length(e.bands[b], e.ts), 1), "the length of a band") \cup
  Ck(\A i \in 1..Len(o.sampled) : Abs(o.sampled[i]) <= SC, "samples within -1 and 1") \cup
  Ck(\A i \in 1..Len(o.sampled) : e.grid[i] = 0 \/ Near(o.sampled[i], Clamped([b \in 1..nb |-> o.bands[b][e.grid[i]]]), nb + 1), "samples are the values at their times")
Init == l = 1 /\ bad = 0
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l]) IN
             /\ IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", Trace[l].id, v>>)
             /\ bad' = bad + (IF v = {} THEN 0 ELSE 1)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
