------------------------------ MODULE AhapMC ------------------------------
(* Patterns written point by point: a curve is drawn, then an event is put   *)
(* anywhere before, inside, across or after it.  Checks that modulation      *)
(* keeps within the event's own range, and emits each pattern for replay.    *)
EXTENDS Ahap, Json, TLC
CONSTANTS MaxPts, MaxT, Emit
VARIABLES pts, ev, done
vars == <<pts, ev, done>>
Vals == {0, 5000, SC}
Init == pts = <<>> /\ ev = <<>> /\ done = FALSE
Point == /\ ev = <<>> /\ Len(pts) < MaxPts
         /\ \E t \in 0..MaxT, v \in Vals : (IF pts = <<>> THEN TRUE ELSE pts[Len(pts)].t < t) /\ pts' = Append(pts, [t |-> t, v |-> v])
         /\ UNCHANGED <<ev, done>>
Event == /\ ev = <<>> /\ \E t \in 0..(MaxT + 1), d \in 1..MaxT : ev' = <<[t |-> t, d |-> d]>>
         /\ UNCHANGED <<pts, done>>
Out == /\ ev # <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED <<pts, ev>>
       /\ (IF Emit THEN PrintT("TR" \o ToJson([pts |-> pts, t |-> ev[1].t, d |-> ev[1].d])) ELSE TRUE)
Next == Point \/ Event \/ Out
Spec == Init /\ [][Next]_vars
Bounded == ev = <<>> \/ LET x == ev[1].t
                            d == ev[1].d IN
  /\ \A p \in AmpPos(pts, x, d) : AmpAt(SC, pts, x, d, p) \in 0..AmpBase(SC)
  /\ \A p \in AmpPos(pts, x, d) : FreqAt(5000, pts, x, d, p) \in Hz(5000)..300
  /\ AmpPos(pts, x, d) \subseteq 0..d
  /\ (First(pts, x) # 0 /\ pts[1].t < x + d) \/ \A p \in AmpPos(pts, x, d) : AmpAt(SC, pts, x, d, p) = AmpBase(SC)
=============================================================================
