----------------------------- MODULE TraceEdit -----------------------------
(* Histories of editing calls.  The state cur is the experience the          *)
(* specification holds; after a rejected step it follows the implementation. *)
EXTENDS Edit, TraceKit
VARIABLES l, bad, cur
Judge(e, h) ==
  IF e.end # "ok" THEN {"terminates normally (" \o e.end \o ")"}
  ELSE IF e.o.k = "build" THEN {} ELSE StepDiff(h, e.o, e.ret, e.found, e.h)
Init == l = 1 /\ bad = 0 /\ cur = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               v == Judge(e, cur) IN
             /\ IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", e.id, v>>)
             /\ bad' = bad + (IF v = {} THEN 0 ELSE 1)
             /\ cur' = IF e.end # "ok" THEN <<>> ELSE e.h
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad, cur>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
