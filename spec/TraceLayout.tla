---------------------------- MODULE TraceLayout ----------------------------
(* Recorded files and initialization units against the layout of the formats *)
EXTENDS Layout, TraceKit
VARIABLES l
Judge(e) ==
  IF e.end # "ok" THEN {"terminates normally (" \o e.end \o ")"}
  ELSE Ck(e.w, "writing succeeds") \cup
       (IF e.k = "file" THEN FileDiff(e.in, [b |-> e.b, t |-> e.t, s |-> FALSE, m |-> e.m])
        ELSE IF \E k \in 1..Len(e.units) : ~WellFramed(e.units[k]) THEN {"the unit length is the number of bytes that follow the header"}
        ELSE UnitsLayoutDiff(e.in, e.units, e.t, e.m))
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l]) IN IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", Trace[l].id, v>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
