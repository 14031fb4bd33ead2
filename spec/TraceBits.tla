----------------------------- MODULE TraceBits -----------------------------
(* One event per field.  off is the number of bits written so far: writer   *)
(* and both readers have to be at the same offset after every field.         *)
EXTENDS Bits, TraceKit
VARIABLES l, bad, off
Judge(e, o) ==
  IF e.end # "ok" THEN {"terminates normally (" \o e.end \o ")"}
  ELSE IF e.k = "close"
  THEN Ck(e.left < 8 /\ e.left = (8 - (o % 8)) % 8, "the reader consumed exactly what was written") \cup
       Ck(e.fill /\ e.reread, "byte padding") \cup Ck(e.bytes = (o + 7) \div 8, "number of bytes")
  ELSE Ck(e.o.end = o + Width(e.f), "width written") \cup Ck(e.o.idx = o + Width(e.f), "width read") \cup
       FieldOk(e.f, e.bits, e.o)
Init == l = 1 /\ bad = 0 /\ off = 0
Start(e) == IF l = 1 \/ Trace[l - 1].grp # e.grp THEN 0 ELSE off
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               v == Judge(e, Start(e)) IN
             /\ IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", e.id, v>>)
             /\ bad' = bad + (IF v = {} THEN 0 ELSE 1)
             /\ off' = IF e.end # "ok" \/ e.k = "close" THEN 0 ELSE e.o.end
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad, off>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
