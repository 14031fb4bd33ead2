---------------------------- MODULE TraceBinary ----------------------------
EXTENDS Binary, TraceKit
VARIABLES l, bad
Judge(e) ==
  IF e.end # "ok" THEN {"terminates normally (" \o e.end \o ")"}
  ELSE Ck(e.res.w, "write succeeds") \cup Ck(e.res.r, "load succeeds") \cup
       BinDiff(e.in, e.res.h) \cup
       Ck(e.res.rm /\ e.res.hm = e.res.h, "loading from memory agrees with loading from file") \cup
       Ck(e.res.r2, "second load succeeds") \cup BinDiff(e.res.h, e.res.h2)
Init == l = 1 /\ bad = 0
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l]) IN
             /\ IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", Trace[l].id, v>>)
             /\ bad' = bad + (IF v = {} THEN 0 ELSE 1)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
