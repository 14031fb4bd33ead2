----------------------------- MODULE TraceHjif -----------------------------
(* Events of two kinds: "save" (an experience saved, its text read by an     *)
(* independent reader, loaded and saved again) and "load" (a text written    *)
(* apart from the code under test, perhaps with one wrong member, loaded).   *)
EXTENDS Hjif, TraceKit
VARIABLES l, bad
JudgeSave(e) ==
  IF e.t.err # "" THEN {"the saved file is not an HJIF file: " \o e.t.err}
  ELSE WriteDiff(e.x, e.t.v) \cup
       Ck(e.r = Conformant(e.t.v), "a saved file is accepted if and only if it is conformant") \cup
       (IF e.r THEN LoadDiff(e.t.v, e.h) \cup Ck(e.same \/ \E i \in 1..Len(e.x.syncs) : e.x.syncs[i].ts = <<>>, "saving what was loaded gives the same file") ELSE {})
JudgeLoad(e) ==
  IF Refused(e.ed) THEN Ck(~e.r, "a file without a mandatory member is refused")
  ELSE LET X == Apply(e.ed, e.x) IN
       Ck(e.r = Conformant(X), "a file is accepted if and only if it is conformant") \cup
       (IF e.r /\ Conformant(X) THEN LoadDiff(X, e.h) ELSE {})
\* any text at all: no crash, and what is accepted is conformant and can be saved and loaded again
JudgeJunk(e) ==
  IF ~e.r THEN {}
  ELSE Ck(Conformant(e.h), "what is loaded is conformant") \cup
       Ck(e.r2 /\ e.same, "what was loaded can be saved and loaded again")
Judge(e) ==
  IF e.end # "ok" THEN {"terminates normally (" \o e.end \o ")"}
  ELSE CASE e.k = "save" -> JudgeSave(e) [] e.k = "load" -> JudgeLoad(e) [] e.k = "junk" -> JudgeJunk(e)
Init == l = 1 /\ bad = 0
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l]) IN
             /\ IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", Trace[l].id, v>>)
             /\ bad' = bad + (IF v = {} THEN 0 ELSE 1)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
