---------------------------- MODULE TraceFiles ----------------------------
EXTENDS Files, TraceKit
VARIABLES l, bad
\* what is seen of a path holding c: -1 nothing, the digest of a document; other bytes are not compared (0)
Sees(e, c, d) == CASE c.t = "none" -> d = -1
                   [] c.t = "doc" -> d = e.ref[c.f].file[c.x + 1]
                   [] OTHER -> d # -1 /\ d # -2
Order == <<"a", "b", "c">>
Judge(e) ==
  IF e.end # "ok" THEN {"terminates normally (" \o e.end \o ")"}
  ELSE
  LET n == Len(e.o)
      files == [i \in 0..n |-> LET RECURSIVE G(_) G(k) == IF k = 0 THEN [p \in Plain |-> None] ELSE After2(G(k - 1), e.o[k], e.r[k].ret) IN G(i)]
      one(i) ==
        LET o == e.o[i]
            r == e.r[i]
            pre == files[i - 1] IN
        Ck(r.ret \in Rets(pre, o), o.k \o " reports the truth") \cup
        Ck(o.k = "load" => r.ret = 0 \/ Held(pre, o.p).t # "doc" \/ Held(pre, o.p).f # o.f \/
                         r.got = e.ref[o.f].exp[Held(pre, o.p).x + 1],
           "what is loaded is what the file holds") \cup
        Ck(\A k \in 1..3 : Sees(e, files[i][Order[k]], r.d[k]), "the files after " \o o.k) \cup
        \* a path whose content is not known is not touched by other operations
        Ck(\A k \in 1..3 : i = 1 \/ files[i][Order[k]] # files[i - 1][Order[k]] \/ files[i][Order[k]].t = "doc" \/
                           (o.k = "run" /\ files[i][Order[k]].t = "any") \/ r.d[k] = e.r[i - 1].d[k], "files not named stay as they are") IN
  UNION {one(i) : i \in 1..n}
Init == l = 1 /\ bad = 0
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l]) IN
             /\ IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", Trace[l].id, v>>)
             /\ bad' = bad + (IF v = {} THEN 0 ELSE 1)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
