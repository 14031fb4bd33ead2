----------------------------- MODULE TraceBand -----------------------------
(* The band codec on its own: header and body, for any timescale.            *)
EXTENDS Binary, TraceKit
VARIABLES l, bad
HeaderBits(b) == 3 + (IF b.type = Curve THEN 4 ELSE IF b.type = Wavelet THEN 8 ELSE 0) + 16 + 16 + 16
KfBits(bt, k) == CASE bt = Transient -> 40 [] bt = Curve -> 24
                   [] OTHER -> 3 + 16 + (IF Has(k.a) THEN 8 ELSE 0) + (IF Has(k.f) THEN 16 ELSE 0)
RECURSIVE FxBits(_, _, _)
FxBits(bt, e, top) ==
  2 + (IF bt = Wavelet /\ e.type = Basis /\ top THEN 0 ELSE 25) +
  (CASE e.type = Reference -> 16
     [] e.type = Composite -> 16 + Sum(e.tl, LAMBDA x : FxBits(bt, x, FALSE))
     [] bt = Wavelet -> 16 + 8 * Len(e.wb)
     [] OTHER -> 16 + (IF bt = Vectorial THEN 20 ELSE 0) + Sum(e.kfs, LAMBDA k : KfBits(bt, k)))
Judge(e) ==
  IF e.end # "ok" THEN {"terminates normally (" \o e.end \o ")"}
  ELSE LET o == e.o IN
       Ck(o.wh /\ o.wb, "write succeeds") \cup Ck(o.rh /\ o.rb, "read succeeds") \cup
       Ck(o.nfx = Len(o.in.fx), "number of effects announced by the header") \cup
       Ck(o.left < 8, "the reader consumed exactly what was written") \cup
       Ck(o.hbits = HeaderBits(o.in), "size of the header") \cup
       Ck(o.bits = o.hbits + Sum(o.in.fx, LAMBDA x : FxBits(o.in.type, x, TRUE)), "size of the body") \cup
       BandDiff(o.in, o.out)
Init == l = 1 /\ bad = 0
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l]) IN
             /\ IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", Trace[l].id, v>>)
             /\ bad' = bad + (IF v = {} THEN 0 ELSE 1)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
