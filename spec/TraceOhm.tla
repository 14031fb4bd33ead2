------------------------------ MODULE TraceOhm ------------------------------
EXTENDS Ohm, TraceKit
VARIABLES l, bad
Strip(o) == [ver |-> o.ver, desc |-> o.desc,
             els |-> [k \in 1..Len(o.els) |-> [file |-> o.els[k].file, desc |-> o.els[k].desc, chans |-> o.els[k].chans]]]
Counts(o) == AllSeq(o.els, LAMBDA e : e.n = Len(e.chans))
Same(o, h, name) == Ck(o.hdr = <<79, 72, 77, 32>>, name \o ": header") \cup Ck(Counts(o), name \o ": channel count") \cup
                    Ck(o.ver = h.ver, name \o ": version") \cup Ck(o.desc = h.desc, name \o ": description") \cup
                    Ck(Strip(o).els = h.els, name \o ": elements")
Chan(c, x, j) == c.id = j - 1 /\ c.desc = x.desc /\ c.gain = x.gain /\ c.mix = SC /\ c.mask = x.mask /\ c.more = 0
Experience(h, o, text) ==
  Ck(h.ver = ToString(o.ver), "version of the experience") \cup Ck(h.desc = o.desc, "description of the experience") \cup
  (IF Len(h.percs) # Len(o.els) THEN {"one perception per element"}
   ELSE UNION {Ck(h.percs[k].id = k - 1 /\ h.percs[k].desc = o.els[k].desc /\ h.percs[k].avatar = 0 /\ h.percs[k].more = 0, "perception of an element") \cup
               Ck(h.percs[k].mod = Modality(text[k]), "modality named by the element") \cup
               Ck(Len(h.percs[k].chans) = Len(o.els[k].chans) /\ \A j \in 1..Len(h.percs[k].chans) : Chan(h.percs[k].chans[j], o.els[k].chans[j], j),
                  "channels of an element") : k \in 1..Len(o.els)})
Named(o, name) == [o EXCEPT !.els = [k \in 1..Len(o.els) |-> [o.els[k] EXCEPT !.file = name]]]
Trip(e) ==
  LET h == Held(e.ohm)
      r == e.res IN
  Ck(r.w /\ r.bytes = File(e.ohm), "bytes written") \cup Ck(r.r, "load succeeds") \cup Same(r.back, h, "loaded") \cup
  Ck(r.r2, "second load succeeds") \cup Same(r.back2, h, "loaded over other metadata") \cup
  Ck(AllSeq(r.cuts, LAMBDA x : ~x), "a cut file is refused") \cup
  Experience(r.h, h, e.text) \cup Same(r.out, Named(h, e.name), "extracted from the experience")
Judge(e) ==
  IF e.end # "ok" THEN {"terminates normally (" \o e.end \o ")"}
  ELSE IF e.k = "trip" THEN Trip(e)
  \* what is accepted is what the bytes say; a negative count says that there is nothing
  ELSE Ck(e.res.r => LET b == e.res.back
                         f == File(Strip(b)) IN
                     /\ Len(e.bytes) >= Len(f)
                     /\ SubSeq(e.bytes, 1, 6) = SubSeq(f, 1, 6) /\ SubSeq(e.bytes, 9, 40) = SubSeq(f, 9, 40)
                     /\ (e.bytes[7] >= 128 /\ b.els = <<>>) \/ SubSeq(e.bytes, 7, 8) = SubSeq(f, 7, 8)
                     /\ AllSeq(b.els, LAMBDA x : x.n = Len(x.chans) \/ (x.n < 0 /\ x.chans = <<>>))
                     /\ AllSeq(b.els, LAMBDA x : x.n >= 0) => SubSeq(e.bytes, 1, Len(f)) = f \/ b.els = <<>>,
          "accepted without being complete")
Init == l = 1 /\ bad = 0
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l]) IN
             /\ IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", Trace[l].id, v>>)
             /\ bad' = bad + (IF v = {} THEN 0 ELSE 1)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
