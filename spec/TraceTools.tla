---------------------------- MODULE TraceTools ----------------------------
EXTENDS Tools, TraceKit
VARIABLES l, bad
Tol == 30
Synth(e) ==
  IF e.o.read = 0 \/ e.spoil # "" THEN Ck(e.o.ret = 1 /\ e.o.wav = 0 /\ e.o.ohm = -1, "a file that cannot be read or written is a failure")
  ELSE
  LET o == e.o
      h == L!Linear(o.exp)
      ts == OptOr(h.ts, 1000)
      cs == Chans(h)
      n == Total(cs, ts) IN
  IF cs = <<>> THEN Ck(o.ret = 1 /\ o.wav = 0, "nothing to play is a failure")
  ELSE IF o.ret # 0 THEN {"the synthesizer succeeds"}
  ELSE
  Ck(o.wav = 1, "a WAV file of 16 bit samples") \cup
  Ck(o.rate = e.fs, "sampled at the frequency asked for") \cup
  (IF o.nc # Len(cs) THEN {"a track for each channel of each perception, in order"}
   ELSE Ck(o.n \in Counts(n, ts, e.fs, e.pad), "the length of the experience with the padding on both sides") \cup
        Ck(\A c \in 1..Len(cs) : \A i \in 1..Len(o.data[c]) : RightSample(cs[c], o.data[c][i], i - 1, e.fs, e.pad, ts, Tol), "each track plays its channel")) \cup
  Ck(IF e.ohm = 1 THEN o.ohm = o.wants /\ o.ohm # -1 ELSE o.ohm = -1, "the OHM file is written if asked for and holds the metadata") \cup
  Ck(o.names = e.names, "no other file is written")
Run(e, x, o) ==
  LET a == Asked(x.words) IN
  IF a.help THEN Ck(o.ret = 0 /\ o.new = "", "help does nothing else")
  ELSE IF a.in # "@in" \/ e.kind = "unknown" THEN Ck(o.ret # 0 /\ o.ret < 1000 /\ o.new = "", "input that is not there or of no known kind is a failure")
  ELSE
  LET s == {i \in 1..Len(e.combos) : Serves(e.combos[i], a, e.ext)} IN
  IF s = {} THEN {"no combination of settings serves"}
  ELSE LET r == e.lib[CHOOSE i \in s : TRUE] IN
       IF r.ret # 0 THEN Ck(o.ret # 0 /\ o.ret < 1000, "input that cannot be used is reported")
       ELSE Ck(o.ret = 0, "success is reported") \cup
            Ck(o.new = (IF OutName(a) = "@out" THEN x.name ELSE OutName(a)), "the file asked for is written and no other") \cup
            Ck(r.d = (IF a.b = 1 THEN o.bin ELSE o.text), "the file holds the input, refactored and linearised as asked, in the format asked for")
Judge(e) ==
  IF e.end # "ok" THEN {"terminates normally (" \o e.end \o ")"}
  ELSE IF e.k = "synth" THEN Synth(e)
  ELSE UNION {Run(e, e.runs[i], e.o[i]) : i \in 1..Len(e.runs)}
Init == l = 1 /\ bad = 0
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l]) IN
             /\ IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", Trace[l].id, v>>)
             /\ bad' = bad + (IF v = {} THEN 0 ELSE 1)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
