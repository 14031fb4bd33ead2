---------------------------- MODULE TraceStream ----------------------------
(* Recorded senders, files and receivers against the stream specification.   *)
EXTENDS Stream, Crc, TraceKit
VARIABLES l, rx

\* an effect known to the receiver as the model of the receiver has it
SameFx(bt, x, y) ==
  Ck(x.id = y.id, "effect id") \cup Ck(x.type = y.type, "effect type") \cup Ck(x.pos = y.pos, "effect position") \cup
  (IF x.type # Basis THEN {}
   ELSE IF bt = Wavelet THEN Ck(x.wb = y.wb, "wavelet block") \cup Ck(x.sem = y.sem, "semantic")
   ELSE Ck(x.sem = y.sem, "semantic") \cup
        (IF bt = Vectorial THEN Ck(y.phase # <<>> /\ Near(x.phase[1], OptOr(y.phase, -9), 2), "phase") \cup Ck(x.base = y.base, "base signal") ELSE {}) \cup
        SeqDiff(x.kfs, y.kfs, LAMBDA a, b : Ck(a.p = b.p, "keyframe position") \cup Ck(OptNear(a.a, b.a, 2), "keyframe amplitude") \cup
                                            Ck(a.f = b.f, "keyframe frequency"), "keyframes"))
SameContent(s, y) ==
  LET yb == BandTable(y) IN
  Ck(Map(y.percs, LAMBDA p : p.id) = s.percs, "known perceptions") \cup
  Ck({<<yb[n].p, yb[n].c>> : n \in 1..Len(yb)} \subseteq {s.chans[i] : i \in 1..Len(s.chans)}, "known channels") \cup
  (IF Len(yb) # Len(s.bands) THEN {"known bands"}
   ELSE UNION {Ck(yb[n].p = s.bands[n].p /\ yb[n].c = s.bands[n].c /\ yb[n].b.type = s.bands[n].type, "known bands") \cup
               SeqDiff(s.bands[n].fx, yb[n].b.fx, LAMBDA a, b : SameFx(s.bands[n].type, a, b), "decoded effects") : n \in 1..Len(yb)})
StepDiff(r, o) ==
  Ck(o.ret = r.ok, "unit accepted or refused") \cup Ck(o.time = r.s.time, "receiver time") \cup Ck(o.wait = r.s.wait, "waiting for synchronisation") \cup
  Ck(o.rts = r.s.ts, "receiver timescale")
Parsed(us) == Map(us, ParseUnit)
SenderFraming(e) == Ck(e.w, "writing succeeds") \cup Ck(e.aligned, "units are whole bytes") \cup
                    IF e.aligned THEN UNION {FramingDiff(e.units[i]) : i \in 1..Len(e.units)} ELSE {}

\* the packet at the start of unit e.n + 1 protects the first e.n units
Packets(us) == UNION {{us[i].packets[j].type : j \in 1..Len(us[i].packets)} : i \in 1..Len(us)}
Flattened(us, n) == LET RECURSIVE G(_) G(i) == IF i > n THEN <<>> ELSE us[i] \o G(i + 1) IN G(1)
CrcJudge(e) ==
  IF e.type \in {PCRC16, PCRC32} /\ e.n > 1 THEN Ck(~e.wc, "a plain CRC protects one packet")
  ELSE IF ~e.wc THEN {"a CRC packet is written"}
  ELSE LET p == ParseUnit(e.units[e.n + 1]).packets
           body == p[1].b
           global == e.type \in {PGCRC16, PGCRC32}
           val == IF global THEN SubSeq(body, 2, Len(body)) ELSE body
           bytes == Flattened(e.units, e.n)
           crc == IF e.type \in {PCRC32, PGCRC32} THEN Crc32(bytes) ELSE Crc16(bytes)
           want == IF e.type \in {PCRC32, PGCRC32} THEN <<crc[1] \div 256, crc[1] % 256, crc[2] \div 256, crc[2] % 256>>
                   ELSE <<crc[1] \div 256, crc[1] % 256>>
           n == IF global THEN IF e.clean THEN e.n ELSE body[1] ELSE 1
       IN Ck(Len(p) = 1 /\ p[1].type = e.type /\ Len(val) = Len(want), "layout of the CRC packet") \cup
          Ck(e.clean /\ global => body[1] = e.n, "number of protected packets") \cup
          Ck(e.rc, "the CRC packet is readable") \cup Ck(e.announced = n, "announced number of packets") \cup
          Ck(e.left = 0, "a CRC is checked once") \cup
          (IF n = e.n /\ e.known THEN Ck(e.check = (val = want), "accepted if and only if the check value matches the packets") ELSE {}) \cup
          (IF e.clean THEN Ck(val = want, "check value written") \cup Ck(e.known => e.check, "intact packets are accepted") ELSE {})
Judge(e) ==
  IF e.end # "ok" THEN {"terminates normally (" \o e.end \o ")"}
  ELSE CASE e.k = "framing" -> SenderFraming(e)
         [] e.k = "send" -> LET f == SenderFraming(e) IN IF f # {} THEN f ELSE SenderDiff(e.in, e.D, Parsed(e.units))
         [] e.k = "trip" -> Ck(e.r, "reading succeeds") \cup StreamDiff(e.in, e.D, e.h)
         [] e.k = "file" -> Ck(e.l, "loading succeeds") \cup Ck(e.loaded = e.units, "the file holds the units one after the other")
         [] e.k = "cut" -> Ck(e.l = e.ok, "a file is loaded if and only if it ends with a complete unit") \cup Ck(e.r = e.ok, "a file is read only if complete") \cup
                           Ck(e.ok => e.n = e.want, "number of units loaded")
         [] e.k = "unit" -> StepDiff(ReadUnit(rx, ParseUnit(e.b)), e.o)
         [] e.k = "known" -> SameContent(rx, e.h) \cup Ck(e.h.syncs = rx.syncs, "synchronisation points") \cup
                             (IF e.meta THEN StreamMetaDiff(e.in, e.h) ELSE {})
         [] e.k = "damaged" -> LET r == IF e.unit THEN ReadCutUnit(rx, e.b) ELSE ReadDamagedPacket(rx, e.b) IN
                               Ck(e.o.ret = r.ok, "a damaged packet or unit is refused") \cup
                               Ck(e.o.same, "what was received stays as it was") \cup
                               Ck(e.o.time = rx.time /\ e.o.rts = rx.ts, "a refused packet or unit leaves the clock alone") \cup
                               Ck(~e.unit \/ e.o.wait = rx.wait, "a refused unit leaves the synchronisation alone")
         [] e.k = "any" -> Ck(~e.r \/ e.l, "what is read can be loaded")
         [] e.k = "crc" -> CrcJudge(e)
         [] OTHER -> {}
NextRx(e) == IF e.end # "ok" THEN rx
             ELSE CASE e.k = "join" -> NewReceiver(e.wait)
                    [] e.k \in {"unit", "through"} -> ReadUnit(rx, ParseUnit(e.b)).s
                    [] e.k = "damaged" -> [rx EXCEPT !.wait = e.o.wait]
                    [] e.k = "distrust" -> [rx EXCEPT !.wait = TRUE]
                    [] OTHER -> rx
Init == l = 1 /\ rx = NewReceiver(FALSE)
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l]) IN IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", Trace[l].id, v>>)
        /\ rx' = NextRx(Trace[l])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, rx>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
