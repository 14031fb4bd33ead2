------------------------------- MODULE Stream -------------------------------
(* MIHS streaming.  The sender side: which units, in which order, with which *)
(* content, an experience is cut into.  The wire: how units and packets are  *)
(* framed.  The receiver side: how each received unit changes the receiver.  *)
EXTENDS Binary, Wire

InitUnit == 0
TemporalUnit == 1
SpatialUnit == 2
SilentUnit == 3
PTiming == 0
PHaptics == 1
PPerception == 2
PChannel == 3
PBand == 4
PData == 5
PLibrary == 6
PCRC32 == 7
PCRC16 == 8
PGCRC16 == 9
PGCRC32 == 10
PInitTiming == 11

RECURSIVE PacketsFrom(_, _)
\* packets of unit b from byte offset i (0-based): payloads as byte sequences
PacketsFrom(b, i) ==
  IF i = Len(b) THEN <<>>
  ELSE IF i + 3 > Len(b) THEN <<[type |-> -1, res |-> 0, b |-> <<>>]>>
  ELSE LET len == U(b, 8 * i + 6, 17) IN
       IF i + 3 + len > Len(b) THEN <<[type |-> -1, res |-> 0, b |-> <<>>]>>
       ELSE <<[type |-> U(b, 8 * i, 6), res |-> U(b, 8 * i + 23, 1), b |-> SubSeq(b, i + 4, i + 3 + len)]>>
            \o PacketsFrom(b, i + 3 + len)
WellFramed(b) == Len(b) >= 9 /\ U32(b, 36) = Len(b) - 9
ParseUnit(b) ==
  [type |-> U(b, 0, 6), sync |-> U(b, 6, 2), layer |-> U(b, 8, 4), dur |-> U(b, 12, 24), res |-> U(b, 68, 4),
   packets |-> PacketsFrom(b, 9)]
FramingDiff(b) ==
  IF ~WellFramed(b) THEN {"the unit length is the number of bytes that follow the header"}
  ELSE LET u == ParseUnit(b) IN
       Ck(u.type \in 0..3, "unit type") \cup Ck(u.sync \in 0..1, "unit sync flag") \cup Ck(u.res = 0, "reserved bits of the unit") \cup
       Ck(\A i \in 1..Len(u.packets) : u.packets[i].type \in 0..11, "packets fill the unit exactly") \cup
       Ck(\A i \in 1..Len(u.packets) : u.packets[i].res = 0, "reserved bit of the packet")

\* ------------------------------------------------------- semantic keywords
Keywords == <<
  <<"UX", <<"Undefined", "Click", "DoubleClick", "Success", "Error", "Alarm", "Confirmatioon", "Wrong", "Ring", "Message">>>>,
  <<"Avatar", <<"Undefined", "Jumping", "Fall", "Crawl", "Swim", "Collision", "Grab", "Touch", "Swip", "Footstep">>>>,
  <<"SpecialFX", <<"Undefined", "Washout", "Noise">>>>,
  <<"WeaponCombat", <<"Undefined", "Blade", "Hit", "HandThrown", "ElasticPropulsion", "Pneumatic", "Handgun", "Rifle", "Shotgun",
                      "Gun", "Machinegun", "Taser", "ElectricShock", "Mine", "Missile", "Grenade", "Blast">>>>,
  <<"Ambient", <<"Undefined", "Wind", "Heat", "Cold", "Rain", "Waterfall", "WaterDrop", "ElectricBuzz", "Ignition", "Cracks",
                 "Earthquack", "Sparks", "Thunderbolt">>>>,
  <<"Texture", <<"Undefined", "Rock", "Gravel", "Sand", "Wood", "Metal", "Plastic">>>>,
  <<"Vehicle", <<"Undefined", "Engine", "Doors", "Brake", "MechanicalContraption", "Drift", "RoadFriction", "RoadBump", "Tires",
                 "AirFriction">>>>,
  <<"Music", <<"Undefined", "HardMaterial", "BouncyMaterial", "Pucking", "Bowing", "Striking", "BrassInstrument",
               "WoodWindInstrument">>>> >>
SemanticOf(code) ==
  LET l == code \div 256 + 1
      k == (code % 256) + 1
  IN IF l <= Len(Keywords) /\ k <= Len(Keywords[l][2]) THEN Keywords[l][1] \o "/" \o Keywords[l][2][k] ELSE "?"

\* ------------------------------------------------------------ data packets
NoFx == [id |-> -1, pos |-> 0, phase |-> <<>>, sem |-> <<>>, base |-> <<>>, type |-> Basis, kfs |-> <<>>, tl |-> <<>>, ws |-> <<>>, wb |-> <<>>]
RECURSIVE KfsFrom(_, _, _, _)
\* <<keyframes, next bit>>
KfsFrom(bt, b, i, n) ==
  IF n = 0 THEN <<<<>>, i>>
  ELSE IF bt = Vectorial
  THEN LET m == U(b, i, 2)
           ha == m % 2
           hf == m \div 2
           ip == i + 2 + 8 * ha
           nx == ip + 16 + 16 * hf
           r == KfsFrom(bt, b, nx, n - 1)
       IN <<<<[p |-> <<U(b, ip, 16)>>, a |-> IF ha = 1 THEN <<AmpOf(U(b, i + 2, 8))>> ELSE <<>>,
               f |-> IF hf = 1 THEN <<U(b, ip + 16, 16)>> ELSE <<>>]>> \o r[1], r[2]>>
  ELSE LET nx == i + 24 + (IF bt = Transient THEN 16 ELSE 0)
           r == KfsFrom(bt, b, nx, n - 1)
       IN <<<<[p |-> <<U(b, i + 8, 16)>>, a |-> <<AmpOf(U(b, i, 8))>>,
               f |-> IF bt = Transient THEN <<U(b, i + 24, 16)>> ELSE <<>>]>> \o r[1], r[2]>>
FxAt(bt, b, i) ==
  LET id == U(b, i, 16)
      ty == U(b, i + 16, 2)
  IN IF bt = Wavelet
     THEN LET sf == U(b, i + 18, 1)
              j == i + 19 + 12 * sf
              n == U(b, j, 16)
          IN <<[NoFx EXCEPT !.id = id, !.type = ty, !.sem = IF sf = 1 THEN <<SemanticOf(U(b, i + 19, 12))>> ELSE <<>>,
                            !.wb = Bytes(b, j + 16, n)], j + 16 + 8 * n>>
     ELSE LET pos == Signed(b, i + 18, 25) IN
          IF ty # Basis THEN <<[NoFx EXCEPT !.id = id, !.type = ty, !.pos = pos], i + 43>>
          ELSE LET sf == U(b, i + 43, 1)
                   j == i + 44 + 12 * sf
                   n == U(b, j, 16)
                   v == IF bt = Vectorial THEN 20 ELSE 0
                   r == KfsFrom(bt, b, j + 16 + v, n)
               IN <<[NoFx EXCEPT !.id = id, !.pos = pos, !.sem = IF sf = 1 THEN <<SemanticOf(U(b, i + 44, 12))>> ELSE <<>>,
                       !.phase = IF bt = Vectorial THEN <<PhaseOf(U(b, j + 16, 16))>> ELSE <<>>,
                       !.base = IF bt = Vectorial THEN <<U(b, j + 32, 4)>> ELSE <<>>,
                       !.kfs = r[1]], r[2]>>
RECURSIVE FxsFrom(_, _, _, _)
FxsFrom(bt, b, i, n) == IF n = 0 THEN <<<<>>, i>> ELSE LET f == FxAt(bt, b, i)
                                                          r == FxsFrom(bt, b, f[2], n - 1) IN <<<<f[1]>> \o r[1], r[2]>>
DataHead(b) == [au |-> U(b, 0, 1), perc |-> U(b, 1, 8), chan |-> U(b, 9, 16), band |-> U(b, 25, 8), n |-> U(b, 33, 16)]
DataFx(bt, b) == FxsFrom(bt, b, 49, U(b, 33, 16))
\* the packet holds its effects and at most seven padding bits
DataExact(bt, b) == LET e == DataFx(bt, b)[2] IN Len(b) = (e + 7) \div 8

\* ------------------------------------------------------------- the sender
Spatial(p) == p.mod \in {10, 11, 12}
KeepFx(bt, e) == ~(bt # Wavelet /\ e.type = Basis /\ e.kfs = <<>>)
PruneBand(b) == [b EXCEPT !.fx = SelectSeq(@, LAMBDA e : KeepFx(b.type, e))]
Map(s, F(_)) == TLCEval([i \in 1..Len(s) |-> F(s[i])])
PruneChan(c) == [c EXCEPT !.bands = SelectSeq(Map(@, PruneBand), LAMBDA b : b.fx # <<>>)]
PrunePerc(p) == [p EXCEPT !.chans = SelectSeq(Map(@, PruneChan), LAMBDA c : c.bands # <<>>)]
Prune(x) == [x EXCEPT !.percs = SelectSeq(Map(@, PrunePerc), LAMBDA p : p.chans # <<>>)]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
\* effects of a band are kept in the order of their positions
Insert(fx, e) == LET n == Cardinality({i \in 1..Len(fx) : \A j \in 1..i : fx[j].pos <= e.pos})
                 IN SubSeq(fx, 1, n) \o <<e>> \o SubSeq(fx, n + 1, Len(fx))
RECURSIVE InsertAll(_, _)
InsertAll(fx, es) == IF es = <<>> THEN fx ELSE InsertAll(Insert(fx, Head(es)), Tail(es))
\* composites are sent as their parts
RECURSIVE Parts(_, _)
Parts(fx, off) == Cat(Map(fx, LAMBDA e : IF e.type = Composite THEN Parts(e.tl, off + e.pos) ELSE <<[e EXCEPT !.pos = @ + off]>>))
Flat(fx, off) == InsertAll(<<>>, Parts(fx, off))
\* all bands of the (pruned) experience, in the order of their stream identifiers 0, 1, ...
BandTable(x) == Cat(Map(x.percs, LAMBDA p : Cat(Map(p.chans, LAMBDA c :
                  Map(c.bands, LAMBDA b : [p |-> p.id, c |-> c.id, sp |-> Spatial(p), b |-> b, fx |-> Flat(b.fx, 0)])))))
\* what of band r travels in the time range [k*D, (k+1)*D): per effect the first and last keyframe
KfTime(e, j) == e.pos + OptOr(e.kfs[j].p, 0)
WindowOf(r, e, j, D) == IF r.sp THEN 0
                        ELSE IF e.type = Basis /\ r.b.type # Wavelet THEN KfTime(e, j) \div D ELSE e.pos \div D
WindowsOfFx(r, e, D) == IF e.type = Basis /\ r.b.type # Wavelet THEN {WindowOf(r, e, j, D) : j \in 1..Len(e.kfs)} ELSE {WindowOf(r, e, 0, D)}
WindowsOf(r, D) == UNION {WindowsOfFx(r, r.fx[i], D) : i \in 1..Len(r.fx)}
FragOf(r, i, k, D) ==
  LET e == r.fx[i] IN
  IF e.type = Basis /\ r.b.type # Wavelet
  THEN LET js == {j \in 1..Len(e.kfs) : WindowOf(r, e, j, D) = k} IN
       IF js = {} THEN <<>>
       ELSE <<[i |-> i, from |-> CHOOSE j \in js : \A h \in js : j <= h, to |-> CHOOSE j \in js : \A h \in js : j >= h]>>
  ELSE IF WindowOf(r, e, 0, D) = k THEN <<[i |-> i, from |-> 1, to |-> 0]>> ELSE <<>>
FragsOf(r, k, D) == Cat([i \in 1..Len(r.fx) |-> FragOf(r, i, k, D)])
\* packets of one time range: one per band with content; one per block of wavelet bands
PacketsOf(bt, k, D) ==
  Cat([n \in 1..Len(bt) |->
     LET fr == FragsOf(bt[n], k, D) IN
     IF fr = <<>> THEN <<>>
     ELSE IF bt[n].b.type = Wavelet THEN Map(fr, LAMBDA f : [band |-> n, au |-> 0, fr |-> <<f>>])
     ELSE <<[band |-> n, au |-> IF \E m \in 1..Len(fr) : fr[m].from > 1 THEN 1 ELSE 0, fr |-> fr]>>])
SortSet(S) == LET RECURSIVE G(_) G(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE a \in T : \A b \in T : a <= b IN <<m>> \o G(T \ {m}) IN G(S)
\* the whole stream as abstract units
MarksDue(x, t0, t1) == \E i \in 1..Len(x.syncs) : x.syncs[i].t > Max2(t0, 0) /\ x.syncs[i].t <= t1
RepeatInit(x, t0, t) == IF MarksDue(x, t0, t) THEN <<[type |-> InitUnit, sync |-> 0, dur |-> 0, t |-> t, k |-> -1, ps |-> <<>>]>> ELSE <<>>
RECURSIVE Units(_, _, _, _, _)
\* ks: time ranges with content still to send; t: current time
Units(x, bt, D, ks, t) ==
  IF ks = <<>> THEN <<>>
  ELSE LET k == Head(ks)
           ps == PacketsOf(bt, k, D)
           sy == IF \A i \in 1..Len(ps) : ps[i].au = 0 THEN 0 ELSE 1
           silent == IF k * D > t
                     THEN LET init == RepeatInit(x, t, k * D) IN
                          <<[type |-> SilentUnit, sync |-> IF init # <<>> THEN 0 ELSE sy, dur |-> k * D - t, t |-> t, k |-> -1, ps |-> <<>>]>> \o init
                     ELSE <<>>
       IN silent \o <<[type |-> TemporalUnit, sync |-> sy, dur |-> D, t |-> k * D, k |-> k, ps |-> ps]>>
                 \o RepeatInit(x, k * D, (k + 1) * D) \o Units(x, bt, D, Tail(ks), (k + 1) * D)
Stream(x0, D) ==
  LET x == Prune(x0)
      bt == BandTable(x)
      ks == SortSet(UNION {WindowsOf(bt[n], D) : n \in 1..Len(bt)})
  IN <<[type |-> InitUnit, sync |-> 0, dur |-> 0, t |-> 0, k |-> -1, ps |-> <<>>]>> \o Units(x, bt, D, ks, 0)

\* packet types of an initialization unit
InitTypes(x) == <<PInitTiming, PHaptics>> \o Map(x.percs, LAMBDA p : PPerception)
                \o Cat(Map(x.percs, LAMBDA p : IF p.lib = <<>> THEN <<>> ELSE <<PLibrary>>))
                \o Cat(Map(x.percs, LAMBDA p : Map(p.chans, LAMBDA c : PChannel)))
                \o Map(BandTable(x), LAMBDA r : PBand)
FragDiff(bt, e, f, off, y) ==
  Ck(y.type = e.type, "effect type") \cup
  Ck(e.id = -1 \/ bt = Wavelet \/ y.id = e.id, "effect id") \cup
  (IF bt = Wavelet THEN Ck(y.wb = e.wb, "wavelet block")
   ELSE Ck(y.pos = e.pos - off, "effect position relative to the unit") \cup
        (IF e.type # Basis THEN {}
         ELSE Ck(y.sem = e.sem, "semantic") \cup
              (IF bt = Vectorial THEN Ck(Near(OptOr(e.phase, 0), y.phase[1], PhaseTol), "phase") \cup Ck(y.base = <<OptOr(e.base, 0)>>, "base signal")
               ELSE {}) \cup
              SeqDiff(SubSeq(e.kfs, f.from, f.to), y.kfs, LAMBDA a, b : KfDiff(bt, a, b), "keyframes of the time range")))
PacketDiff(bt, D, k, p, q) ==
  IF q.type # PData THEN {"only data packets in a temporal unit"}
  ELSE LET r == bt[p.band]
           h == DataHead(q.b)
       IN IF h.band # p.band - 1 THEN {"packets of a time range: one per band with content, in band order"}
          ELSE Ck(h.perc = r.p /\ h.chan = r.c, "perception and channel of the packet") \cup
               Ck(h.au = p.au, "access unit type") \cup
               (IF h.n # Len(p.fr) THEN {"effects of the time range"}
                ELSE IF ~DataExact(r.b.type, q.b) THEN {"packet length"}
                ELSE LET fx == DataFx(r.b.type, q.b)[1]
                         off == IF r.sp THEN 0 ELSE k * D IN
                     UNION {FragDiff(r.b.type, r.fx[p.fr[m].i], p.fr[m], off, fx[m]) : m \in 1..Len(fx)})
UnitDiff(x, bt, D, e, u) ==
  Ck(u.layer = 0, "layer") \cup
  IF u.type # e.type THEN {"sequence of unit types"}
  ELSE Ck(u.dur = e.dur, "unit duration") \cup Ck(u.sync = e.sync, "unit sync flag") \cup
       (CASE u.type = SilentUnit -> Ck(u.packets = <<>>, "a silent unit is empty")
          [] u.type = InitUnit ->
               Ck(Map(u.packets, LAMBDA p : p.type) = InitTypes(x), "packets of an initialization unit") \cup
               (IF Len(u.packets) > 0 /\ u.packets[1].type = PInitTiming
                THEN Ck(U32(u.packets[1].b, 0) = e.t, "time of the initialization unit") \cup
                     Ck(U32(u.packets[1].b, 32) = OptOr(x.ts, 1000), "timescale of the initialization unit")
                ELSE {})
          [] OTHER -> SeqDiff(e.ps, u.packets, LAMBDA p, q : PacketDiff(bt, D, e.k, p, q), "packets of a time range"))
\* identifiers given to effects that have none are unique in their band and stable over its packets
IdPairs(es, us, n, bt) ==
  UNION {UNION {LET fx == DataFx(bt[n].b.type, us[i].packets[m].b)[1] IN
                {<<es[i].ps[m].fr[f].i, fx[f].id>> : f \in 1..Len(fx)}
                : m \in {m \in 1..Len(es[i].ps) : es[i].ps[m].band = n}} : i \in {i \in 1..Len(es) : es[i].type = TemporalUnit}}
IdsDiff(es, us, n, bt) ==
  LET ps == IdPairs(es, us, n, bt)
      basis == {p \in ps : bt[n].fx[p[1]].type = Basis}
  IN Ck(\A p, q \in basis : (p[1] = q[1]) <=> (p[2] = q[2]), "an effect keeps one identifier of its own")
\* us: the parsed units a sender produced for x with time ranges of D ticks
SenderDiff(x0, D, us) ==
  LET x == Prune(x0)
      bt == BandTable(x)
      es == Stream(x0, D)
      d == SeqDiff(es, us, LAMBDA e, u : UnitDiff(x, bt, D, e, u), "units")
  IN IF d # {} THEN d ELSE UNION {IdsDiff(es, us, n, bt) : n \in 1..Len(bt)}

\* ------------------------------------------------------------ the receiver
NewReceiver(wait) == [time |-> 0, wait |-> wait, ts |-> 1000, syncs |-> <<>>, percs |-> <<>>, chans |-> <<>>, bands |-> <<>>]
In(e, s) == \E i \in 1..Len(s) : s[i] = e
AddNew(s, e) == IF In(e, s) THEN s ELSE Append(s, e)
BandIdx(s, id) == LET I == {i \in 1..Len(s.bands) : s.bands[i].id = id} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
\* merge a decoded effect into the effects of a band
Merge(fx, e) ==
  LET I == {i \in 1..Len(fx) : e.type = Basis /\ fx[i].type = Basis /\ fx[i].id = e.id} IN
  IF I = {} THEN Insert(fx, e)
  ELSE LET i == CHOOSE i \in I : \A j \in I : i <= j IN [fx EXCEPT ![i].kfs = @ \o e.kfs]
RECURSIVE MergeAll(_, _)
MergeAll(fx, es) == IF es = <<>> THEN fx ELSE MergeAll(Merge(fx, Head(es)), Tail(es))
\* result of one packet: the next receiver, or a refusal
Ok(s) == [ok |-> TRUE, s |-> s]
Refuse(s) == [ok |-> FALSE, s |-> s]
ReadData(s0, b) ==
  LET h == DataHead(b) IN
  IF s0.wait /\ h.au = 1 THEN Ok(s0)
  ELSE LET s == [s0 EXCEPT !.wait = FALSE]
           i == BandIdx(s, h.band)
       IN IF ~In(h.perc, s.percs) \/ ~In(<<h.perc, h.chan>>, s.chans) \/ i = 0 THEN Refuse(s)
          ELSE LET bd == s.bands[i]
                   fs == DataFx(bd.type, b)[1]
                   placed == IF bd.type = Wavelet THEN Map(fs, LAMBDA e : [e EXCEPT !.pos = bd.blk * Len(bd.fx)])
                             ELSE Map(fs, LAMBDA e : [e EXCEPT !.pos = @ + s.time])
               IN Ok([s EXCEPT !.bands[i].fx = MergeAll(@, placed)])
ReadBand(s, b) ==
  LET id == U(b, 0, 8)
      p == U(b, 8, 8)
      c == U(b, 16, 16)
      ty == U(b, 40, 3)
      i == BandIdx(s, id)
      bd == [id |-> id, p |-> p, c |-> c, type |-> ty, blk |-> IF ty = Wavelet THEN U(b, 43, 8) ELSE 0, fx |-> IF i = 0 THEN <<>> ELSE s.bands[i].fx]
  IN IF ~In(p, s.percs) \/ ~In(<<p, c>>, s.chans) THEN Refuse(s)
     ELSE IF i = 0 THEN Ok([s EXCEPT !.bands = Append(@, bd)]) ELSE Ok([s EXCEPT !.bands[i] = bd])
ReadPacket(s, p) ==
  CASE p.type = PTiming -> Ok([s EXCEPT !.time = U32(p.b, 0), !.syncs = Append(@, [t |-> U32(p.b, 0), ts |-> <<1000>>])])
    [] p.type = PInitTiming -> Ok([s EXCEPT !.time = U32(p.b, 0), !.ts = U32(p.b, 32),
                                            !.syncs = Append(@, [t |-> U32(p.b, 0), ts |-> <<U32(p.b, 32)>>])])
    [] p.type = PHaptics -> Ok(s)
    [] p.type = PPerception -> Ok([s EXCEPT !.percs = AddNew(@, U(p.b, 0, 8))])
    [] p.type = PLibrary -> IF In(U(p.b, 0, 8), s.percs) THEN Ok(s) ELSE Refuse(s)
    [] p.type = PChannel -> IF In(U(p.b, 16, 8), s.percs) THEN Ok([s EXCEPT !.chans = AddNew(@, <<U(p.b, 16, 8), U(p.b, 0, 16)>>)]) ELSE Refuse(s)
    [] p.type = PBand -> ReadBand(s, p.b)
    [] p.type = PData -> ReadData(s, p.b)
    [] p.type \in {PCRC16, PCRC32, PGCRC16, PGCRC32} -> Ok(s)
    [] OTHER -> Refuse(s)
RECURSIVE ReadPackets(_, _)
ReadPackets(s, ps) == IF ps = <<>> THEN Ok(s)
                      ELSE LET r == ReadPacket(s, Head(ps)) IN IF r.ok THEN ReadPackets(r.s, Tail(ps)) ELSE r
ReadUnit(s, u) ==
  LET r == ReadPackets([s EXCEPT !.wait = @ /\ u.sync # 0], u.packets) IN
  IF r.ok THEN Ok([r.s EXCEPT !.time = @ + u.dur]) ELSE r

\* ------------------------------------------------------- damaged deliveries
\* a packet of which only the first bytes b arrived, or of a type that does not exist: refused, and nothing changes; a
\* receiver that waits for synchronisation skips what it could not use anyway, if the packet is otherwise complete
ReadDamagedPacket(s, b) ==
  IF Len(b) > 3 /\ U(b, 6, 17) = Len(b) - 3 /\ U(b, 0, 6) = PData /\ s.wait /\ U(b, 24, 1) = 1 THEN Ok(s) ELSE Refuse(s)
\* a unit of which only the first bytes arrived
ReadCutUnit(s, b) == Refuse(s)

\* ------------------------------------------------- experience after the trip
\* y as what a receiver knows of the metadata of x0
BandMetaDiff(x, y) ==
  Ck(x.type = y.type, "band type") \cup (IF x.type = Curve THEN Ck(y.curve = <<OptOr(x.curve, 0)>>, "curve type") ELSE {}) \cup
  (IF x.type = Wavelet THEN Ck(x.blk = y.blk, "block length") ELSE {}) \cup
  Ck(x.lo = y.lo, "lower frequency limit") \cup Ck(x.up = y.up, "upper frequency limit") \cup Ck(x.prio = y.prio, "band priority")
LibSem(x, y) == SeqDiff(x.lib, y.lib, LAMBDA a, b : Ck(a.sem = b.sem, "library semantic"), "effect library")
StreamMetaDiff(x0, y) ==
  LET x == Prune(x0) IN
  HeadDiff(x, y) \cup
  SeqDiff(x.percs, y.percs, LAMBDA p, q :
     PercMetaDiff(p, q) \cup LibSem(p, q) \cup Ck(p.prio = q.prio, "perception priority") \cup Ck(p.scheme = q.scheme, "semantic scheme") \cup
     SeqDiff(p.chans, q.chans, LAMBDA c, d :
        ChanMetaDiff(c, d) \cup Ck(c.prio = d.prio, "channel priority") \cup
        SeqDiff(c.bands, d.bands, BandMetaDiff, "bands"), "channels"), "perceptions")
\* effects in the order in which their first fragments are sent
FirstWindow(r, i, D) == LET W == WindowsOfFx(r, r.fx[i], D) IN CHOOSE w \in W : \A v \in W : w <= v
SentOrder(r, D) ==
  LET sent == {i \in 1..Len(r.fx) : WindowsOfFx(r, r.fx[i], D) # {}}
      RECURSIVE G(_)
      G(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE i \in S : \A j \in S \ {i} : FirstWindow(r, i, D) < FirstWindow(r, j, D)
                                                              \/ (FirstWindow(r, i, D) = FirstWindow(r, j, D) /\ i < j)
                   IN <<r.fx[m]>> \o G(S \ {m})
  IN InsertAll(<<>>, G(sent))
RtFxDiff(bt, n, x, y) ==
  Ck(y.type = x.type, "effect type") \cup
  Ck(IF bt = Wavelet THEN y.pos = x.pos ELSE y.pos = x.pos, "effect position") \cup
  Ck(x.id = -1 \/ bt = Wavelet \/ y.id = x.id, "effect id") \cup
  (IF bt = Wavelet THEN Ck(y.wb = x.wb, "wavelet block")
   ELSE IF x.type # Basis THEN {}
   ELSE Ck(y.sem = x.sem, "semantic") \cup
        (IF bt = Vectorial THEN Ck(y.phase # <<>> /\ Near(OptOr(x.phase, 0), OptOr(y.phase, -9), PhaseTol), "phase") \cup Ck(y.base = <<OptOr(x.base, 0)>>, "base signal") ELSE {}) \cup
        SeqDiff(x.kfs, y.kfs, LAMBDA a, b : KfDiff(bt, a, b), "keyframes"))
StreamDiff(x0, D, y) ==
  LET m == StreamMetaDiff(x0, y)
      bt == BandTable(Prune(x0))
      yb == BandTable(y)
      inits == SelectSeq(Stream(x0, D), LAMBDA u : u.type = InitUnit)
      ts == OptOr(x0.ts, 1000)
  IN m \cup Ck(y.ts = <<ts>>, "timescale") \cup
     Ck(y.syncs = Map(inits, LAMBDA u : [t |-> u.t, ts |-> <<ts>>]), "synchronisation points") \cup
     (IF m # {} THEN {}
      ELSE UNION {SeqDiff(SentOrder(bt[n], D), yb[n].b.fx, LAMBDA a, b : RtFxDiff(bt[n].b.type, n, a, b), "effects") : n \in 1..Len(bt)})
=============================================================================
