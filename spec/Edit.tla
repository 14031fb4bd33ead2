-------------------------------- MODULE Edit --------------------------------
(* The data model as a state machine: h is the experience, Step(h, o) what a *)
(* single public editing call o does to it, and Ret(h, o) what the call      *)
(* returns.  Indices in calls count from 0.                                  *)
EXTENDS Hap
In(s, i) == 0 <= i /\ i < Len(s)
Put(s, i, v) == IF In(s, i) THEN [s EXCEPT ![i + 1] = v] ELSE s
Remove(s, i) == IF In(s, i) THEN SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s)) ELSE s
InsertBefore(s, j, v) == SubSeq(s, 1, j - 1) \o <<v>> \o SubSeq(s, j, Len(s))     \* j in 1..Len+1
MinOr(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x <= y

\* --- lenses
P_(h, o) == h.percs[o.at[1] + 1]
C_(h, o) == P_(h, o).chans[o.at[2] + 1]
B_(h, o) == C_(h, o).bands[o.at[3] + 1]
E_(h, o) == B_(h, o).fx[o.at[4] + 1]
SetP(h, o, v) == [h EXCEPT !.percs[o.at[1] + 1] = v]
SetC(h, o, v) == SetP(h, o, [P_(h, o) EXCEPT !.chans[o.at[2] + 1] = v])
SetB(h, o, v) == SetC(h, o, [C_(h, o) EXCEPT !.bands[o.at[3] + 1] = v])
SetE(h, o, v) == SetB(h, o, [B_(h, o) EXCEPT !.fx[o.at[4] + 1] = v])

\* --- timelines: effects by start, equal starts in order of insertion
AddFx(fx, e) == InsertBefore(fx, MinOr(SelectIdx(fx, LAMBDA x : x.pos > e.pos), Len(fx) + 1), e)
FirstFrom(kfs, p) == MinOr(SelectIdx(kfs, LAMBDA k : Has(k.p) /\ k.p[1] >= p), Len(kfs) + 1)
Hit(kfs, j, p) == j <= Len(kfs) /\ kfs[j].p = <<p>>
AddAmp(kfs, a, p, over) ==
  LET j == FirstFrom(kfs, p)
      new == [p |-> <<p>>, a |-> a, f |-> <<>>] IN
  IF ~Hit(kfs, j, p) THEN InsertBefore(kfs, j, new)
  ELSE IF over THEN [kfs EXCEPT ![j].a = a] ELSE InsertBefore(kfs, j + 1, new)
AddFreq(kfs, f, p) ==
  LET j == FirstFrom(kfs, p) IN
  IF ~Hit(kfs, j, p) THEN InsertBefore(kfs, j, [p |-> <<p>>, a |-> <<>>, f |-> f]) ELSE [kfs EXCEPT ![j].f = f]
Sorted(fx) == \A i, j \in 1..Len(fx) : i < j => fx[i].pos <= fx[j].pos
KfSorted(kfs) == \A i, j \in 1..Len(kfs) : i < j /\ Has(kfs[i].p) /\ Has(kfs[j].p) => kfs[i].p[1] <= kfs[j].p[1]

\* --- occupation of a band
TransientMs == 22
FxLength(e, bt) ==
  LET S == SelectIdx(e.kfs, LAMBDA k : Has(k.p)) IN
  IF S = {} \/ bt = Wavelet THEN 0
  ELSE e.kfs[CHOOSE i \in S : \A j \in S : j <= i].p[1] + (IF bt = Transient THEN TransientMs ELSE 0)
Overlaps(e, bt, start, stop) == e.pos <= stop /\ e.pos + FxLength(e, bt) >= start
Free(b, o) == b.type = o.type /\ \A i \in 1..Len(b.fx) : ~Overlaps(b.fx[i], b.type, o.pos, o.pos + o.dur)
FreeBands(h, o) == SelectIdx(C_(h, o).bands, LAMBDA b : Free(b, o))

\* --- metadata replacement: everything but the children
MetaPerc(x, v) == [v EXCEPT !.chans = x.chans]
MetaChan(x, v) == [v EXCEPT !.bands = x.bands]
MetaBand(x, v) == [v EXCEPT !.fx = x.fx]

\* --- references
LibIdx(lib, id) == MinOr(SelectIdx(lib, LAMBDA e : e.id = id), 0)
RECURSIVE Resolve(_, _, _)
Resolve(lib, e, seen) ==
  IF e.type = Reference
  THEN LET i == LibIdx(lib, e.id) IN
       IF i = 0 \/ e.id \in seen THEN e
       ELSE Resolve(lib, [lib[i] EXCEPT !.pos = e.pos, !.id = -1], seen \cup {e.id})
  ELSE [e EXCEPT !.tl = [i \in 1..Len(e.tl) |-> Resolve(lib, e.tl[i], seen)]]
MapFx(p, F(_)) ==
  [p EXCEPT !.chans = [c \in 1..Len(p.chans) |-> [p.chans[c] EXCEPT !.bands = [b \in 1..Len(p.chans[c].bands) |->
     [p.chans[c].bands[b] EXCEPT !.fx = [e \in 1..Len(p.chans[c].bands[b].fx) |-> F(p.chans[c].bands[b].fx[e])]]]]]]
LinPerc(p) == LET q == MapFx(p, LAMBDA e : Resolve(p.lib, e, {})) IN [q EXCEPT !.lib = <<>>]
Linear(h) == [h EXCEPT !.percs = [i \in 1..Len(h.percs) |-> LinPerc(h.percs[i])]]
\* what is rendered, with references resolved; identifiers of basis effects are not content
RECURSIVE NoId(_)
NoId(e) == [e EXCEPT !.id = IF e.type = Reference THEN e.id ELSE -1, !.tl = [i \in 1..Len(e.tl) |-> NoId(e.tl[i])]]
Content(h) == LET q == Linear(h) IN [q EXCEPT !.percs = [i \in 1..Len(q.percs) |-> MapFx(q.percs[i], NoId)]]
BasisIn(p) == {<<c, b, e>> \in UNION {UNION {{<<c, b, e>> : e \in 1..Len(p.chans[c].bands[b].fx)} : b \in 1..Len(p.chans[c].bands)} : c \in 1..Len(p.chans)} :
                 p.chans[c].bands[b].type # Wavelet /\ p.chans[c].bands[b].fx[e].type = Basis}
FxOf(p, t) == p.chans[t[1]].bands[t[2]].fx[t[3]]
Same(x, y) == x.phase = y.phase /\ x.base = y.base /\ x.kfs = y.kfs /\ x.sem = y.sem

\* --- band constructors
Gen(o) == CASE o.i = 0 -> [type |-> 2, curve |-> <<>>, blk |-> <<0>>, lo |-> 0, up |-> 0, prio |-> <<>>, fx |-> <<>>]
            [] o.i = 1 -> [type |-> o.type, curve |-> <<>>, blk |-> <<0>>, lo |-> o.lo, up |-> o.up, prio |-> <<>>, fx |-> <<>>]
            [] o.i = 2 -> [type |-> o.type, curve |-> <<o.x>>, blk |-> <<0>>, lo |-> o.lo, up |-> o.up, prio |-> <<>>, fx |-> <<>>]
            [] OTHER -> [type |-> o.type, curve |-> <<>>, blk |-> <<o.x>>, lo |-> o.lo, up |-> o.up, prio |-> <<>>, fx |-> <<>>]

Step(h, o) ==
  CASE o.k = "addPerc" -> [h EXCEPT !.percs = Append(@, o.v)]
    [] o.k = "replPerc" -> [h EXCEPT !.percs = Put(@, o.i, o.v)]
    [] o.k = "rmPerc" -> [h EXCEPT !.percs = Remove(@, o.i)]
    [] o.k = "addChan" -> SetP(h, o, [P_(h, o) EXCEPT !.chans = Append(@, o.v)])
    [] o.k = "replChan" -> SetP(h, o, [P_(h, o) EXCEPT !.chans = Put(@, o.i, o.v)])
    [] o.k = "rmChan" -> SetP(h, o, [P_(h, o) EXCEPT !.chans = Remove(@, o.i)])
    [] o.k = "clearChan" -> SetP(h, o, [P_(h, o) EXCEPT !.chans = <<>>])
    [] o.k \in {"addDevPerc", "addDevsPerc"} -> SetP(h, o, [P_(h, o) EXCEPT !.dev = @ \o o.v.dev])
    [] o.k = "clearDev" -> SetP(h, o, [P_(h, o) EXCEPT !.dev = <<>>])
    [] o.k = "addLib" -> SetP(h, o, [P_(h, o) EXCEPT !.lib = Append(@, o.v)])
    [] o.k = "clearLib" -> SetP(h, o, [P_(h, o) EXCEPT !.lib = <<>>])
    [] o.k = "addBand" -> SetC(h, o, [C_(h, o) EXCEPT !.bands = Append(@, o.v)])
    [] o.k = "genBand" -> SetC(h, o, [C_(h, o) EXCEPT !.bands = Append(@, Gen(o))])
    [] o.k = "replBand" -> SetC(h, o, [C_(h, o) EXCEPT !.bands = Put(@, o.i, o.v)])
    [] o.k = "rmBand" -> SetC(h, o, [C_(h, o) EXCEPT !.bands = Remove(@, o.i)])
    [] o.k = "clearBand" -> SetC(h, o, [C_(h, o) EXCEPT !.bands = <<>>])
    [] o.k = "addVert" -> SetC(h, o, [C_(h, o) EXCEPT !.vert = Append(@, o.i)])
    [] o.k = "clearVert" -> SetC(h, o, [C_(h, o) EXCEPT !.vert = <<>>])
    [] o.k = "addFx" -> SetB(h, o, [B_(h, o) EXCEPT !.fx = AddFx(@, o.v)])
    [] o.k = "replFx" -> SetB(h, o, [B_(h, o) EXCEPT !.fx = Put(@, o.i, o.v)])
    [] o.k = "rmFx" -> SetB(h, o, [B_(h, o) EXCEPT !.fx = Remove(@, o.i)])
    [] o.k \in {"addKf", "addKf3"} -> SetE(h, o, [E_(h, o) EXCEPT !.kfs = Append(@, o.v)])
    [] o.k = "addAmp" -> SetE(h, o, [E_(h, o) EXCEPT !.kfs = AddAmp(@, o.a, o.pos, TRUE)])
    [] o.k = "addAmp2" -> SetE(h, o, [E_(h, o) EXCEPT !.kfs = AddAmp(@, o.a, o.pos, o.over = 1)])
    [] o.k = "addFreq" -> SetE(h, o, [E_(h, o) EXCEPT !.kfs = AddFreq(@, o.f, o.pos)])
    [] o.k = "replKf" -> SetE(h, o, [E_(h, o) EXCEPT !.kfs = Put(@, o.i, o.v)])
    [] o.k = "rmKf" -> SetE(h, o, [E_(h, o) EXCEPT !.kfs = Remove(@, o.i)])
    [] o.k = "addTl" -> SetE(h, o, [E_(h, o) EXCEPT !.tl = Append(@, o.v)])
    [] o.k = "addSync" -> [h EXCEPT !.syncs = Append(@, [t |-> o.i, ts |-> o.ts])]
    [] o.k = "linearize" -> Linear(h)
    [] OTHER -> h
Target(h, o) ==   \* the sequence an index refers to
  CASE o.k \in {"replPerc", "metaPerc", "rmPerc", "getPerc"} -> h.percs
    [] o.k \in {"replChan", "metaChan", "rmChan", "getChan"} -> P_(h, o).chans
    [] o.k \in {"replBand", "metaBand", "rmBand", "getBand"} -> C_(h, o).bands
    [] o.k \in {"replFx", "rmFx", "getFx"} -> B_(h, o).fx
    [] o.k \in {"replKf", "rmKf", "getKf"} -> E_(h, o).kfs
    [] OTHER -> <<>>
Indexed(o) == o.k \in {"replPerc", "metaPerc", "rmPerc", "getPerc", "replChan", "metaChan", "rmChan", "getChan", "replBand", "metaBand",
                       "rmBand", "getBand", "replFx", "rmFx", "getFx", "replKf", "rmKf", "getKf"}
Ret(h, o) ==
  CASE o.k = "overlap" -> Overlaps(E_(h, o), B_(h, o).type, o.pos, o.pos + o.dur)
    [] o.k = "getById" -> LibIdx(P_(h, o).lib, o.i) # 0
    [] Indexed(o) -> In(Target(h, o), o.i)
    [] OTHER -> TRUE
Found(h, o) ==
  CASE o.k = "findBand" -> MinOr(FreeBands(h, o), 0) - 1
    [] o.k = "getById" -> LET i == LibIdx(P_(h, o).lib, o.i) IN IF i = 0 THEN -1 ELSE Len(P_(h, o).lib[i].kfs)
    [] OTHER -> -2

\* metadata may leave what the new metadata does not mention
KeepOr(x, v, y) == y = (IF Has(v) THEN v ELSE x) \/ y = v
MetaDiff(h, o, y) ==
  IF ~In(Target(h, o), o.i) THEN Ck(y = h, "out of range: nothing changes")
  ELSE IF o.k = "metaPerc"
  THEN LET x == h.percs[o.i + 1]
           z == y.percs[o.i + 1] IN
       Ck([y EXCEPT !.percs[o.i + 1] = x] = h, "only the addressed perception changes") \cup
       Ck(z.chans = x.chans, "the channels stay") \cup
       Ck([z EXCEPT !.chans = <<>>, !.prio = <<>>, !.scheme = <<>>, !.ue = <<OptOr(@, -3)>>, !.pue = <<OptOr(@, 0)>>] =
          [o.v EXCEPT !.chans = <<>>, !.prio = <<>>, !.scheme = <<>>, !.ue = <<OptOr(@, -3)>>, !.pue = <<OptOr(@, 0)>>], "the metadata is the new one") \cup
       Ck(Has(o.v.scheme) => z.scheme = o.v.scheme, "semantic scheme") \cup
       Ck(KeepOr(x.prio, o.v.prio, z.prio), "priority")
  ELSE IF o.k = "metaChan"
  THEN LET x == P_(h, o).chans[o.i + 1]
           z == P_(y, o).chans[o.i + 1] IN
       Ck([y EXCEPT !.percs[o.at[1] + 1].chans[o.i + 1] = x] = h, "only the addressed channel changes") \cup
       Ck(z.bands = x.bands, "the bands stay") \cup
       Ck([z EXCEPT !.bands = <<>>, !.prio = <<>>, !.ref = <<>>] = [o.v EXCEPT !.bands = <<>>, !.prio = <<>>, !.ref = <<>>], "the metadata is the new one") \cup
       Ck(KeepOr(x.ref, o.v.ref, z.ref), "reference device") \cup Ck(KeepOr(x.prio, o.v.prio, z.prio), "priority")
  ELSE LET x == C_(h, o).bands[o.i + 1]
           z == C_(y, o).bands[o.i + 1] IN
       Ck([y EXCEPT !.percs[o.at[1] + 1].chans[o.at[2] + 1].bands[o.i + 1] = x] = h, "only the addressed band changes") \cup
       Ck(z.fx = x.fx, "the effects stay") \cup
       Ck(z.type = o.v.type /\ z.lo = o.v.lo /\ z.up = o.v.up, "type and limits") \cup
       Ck(o.v.type = Curve => OptOr(z.curve, 0) = OptOr(o.v.curve, 0), "curve type") \cup
       Ck(o.v.type = Wavelet => OptOr(z.blk, 0) = OptOr(o.v.blk, 0), "block length") \cup
       Ck(KeepOr(x.prio, o.v.prio, z.prio), "priority")
RefactorDiff(h, y) ==
  Ck(Content(y) = Content(h), "refactoring keeps the content") \cup
  (IF Len(y.percs) # Len(h.percs) THEN {"number of perceptions"} ELSE
   UNION {LET p == h.percs[i]
              q == y.percs[i] IN
          Ck(Len(q.lib) >= Len(p.lib) /\ SubSeq(q.lib, 1, Len(p.lib)) = p.lib, "library entries stay") \cup
          Ck(Cardinality({q.lib[j].id : j \in 1..Len(q.lib)}) - Cardinality({p.lib[j].id : j \in 1..Len(p.lib)}) = Len(q.lib) - Len(p.lib),
             "new library identifiers are unique") \cup
          (LET bs == BasisIn(q) IN
           Ck(\A s, t \in bs : s # t => ~Same(FxOf(q, s), FxOf(q, t)), "equal effects are shared"))
          : i \in 1..Len(h.percs)})
StepDiff(h, o, ret, found, y) ==
  Ck(ret = Ret(h, o), o.k \o ": return value") \cup Ck(found = Found(h, o), o.k \o ": found") \cup
  (IF o.k \in {"metaPerc", "metaChan", "metaBand"} THEN MetaDiff(h, o, y)
   ELSE IF o.k = "refactor" THEN RefactorDiff(h, y)
   ELSE IF o.k = "linearize" THEN Ck(Content(y) = Content(h), "linearising keeps the content") \cup Ck(y = Linear(h), "linearised form")
   ELSE Ck(y = Step(h, o), o.k \o ": resulting experience"))
=============================================================================
