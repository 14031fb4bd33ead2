------------------------------- MODULE EditMC -------------------------------
(* Bounded exploration of Edit: every state within the bounds and every call *)
(* in it.  Each explored transition is emitted as a test of the              *)
(* implementation (state before, call).                                      *)
EXTENDS Edit, Json, IOUtils
P == JsonDeserialize(IOEnv.PARAMS)
S(seq) == {seq[i] : i \in 1..Len(seq)}
VARIABLES h, tag
vars == <<h, tag>>
NoFx == [id |-> -1, pos |-> 0, phase |-> <<>>, sem |-> <<>>, base |-> <<>>, type |-> Basis, kfs |-> <<>>, tl |-> <<>>, ws |-> <<>>, wb |-> <<>>]
NoBand == [type |-> P.bt, curve |-> <<>>, blk |-> <<>>, lo |-> 0, up |-> 1000, prio |-> <<>>, fx |-> <<>>]
NoChan == [id |-> 0, desc |-> "", prio |-> <<>>, gain |-> SC, mix |-> SC, mask |-> <<0, 0>>, ref |-> <<>>, fs |-> <<>>, sc |-> <<>>,
           dir |-> <<>>, res |-> <<>>, bpt |-> <<>>, act |-> <<>>, vert |-> <<>>, bands |-> <<>>]
NoPerc == [id |-> 0, avatar |-> 0, desc |-> "", prio |-> <<>>, scheme |-> <<>>, mod |-> 4, ue |-> <<>>, pue |-> <<>>,
           dev |-> <<>>, lib |-> <<>>, chans |-> <<>>]
Empty == [version |-> "2023", profile |-> "Main", level |-> 1, date |-> "", desc |-> "", ts |-> <<1000>>, avatars |-> <<>>, syncs |-> <<>>, percs |-> <<>>]
OneBand == [Empty EXCEPT !.percs = <<[NoPerc EXCEPT !.chans = <<[NoChan EXCEPT !.bands = <<NoBand>>]>>]>>]
OneFx == [OneBand EXCEPT !.percs[1].chans[1].bands[1].fx = <<[NoFx EXCEPT !.id = 1]>>]
Band == h.percs[1].chans[1].bands[1]
Idx(s) == -1..Len(s)
\* calls on the effects of a band; the identifier tells effects apart
FxOps == {[op |-> "edit", k |-> "addFx", at |-> <<0, 0, 0>>, v |-> [NoFx EXCEPT !.pos = p, !.id = tag]] : p \in S(P.positions)} \cup
         {[op |-> "edit", k |-> kind, at |-> <<0, 0, 0>>, i |-> i] : kind \in {"rmFx", "getFx"}, i \in Idx(Band.fx)} \cup
         {[op |-> "edit", k |-> "replFx", at |-> <<0, 0, 0>>, i |-> i, v |-> [NoFx EXCEPT !.id = tag, !.pos = IF In(Band.fx, i) THEN Band.fx[i + 1].pos ELSE 7]] : i \in Idx(Band.fx)} \cup
         {[op |-> "edit", k |-> "findBand", at |-> <<0, 0>>, type |-> t, pos |-> p, dur |-> d] : t \in {P.bt, 1}, p \in S(P.positions), d \in {0, 1, 30}}
Kfs == Band.fx[1].kfs
KfOps == {[op |-> "edit", k |-> kind, at |-> <<0, 0, 0, 0>>, a |-> <<tag * 100>>, pos |-> p] : kind \in {"addAmp"}, p \in S(P.positions)} \cup
         {[op |-> "edit", k |-> "addAmp2", at |-> <<0, 0, 0, 0>>, a |-> <<tag * 100>>, pos |-> p, over |-> v] : v \in {0, 1}, p \in S(P.positions)} \cup
         {[op |-> "edit", k |-> "addFreq", at |-> <<0, 0, 0, 0>>, f |-> <<tag>>, pos |-> p] : p \in S(P.positions)} \cup
         {[op |-> "edit", k |-> kind, at |-> <<0, 0, 0, 0>>, i |-> i] : kind \in {"rmKf", "getKf"}, i \in Idx(Kfs)}
Chans == h.percs[1].chans
TreeOps ==
  {[op |-> "edit", k |-> "addPerc", at |-> <<>>, v |-> [NoPerc EXCEPT !.id = tag]]} \cup
  {[op |-> "edit", k |-> kind, at |-> <<>>, i |-> i] : kind \in {"rmPerc", "getPerc"}, i \in Idx(h.percs)} \cup
  {[op |-> "edit", k |-> kind, at |-> <<>>, i |-> i, v |-> [NoPerc EXCEPT !.id = tag, !.avatar = 9]] : kind \in {"replPerc", "metaPerc"}, i \in Idx(h.percs)} \cup
  UNION {{[op |-> "edit", k |-> "addChan", at |-> <<p>>, v |-> [NoChan EXCEPT !.id = tag]]} \cup
         {[op |-> "edit", k |-> kind, at |-> <<p>>, i |-> i] : kind \in {"rmChan", "getChan"}, i \in Idx(h.percs[p + 1].chans)} \cup
         {[op |-> "edit", k |-> "clearChan", at |-> <<p>>]} \cup
         {[op |-> "edit", k |-> kind, at |-> <<p>>, i |-> i, v |-> [NoChan EXCEPT !.id = tag]] : kind \in {"replChan", "metaChan"}, i \in Idx(h.percs[p + 1].chans)} \cup
         UNION {{[op |-> "edit", k |-> "genBand", at |-> <<p, c>>, i |-> g, type |-> 1, lo |-> tag, up |-> 99, x |-> 2] : g \in 0..3} \cup
                {[op |-> "edit", k |-> kind, at |-> <<p, c>>, i |-> 5] : kind \in {"clearBand", "clearVert"} \cup
                    (IF h.percs[p + 1].chans[c + 1].vert = <<>> THEN {"addVert"} ELSE {})} \cup
                {[op |-> "edit", k |-> "addBand", at |-> <<p, c>>, v |-> [NoBand EXCEPT !.lo = tag]]} \cup
                {[op |-> "edit", k |-> kind, at |-> <<p, c>>, i |-> i] : kind \in {"rmBand", "getBand"}, i \in Idx(h.percs[p + 1].chans[c + 1].bands)} \cup
                {[op |-> "edit", k |-> kind, at |-> <<p, c>>, i |-> i, v |-> [NoBand EXCEPT !.lo = tag, !.type = 2]] : kind \in {"replBand", "metaBand"}, i \in Idx(h.percs[p + 1].chans[c + 1].bands)}
                : c \in 0..(Len(h.percs[p + 1].chans) - 1)}
         : p \in 0..(Len(h.percs) - 1)}
Ops == CASE P.mode = "fx" -> FxOps [] P.mode = "kf" -> KfOps [] OTHER -> TreeOps
Init == h = (CASE P.mode = "fx" -> OneBand [] P.mode = "kf" -> OneFx [] OTHER -> Empty) /\ tag = 1
Next == \E o \in Ops :
          /\ PrintT("TR" \o ToJson([pre |-> h, o |-> o]))
          /\ h' = (IF o.k \in {"metaPerc", "metaChan", "metaBand"} THEN h ELSE Step(h, o))
          /\ tag' = IF o.k \in {"addFx", "replFx", "addAmp", "addAmp2", "addFreq", "addPerc", "addChan", "addBand", "genBand"} THEN tag + 1 ELSE tag
Spec == Init /\ [][Next]_vars
Bounded == tag <= P.maxTag
\* ---- design properties
AlwaysSorted == \A p \in 1..Len(h.percs) : \A c \in 1..Len(h.percs[p].chans) : \A b \in 1..Len(h.percs[p].chans[c].bands) :
                  LET fx == h.percs[p].chans[c].bands[b].fx IN Sorted(fx) /\ \A e \in 1..Len(fx) : KfSorted(fx[e].kfs)
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
\* adding an effect leaves the others as they were, and equal starts keep the order of insertion
FifoStep == P.mode = "fx" =>
  LET a == h.percs[1].chans[1].bands[1].fx
      b == h'.percs[1].chans[1].bands[1].fx IN
  Len(b) = Len(a) + 1 => \E i \in 1..Len(b) : b[i].id = tag /\ Without(b, b[i]) = a /\ \A j \in (i + 1)..Len(b) : b[j].pos > b[i].pos
Fifo == [][FifoStep]_vars
=============================================================================
