------------------------------- MODULE Author -------------------------------
(* The authoring machine: an experience is built by appending perceptions,   *)
(* channels, bands, effects and keyframes at the current end.  Every         *)
(* reachable state is an experience; TLC enumerates all of them within the   *)
(* bounds of the parameter file and emits the ones worth replaying into the  *)
(* implementation.                                                           *)
EXTENDS Hap, Json, IOUtils
P == JsonDeserialize(IOEnv.PARAMS)
S(seq) == {seq[i] : i \in 1..Len(seq)}
VARIABLE h

NoEffect == [id |-> -1, pos |-> 0, phase |-> <<>>, sem |-> <<>>, base |-> <<>>, type |-> Basis,
             kfs |-> <<>>, tl |-> <<>>, ws |-> <<>>, wb |-> <<>>]
Band0(t) == [type |-> t, curve |-> IF t = Curve THEN <<3>> ELSE <<>>, blk |-> IF t = Wavelet THEN <<P.blk>> ELSE <<0>>,
             lo |-> 60, up |-> 1000, prio |-> <<>>, fx |-> <<>>]
Channel0(i) == [id |-> i, desc |-> "", prio |-> <<>>, gain |-> SC, mix |-> SC, mask |-> <<0, 0>>, ref |-> <<>>, fs |-> <<>>,
                sc |-> <<>>, dir |-> <<>>, res |-> <<>>, bpt |-> <<>>, act |-> <<>>, vert |-> <<>>, bands |-> <<>>]
LibFx == [NoEffect EXCEPT !.id = 1, !.phase = <<0>>, !.base = <<0>>,
          !.kfs = <<[p |-> <<0>>, a |-> <<SC>>, f |-> <<100>>], [p |-> <<10>>, a |-> <<0>>, f |-> <<120>>]>>]
Perception0(i) == [id |-> i, avatar |-> 0, desc |-> "", prio |-> <<>>, scheme |-> <<>>, mod |-> 4, ue |-> <<>>, pue |-> <<>>,
                   dev |-> <<>>, lib |-> IF P.library THEN <<LibFx>> ELSE <<>>, chans |-> <<>>]
Empty == [version |-> "2023", profile |-> "Main", level |-> 2, date |-> "2023-01-01", desc |-> "", ts |-> <<1000>>,
          avatars |-> <<>>, syncs |-> <<>>, percs |-> <<>>]

LastOf(s) == s[Len(s)]
SetLast(s, v) == [s EXCEPT ![Len(s)] = v]
Percs == h.percs
Chans == LastOf(Percs).chans
Bands == LastOf(Chans).bands
Fx == LastOf(Bands).fx
Count(F(_)) == Sum(Percs, F)
NChan == Sum(Percs, LAMBDA p : Len(p.chans))
NBand == Sum(Percs, LAMBDA p : Sum(p.chans, LAMBDA c : Len(c.bands)))
NFx == Sum(Percs, LAMBDA p : Sum(p.chans, LAMBDA c : Sum(c.bands, LAMBDA b : Len(b.fx))))

\* nothing is appended after an unfinished element
ChanDone == Len(Percs) > 0 => (Len(Chans) > 0 /\ Len(Bands) > 0 /\ Len(Fx) > 0)
FxDone == LET e == LastOf(Fx) IN e.type # Basis \/ Len(e.kfs) > 0 \/ Len(e.wb) > 0

AddPerception == Len(Percs) < P.maxPerc /\ ChanDone /\ (Len(Percs) > 0 => FxDone)
                 /\ h' = [h EXCEPT !.percs = Append(@, Perception0(Len(Percs)))]
PutChans(cs) == [h EXCEPT !.percs = SetLast(@, [LastOf(@) EXCEPT !.chans = cs])]
AddChannel == Len(Percs) > 0 /\ NChan < P.maxChan
              /\ (Len(Chans) > 0 => Len(Bands) > 0 /\ Len(Fx) > 0 /\ FxDone)
              /\ h' = PutChans(Append(Chans, Channel0(NChan)))
PutBands(bs) == PutChans(SetLast(Chans, [LastOf(Chans) EXCEPT !.bands = bs]))
AddBand == Len(Percs) > 0 /\ Len(Chans) > 0 /\ NBand < P.maxBand
           /\ (Len(Bands) > 0 => Len(Fx) > 0 /\ FxDone)
           /\ \E t \in S(P.bands) : h' = PutBands(Append(Bands, Band0(t)))
PutFx(fs) == PutBands(SetLast(Bands, [LastOf(Bands) EXCEPT !.fx = fs]))
InBand == Len(Percs) > 0 /\ Len(Chans) > 0 /\ Len(Bands) > 0
EndOf(e) == e.pos + (IF Len(e.kfs) = 0 THEN 0 ELSE LastOf(e.kfs).p[1])
AddEffect ==
  /\ InBand /\ NFx < P.maxFx /\ (Len(Fx) > 0 => FxDone)
  /\ LET bt == LastOf(Bands).type IN
     IF bt = Wavelet
     THEN h' = PutFx(Append(Fx, [NoEffect EXCEPT !.pos = Len(Fx) * P.blk, !.wb = <<17 * (NFx + 1), 3, 255>>]))
     ELSE \E pos \in S(P.positions), kind \in S(P.kinds) :
            /\ Len(Fx) > 0 => pos > EndOf(LastOf(Fx)) \/ P.overlap
            /\ h' = PutFx(Append(Fx,
                 CASE kind = Basis -> [NoEffect EXCEPT !.pos = pos, !.id = IF P.ids THEN NFx + 10 ELSE -1,
                                                       !.phase = IF bt = Vectorial THEN <<0>> ELSE <<>>,
                                                       !.base = IF bt = Vectorial THEN <<0>> ELSE <<>>]
                   [] kind = Reference -> [NoEffect EXCEPT !.pos = pos, !.id = 1, !.type = Reference]
                   [] OTHER -> [NoEffect EXCEPT !.pos = pos, !.type = Composite,
                                 !.tl = <<[NoEffect EXCEPT !.pos = 1, !.id = 1, !.type = Reference]>>]))
AddKeyframe ==
  /\ InBand /\ Len(Fx) > 0
  /\ LET e == LastOf(Fx)
         bt == LastOf(Bands).type IN
     /\ e.type = Basis /\ bt # Wavelet /\ Len(e.kfs) < P.maxKf
     /\ \E p \in S(P.offsets), a \in S(P.amps) :
          /\ Len(e.kfs) > 0 => p > LastOf(e.kfs).p[1]
          /\ h' = PutFx(SetLast(Fx, [e EXCEPT !.kfs = Append(@,
                [p |-> <<p>>, a |-> <<a>>, f |-> IF bt = Curve THEN <<>> ELSE <<80 + 10 * Len(e.kfs)>>])]))
Init == h = Empty
Next == AddPerception \/ AddChannel \/ AddBand \/ AddEffect \/ AddKeyframe
Spec == Init /\ [][Next]_h

\* a complete experience: every element that was opened has content
Complete == Len(Percs) > 0 /\ \A i \in 1..Len(Percs) :
              Len(Percs[i].chans) > 0 /\ \A j \in 1..Len(Percs[i].chans) :
                Len(Percs[i].chans[j].bands) > 0 /\ \A k \in 1..Len(Percs[i].chans[j].bands) :
                  LET fs == Percs[i].chans[j].bands[k].fx IN
                  Len(fs) > 0 /\ \A m \in 1..Len(fs) : fs[m].type # Basis \/ Len(fs[m].kfs) > 0 \/ Len(fs[m].wb) > 0
Emit == (Complete \/ P.partial) => PrintT("EXP" \o ToJson(h))
=============================================================================
