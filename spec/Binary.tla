------------------------------- MODULE Binary -------------------------------
(* The HMPG binary file as a channel: what an experience must look like      *)
(* after a trip through the file.  BinDiff(x, y) is the set of complaints    *)
(* about y as the decoding of x.                                             *)
EXTENDS Hap

KfDiff(bt, x, y) ==
  IF bt = Vectorial
  THEN Ck(y.p = <<OptOr(x.p, 0)>>, "keyframe position") \cup
       Ck(OptNear(x.a, y.a, AmpTol), "keyframe amplitude") \cup Ck(x.f = y.f, "keyframe frequency")
  ELSE Ck(y.p = <<OptOr(x.p, 0)>>, "keyframe position") \cup
       Ck(y.a # <<>> /\ Near(OptOr(x.a, 0), y.a[1], AmpTol), "keyframe amplitude") \cup
       Ck(y.f = (IF bt = Curve THEN <<>> ELSE <<OptOr(x.f, 0)>>), "keyframe frequency")

RECURSIVE FxDiff(_, _, _, _)
FxDiff(bt, x, y, top) ==
  Ck(x.type = y.type, "effect type") \cup
  (IF bt = Wavelet /\ x.type = Basis /\ top THEN {} ELSE Ck(x.pos = y.pos, "effect position")) \cup
  (CASE x.type = Reference -> Ck(x.id = y.id, "referenced effect id")
     [] x.type = Composite -> SeqDiff(x.tl, y.tl, LAMBDA a, b : FxDiff(bt, a, b, FALSE), "timeline")
     [] OTHER ->
        IF bt = Wavelet THEN Ck(x.wb = y.wb, "wavelet bitstream")
        ELSE (IF bt = Vectorial
              THEN Ck(y.phase # <<>> /\ Near(OptOr(x.phase, 0), y.phase[1], PhaseTol), "phase") \cup
                   Ck(y.base = <<OptOr(x.base, 0)>>, "base signal")
              ELSE {}) \cup
             SeqDiff(x.kfs, y.kfs, LAMBDA a, b : KfDiff(bt, a, b), "keyframes"))

\* block lengths travel as a power of two (at least 16) of samples at the upper frequency limit
Pow2Floor(n) == LET RECURSIVE P(_) P(k) == IF 2 * k > n THEN k ELSE P(2 * k) IN P(1)
BlkSamples(b, ts) == (OptOr(b.blk, 0) * b.up) \div ts
BandDiff(x, y) ==
  Ck(x.type = y.type, "band type") \cup
  (IF x.type = Curve THEN Ck(y.curve = <<OptOr(x.curve, 0)>>, "curve type") ELSE {}) \cup
  (IF x.type = Wavelet THEN Ck(x.blk = y.blk, "block length") ELSE {}) \cup
  Ck(x.lo = y.lo, "lower frequency limit") \cup Ck(x.up = y.up, "upper frequency limit") \cup
  SeqDiff(x.fx, y.fx, LAMBDA a, b : FxDiff(x.type, a, b, TRUE), "effects") \cup
  (IF x.type = Wavelet
   THEN Ck(\A i \in 1..Len(y.fx) : y.fx[i].type # Basis \/ i > Len(x.fx) \/ y.fx[i].pos = x.fx[i].pos, "wavelet block position")
   ELSE {})

RECURSIVE LibFxDiff(_, _)
LibFxDiff(x, y) ==
  Ck(x.id = y.id, "library effect id") \cup Ck(x.pos = y.pos, "library effect position") \cup
  Ck(x.type = y.type, "library effect type") \cup
  (IF x.type = Basis
   THEN Ck(y.phase # <<>> /\ Near(OptOr(x.phase, 0), y.phase[1], PhaseTol), "library phase") \cup
        Ck(y.base = <<OptOr(x.base, 0)>>, "library base signal")
   ELSE {}) \cup
  SeqDiff(x.kfs, y.kfs, LAMBDA a, b : Ck(a.p = b.p, "library keyframe position") \cup
      Ck(OptNear(a.a, b.a, AmpTol), "library keyframe amplitude") \cup Ck(a.f = b.f, "library keyframe frequency"), "library keyframes") \cup
  SeqDiff(x.tl, y.tl, LibFxDiff, "library timeline")

DevFields == {"maxF", "minF", "resF", "maxA", "imp", "maxV", "maxC", "maxD", "wei", "siz"}
DevDiff(x, y) ==
  Ck(x.id = y.id, "device id") \cup Ck(x.name = y.name, "device name") \cup
  Ck(OptOr(x.mask, <<0, 0>>) = OptOr(y.mask, <<0, 0>>), "device body part mask") \cup
  UNION {Ck(IF Has(x[f]) THEN OptNear(x[f], y[f], FTol(x[f][1])) ELSE y[f] = <<>>, "device " \o f) : f \in DevFields} \cup
  Ck(OptNear(x.cus, y.cus, 40), "device custom") \cup Ck(x.type = y.type, "device type")

\* fields of a channel common to the file and the stream
ChanMetaDiff(x, y) ==
  Ck(x.id = y.id, "channel id") \cup Ck(x.desc = y.desc, "channel description") \cup
  Ck(Near(x.gain, y.gain, GainTol(x.gain)), "channel gain") \cup
  Ck(Near(x.mix, y.mix, FTol(x.mix)), "channel mixing weight") \cup
  Ck(x.ref = y.ref, "channel reference device") \cup
  Ck(x.fs = y.fs, "channel sampling frequency") \cup
  Ck(x.sc = y.sc, "channel sample count") \cup
  Ck(x.dir = y.dir, "channel direction") \cup Ck(x.vert = y.vert, "channel vertices") \cup
  (IF Has(x.res)
   THEN Ck(x.res = y.res, "actuator resolution") \cup Ck(y.bpt = <<OptOr(x.bpt, <<>>)>>, "body part target") \cup
        Ck(y.act = <<OptOr(x.act, <<>>)>>, "actuator target")
   ELSE Ck(x.mask = y.mask, "channel body part mask") \cup
        Ck(y.res = <<>> /\ y.bpt = <<>> /\ y.act = <<>>, "actuator targets appeared"))
ChanDiff(x, y) == ChanMetaDiff(x, y) \cup SeqDiff(x.bands, y.bands, BandDiff, "bands")

PercMetaDiff(x, y) ==
  Ck(x.id = y.id, "perception id") \cup Ck(x.avatar = y.avatar, "perception avatar") \cup
  Ck(x.desc = y.desc, "perception description") \cup Ck(x.mod = y.mod, "perception modality") \cup
  Ck(y.ue = <<OptOr(x.ue, -3)>>, "unit exponent") \cup Ck(y.pue = <<OptOr(x.pue, 0)>>, "perception unit exponent") \cup
  SeqDiff(x.dev, y.dev, DevDiff, "reference devices") \cup SeqDiff(x.lib, y.lib, LibFxDiff, "effect library")
PercDiff(x, y) == PercMetaDiff(x, y) \cup SeqDiff(x.chans, y.chans, ChanDiff, "channels")

AvatarDiff(x, y) ==
  Ck(x.id = y.id, "avatar id") \cup Ck(x.lod = y.lod, "avatar lod") \cup Ck(x.type = y.type, "avatar type") \cup
  Ck(IF x.type = 0 THEN OptOr(x.mesh, "") = OptOr(y.mesh, "") ELSE y.mesh = <<>>, "avatar mesh")

HeadDiff(x, y) ==
  Ck(x.version = y.version, "version") \cup Ck(x.profile = y.profile, "profile") \cup Ck(x.level = y.level, "level") \cup
  Ck(x.date = y.date, "date") \cup Ck(x.desc = y.desc, "description") \cup
  SeqDiff(x.avatars, y.avatars, AvatarDiff, "avatars")
BinDiff(x, y) == HeadDiff(x, y) \cup SeqDiff(x.percs, y.percs, PercDiff, "perceptions")
=============================================================================
