-------------------------------- MODULE Hjif --------------------------------
(* HJIF, the readable interchange format.  Three parts:                      *)
(*   WriteDiff(x, t)   what the text t of a saved experience x must say      *)
(*   LoadDiff(t, y)    the experience y a loader must make of the text t     *)
(*   Conformant(x)     the rules of profiles and levels a file must satisfy  *)
(*   Apply(edit, x)    what a file means when one of its members is          *)
(*                     missing or of a wrong type: the element is left out   *)
(*                     when the member is mandatory, else the member is      *)
(* Experiences are as in Hap; x.vc, x.dc and perception.schc are the         *)
(* characters of version, date and semantic scheme.                          *)
EXTENDS Hap

Fields(x, y, fs, name) == UNION {Ck(x[f] = y[f], name \o f) : f \in fs}
Digit(c) == c \in 48..57
VersionOk(c) ==
  /\ Len(c) \in {4, 6} /\ \A i \in 1..4 : Digit(c[i])
  /\ (c[1] - 48) * 1000 + (c[2] - 48) * 100 + (c[3] - 48) * 10 + (c[4] - 48) >= 2023
  /\ Len(c) = 6 => c[5] = 45 /\ c[6] \in 49..57
DateOk(c) == \E i \in 1..(Len(c) - 3) : \A k \in 0..3 : Digit(c[i + k])
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
AlNum(c) == Digit(c) \/ Lower(c) \in 97..122
\* urn:<namespace>:<something>
UrnOk(c) ==
  /\ Len(c) >= 4 /\ <<Lower(c[1]), Lower(c[2]), Lower(c[3]), c[4]>> = <<117, 114, 110, 58>>
  /\ \E k \in 6..Min2(Len(c) - 1, 37) :
       c[k] = 58 /\ AlNum(c[5]) /\ \A i \in 5..(k - 1) : AlNum(c[i]) \/ c[i] = 45

RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s

(* ---------------------------------------------------------------- saving *)
WFxDiff(bt, x, t) ==
  Fields(x, t, {"type", "pos", "sem"}, "effect ") \cup
  Ck(t.id = x.id \/ (x.type # Reference /\ t.id = -1), "effect id") \cup
  Ck(x.tl = <<>>, "timeline of a composite effect") \cup
  (IF x.type = Basis /\ bt # Wavelet THEN Ck(t.kfs = x.kfs, "keyframes") ELSE Ck(t.kfs \in {<<>>, x.kfs}, "keyframes")) \cup
  (IF x.type = Basis /\ bt \in {Transient, Vectorial}
   THEN Fields(x, t, {"phase", "base"}, "effect ")
   ELSE Ck(t.phase \in {<<>>, x.phase} /\ t.base \in {<<>>, x.base}, "effect phase or base signal")) \cup
  Ck(t.wb = (IF x.type = Basis /\ bt = Wavelet THEN Trim(x.wb) ELSE <<>>), "wavelet stream")
WBandDiff(x, t) ==
  Fields(x, t, {"type", "lo", "up", "prio"}, "band ") \cup
  Ck(t.curve = (IF x.type = Curve THEN x.curve ELSE <<>>), "curve type") \cup
  (IF x.type = Wavelet THEN Ck(t.blk = <<OptOr(x.blk, 0)>>, "block length") ELSE {}) \cup
  SeqDiff(x.fx, t.fx, LAMBDA a, b : WFxDiff(x.type, a, b), "effects")
ChanFields == {"id", "desc", "prio", "gain", "mix", "mask", "ref", "fs", "sc", "dir", "res", "bpt", "act", "vert"}
PercFields == {"id", "avatar", "desc", "prio", "scheme", "mod", "ue", "pue"}
DevFieldsJ == {"id", "name", "mask", "maxF", "minF", "resF", "maxA", "imp", "maxV", "maxC", "maxD", "wei", "siz", "cus", "type"}
LibFields == {"id", "pos", "phase", "sem", "base", "type", "kfs"}
HeadFields == {"profile", "level", "desc", "syncs"}
WChanDiff(x, t) == Fields(x, t, ChanFields, "channel ") \cup SeqDiff(x.bands, t.bands, WBandDiff, "bands")
LibDiff(x, t) == Fields(x, t, LibFields, "library effect ")
DevDiffJ(x, t) == Fields(x, t, DevFieldsJ, "reference device ")
WPercDiff(x, t) ==
  Fields(x, t, PercFields, "perception ") \cup SeqDiff(x.dev, t.dev, DevDiffJ, "reference devices") \cup
  SeqDiff(x.lib, t.lib, LibDiff, "effect library") \cup SeqDiff(x.chans, t.chans, WChanDiff, "channels")
WAvDiff(x, t) ==
  Fields(x, t, {"id", "lod", "type"}, "avatar ") \cup Ck(t.mesh = (IF x.type = 0 THEN x.mesh ELSE <<>>), "avatar mesh")
WriteDiff(x, t) ==
  Fields(x, t, HeadFields, "") \cup Ck(t.version = (IF VersionOk(x.vc) THEN x.version ELSE "2023"), "version") \cup
  Ck(IF DateOk(x.dc) THEN t.date = x.date ELSE DateOk(t.dc), "date") \cup
  Ck(t.ts = <<OptOr(x.ts, 1000)>>, "timescale") \cup
  SeqDiff(x.avatars, t.avatars, WAvDiff, "avatars") \cup SeqDiff(x.percs, t.percs, WPercDiff, "perceptions")

(* --------------------------------------------------------------- loading *)
\* effects enter a band in order of position, equal positions in order of arrival
RECURSIVE InsAll(_, _, _)
InsAll(acc, s, i) ==
  IF i > Len(s) THEN acc
  ELSE LET k == Cardinality({j \in 1..Len(acc) : acc[j].pos <= s[i].pos})
       IN InsAll(SubSeq(acc, 1, k) \o <<s[i]>> \o SubSeq(acc, k + 1, Len(acc)), s, i + 1)
LFxDiff(t, y) == Fields(t, y, {"type", "pos", "sem", "id", "phase", "base", "kfs"}, "effect ") \cup
                 Ck(y.wb = Trim(t.wb), "wavelet stream") \cup Ck(y.tl = <<>>, "timeline")
LBandDiff(t, y) ==
  Fields(t, y, {"type", "lo", "up", "prio", "curve"}, "band ") \cup
  (IF t.type = Wavelet THEN Ck(y.blk = t.blk, "block length") ELSE {}) \cup
  SeqDiff(InsAll(<<>>, t.fx, 1), y.fx, LFxDiff, "effects")
LChanDiff(t, y) == Fields(t, y, ChanFields, "channel ") \cup SeqDiff(t.bands, y.bands, LBandDiff, "bands")
LPercDiff(t, y) ==
  Fields(t, y, PercFields, "perception ") \cup SeqDiff(t.dev, y.dev, DevDiffJ, "reference devices") \cup
  SeqDiff(t.lib, y.lib, LibDiff, "effect library") \cup SeqDiff(t.chans, y.chans, LChanDiff, "channels")
\* a mark without timescale is in milliseconds, and says so once loaded
SyncDiff(t, y) == Ck(t.t = y.t /\ OptOr(t.ts, 1000) = OptOr(y.ts, 1000), "synchronisation mark")
LoadDiff(t, y) ==
  Fields(t, y, (HeadFields \ {"syncs"}) \cup {"version", "date", "ts", "avatars"}, "") \cup SeqDiff(t.syncs, y.syncs, SyncDiff, "syncs") \cup SeqDiff(t.percs, y.percs, LPercDiff, "perceptions")

(* ----------------------------------------------------------- conformance *)
Keywords == {
  "UX/Undefined", "UX/Click", "UX/DoubleClick", "UX/Success", "UX/Error",
  "UX/Alarm", "UX/Confirmatioon", "UX/Wrong", "UX/Ring", "UX/Message",
  "Avatar/Undefined", "Avatar/Jumping", "Avatar/Fall", "Avatar/Crawl", "Avatar/Swim",
  "Avatar/Collision", "Avatar/Grab", "Avatar/Touch", "Avatar/Swip", "Avatar/Footstep",
  "SpecialFX/Undefined", "SpecialFX/Washout", "SpecialFX/Noise", "WeaponCombat/Undefined", "WeaponCombat/Blade",
  "WeaponCombat/Hit", "WeaponCombat/HandThrown", "WeaponCombat/ElasticPropulsion", "WeaponCombat/Pneumatic", "WeaponCombat/Handgun",
  "WeaponCombat/Rifle", "WeaponCombat/Shotgun", "WeaponCombat/Gun", "WeaponCombat/Machinegun", "WeaponCombat/Taser",
  "WeaponCombat/ElectricShock", "WeaponCombat/Mine", "WeaponCombat/Missile", "WeaponCombat/Grenade", "WeaponCombat/Blast",
  "Ambient/Undefined", "Ambient/Wind", "Ambient/Heat", "Ambient/Cold", "Ambient/Rain",
  "Ambient/Waterfall", "Ambient/WaterDrop", "Ambient/ElectricBuzz", "Ambient/Ignition", "Ambient/Cracks",
  "Ambient/Earthquack", "Ambient/Sparks", "Ambient/Thunderbolt", "Texture/Undefined", "Texture/Rock",
  "Texture/Gravel", "Texture/Sand", "Texture/Wood", "Texture/Metal", "Texture/Plastic",
  "Vehicle/Undefined", "Vehicle/Engine", "Vehicle/Doors", "Vehicle/Brake", "Vehicle/MechanicalContraption",
  "Vehicle/Drift", "Vehicle/RoadFriction", "Vehicle/RoadBump", "Vehicle/Tires", "Vehicle/AirFriction",
  "Music/Undefined", "Music/HardMaterial", "Music/BouncyMaterial", "Music/Pucking", "Music/Bowing",
  "Music/Striking", "Music/BrassInstrument", "Music/WoodWindInstrument"}
Unique(s, F(_)) == \A i, j \in 1..Len(s) : F(s[i]) = F(s[j]) => i = j
Simple(x) == x.profile = "Simple Parametric"
FxRules(x, p, b, e) ==
  Ck(~(Simple(x) /\ e.type = Composite), "composite in the simple profile") \cup
  Ck(b.type = Wavelet => e.kfs = <<>>, "keyframes in a wavelet band") \cup
  Ck(e.type = Reference => \E i \in 1..Len(p.lib) : p.lib[i].id = e.id, "reference to nothing") \cup
  Ck(Has(e.sem) /\ (~Has(p.scheme) \/ p.scheme = <<"urn:mpeg:mpegi:haptics:effectsemantic:2023">>) => e.sem[1] \in Keywords,
     "semantic keyword")
Pow2(n) == n >= 1 /\ \E k \in 0..30 : n = 2 ^ k
BandRules(x, p, b) ==
  Ck(b.type # Curve => ~Has(b.curve), "curve type outside curve bands") \cup
  Ck(b.type = Wavelet => Pow2(OptOr(b.blk, 0)), "block length") \cup
  Ck(~(Simple(x) /\ b.type = Wavelet), "wavelets in the simple profile") \cup
  Ck(b.up >= b.lo, "frequency limits") \cup
  UNION {FxRules(x, p, b, b.fx[i]) : i \in 1..Len(b.fx)}
Unit(v) == LET n == v[1] * v[1] + v[2] * v[2] + v[3] * v[3] IN 10000 * n >= 9801 * 16129 /\ 10000 * n <= 10201 * 16129
ChanRules(x, p, c) ==
  Ck(Has(c.ref) => \E i \in 1..Len(p.dev) : p.dev[i].id = c.ref[1], "device of a channel") \cup
  Ck(Has(c.dir) => Unit(c.dir[1]), "direction") \cup
  Ck(x.level \in {1, 2} => Len(c.bands) <= (IF x.level = 1 THEN 7 ELSE 63), "number of bands") \cup
  Ck(Has(c.res) => \A k \in 1..3 : c.res[1][k] >= 0, "actuator resolution") \cup
  Ck(Has(c.act) => Has(c.res) /\ \A i \in 1..Len(c.act[1]) : \A k \in 1..3 : c.act[1][i][k] \in 0..c.res[1][k], "actuator target") \cup
  UNION {BandRules(x, p, c.bands[i]) : i \in 1..Len(c.bands)}
LeqO(a, b) == ~Has(a) \/ ~Has(b) \/ a[1] <= b[1]
DevRules(d) == Ck(LeqO(d.minF, d.maxF) /\ LeqO(d.minF, d.resF) /\ LeqO(d.resF, d.maxF), "device frequencies")
PercRules(x, p) ==
  Ck(Simple(x) /\ x.level = 1 => p.mod \in {6, 9, 10, 11}, "modality") \cup
  Ck(p.avatar = 0 \/ \E i \in 1..Len(x.avatars) : x.avatars[i].id = p.avatar, "avatar of a perception") \cup
  Ck(Has(p.scheme) => UrnOk(p.schc), "semantic scheme") \cup
  Ck(x.level \in {1, 2} => Len(p.chans) <= (IF x.level = 1 THEN 127 ELSE 65535), "number of channels") \cup
  Ck(Unique(p.dev, LAMBDA d : d.id), "device ids") \cup Ck(Unique(p.chans, LAMBDA c : c.id), "channel ids") \cup
  Ck(Unique(p.lib, LAMBDA l : l.id), "library ids") \cup
  Ck(Simple(x) => \A i \in 1..Len(p.lib) : p.lib[i].type # Composite, "composite in a simple library") \cup
  UNION {DevRules(p.dev[i]) : i \in 1..Len(p.dev)} \cup UNION {ChanRules(x, p, p.chans[i]) : i \in 1..Len(p.chans)}
Rules(x) ==
  Ck(VersionOk(x.vc), "version") \cup Ck(x.profile \in {"Main", "Simple Parametric"}, "profile") \cup Ck(x.level \in {1, 2}, "level") \cup
  Ck(DateOk(x.dc), "date") \cup
  Ck(Has(x.ts) => (Simple(x) => x.ts[1] = 1000) /\ (x.profile = "Main" => x.ts[1] <= 48000), "timescale") \cup
  Ck(\A i \in 1..Len(x.avatars) : x.avatars[i].id # 0 /\ x.avatars[i].mesh # <<"">>, "avatar") \cup
  Ck(Unique(x.avatars, LAMBDA a : a.id), "avatar ids") \cup Ck(Unique(x.percs, LAMBDA p : p.id), "perception ids") \cup
  UNION {PercRules(x, x.percs[i]) : i \in 1..Len(x.percs)}
Conformant(x) == Rules(x) = {}

(* ---------------------------------------------- missing or wrong members *)
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Mandatory(kind, r, bt) ==
  CASE kind = "avatar" -> {"id", "lod", "type"}
    [] kind = "sync" -> {"timestamp"}
    [] kind = "perc" -> {"id", "avatar_id", "description", "perception_modality", "channels", "effect_library"}
    [] kind = "dev" -> {"id", "name"}
    [] kind = "lib" -> {"effect_type", "id", "position"}
    [] kind = "chan" -> {"id", "description", "gain", "mixing_coefficient", "body_part_mask", "bands"}
    [] kind = "band" -> {"band_type", "lower_frequency_limit", "upper_frequency_limit", "effects"} \cup
                        (IF r.type = Wavelet THEN {"block_length"} ELSE {})
    [] kind = "fx" -> {"effect_type", "position"} \cup (IF r.type = Reference THEN {"id"} ELSE {}) \cup
                      (IF r.type = Basis /\ bt = Wavelet THEN {"wavelet_stream"} ELSE {})
    [] OTHER -> {}
FieldOf == [mesh |-> "mesh", timescale |-> "ts", priority |-> "prio", unit_exponent |-> "ue", perception_unit_exponent |-> "pue",
  effect_semantic_scheme |-> "scheme", reference_devices |-> "dev", body_part_mask |-> "mask", maximum_frequency |-> "maxF",
  minimum_frequency |-> "minF", resonance_frequency |-> "resF", maximum_amplitude |-> "maxA", impedance |-> "imp",
  maximum_voltage |-> "maxV", maximum_current |-> "maxC", maximum_displacement |-> "maxD", weight |-> "wei", size |-> "siz",
  custom |-> "cus", type |-> "type", phase |-> "phase", base_signal |-> "base", semantic_keywords |-> "sem", keyframes |-> "kfs",
  reference_device_id |-> "ref", frequency_sampling |-> "fs", sample_count |-> "sc", direction |-> "dir",
  actuator_resolution |-> "res", body_part_target |-> "bpt", actuator_target |-> "act", vertices |-> "vert", curve_type |-> "curve",
  relative_position |-> "p", amplitude_modulation |-> "a", frequency_modulation |-> "f", id |-> "id", block_length |-> "blk",
  wavelet_stream |-> "wb"]
Clear(m, r) == IF m = "id" THEN [r EXCEPT !.id = -1] ELSE [r EXCEPT ![FieldOf[m]] = <<>>]
Edit(s, i, kind, m, bt) ==
  IF m = "self" \/ m \in Mandatory(kind, s[i], bt) THEN Drop(s, i) ELSE [s EXCEPT ![i] = Clear(m, s[i])]
TopMandatory == {"version", "profile", "level", "date", "description", "timescale", "perceptions", "avatars", "syncs"}
\* the file is refused altogether: no meaning
Refused(ed) == ed.kind = "top" /\ ed.m \in TopMandatory
Apply(ed, x) ==
  LET q == ed.path  m == ed.m  k == ed.kind IN
  CASE k = "none" -> x
    [] k = "avatar" -> [x EXCEPT !.avatars = Edit(@, q[1], k, m, 0)]
    [] k = "sync" -> [x EXCEPT !.syncs = Edit(@, q[1], k, m, 0)]
    [] k = "perc" -> [x EXCEPT !.percs = Edit(@, q[1], k, m, 0)]
    [] k = "dev" -> [x EXCEPT !.percs[q[1]].dev = Edit(@, q[2], k, m, 0)]
    [] k = "lib" -> [x EXCEPT !.percs[q[1]].lib = Edit(@, q[2], k, m, 0)]
    [] k = "libkf" -> [x EXCEPT !.percs[q[1]].lib[q[2]].kfs = Edit(@, q[3], k, m, 0)]
    [] k = "chan" -> [x EXCEPT !.percs[q[1]].chans = Edit(@, q[2], k, m, 0)]
    [] k = "bpt" -> [x EXCEPT !.percs[q[1]].chans[q[2]].bpt[1] = Drop(@, q[3])]
    [] k = "act" -> [x EXCEPT !.percs[q[1]].chans[q[2]].act[1] = Drop(@, q[3])]
    [] k = "vert" -> [x EXCEPT !.percs[q[1]].chans[q[2]].vert = Drop(@, q[3])]
    [] k = "band" -> [x EXCEPT !.percs[q[1]].chans[q[2]].bands = Edit(@, q[3], k, m, 0)]
    [] k = "fx" -> [x EXCEPT !.percs[q[1]].chans[q[2]].bands[q[3]].fx =
                      Edit(@, q[4], k, m, x.percs[q[1]].chans[q[2]].bands[q[3]].type)]
    [] k = "kf" -> [x EXCEPT !.percs[q[1]].chans[q[2]].bands[q[3]].fx[q[4]].kfs = Edit(@, q[5], k, m, 0)]
=============================================================================
