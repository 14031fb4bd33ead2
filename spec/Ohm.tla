--------------------------------- MODULE Ohm ---------------------------------
(* The OHM metadata file: fixed-width fields, byte by byte, and what it says  *)
(* about an experience.  Strings are sequences of byte values; gains are the  *)
(* four bytes of the float as stored; masks are <<hi16, lo16>>.               *)
EXTENDS Hap
Short(v) == <<((v + 65536) \div 256) % 256, (v + 65536) % 256>>
Cut(s, n) == IF Len(s) > n THEN SubSeq(s, 1, n) ELSE s
Pad(s, n) == [k \in 1..n |-> IF k <= Len(s) THEN s[k] ELSE 0]
RECURSIVE NoNul(_)
NoNul(s) == IF s = <<>> \/ s[Len(s)] # 0 THEN s ELSE NoNul(SubSeq(s, 1, Len(s) - 1))
Kept(s, n) == NoNul(Cut(s, n))
Mask4(m) == <<m[1] \div 256, m[1] % 256, m[2] \div 256, m[2] % 256>>
Cat(s, F(_)) == LET RECURSIVE C(_) C(k) == IF k > Len(s) THEN <<>> ELSE F(s[k]) \o C(k + 1) IN C(1)
ChanBytes(c) == Pad(c.desc, 32) \o c.gain \o Mask4(c.mask)
ElemBytes(e) == Pad(e.file, 64) \o Pad(e.desc, 32) \o Short(Len(e.chans)) \o Cat(e.chans, ChanBytes)
File(o) == <<79, 72, 77, 32>> \o Short(o.ver) \o Short(Len(o.els)) \o Pad(o.desc, 32) \o Cat(o.els, ElemBytes)
\* what the fields can hold of the metadata
Held(o) == [ver |-> o.ver, desc |-> Kept(o.desc, 32),
            els |-> [k \in 1..Len(o.els) |->
              [file |-> Kept(o.els[k].file, 64), desc |-> Kept(o.els[k].desc, 32),
               chans |-> [j \in 1..Len(o.els[k].chans) |-> [o.els[k].chans[j] EXCEPT !.desc = Kept(@, 32)]]]]]
\* the metadata an experience takes over: one perception per element, one channel per channel
Modality(text) ==
  CASE text \in {"Pressure", "Pressure effect"} -> 1
    [] text \in {"Acceleration", "Acceleration effect"} -> 2
    [] text \in {"Velocity", "Velocity effect"} -> 3
    [] text \in {"Position", "Position effect"} -> 4
    [] text \in {"Temperature", "Temperature effect"} -> 5
    [] text \in {"Vibration", "Vibrotactile", "Vibration effect", "Vibrotactile effect"} -> 6
    [] text \in {"Water", "Water effect"} -> 7
    [] text \in {"Wind", "Wind effect"} -> 8
    [] text \in {"Kinesthetic", "Force", "Kinesthetic effect", "Force effect"} -> 9
    [] text = "Electrotactile" -> 13
    [] text \in {"Vibrotactile Texture", "Texture", "Vibrotactile Texture effect", "Texture effect"} -> 10
    [] text \in {"Stiffness", "Stiffness effect"} -> 11
    [] text \in {"Friction", "Friction effect"} -> 12
    [] OTHER -> 0
=============================================================================
