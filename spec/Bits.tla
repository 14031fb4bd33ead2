-------------------------------- MODULE Bits --------------------------------
(* Fixed-width fields written back to back: most significant bit first, no   *)
(* padding between fields.  An unsigned number is <<hi16, lo16>>.            *)
EXTENDS Hap
UBit(v, i) == IF i < 16 THEN (v[2] \div 2^i) % 2 ELSE (v[1] \div 2^(i - 16)) % 2
UBits(v, n) == [j \in 1..n |-> UBit(v, n - j)]
\* two's complement; TLA+ \div and % round towards minus infinity, so this is exact
IBits(v, n) == [j \in 1..n |-> IF n - j < 31 THEN (v \div 2^(n - j)) % 2 ELSE IF v < 0 THEN 1 ELSE 0]
ByteSeqBits(s) == [j \in 1..(8 * Len(s)) |-> (s[((j - 1) \div 8) + 1] \div 2^(7 - ((j - 1) % 8))) % 2]
Trunc255(s) == IF Len(s) > 255 THEN SubSeq(s, 1, 255) ELSE s
\* half a quantisation step, plus single-precision rounding
FloatTol(f) ==
  LET r == f.max - f.min
      half == IF f.n = 32 THEN 0 ELSE r \div (2 * (2^(f.n) - 1)) IN half + 2 + r \div 5000000
Width(f) == CASE f.k \in {"u", "i", "f"} -> f.n [] f.k = "s" -> 8 + 8 * Len(Trunc255(f.s)) [] OTHER -> 24
FieldBits(f) ==    \* what must be written (numbers with a unique encoding only)
  CASE f.k = "u" -> UBits(f.v, f.n)
    [] f.k = "i" -> IBits(f.v, f.n)
    [] f.k = "s" -> LET s == Trunc255(f.s) IN UBits(<<0, Len(s)>>, 8) \o ByteSeqBits(s)
    [] OTHER -> IBits(f.v[1], 8) \o IBits(f.v[2], 8) \o IBits(f.v[3], 8)
Bits01(f) == IF f.x <= f.min THEN {0} ELSE IF f.x >= f.max THEN {1} ELSE {0, 1}
FieldOk(f, bits, o) ==
  IF f.k = "f"
  THEN LET x == Clamp(f.x, f.min, f.max) IN
       Ck(Near(o.b, x, FloatTol(f)), "value read from the stream") \cup
       Ck(Near(o.b2, x, FloatTol(f)), "value read from the bits") \cup
       Ck(\A j \in 1..Len(bits) : bits[j] \in Bits01(f), "end points of the range")
  ELSE LET v == IF f.k = "s" THEN Trunc255(f.s) ELSE f.v IN
       Ck(bits = FieldBits(f), "bits written") \cup Ck(o.b = v, "value read from the stream") \cup
       Ck(o.b2 = v, "value read from the bits")
=============================================================================
