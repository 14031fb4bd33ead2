-------------------------------- MODULE Crc --------------------------------
(* The cyclic redundancy check of MIHS packets: remainder of the protected   *)
(* bytes, followed by zeros, modulo the generator polynomial.  Registers are *)
(* <<high 16 bits, low 16 bits>>; a 16-bit check lives in the high half.     *)
EXTENDS Integers, Sequences, Bitwise, SequencesExt
Poly32 == <<33376, 36567>>
Poly16 == <<49185, 0>>
Shift1(r, p) ==
  LET top == r[1] \div 32768
      s == <<(r[1] % 32768) * 2 + r[2] \div 32768, (r[2] % 32768) * 2>>
  IN IF top = 1 THEN <<s[1] ^^ p[1], s[2] ^^ p[2]>> ELSE s
Shift8(r, p) == LET a == Shift1(r, p)
                    b == Shift1(a, p)
                    c == Shift1(b, p)
                    d == Shift1(c, p)
                    e == Shift1(d, p)
                    f == Shift1(e, p)
                    g == Shift1(f, p)
                IN Shift1(g, p)
Table32 == [i \in 0..255 |-> Shift8(<<i * 256, 0>>, Poly32)]
Table16 == [i \in 0..255 |-> Shift8(<<i * 256, 0>>, Poly16)]
Step(t, r, byte) ==
  LET x == t[(r[1] \div 256) ^^ byte] IN
  <<((r[1] % 256) * 256 + r[2] \div 256) ^^ x[1], ((r[2] % 256) * 256) ^^ x[2]>>
Crc32(bytes) == FoldLeft(LAMBDA r, b : Step(Table32, r, b), <<0, 0>>, bytes)
Crc16(bytes) == FoldLeft(LAMBDA r, b : Step(Table16, r, b), <<0, 0>>, bytes)
=============================================================================
