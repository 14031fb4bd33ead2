-------------------------------- MODULE Wire --------------------------------
(* Reading fields out of a byte sequence: most significant bit first, bit    *)
(* positions from 0, zeros beyond the end (a reader that gets there has      *)
(* already been told by the lengths).                                        *)
EXTENDS Hap
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288,
        1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864, 134217728, 268435456, 536870912, 1073741824>>
Pow2(k) == P2[k + 1]
\* n bits (at most 30) of the byte sequence b from bit i on, most significant first
RECURSIVE U(_, _, _)
U(b, i, n) ==
  IF n = 0 THEN 0
  ELSE LET o == i % 8
           take == Min2(8 - o, n)
           v == ((IF i \div 8 < Len(b) THEN b[i \div 8 + 1] ELSE 0) \div Pow2(8 - o - take)) % Pow2(take)
       IN v * Pow2(n - take) + U(b, i + take, n - take)
Signed(b, i, n) == LET v == U(b, i, n) IN IF v >= Pow2(n - 1) THEN v - Pow2(n) ELSE v
\* 32-bit fields; -1 when it does not fit the model
U32(b, i) == LET h == U(b, i, 16) IN IF h >= 32768 THEN -1 ELSE h * 65536 + U(b, i + 16, 16)
Bytes(b, i, n) == TLCEval([k \in 1..n |-> U(b, i + 8 * (k - 1), 8)])
\* quantised real numbers in scaled units: 8 bits over [-1, 1], 16 bits over [0, 6.28318], 32 bits over [0, 10000] and [-10000, 10000]
AmpOf(q) == (q * 20000 + 127) \div 255 - 10000
PhaseOf(q) == q - (q * 2703) \div 65535
Q32(b, i) == LET h == U(b, i, 16)
                 l == U(b, i + 16, 16)
             IN h * 1525 + ((h * 225 + l * 5 + ((l * 9605) \div 10000) + 128) \div 256)
S32(b, i) == 2 * Q32(b, i) - 100000000
\* 32-bit signed integers
I32(b, i) == LET h == U(b, i, 16) IN (IF h >= 32768 THEN h - 65536 ELSE h) * 65536 + U(b, i + 16, 16)
Mask32(b, i) == <<U(b, i, 16), U(b, i + 16, 16)>>
\* at most seven bits, all zero, follow bit i
OnlyPadding(b, i) == i <= 8 * Len(b) /\ 8 * Len(b) - i < 8 /\ U(b, i, 8 * Len(b) - i) = 0
=============================================================================
