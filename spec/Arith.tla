------------------------------- MODULE Arith -------------------------------
(* The adaptive binary arithmetic coder of the wavelet streams, as integer   *)
(* arithmetic.  A model is one pair <<zeros, total>> per context; the coder  *)
(* keeps an interval [lo, hi) of 0..1024 and emits the bits on which all its *)
(* values agree.                                                             *)
EXTENDS Integers, Sequences, SequencesExt
RMax == 1024
Half == 512
Quarter == 256
Contexts == 7
Fresh == [c \in 1..Contexts |-> <<8, 16>>]
Between(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x
\* the model of the next stream when the coder is not reset: the same ratios out of 32
Rescale(m) == [c \in 1..Contexts |-> <<Between((32 * m[c][1]) \div m[c][2], 1, 31), 32>>]
Prob(m) == (2 * RMax * m[1] + m[2]) \div (2 * m[2])
Split(diff, m) == Between((diff * Prob(m)) \div RMax, 1, diff - 1)
Count(m, c, s) == [m EXCEPT ![c] = <<@[1] + (1 - s), @[2] + 1>>]

\* ---- encoder: [lo, hi, follow, out, m]
EncInit(m) == [lo |-> 0, hi |-> RMax, follow |-> 0, out |-> <<>>, m |-> m]
Bits(b, n) == <<b>> \o [k \in 1..n |-> 1 - b]
RECURSIVE EncNorm(_)
EncNorm(s) ==
  IF s.hi <= Half
  THEN EncNorm([s EXCEPT !.lo = 2 * @, !.hi = 2 * @, !.out = @ \o Bits(0, s.follow), !.follow = 0])
  ELSE IF s.lo >= Half
  THEN EncNorm([s EXCEPT !.lo = 2 * (@ - Half), !.hi = 2 * (@ - Half), !.out = @ \o Bits(1, s.follow), !.follow = 0])
  ELSE IF s.lo >= Quarter /\ s.hi <= 3 * Quarter
  THEN EncNorm([s EXCEPT !.lo = 2 * (@ - Quarter), !.hi = 2 * (@ - Quarter), !.follow = @ + 1])
  ELSE s
\* one symbol (0 or 1) in context c (1..7)
EncStep(s, sym, c) ==
  LET a == Split(s.hi - s.lo, s.m[c])
      t == IF sym = 0 THEN [s EXCEPT !.hi = s.lo + a] ELSE [s EXCEPT !.lo = @ + a]
  IN EncNorm([t EXCEPT !.m = Count(@, c, sym)])
\* the shortest bits that, followed by zeros, fall into the interval; zeros at the end are not sent
RECURSIVE Rest(_, _, _)
Rest(lo, hi, v) ==
  IF lo <= 0 THEN <<>>
  ELSE IF v < hi THEN <<1>> \o Rest(lo - v, hi - v, v \div 2) ELSE <<0>> \o Rest(lo, hi, v \div 2)
RECURSIVE TrimZeros(_)
TrimZeros(b) == IF b = <<>> \/ b[Len(b)] = 1 THEN b ELSE TrimZeros(SubSeq(b, 1, Len(b) - 1))
Finish(s) == TrimZeros(s.out \o (IF s.follow > 0 THEN <<1>> ELSE Rest(s.lo, s.hi, Half)))
\* symbols are pairs <<bit, context>>
EncodeFrom(m, syms) == FoldLeft(LAMBDA s, x : EncStep(s, x[1], x[2]), EncInit(m), syms)
Encode(syms) == Finish(EncodeFrom(Fresh, syms))

\* ---- decoder: [lo, hi, v, i, bits, m]; bits that were not sent are zeros
Bit(bits, i) == IF i <= Len(bits) THEN bits[i] ELSE 0
DecInit(m, bits) ==
  [lo |-> 0, hi |-> RMax, v |-> FoldLeft(LAMBDA a, i : 2 * a + Bit(bits, i), 0, [k \in 1..10 |-> k]), i |-> 11, bits |-> bits, m |-> m]
RECURSIVE DecNorm(_)
DecNorm(s) ==
  LET Shift(d) == DecNorm([s EXCEPT !.lo = 2 * (@ - d), !.hi = 2 * (@ - d), !.v = 2 * (@ - d) + Bit(s.bits, s.i), !.i = @ + 1]) IN
  IF s.hi <= Half THEN Shift(0)
  ELSE IF s.lo >= Half THEN Shift(Half)
  ELSE IF s.lo >= Quarter /\ s.hi <= 3 * Quarter THEN Shift(Quarter)
  ELSE s
DecSym(s, c) == IF s.v - s.lo < Split(s.hi - s.lo, s.m[c]) THEN 0 ELSE 1
DecStep(s, c) ==
  LET a == Split(s.hi - s.lo, s.m[c])
      x == DecSym(s, c)
      t == IF x = 0 THEN [s EXCEPT !.hi = s.lo + a] ELSE [s EXCEPT !.lo = @ + a]
  IN DecNorm([t EXCEPT !.m = Count(@, c, x)])
DecodeFrom(m, bits, ctxs) ==
  FoldLeft(LAMBDA a, c : [d |-> DecStep(a.d, c), y |-> Append(a.y, DecSym(a.d, c))], [d |-> DecInit(m, bits), y |-> <<>>], ctxs)
=============================================================================
