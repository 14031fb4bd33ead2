-------------------------------- MODULE Hap --------------------------------
(* Vocabulary shared by all specifications: the abstract experience and how *)
(* two of its parts are compared.  Values are integers, strings, sequences  *)
(* and records only; optionals are <<>> or <<v>>; real numbers are scaled   *)
(* by SC; 32-bit masks are <<hi16, lo16>>.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SC == 10000
Ck(c, name) == IF c THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Near(x, y, t) == Abs(x - y) <= t
OptOr(o, d) == IF o = <<>> THEN d ELSE o[1]
Has(o) == o # <<>>
OptNear(a, b, t) == IF a = <<>> \/ b = <<>> THEN a = b ELSE Near(a[1], b[1], t)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* pairwise comparison of two sequences by Op, which returns a set of complaints
SeqDiff(a, b, Op(_, _), name) ==
  IF Len(a) # Len(b) THEN {name \o ": number of elements"}
  ELSE UNION {Op(a[i], b[i]) : i \in 1..Len(a)}
Sum(s, F(_)) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + F(s[i]) IN S(Len(s))
AllSeq(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
SelectIdx(s, P(_)) == {i \in 1..Len(s) : P(s[i])}
\* band and effect kinds
Transient == 0
Curve == 1
Vectorial == 2
Wavelet == 3
Basis == 0
Reference == 1
Composite == 2
\* quantisation steps of the binary formats, in scaled units
AmpTol == 41       \* 8 bits over [-1, 1]
PhaseTol == 2      \* 16 bits over [0, 6.28318]
FTol(v) == 2 + Abs(v) \div 100000       \* 32 bits over [0, 10000], single precision
GainTol(v) == 40                        \* 32 bits over [-10000, 10000], single precision
=============================================================================
