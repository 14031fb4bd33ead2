------------------------------ MODULE Wavelet ------------------------------
(* The wavelet transform of blocks of samples (Cohen-Daubechies-Feauveau 9/7), the scaling of decoded
   blocks and their placement in time.  Reals are fixed point numbers: filter taps are scaled by 8192,
   values by a scale the caller chooses; the tolerances cover the rounding of this arithmetic. *)
EXTENDS Spiht
FS == 8192
\* taps scaled by 8192, from the middle outwards
LP == <<6985, 3092, -906, -195, 310>>
HP == <<-6459, 3425, 333, -529>>
Sgn(k) == IF k % 2 = 0 THEN 1 ELSE -1
\* the tap at distance d from the middle: analysis low and high, synthesis high and low
La(d) == IF d > 4 THEN 0 ELSE LP[d + 1]
Ha(d) == IF d > 3 THEN 0 ELSE HP[d + 1]
Ls(d) == Sgn(d) * Ha(d) * (-1)
Hs(d) == Sgn(d) * La(d) * (-1)
\* index mirrored at both ends without repeating the end, 1..n
Mirror(i, n) == IF i < 1 THEN 2 - i ELSE IF i > n THEN 2 * n - i ELSE i
Div(a) == IF a >= 0 THEN (a + FS \div 2) \div FS ELSE -((FS \div 2 - a) \div FS)
Around(x, f(_), i) == LET n == Len(x) IN
  Div(f(0) * x[i] + f(1) * (x[Mirror(i - 1, n)] + x[Mirror(i + 1, n)]) + f(2) * (x[Mirror(i - 2, n)] + x[Mirror(i + 2, n)]) +
      f(3) * (x[Mirror(i - 3, n)] + x[Mirror(i + 3, n)]) + f(4) * (x[Mirror(i - 4, n)] + x[Mirror(i + 4, n)]))
\* one level: the low half keeps the even samples, the high half the odd ones (counted from 0)
Analyse(x) == LET n == Len(x) IN
  TLCEval([k \in 1..n |-> IF k <= n \div 2 THEN Around(x, La, 2 * k - 1) ELSE Around(x, Ha, 2 * (k - n \div 2))])
Synthesise(c) == LET n == Len(c)
               l == TLCEval([k \in 1..n |-> IF k % 2 = 1 THEN c[(k + 1) \div 2] ELSE 0])
               h == TLCEval([k \in 1..n |-> IF k % 2 = 0 THEN c[n \div 2 + k \div 2] ELSE 0]) IN
           TLCEval([k \in 1..n |-> Around(l, Ls, k) + Around(h, Hs, k)])
RECURSIVE Transform(_, _)
Transform(x, levels) == IF levels <= 0 THEN x
                      ELSE LET s == Analyse(x)
                               n == Len(x) \div 2 IN
                           Transform(SubSeq(s, 1, n), levels - 1) \o SubSeq(s, n + 1, 2 * n)
RECURSIVE Rebuild(_, _)
Rebuild(c, levels) == IF levels <= 0 THEN c
                      ELSE LET n == Len(c) \div 2 IN
                           Synthesise(Rebuild(SubSeq(c, 1, n), levels - 1) \o SubSeq(c, n + 1, 2 * n))
RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
Levels(n) == Log2(n) - 2
MaxAbs(s) == LET RECURSIVE G(_, _)
                 G(k, m) == IF k > Len(s) THEN m ELSE G(k + 1, Max2(m, Abs(s[k]))) IN G(1, 0)
\* rounding: one per tap and level, amplified on the way down, and the error of the taps themselves
Slack(levels, m) == 4 + 3 * Pow2(levels) + m \div 300
Close(a, b, t) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= t
\* coefficients of lev bits of a maximum of wav / 128, as values scaled by s
RoundDiv(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((b \div 2 - a) \div b)
Scaled(x, wav, lev, s) ==
  LET d == 128 * Pow2(lev) IN
  TLCEval([k \in 1..Len(x) |-> LET q == Abs(x[k]) * wav
                               v == (q \div d) * s + RoundDiv((q % d) * s, d) IN IF x[k] < 0 THEN -v ELSE v])
\* samples of a block, scaled by s
\* (a block that codes no bits is silent, a scale of one or more has steps of an eighth)
Samples(x, wav, lev, s) ==
  IF Empty(x, lev) THEN [k \in 1..Len(x) |-> 0]
  ELSE Rebuild(Scaled(x, IF wav < 128 THEN wav ELSE wav - (wav % 16), lev, s), Levels(Len(x)))
\* ticks to samples of a band that holds fs samples each second
At(pos, fs, ts) == (pos * fs) \div ts
\* the signal: blocks <<position, samples>> placed one after the other, the later one wins
RECURSIVE Place(_, _, _)
Place(bl, k, sig) ==
  IF k > Len(bl) THEN sig
  ELSE LET p == bl[k][1]
           x == bl[k][2]
           n == Max2(Len(sig), p + Len(x)) IN
       Place(bl, k + 1, TLCEval([i \in 1..n |-> IF i > p /\ i <= p + Len(x) THEN x[i - p] ELSE IF i <= Len(sig) THEN sig[i] ELSE 0]))
Signal(bl, n) == Place(bl, 1, [i \in 1..Len(bl) * n |-> 0])
=============================================================================
