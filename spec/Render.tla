------------------------------- MODULE Render -------------------------------
(* What an experience feels like: the value of bands and channels at points in time.  Times are ticks, values
   and amplitudes are scaled by SC, angles are counted in cycles scaled by CY. *)
EXTENDS Hap
CY == 100000
\* quarter wave of the sine at 0..64 sixty-fourths of a quarter, scaled by SC
QUARTER == <<
  0, 245, 491, 736, 980, 1224, 1467, 1710, 1951, 2191, 2430, 2667, 2903, 3137, 3369, 3599, 3827, 4052, 4276,
  4496, 4714, 4929, 5141, 5350, 5556, 5758, 5957, 6152, 6344, 6532, 6716, 6895, 7071, 7242, 7410, 7572, 7730,
  7883, 8032, 8176, 8315, 8449, 8577, 8701, 8819, 8932, 9040, 9142, 9239, 9330, 9415, 9495, 9569, 9638, 9700,
  9757, 9808, 9853, 9892, 9925, 9952, 9973, 9988, 9997, 10000>>
\* x cycles (scaled by CY): sine, square, triangle, rising and falling sawtooth
Sine(x) == LET q == x \div 25000
               r == IF q % 2 = 0 THEN x % 25000 ELSE 25000 - (x % 25000)
               i == (r * 64) \div 25000
               f == (r * 64) % 25000
               v == IF i >= 64 THEN QUARTER[65] ELSE QUARTER[i + 1] + ((QUARTER[i + 2] - QUARTER[i + 1]) * f + 12500) \div 25000 IN
           IF q >= 2 THEN -v ELSE v
Wave(base, x) ==
  CASE base = 0 -> Sine(x)
    [] base = 1 -> IF 2 * x < CY THEN SC ELSE -SC
    [] base = 2 -> LET v == IF 4 * x <= CY THEN 4 * x ELSE IF 4 * x <= 3 * CY THEN 2 * CY - 4 * x ELSE 4 * x - 4 * CY IN (v * SC) \div CY
    [] base = 3 -> (2 * SC * (IF 2 * x < CY THEN x ELSE x - CY)) \div CY
    [] base = 4 -> (2 * SC * (IF 2 * x < CY THEN -x ELSE CY - x)) \div CY
\* a * b modulo m, without leaving 32 bits (a, b >= 0, 2m within 31 bits)
RECURSIVE MulMod(_, _, _)
MulMod(a, b, m) == IF b = 0 THEN 0
                   ELSE LET h == (2 * MulMod(a, b \div 2, m)) % m IN IF b % 2 = 0 THEN h ELSE (h + (a % m)) % m
\* the fraction n / m (0 <= n < m) in units of 1 / CY
RECURSIVE Digits(_, _, _, _)
Digits(n, m, k, acc) == IF k = 0 THEN acc ELSE Digits((10 * n) % m, m, k - 1, 10 * acc + (10 * n) \div m)
Frac(n, m) == Digits(n % m, m, 5, 0)
\* the cycles of a constant frequency f over d ticks, of one that goes from f to g in t ticks after d of them
Cycles(f, d, ts) == Frac(MulMod(f, d, ts), ts)
Chirp(f, g, t, d, ts) ==
  LET m == 2 * t * ts
      q == MulMod(MulMod(d, d, m), Abs(g - f), m) IN
  (Cycles(f, d, ts) + (IF g >= f THEN Frac(q, m) ELSE CY - Frac(q, m))) % CY
\* ---- vectorial effects.  kf is the sequence of keyframes with positions
With(kf, F(_)) == SelectSeq(kf, LAMBDA k : F(k) # <<>>)
At(k) == IF k.p = <<>> THEN 0 ELSE k.p[1]      \* a keyframe without position lies at the start of its effect
First(kf, rel) == LET s == {i \in 1..Len(kf) : At(kf[i]) >= rel} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
Interp(a, b, t, d) == (a * (t - d) + b * d) \div t
Amplitude(kf, rel) ==
  LET k == With(kf, LAMBDA x : x.a)
      n == First(k, rel) IN
  IF k = <<>> THEN SC
  ELSE IF n = 0 THEN k[Len(k)].a[1]
  ELSE IF n = 1 THEN k[1].a[1]
  ELSE Interp(k[n - 1].a[1], k[n].a[1], At(k[n]) - At(k[n - 1]), rel - At(k[n - 1]))
RECURSIVE Turned(_, _, _)
\* cycles from the start of the effect to its i-th frequency
Turned(k, i, ts) == IF i = 1 THEN Cycles(k[1].f[1], At(k[1]), ts)
                    ELSE (Turned(k, i - 1, ts) + Frac(MulMod(k[i - 1].f[1] + k[i].f[1], At(k[i]) - At(k[i - 1]), 2 * ts), 2 * ts)) % CY
Angle(kf, rel, ts) ==
  LET k == With(kf, LAMBDA x : x.f)
      n == First(k, rel)
      l == Len(k) IN
  IF n = 0 THEN Turned(k, l, ts) + Cycles(k[l].f[1], rel - At(k[l]), ts)
  ELSE IF n = 1 THEN Cycles(k[1].f[1], rel, ts)
  ELSE Turned(k, n - 1, ts) + Chirp(k[n - 1].f[1], k[n].f[1], At(k[n]) - At(k[n - 1]), rel - At(k[n - 1]), ts)
Phase(e) == (OptOr(e.phase, 0) * 31831) \div 20000      \* radians scaled by SC to cycles scaled by CY
Silent(kf) == With(kf, LAMBDA x : x.f) = <<>>
\* the values next to a jump of the wave are as good
Vector(e, rel, ts) ==
  LET base == OptOr(e.base, 0)
      x == IF Silent(e.kfs) THEN 0 ELSE (Angle(e.kfs, rel, ts) + Phase(e)) % CY
      a == Amplitude(e.kfs, rel) IN
  {(a * Wave(base, y)) \div SC : y \in IF Silent(e.kfs) THEN {0} ELSE {x, (x + 20) % CY, (x + CY - 20) % CY}}
\* ---- curves and transients
Cubic(f, g, u) == f + ((g - f) * ((((u * u) \div SC) * (3 * SC - 2 * u)) \div SC)) \div SC
Curved(e, rel, curve) ==
  LET k == With(e.kfs, LAMBDA x : x.a)
      s == {i \in 1..Len(k) : At(k[i]) > rel} IN
  IF s = {} THEN 0
  ELSE LET n == CHOOSE i \in s : \A j \in s : i <= j IN
       IF n = 1 THEN k[1].a[1]
       ELSE LET t == At(k[n]) - At(k[n - 1])
                d == rel - At(k[n - 1]) IN
            IF curve = 2 THEN Interp(k[n - 1].a[1], k[n].a[1], t, d) ELSE Cubic(k[n - 1].a[1], k[n].a[1], (d * SC) \div t)
\* a transient lasts 22 milliseconds, two periods of a sine
Pulse(k, rel, ts) == LET d == rel - At(k) IN
  IF d < 0 \/ 1000 * d > 22 * ts \/ k.a = <<>> THEN 0 ELSE (k.a[1] * Sine(Frac(MulMod(2000, d, 22 * ts), 22 * ts))) \div SC
Pulses(e, rel, ts) == Sum(e.kfs, LAMBDA k : Pulse(k, rel, ts))
\* ---- sampled curves: points <<sample, amplitude>> counted from the first keyframe
Points(e, fs, ts) == LET k == With(e.kfs, LAMBDA x : x.a)
                         s(i) == (At(k[i]) * fs) \div ts IN [i \in 1..Len(k) |-> <<s(i) - s(1), k[i].a[1]>>]
Start(e, fs, ts) == LET k == With(e.kfs, LAMBDA x : x.a) IN (At(k[1]) * fs) \div ts
Back(p) == p[Len(p)][1]
\* piecewise values at sample j; at points in the same place any of them is right
Piece(p, j, F(_, _, _, _)) ==
  LET n == CHOOSE i \in 2..Len(p) : p[i][1] >= j /\ \A m \in 2..(i - 1) : p[m][1] < j
      here == {p[i][2] : i \in {i \in 1..Len(p) : p[i][1] = j}} IN
  IF here # {} THEN here ELSE {F(p[n - 1][2], p[n][2], p[n][1] - p[n - 1][1], j - p[n - 1][1])}
Smooth(a, b, t, d) == Cubic(a, b, (d * SC) \div t)
\* Akima's curve: the slope at a point leans to the side where the slopes change least
Distinct(p) == LET s == {i \in 1..Len(p) : i = Len(p) \/ p[i + 1][1] # p[i][1]} IN SelectSeq([i \in 1..Len(p) |-> IF i \in s THEN p[i] ELSE <<-1, 0>>], LAMBDA x : x[1] >= 0)
SL == 100
\* a * w / SC for 0 <= w <= SC
Part(a, w) == (a \div SC) * w + ((a % SC) * w) \div SC
Slopes(p) ==
  LET n == Len(p)
      m == [i \in 1..(n - 1) |-> ((p[i + 1][2] - p[i][2]) * SL) \div (p[i + 1][1] - p[i][1])] IN
  <<3 * m[1] - 2 * m[2], 2 * m[1] - m[2]>> \o m \o <<2 * m[n - 1] - m[n - 2], 3 * m[n - 1] - 2 * m[n - 2]>>
Lean(s, i) ==
  LET f1 == Abs(s[i + 3] - s[i + 2])
      f2 == Abs(s[i + 1] - s[i])
      k == Max2(1, (f1 + f2) \div 100000) IN
  IF f1 + f2 = 0 THEN s[i + 1] ELSE s[i + 1] + Part(s[i + 2] - s[i + 1], ((f2 \div k) * SC) \div Max2(f2 \div k, (f1 + f2) \div k))
Akima(p, j) ==
  LET n == CHOOSE i \in 1..(Len(p) - 1) : p[i][1] <= j /\ j <= p[i + 1][1] /\ \A m \in 1..(i - 1) : p[m + 1][1] < j
      s == Slopes(p)
      t == p[n + 1][1] - p[n][1]
      u == ((j - p[n][1]) * SC) \div t
      \* as a curve of Bezier: control points a third along the slopes
      q0 == p[n][2]
      q1 == p[n][2] + (Lean(s, n) * t) \div (3 * SL)
      q2 == p[n + 1][2] - (Lean(s, n + 1) * t) \div (3 * SL)
      q3 == p[n + 1][2]
      h(x, y) == x + Part(y - x, u)
      a == h(q0, q1)
      b == h(q1, q2)
      c == h(q2, q3) IN
  h(h(a, b), h(b, c))
\* curves of Bezier through every second point, the points between them pull
Pull(a, b, c, u, m) == LET h(x, y) == x + ((y - x) * u) \div m IN h(h(a, b), h(b, c))
\* smallest u in lo..hi with F(u) >= x, for F that grows
Solve(F(_), x, lo, hi) ==
  LET RECURSIVE G(_, _)
      G(a, b) == IF a = b THEN a ELSE LET m == (a + b) \div 2 IN IF F(m) >= x THEN G(a, m) ELSE G(m + 1, b) IN G(lo, hi)
BM == 4096
Bezier(p, j) ==
  LET i == 2 * ((CHOOSE i \in 1..(Len(p) \div 2) : j <= p[2 * i + 1][1] /\ \A m \in 1..(i - 1) : p[2 * m + 1][1] < j)) - 1
      x(w) == 2 * w * (BM - w) * (p[i + 1][1] - p[i][1]) + w * w * (p[i + 2][1] - p[i][1])
      u == Solve(x, (j - p[i][1]) * BM * BM, 0, BM)
      v(k) == Pull(p[i][2], p[i + 1][2], p[i + 2][2], Clamp(k, 0, BM), BM) IN
  {v(u - 1), v(u)} \cup (LET here == {k \in 1..Len(p) : p[k][1] = j} IN IF Cardinality(here) > 1 THEN {p[k][2] : k \in here} ELSE {})
\* B-splines: the curve of Bezier through the middles, followed in steps of a tenth of a sample on average
Bspline(p, j) ==
  LET U == 10 * Back(p)
      c == Len(p) - 2                      \* pieces
      Seg(q) == LET g == (q * c) \div U IN IF g >= c THEN c - 1 ELSE g
      Ctl(g, k) == LET d(i) == 2 * p[i][k]
                       mid(i) == p[i][k] + p[i + 1][k] IN
                   <<IF g = 0 THEN d(1) ELSE mid(g + 1), d(g + 2), IF g = c - 1 THEN d(Len(p)) ELSE mid(g + 2)>>
      u(q) == q * c - Seg(q) * U
      x(q) == LET k == Ctl(Seg(q), 1)
                  t == u(q) IN (U - t) * (U - t) * k[1] + 2 * t * (U - t) * k[2] + t * t * k[3]
      y(q) == LET k == Ctl(Seg(q), 2) IN Pull(k[1], k[2], k[3], u(q), U) \div 2
      q == Solve(x, 2 * j * U * U, 1, U) IN
  IF j = 0 THEN {p[1][2]} ELSE IF j = Back(p) THEN {p[Len(p)][2]}
  ELSE {y(q)} \cup (IF x(q) = 2 * j * U * U THEN {y(q + 1)} ELSE {})
CurveAt(p, curve, j) ==
  IF j < 0 \/ j > Back(p) THEN {0}
  ELSE IF Back(p) = 0 THEN {p[i][2] : i \in 1..Len(p)}
  ELSE IF Len(p) <= 2 \/ curve = 2 THEN Piece(p, j, Interp)
  ELSE CASE curve = 3 -> LET d == Distinct(p) IN IF Len(d) < 3 THEN Piece(d, j, Interp) ELSE {Akima(d, j)}
         [] curve = 4 -> LET d == IF Len(p) % 2 = 0 THEN SubSeq(p, 1, Len(p) - 1) ELSE p IN IF j > Back(d) THEN {0} ELSE Bezier(d, j)
         [] curve = 5 -> Bspline(p, j)
         [] OTHER -> Piece(p, j, Smooth)
\* ---- bands: the last effect that has begun plays
Last(b, at) == LET s == {i \in 1..Len(b.fx) : b.fx[i].pos <= at} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i >= j
End(e) == IF e.kfs = <<>> THEN 0 ELSE At(e.kfs[Len(e.kfs)])
\* the values that are right for an effect at rel ticks from its start
Effect(b, e, rel, ts) ==
  CASE b.type = Transient -> {Pulses(e, rel, ts)}
    [] b.type = Curve -> {Curved(e, rel, OptOr(b.curve, 0))}
    [] b.type = Vectorial -> IF rel > End(e) \/ e.kfs = <<>> THEN {0} ELSE Vector(e, rel, ts)
    [] b.type = Wavelet -> LET i == (rel * b.up) \div ts IN {IF i >= Len(e.ws) THEN 0 ELSE e.ws[i + 1]}
Value(b, at, ts) == LET i == Last(b, at) IN IF at < 0 \/ i = 0 THEN {0} ELSE Effect(b, b.fx[i], at - b.fx[i].pos, ts)
\* the sample an effect begins at, the nearest one (ts a multiple of fs, pad in milliseconds a multiple of a sample)
Begin(e, fs, pad, ts) == LET step == ts \div fs
                             n == 2 * e.pos + 2 * step * ((pad * fs) \div 1000) IN
                         IF n >= 0 THEN (n + step) \div (2 * step) ELSE -((step - n) \div (2 * step))
\* the values that are right for sample i: effects that have begun add up
Sample(b, i, fs, pad, ts) ==
  LET RECURSIVE G(_, _)
      G(k, acc) ==
        IF k > Len(b.fx) THEN acc
        ELSE LET e == b.fx[k]
                 at == i * (ts \div fs) - (pad * ts) \div 1000
                 vs == IF b.type = Curve
                       THEN IF With(e.kfs, LAMBDA x : x.a) = <<>> THEN {0}
                            ELSE CurveAt(Points(e, fs, ts), OptOr(b.curve, 0),
                                         i - Start(e, fs, ts) - Begin(e, fs, pad, ts))
                       ELSE IF e.pos > at THEN {0} ELSE Effect(b, e, at - e.pos, ts) IN
             G(k + 1, {x + y : x \in acc, y \in vs}) IN
  G(1, {0})
Length(b, ts) == IF b.fx = <<>> THEN 0
                 ELSE LET e == b.fx[Len(b.fx)] IN
                      (e.pos + (IF b.type = Wavelet THEN OptOr(b.blk, 0) ELSE End(e))) * SC + (IF b.type = Transient /\ e.kfs # <<>> THEN 220 * ts ELSE 0)
=============================================================================
