--------------------------------- MODULE Pcm ---------------------------------
(* Importing a recording: s is the sequence of its samples (16 bit). *)
EXTENDS Hap
\* the points of a curve: the first and last sample and those at which the direction changes, <<index, sample>>
Turn(s, i) == /\ ((s[i] >= s[i - 1] /\ s[i] >= s[i + 1]) \/ (s[i] <= s[i - 1] /\ s[i] <= s[i + 1]))
              /\ ~(s[i] = s[i - 1] /\ s[i] = s[i + 1])
Extrema(s) ==
  LET n == Len(s)
      RECURSIVE G(_, _)
      G(i, acc) == IF i > n THEN acc
                   ELSE G(i + 1, IF i = 1 \/ i = n \/ Turn(s, i) THEN Append(acc, <<i - 1, s[i]>>) ELSE acc) IN G(1, <<>>)
\* rounded to ticks (halves upwards)
Tick(i, rate, ts) == (2 * i * ts + rate) \div (2 * rate)
\* of points in one tick the last one stays
Points(s, rate, ts) ==
  LET x == Extrema(s)
      n == Len(x)
      t(i) == Tick(x[i][1], rate, ts) IN
  LET RECURSIVE G(_, _)
      G(i, acc) == IF i > n THEN acc ELSE G(i + 1, IF i < n /\ t(i) = t(i + 1) THEN acc ELSE Append(acc, <<t(i), x[i][2]>>)) IN G(1, <<>>)
CurveOf(mod) == CASE mod \in {9, 11} -> 2 [] mod \in {6, 10} -> 1 [] OTHER -> 0
Amp(v) == (v * 10000) \div 32768
\* which bands a channel gets
Curved(e) == e.v = 1 /\ (e.cf > 0 \/ e.w = 0)
Bands(e) == (IF Curved(e) THEN <<Curve>> ELSE <<>>) \o (IF e.w = 1 THEN <<Wavelet>> ELSE <<>>)
Blocks(e) == (Len(e.data[1]) + e.bl - 1) \div e.bl
Usable(e) == e.path = "file" /\ e.chans <= Len(e.data)
Levels(bl) == CASE bl = 4 -> 0 [] bl = 8 -> 1 [] bl = 16 -> 2 [] bl = 32 -> 3 [] bl = 64 -> 4 [] bl = 128 -> 5 [] bl = 256 -> 6 [] OTHER -> 8
\* nothing of the recording is left out: a wavelet band of what the curve does not say, with all the bits
Whole(e) == e.w = 1 /\ (e.v = 1 \/ e.cf = 0) /\ e.bu >= 15 * (Levels(e.bl) + 1)
\* only what is above the cutoff, with all the bits
High(e) == e.w = 1 /\ e.v = 0 /\ e.cf > 0 /\ e.bu >= 15 * (Levels(e.bl) + 1)
\* what the quantisation may lose: a coefficient between 127 / 128 and 1 is cut off (see DESIGN), and what is left of a
\* curve that overshoots is larger than the recording
Loss(e) == IF e.cf > 0 /\ e.v = 1 THEN 160 ELSE 100
=============================================================================
