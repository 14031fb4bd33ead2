-------------------------------- MODULE Ivs --------------------------------
(* Import of IVS timelines.  Times are milliseconds.  A timeline launches    *)
(* basis effects; a repeat event [t, d, n] plays what is launched in         *)
(* [t, t+d) n more times before going on.  Repeat events are disjoint or     *)
(* nested.                                                                   *)
EXTENDS Hap
In(r, x) == r.t <= x /\ x < r.t + r.d
\* r encloses q (events that begin together: the longer one is outside; equal ones: in file order)
Encloses(R, i, j) == /\ i # j /\ In(R[i], R[j].t)
                     /\ (R[i].t < R[j].t \/ R[i].d > R[j].d \/ (R[i].d = R[j].d /\ i < j))
Children(R, i) == {j \in 1..Len(R) : Encloses(R, i, j) /\ ~\E k \in 1..Len(R) : Encloses(R, i, k) /\ Encloses(R, k, j)}
SumSet(S, F(_)) == LET RECURSIVE G(_) G(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN F(x) + G(X \ {x}) IN G(S)
\* the length of one pass through a repeat event, and what all passes add to the timeline
Extra(R, i) == LET RECURSIVE L(_) 
                   L(k) == R[k].d + SumSet(Children(R, k), LAMBDA j : (R[j].n + 1) * L(j) - R[j].d) IN (R[i].n + 1) * L(i) - R[i].d
Pass(R, i) == (Extra(R, i) + R[i].d) \div (R[i].n + 1)
\* the times at which what is launched at x is played
Plays(R, x) ==
  LET around == {i \in 1..Len(R) : In(R[i], x)}
      before == {i \in 1..Len(R) : R[i].t + R[i].d <= x /\ \A k \in 1..Len(R) : Encloses(R, k, i) => k \in around}
      start == x + SumSet(before, LAMBDA i : Extra(R, i))
      RECURSIVE G(_)
      G(S) == IF S = {} THEN <<start>>
              ELSE LET i == CHOOSE k \in S : TRUE
                       g == G(S \ {i}) IN
                   [m \in 1..(Len(g) * (R[i].n + 1)) |-> g[((m - 1) % Len(g)) + 1] + ((m - 1) \div Len(g)) * Pass(R, i)]
  IN G(around)
\* --- one effect: the keyframes [p, a] (ms, scaled) of basis effect b launched by l
Amp(level) == level        \* a level of 10000 is full amplitude
AddAt(k, p, a) ==
  IF \E i \in 1..Len(k) : k[i].p >= p
  THEN LET i == CHOOSE j \in 1..Len(k) : k[j].p >= p /\ \A m \in 1..(j - 1) : k[m].p < p IN
       IF k[i].p = p THEN [k EXCEPT ![i].a = a] ELSE SubSeq(k, 1, i - 1) \o <<[p |-> p, a |-> a, f |-> <<>>]>> \o SubSeq(k, i, Len(k))
  ELSE Append(k, [p |-> p, a |-> a, f |-> <<>>])
\* a sudden change at p: a second keyframe there
JumpAt(k, p, a) ==
  IF \E i \in 1..Len(k) : k[i].p = p
  THEN LET i == CHOOSE j \in 1..Len(k) : k[j].p = p /\ \A m \in 1..(j - 1) : k[m].p < p IN
       SubSeq(k, 1, i) \o <<[p |-> p, a |-> a, f |-> <<>>]>> \o SubSeq(k, i + 1, Len(k))
  ELSE AddAt(k, p, a)
Lin(x0, a0, x1, a1, x) == a0 + ((a1 - a0) * (x - x0)) \div (x1 - x0)
Keyframes(b, l) ==
  LET d == IF Has(l.duration) THEN l.duration[1] ELSE b.duration[1]
      a == IF Has(l.magnitude) THEN l.magnitude[1] ELSE b.magnitude[1]
      f == IF b.type = "magsweep" THEN 0 ELSE IF Has(l.period) THEN l.period[1] ELSE b.period[1]
      k0 == <<[p |-> 0, a |-> a, f |-> <<f>>], [p |-> d, a |-> a, f |-> <<f>>]>>
      at == OptOr(b.attack, 0)
      al == OptOr(b.alevel, 0)
      k1 == IF ~Has(b.attack) THEN k0
            ELSE IF at >= d THEN AddAt(AddAt(k0, 0, al), d, Lin(0, al, at, a, d))
            ELSE AddAt(AddAt(k0, 0, al), at, a)
      ft == d - OptOr(b.fade, 0)
      fl == OptOr(b.flevel, 0) IN
  IF OptOr(b.fade, 0) = 0 \/ (Has(b.attack) /\ at >= d) THEN k1
  ELSE AddAt(IF ft < at THEN JumpAt(k1, at, Lin(ft, a, d, fl, at)) ELSE IF ft > at THEN AddAt(k1, ft, a) ELSE k1, d, fl)
Wave(b) == IF b.type = "magsweep" THEN 0
           ELSE CASE b.waveform = "sine" -> 0 [] b.waveform = "square" -> 1 [] b.waveform = "triangle" -> 2
                  [] b.waveform = "sawtooth-up" -> 3 [] b.waveform = "sawtooth-down" -> 4
Find(bs, name) == IF \E i \in 1..Len(bs) : bs[i].name = name
                  THEN CHOOSE i \in 1..Len(bs) : bs[i].name = name /\ \A j \in 1..(i - 1) : bs[j].name # name ELSE 0
Plays2(bs, l) == LET i == Find(bs, l.effect) IN IF i = 0 THEN FALSE ELSE bs[i].type \in {"periodic", "magsweep"}
\* a time of x ms in ticks
Tick(t, x, ts) == t = (x \div 1000) * ts + (((x % 1000) * ts) \div 1000)
=============================================================================
