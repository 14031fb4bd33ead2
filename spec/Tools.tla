-------------------------------- MODULE Tools --------------------------------
(* The programs: what the synthesizer plays of an experience and what the encoder does with its options. *)
EXTENDS Render
L == INSTANCE Edit
\* ---- the synthesizer.  Lengths are ticks scaled by SC
ChanLength(c, ts) == IF c.fs # <<>> /\ c.sc # <<>> THEN ((c.sc[1] * ts) \div c.fs[1]) * SC + ((((c.sc[1] * ts) % c.fs[1]) * SC) \div c.fs[1])
                     ELSE LET s == {Length(c.bands[i], ts) : i \in 1..Len(c.bands)} \cup {0} IN CHOOSE x \in s : \A y \in s : x >= y
Chans(h) == LET RECURSIVE G(_) G(i) == IF i = 0 THEN <<>> ELSE G(i - 1) \o [k \in 1..Len(h.percs[i].chans) |-> [c |-> h.percs[i].chans[k], x |-> OptOr(h.percs[i].pue, 0)]] IN G(Len(h.percs))
Total(cs, ts) == LET s == {ChanLength(cs[i].c, ts) : i \in 1..Len(cs)} \cup {0} IN CHOOSE x \in s : \A y \in s : x >= y
\* the numbers of samples that are right: all of the experience and the padding on both sides, to the nearest
Counts(len, ts, fs, pad) ==
  LET step == (ts \div fs) * SC                 \* ts a multiple of fs
      q == len \div step
      d == len % step
      near(x) == IF 2 * x < step - step \div 1000 THEN {0} ELSE IF 2 * x > step + step \div 1000 THEN {1} ELSE {0, 1} IN
  {q + n + (2 * pad * fs) \div 1000 : n \in near(d)}
\* sums of one choice of each set
RECURSIVE Sums(_, _)
Sums(s, acc) == IF s = <<>> THEN acc ELSE Sums(Tail(s), {Clamp(x + y, -SC, SC) : x \in acc, y \in Head(s)})
Scaled(v, gain, x) ==
  LET g == IF gain = SC THEN v ELSE (v * gain) \div SC IN
  Clamp(CASE x = 0 -> g [] x = 1 -> 10 * g [] x = -1 -> g \div 10 [] OTHER -> g \div 100, -2 * SC, 2 * SC)
Steep(gain, x) == LET g == (Abs(gain) + SC - 1) \div SC IN CASE x = 0 -> g [] x = 1 -> 10 * g [] OTHER -> 1
\* sample i of a channel, in units of 1 / 32768
RightSample(s, d, i, fs, pad, ts, tol) ==
  LET c == s.c
      t == tol * Steep(c.gain, s.x) + 1 IN
  \E v \in Sums([b \in 1..Len(c.bands) |-> Sample(c.bands[b], i, fs, pad, ts)], {0}) :
    LET q == Scaled(v, c.gain, s.x)
        lo == Clamp(q - t, -SC, SC)
        hi == Clamp(q + t, -SC, SC) IN
    /\ d >= (IF lo = SC THEN 32767 ELSE (lo * 32768) \div SC - 1)
    /\ d <= (IF hi = -SC THEN -32768 ELSE (hi * 32768) \div SC + 1)
\* ---- command lines: the value of an option is the word after its first occurrence
HasWord(args, o) == \E i \in 1..Len(args) : args[i] = o
After(args, o) == LET i == CHOOSE i \in 1..Len(args) : args[i] = o /\ \A j \in 1..(i - 1) : args[j] # o IN IF i < Len(args) THEN args[i + 1] ELSE ""
Opt(args, o) == IF HasWord(args, o) THEN After(args, o) ELSE ""
Option(args, short, long) == IF Opt(args, short) # "" THEN Opt(args, short) ELSE Opt(args, long)
Flag(args, short, long) == HasWord(args, short) \/ HasWord(args, long)
Given(args, o, d) == IF HasWord(args, o) THEN After(args, o) ELSE d
B(x) == IF x THEN 1 ELSE 0
\* what the command line of the encoder asks for
Asked(w) == [help |-> Flag(w, "-h", "--help"), in |-> Option(w, "-f", "--file"), out |-> Option(w, "-o", "--output"),
             b |-> B(Flag(w, "-b", "--binary")), r |-> B(Flag(w, "-r", "--refactor")), l |-> B(Flag(w, "-l", "--linearize")),
             dur |-> Given(w, "--packet_duration", "128"), ts |-> Given(w, "-ts", "1000"), kb |-> Given(w, "-kb", ""),
             bu |-> Given(w, "-bu", "16"), bl |-> Given(w, "-bl", "1024"), cf |-> Given(w, "-cf", "72.5"),
             w |-> B(~HasWord(w, "--disable-wavelet")), v |-> B(~HasWord(w, "--disable-vectorial"))]
\* a combination of settings of which the outcome is known serves for a command line
Serves(c, a, ext) ==
  /\ c.b = a.b /\ c.r = a.r /\ c.l = a.l
  /\ (a.b = 1 => c.sdur = a.dur) /\ c.sts = a.ts
  /\ ext = "wav" => /\ c.skb = a.kb /\ (a.kb = "" => c.sbu = a.bu) /\ c.sbl = a.bl /\ c.scf = a.cf /\ c.w = a.w /\ c.v = a.v
OutName(a) == IF a.out # "" THEN a.out ELSE IF a.b = 1 THEN "out.hmpg" ELSE "out.hjif"
=============================================================================
