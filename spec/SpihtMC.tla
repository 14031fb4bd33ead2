------------------------------ MODULE SpihtMC ------------------------------
(* The coder and the block code are lossless: TLC feeds every short symbol   *)
(* sequence, over models that include the extremes, to the encoder; at every *)
(* point the bits sent, if the stream ended here, decode to the symbols.     *)
EXTENDS Spiht, TLC, Json, IOUtils
P == JsonDeserialize(IOEnv.PARAMS)
VARIABLES m0, s, hist, blk
vars == <<m0, s, hist, blk>>
Models == {[c \in 1..Contexts |-> IF c = 1 THEN <<P.models[i][1], P.models[i][2]>> ELSE <<P.models[j][1], P.models[j][2]>>]
           : i \in 1..Len(P.models), j \in 1..Len(P.models)}
None == <<>>
Values == P.values
Init == \/ /\ m0 \in Models /\ s = EncInit(m0) /\ hist = <<>> /\ blk = None
        \/ /\ m0 = None /\ s = None /\ hist = <<>> /\ blk = [x |-> [k \in 1..P.n |-> 0], lev |-> P.lev, left |-> P.nonzero]
Feed == /\ m0 # None /\ Len(hist) < P.len
        /\ \E b \in {0, 1}, c \in 1..2 : s' = EncStep(s, b, c) /\ hist' = Append(hist, <<b, c>>)
        /\ UNCHANGED <<m0, blk>>
Put == /\ blk # None /\ blk.left > 0
       /\ \E k \in 1..P.n, v \in 1..Len(Values) :
            /\ \A j \in k..P.n : blk.x[j] = 0
            /\ blk' = [blk EXCEPT !.x[k] = Values[v], !.left = @ - 1]
       /\ UNCHANGED <<m0, s, hist>>
Next == Feed \/ Put
Spec == Init /\ [][Next]_vars
Interval == m0 # None => /\ 0 <= s.lo /\ s.lo < s.hi /\ s.hi <= RMax /\ s.hi - s.lo > Quarter
Lossless == m0 # None =>
  DecodeFrom(m0, Finish(s), [k \in 1..Len(hist) |-> hist[k][2]]).y = [k \in 1..Len(hist) |-> hist[k][1]]
BlockLossless == (blk # None /\ ~Empty(blk.x, blk.lev)) =>
  LET d == DecodeBlock(EncodeBlock(blk.x, blk.lev, WavBits(77)), P.n) IN d.x = blk.x /\ d.lev = blk.lev /\ d.wav = 77
Emit == (blk # None /\ (blk.left = 0 \/ P.all)) => PrintT("BLK" \o ToJson(blk.x))
=============================================================================
