----------------------------- MODULE TraceSpiht -----------------------------
EXTENDS Spiht, TraceKit
VARIABLES l, bad
\* bytes hold eight bits each, least significant first
Unpack(bytes) == [k \in 1..8 * Len(bytes) |-> (bytes[(k - 1) \div 8 + 1] \div Pow2((k - 1) % 8)) % 2]
Pairs(st) == [k \in 1..Len(st.sym) |-> <<st.sym[k], st.ctx[k] + 1>>]
\* coding streams one after the other without a reset
RECURSIVE Coder(_, _, _, _)
Coder(e, k, me, md) ==
  IF k > Len(e.streams) THEN {}
  ELSE LET st == e.streams[k]
           o == e.o[k]
           s == EncodeFrom(me, Pairs(st))
           bits == Finish(s)
           back == DecodeFrom(md, bits, [j \in 1..Len(st.ctx) |-> st.ctx[j] + 1]) IN
       Ck(o.bits = bits, "encoded bits") \cup Ck(o.sym = st.sym, "decoded symbols") \cup
       Ck(back.y = st.sym, "the specified decoder agrees") \cup Ck(Unpack(o.bytes) = bits \o [j \in 1..8 * Len(o.bytes) - Len(bits) |-> 0], "packed bytes") \cup
       Coder(e, k + 1, IF st.reset THEN Fresh ELSE Rescale(s.m), IF st.reset THEN Fresh ELSE Rescale(back.d.m))
Block(e) ==
  LET w == IF e.wav < 0 THEN <<>> ELSE WavBits(e.wav)
      bits == EncodeBlock(e.x, e.lev, w) IN
  Ck(Unpack(e.o.bytes) = bits \o [j \in 1..8 * Len(e.o.bytes) - Len(bits) |-> 0] /\ 8 * Len(e.o.bytes) - Len(bits) < 8, "encoded bytes") \cup
  Ck(e.o.x = (IF Empty(e.x, e.lev) THEN [k \in 1..Len(e.x) |-> 0] ELSE e.x), "decoded coefficients") \cup
  Ck(Empty(e.x, e.lev) \/ (e.o.lev = e.lev /\ e.o.wav = (IF e.wav < 128 THEN e.wav ELSE e.wav - (e.wav % 16))), "decoded scale")
\* blocks shorter than 16 coefficients or not a power of two long: the values stay within the bits
AnyBytes(e) ==
  IF e.n \notin {16, 32, 64, 128, 256, 512} THEN
    Ck(Len(e.o.x) = e.n /\ \A k \in 1..e.n : Abs(e.o.x[k]) < Pow2(Max2(e.o.lev, 0) + 1), "decoded coefficients are within the decoded bits")
  ELSE
  LET d == DecodeBlock(Unpack(e.bytes), e.n) IN
  Ck(e.o.x = d.x, "decoded coefficients") \cup Ck(e.o.lev = d.lev, "decoded bits") \cup Ck(e.o.wav = d.wav, "decoded scale")
Judge(e) ==
  IF e.end # "ok" THEN {"terminates normally (" \o e.end \o ")"}
  ELSE CASE e.k = "coder" -> Coder(e, 1, Fresh, Fresh) [] e.k = "block" -> Block(e) [] e.k = "any" -> AnyBytes(e)
Init == l = 1 /\ bad = 0
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l]) IN
             /\ IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", Trace[l].id, v>>)
             /\ bad' = bad + (IF v = {} THEN 0 ELSE 1)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
