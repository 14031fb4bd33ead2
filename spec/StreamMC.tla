------------------------------ MODULE StreamMC ------------------------------
(* Sender, lossy channel, receiver.  The sender is the abstract stream of an *)
(* experience; the channel delivers, loses or repeats units; the receiver    *)
(* may join late.  TLC explores every schedule within the bounds, checks the *)
(* guarantees of the design, and emits the schedules for replay into the     *)
(* real sender and receiver.                                                 *)
EXTENDS Stream, Json, IOUtils
P == JsonDeserialize(IOEnv.PARAMS)
Str == [k \in 1..Len(P.exps) |-> Stream(P.exps[k].x, P.exps[k].D)]
Bts == [k \in 1..Len(P.exps) |-> BandTable(Prune(P.exps[k].x))]
VARIABLES e, i, rx, hist, lost, reps
vars == <<e, i, rx, hist, lost, reps>>
\* what one fragment of a packet of unit u becomes at receiver time t: <<band, effect, keyframe, absolute time>>
Fixed(r) == r.sp \/ r.b.type = Wavelet
Decoded(k, u, p, t) ==
  LET r == Bts[k][p.band] IN
  UNION {LET f == p.fr[m]
             x == r.fx[f.i] IN
         {[b |-> p.band, i |-> f.i, j |-> j, au |-> p.au,
           t |-> (IF j = 0 THEN x.pos ELSE KfTime(x, j)) - (IF r.sp THEN 0 ELSE u.t) + t] : j \in IF f.to = 0 THEN {0} ELSE f.from..f.to}
         : m \in 1..Len(p.fr)}
True(k, g) == LET x == Bts[k][g.b].fx[g.i] IN IF g.j = 0 THEN x.pos ELSE KfTime(x, g.j)
RECURSIVE RecvPackets(_, _, _, _)
RecvPackets(k, u, ps, s) ==
  IF ps = <<>> THEN s
  ELSE LET p == Head(ps) IN
       IF s.wait /\ p.au = 1 THEN RecvPackets(k, u, Tail(ps), s)
       ELSE IF ~s.knows THEN [s EXCEPT !.wait = FALSE, !.refused = TRUE]
       ELSE RecvPackets(k, u, Tail(ps), [s EXCEPT !.wait = FALSE, !.got = Append(@, [w |-> s.wait, sync |-> s.sync, g |-> Decoded(k, u, p, s.time)])])
Recv(k, u, s0) ==
  LET s == [s0 EXCEPT !.wait = @ /\ u.sync # 0, !.refused = FALSE] IN
  IF u.type = InitUnit THEN [s EXCEPT !.knows = TRUE, !.time = u.t, !.sync = TRUE]
  ELSE LET r == RecvPackets(k, u, u.ps, s) IN IF r.refused THEN r ELSE [r EXCEPT !.time = @ + u.dur]
Init == /\ e \in 1..Len(P.exps) /\ i = 1 /\ hist = <<>> /\ lost = 0 /\ reps = 0
        /\ \E w \in BOOLEAN : rx = [time |-> 0, wait |-> w, knows |-> FALSE, sync |-> FALSE, refused |-> FALSE, got |-> <<>>]
Us == Str[e]
More == i <= Len(Us)
Deliver == More /\ rx' = Recv(e, Us[i], rx) /\ hist' = Append(hist, i) /\ i' = i + 1 /\ UNCHANGED <<e, lost, reps>>
Lose == More /\ lost < P.maxLost /\ lost' = lost + 1 /\ i' = i + 1
        /\ rx' = [rx EXCEPT !.sync = FALSE] /\ UNCHANGED <<e, hist, reps>>
Repeat == i > 1 /\ Us[i - 1].type = InitUnit /\ reps < P.maxReps /\ reps' = reps + 1
          /\ rx' = Recv(e, Us[i - 1], rx) /\ hist' = Append(hist, i - 1) /\ UNCHANGED <<e, i, lost>>
Next == Deliver \/ Lose \/ Repeat
Spec == Init /\ [][Next]_vars

Got == {<<n, g>> \in UNION {{<<n, g>> : g \in rx.got[n].g} : n \in 1..Len(rx.got)} : TRUE}
\* a receiver that has an initialization and lost nothing since has the sender's clock and decodes true times
Clock == rx.sync => rx.time = (IF i > Len(Us) THEN Us[Len(Us)].t + Us[Len(Us)].dur ELSE Us[i].t)
TrueTimes == \A ng \in Got : rx.got[ng[1]].sync => (Bts[e][ng[2].b].b.type = Wavelet \/ ng[2].t = True(e, ng[2]))
\* nothing that depends on an earlier unit is decoded while waiting
NoBlindDecoding == \A n \in 1..Len(rx.got) : rx.got[n].w => \A g \in rx.got[n].g : g.au = 0
\* nothing is decoded twice, whatever is repeated
Once == \A a, b \in Got : (a[2].b = b[2].b /\ a[2].i = b[2].i /\ a[2].j = b[2].j) => a = b
\* who receives everything decodes everything
All(k) == UNION {{<<n, x, j>> : j \in IF Bts[k][n].fx[x].type = Basis /\ Bts[k][n].b.type # Wavelet THEN 1..Len(Bts[k][n].fx[x].kfs) ELSE {0}}
                 : <<n, x>> \in UNION {{<<m, y>> : y \in 1..Len(Bts[k][m].fx)} : m \in 1..Len(Bts[k])}}
Complete == (~More /\ lost = 0) => {<<ng[2].b, ng[2].i, ng[2].j>> : ng \in Got} = All(e)
\* the units tile the time line
Tiling == \A k \in 1..Len(Us) - 1 : Us[k + 1].t = Us[k].t + Us[k].dur
Emit == (~More /\ hist # <<>>) => PrintT("SCH" \o ToJson([e |-> e, hist |-> hist]))
=============================================================================
