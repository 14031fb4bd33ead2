------------------------------- MODULE IvsMC -------------------------------
(* A player of IVS timelines: it walks along the timeline and, where a       *)
(* repeat event ends, goes back to its beginning as long as plays are left.  *)
(* Checks the closed form of Ivs!Plays against it for every way of nesting   *)
(* up to MaxR repeat events on a timeline of MaxT ms, each of which emits a  *)
(* timeline for replay.                                                      *)
EXTENDS Ivs, Json
CONSTANTS MaxT, MaxR, MaxN
VARIABLES R, x, clock, left, out, on
vars == <<R, x, clock, left, out, on>>
Laminar(S) == \A i, j \in 1..Len(S) : i = j \/ S[i].t + S[i].d <= S[j].t \/ S[j].t + S[j].d <= S[i].t
                 \/ (S[i].t <= S[j].t /\ S[j].t + S[j].d <= S[i].t + S[i].d) \/ (S[j].t <= S[i].t /\ S[i].t + S[i].d <= S[j].t + S[j].d)
Init == R = <<>> /\ x = 0 /\ clock = 0 /\ left = <<>> /\ out = [t \in 0..MaxT |-> <<>>] /\ on = FALSE
Add == /\ ~on /\ Len(R) < MaxR
       /\ \E t \in 0..(MaxT - 1), d \in 1..MaxT, n \in 0..MaxN :
            /\ t + d <= MaxT
            /\ R' = Append(R, [t |-> t, d |-> d, n |-> n])
            /\ Laminar(R') /\ \A i \in 1..Len(R) : R[i].t # t \/ R[i].d # d
       /\ UNCHANGED <<x, clock, left, out, on>>
Start == /\ ~on /\ on' = TRUE /\ left' = [i \in 1..Len(R) |-> R[i].n] /\ UNCHANGED <<R, x, clock, out>>
\* at the end of a repeat event (innermost first) with plays left: back, and what it encloses starts anew
Ends == {i \in 1..Len(R) : R[i].t + R[i].d = x /\ left[i] > 0}
Inner(S) == CHOOSE i \in S : \A j \in S : i = j \/ Encloses(R, j, i)
Back == /\ on /\ Ends # {}
        /\ LET i == Inner(Ends) IN
             /\ x' = R[i].t
             /\ left' = [j \in 1..Len(R) |-> IF j = i THEN left[i] - 1 ELSE IF Encloses(R, i, j) THEN R[j].n ELSE left[j]]
        /\ UNCHANGED <<R, clock, out, on>>
Step == /\ on /\ Ends = {} /\ x <= MaxT
        /\ out' = [out EXCEPT ![x] = Append(@, clock)]
        /\ x' = x + 1 /\ clock' = clock + 1
        /\ UNCHANGED <<R, left, on>>
        /\ (IF x = MaxT THEN PrintT("TR" \o ToJson([r |-> R])) ELSE TRUE)
Next == Add \/ Start \/ Back \/ Step
Spec == Init /\ [][Next]_vars
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})
ClosedForm == x <= MaxT \/ \A t \in 0..MaxT : SameBag(out[t], Plays(R, t))
=============================================================================
