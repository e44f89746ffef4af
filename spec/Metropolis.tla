---------------------------- MODULE Metropolis ------------------------------
(* C07: the sampler as a state machine: updates at chosen sites and levels,   *)
(* and replacement of the multipliers, in any order.  TLC explores it for     *)
(* small systems and generates behaviours (simulation) that are replayed.     *)
EXTENDS Metro, IOUtils
CONSTANTS N, Depth, Exhaustive
Thetas == ndJsonDeserialize(IOEnv.CASES)     \* alternative multiplier vectors
Levels == 0..4
VARIABLES s, t, en, tr
vars == <<s, t, en, tr>>
Th == Thetas[t].theta
Log(e) == IF Exhaustive THEN tr' = <<Len(tr)>> ELSE tr' = Append(tr, e)
Init == /\ s \in {SymStates(N)[x] : x \in 1..2^N}
        /\ t \in 1..Len(Thetas)
        /\ en = Energy("ising", s, 2, Th)
        /\ tr = IF Exhaustive THEN <<>> ELSE <<[op |-> "init", arg |-> t, level |-> 0, s |-> s, en |-> en]>>
Update(i, L) ==
  LET d == LocalDelta(s, i, Th)
  IN  /\ s' = IF Accepted(d, L) THEN Flip(s, i) ELSE s
      /\ en' = IF Accepted(d, L) THEN en + d ELSE en
      /\ UNCHANGED t
      /\ Log([op |-> "step", arg |-> i, level |-> L, s |-> s', en |-> en'])
NewTheta(x) ==
  /\ x # t /\ t' = x /\ UNCHANGED s
  /\ en' = Energy("ising", s, 2, Thetas[x].theta)
  /\ Log([op |-> "theta", arg |-> x, level |-> 0, s |-> s, en |-> en'])
Finish == /\ ~Exhaustive /\ Len(tr) = Depth
          /\ Emit([tr |-> tr]) /\ UNCHANGED <<s, t, en>> /\ tr' = <<>>
Next == \/ /\ (Exhaustive \/ (Len(tr) > 0 /\ Len(tr) < Depth))
           /\ \/ \E i \in 1..N, L \in Levels : Update(i, L)
              \/ \E x \in 1..Len(Thetas) : NewTheta(x)
        \/ Finish
Spec == Init /\ [][Next]_vars
EnergyTracked == en = Energy("ising", s, 2, Th)
TypeOK == \A i \in 1..N : s[i] \in {-1, 1}
(* From every state every other one can be reached: checked as the size of    *)
(* the explored space (all states, all multipliers).                          *)
View == <<s, t, en>>
=============================================================================
