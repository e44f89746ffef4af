----------------------------- MODULE MetroTrace -----------------------------
(* Validation of recorded chains: each step must be an update allowed by the  *)
(* specification at the recorded level, at the recorded site (0: any site).   *)
(* `free' lists the sites that may be updated (all, or those not held fixed); *)
(* `gap' updates separate consecutive states (sites known) or exactly one.    *)
EXTENDS Metro, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, now, verdict
vars == <<c, k, now, verdict>>
R == Cases[c]
Free == {R.free[x] : x \in 1..Len(R.free)}
OneSite(s, i) == After(R.model, R.k, s, i, R.theta, R.level)
AnySite(s) == UNION {OneSite(s, i) : i \in Free}
(* possible states after the updates listed in step q of the script           *)
Run(S, q) == LET f[j \in 0..Len(R.script[q])] ==
                    IF j = 0 THEN S
                    ELSE UNION { IF R.script[q][j] = 0 THEN AnySite(s) ELSE OneSite(s, R.script[q][j]) : s \in f[j-1] }
             IN  f[Len(R.script[q])]
EnergyOK(x) == Len(R.en) = 0 \/ R.en[x] = Energy(R.model, R.states[x], R.k, R.theta)
Init == c \in 1..Len(Cases) /\ k = 1 /\ now = Cases[c].states[1] /\ verdict = 0
(* consume the next recorded state                                            *)
Step == /\ verdict = 0 /\ k < Len(R.states)
        /\ IF R.states[k+1] \in Run({now}, k) /\ EnergyOK(k + 1)
           THEN k' = k + 1 /\ now' = R.states[k+1] /\ UNCHANGED verdict
           ELSE verdict' = k /\ UNCHANGED <<k, now>>
        /\ UNCHANGED c
End == /\ verdict = 0 /\ k = Len(R.states) /\ verdict' = -1 /\ UNCHANGED <<c, k, now>>
Next == (Step \/ End) /\ (verdict' = 0 \/ Emit([id |-> R.id, verdict |-> verdict']))
Spec == Init /\ [][Next]_vars
TypeOK == now = R.states[k]
=============================================================================
