---------------------------- MODULE TemperTrace -----------------------------
(* C10: recorded rounds of replica exchange, validated.                       *)
EXTENDS Ham, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, verdict
R == Cases[c]
E0(s) == Energy("ising", s, 2, R.theta)
Swap(f, i) == [f EXCEPT ![i] = f[i+1], ![i+1] = f[i]]
M == Len(R.beta)
(* the whole sweep at level L (draw 2^-(L+1/2)), from the configuration g     *)
Sweep(g, L) == LET f[i \in 1..M] ==
                     IF i = 1 THEN g
                     ELSE LET h == f[i-1]
                              gain == (R.beta[i-1] - R.beta[i]) * (E0(h.s[i-1]) - E0(h.s[i]))
                          IN  IF - gain <= L THEN [s |-> Swap(h.s, i-1), w |-> Swap(h.w, i-1)] ELSE h
               IN  f[M]
Q == R.rounds[k]
EnergyOK(g, e) == \A i \in 1..M : e[i] = R.beta[i] * E0(g.s[i])
Perm(w) == \A a \in 1..M : \E i \in 1..M : w[i] = a
Check == LET b == [s |-> Q.bs, w |-> Q.bw]
             a == [s |-> Q.as, w |-> Q.aw]
         IN  IF ~Perm(Q.bw) \/ ~Perm(Q.aw) THEN 1                     \* a walker is lost or doubled
             ELSE IF a # Sweep(b, Q.level) THEN 2                     \* not the exchanges of the rule
             ELSE IF Len(Q.be) > 0 /\ ~EnergyOK(b, Q.be) THEN 3       \* stored energies before
             ELSE IF Len(Q.ae) > 0 /\ ~EnergyOK(a, Q.ae) THEN 4       \* and after the exchanges
             ELSE IF R.still /\ k > 1 /\ (Q.bs # R.rounds[k-1].as \/ Q.bw # R.rounds[k-1].aw) THEN 5   \* updates undo themselves here
             ELSE 0
Init == c \in 1..Len(Cases) /\ k = 1 /\ verdict = 0
Step == /\ verdict = 0
        /\ IF Check # 0 THEN verdict' = Check /\ k' = k
           ELSE IF k = Len(R.rounds) THEN verdict' = -1 /\ k' = k
           ELSE k' = k + 1 /\ verdict' = 0
        /\ c' = c
        /\ (verdict' = 0 \/ Emit([id |-> R.id, verdict |-> verdict', round |-> k]))
Spec == Init /\ [][Step]_<<c, k, verdict>>
=============================================================================
