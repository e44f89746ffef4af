------------------------------ MODULE Descent -------------------------------
(* C18: steepest descent of an Ising system by single spin flips: always a    *)
(* flip that lowers the energy most (any one of them when several do).        *)
EXTENDS Ham, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, start, s
vars == <<c, start, s>>
R == Cases[c]
DE(t) == [i \in 1..R.n |-> LocalDelta(t, i, R.theta)]
En(t) == Energy("ising", t, 0, R.theta)
Starts(r) == IF Len(r.starts) = 0 THEN SymStates(r.n) ELSE r.starts
Init == /\ c \in 1..Len(Cases)
        /\ \E x \in 1..Len(Starts(R)) : start = Starts(R)[x]
        /\ s = start
Downhill == /\ MinSeq(DE(s)) < 0
            /\ \E i \in 1..R.n : DE(s)[i] = MinSeq(DE(s)) /\ s' = Flip(s, i)
            /\ UNCHANGED <<c, start>>
AtMin(t) == MinSeq(DE(t)) >= 0
Spec == Init /\ [][Downhill]_vars /\ WF_vars(Downhill)
(* reports the energy changes of the starting states and the minima reached   *)
Report == /\ s = start => Emit([id |-> R.id, start |-> start, de |-> DE(start), e |-> En(start)])
          /\ AtMin(s) => Emit([id |-> R.id, start |-> start, basin |-> s])
(* ---- laws ---- *)
LocalExact == \A i \in 1..R.n : DE(s)[i] = En(Flip(s, i)) - En(s)
Lower == s # start => En(s) < En(start)
OwnBasin == AtMin(start) => s = start
Arrives == <>AtMin(s)
=============================================================================
