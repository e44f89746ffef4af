----------------------------- MODULE CondTable ------------------------------
(* C09: the conditional chain: some sites hold given values; an update        *)
(* changes a free site by the rule of the full Hamiltonian.                   *)
EXTENDS Metro, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
R == Cases[c]
FixedAt(r, i) == \E q \in 1..Len(r.fixed) : r.fixed[q][1] = i
ValueAt(r, i) == LET q == CHOOSE q \in 1..Len(r.fixed) : r.fixed[q][1] = i IN r.fixed[q][2]
FreeSites(r) == FilterSeq(Iota(r.n), {i \in 1..r.n : ~FixedAt(r, i)})
Full(r, f) == LET P == FreeSites(r)
              IN  [i \in 1..r.n |-> IF FixedAt(r, i) THEN ValueAt(r, i)
                                    ELSE f[CHOOSE q \in 1..Len(P) : P[q] = i]]
States(r) == LET F == SymStates(Len(FreeSites(r))) IN [x \in 1..Len(F) |-> Full(r, F[x])]
Result(r) == LET S == States(r)
                 P == FreeSites(r)
             IN  [id |-> r.id, free |-> P, states |-> S, e |-> [x \in 1..Len(S) |-> Energy("ising", S[x], 2, r.theta)],
                  de |-> [x \in 1..Len(S) |-> [q \in 1..Len(P) |-> LocalDelta(S[x], P[q], r.theta)]]]
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Emit(Result(R))
Spec == Init /\ [][Next]_<<c, done>>
(* The free spins see the fixed ones only through their field: the energy of  *)
(* the free system with shifted fields differs by a constant.                 *)
ShiftedField == LET P == FreeSites(R)
                    S == States(R)
                    hh(i) == R.theta[i] + SumTo(R.n, LAMBDA j : IF FixedAt(R, j) THEN Coupling(R.theta, R.n, R.n, i, j) * ValueAt(R, j) ELSE 0)
                    EF(s) == - (SumTo(Len(P), LAMBDA q : hh(P[q]) * s[P[q]])
                                + SumTo(Len(P), LAMBDA q : SumTo(q - 1, LAMBDA p : Coupling(R.theta, R.n, R.n, P[p], P[q]) * s[P[p]] * s[P[q]])))
                IN  \A x \in 1..Len(S) : Energy("ising", S[x], 2, R.theta) - EF(S[x]) = Energy("ising", S[1], 2, R.theta) - EF(S[1])
StaysFixed == LET P == FreeSites(R)
                  S == States(R)
              IN \A x \in 1..Len(S), q \in 1..Len(P), L \in {0, 3} :
                    \A t \in After("ising", 2, S[x], P[q], R.theta, L) :
                       \A i \in 1..R.n : FixedAt(R, i) => t[i] = ValueAt(R, i)
=============================================================================
