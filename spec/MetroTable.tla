----------------------------- MODULE MetroTable -----------------------------
(* C07: the full kernel of small systems: energy change of every proposal at  *)
(* every state, and the laws that make the chain sample the Boltzmann         *)
(* distribution.                                                              *)
EXTENDS Metro, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
vars == <<c, done>>
R == Cases[c]
(* value proposed by the o-th alternative at a site (o = 1..k-1)              *)
Alt(r, s, i, o) == IF r.model = "potts" THEN (s[i] + o) % r.k ELSE - s[i]
NAlt(r) == IF r.model = "potts" THEN r.k - 1 ELSE 1
Deltas(r) == LET S == AllStates(r.model, r.n, r.k)
             IN  [x \in 1..Len(S) |-> [i \in 1..r.n |-> [o \in 1..NAlt(r) |->
                    DeltaE(r.model, r.k, S[x], i, Alt(r, S[x], i, o), r.theta)]]]
Result(r) == LET S == AllStates(r.model, r.n, r.k)
             IN  [id |-> r.id, states |-> S, de |-> Deltas(r),
                  en |-> [x \in 1..Len(S) |-> Energy(r.model, S[x], r.k, r.theta)]]
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Emit(Result(R))
Spec == Init /\ [][Next]_vars

Moves == { <<x, i, o>> : x \in 1..Len(AllStates(R.model, R.n, R.k)), i \in 1..R.n, o \in 1..NAlt(R) }
(* The change computed from the local field is the change of the energy.      *)
LocalIsExact == LET S == AllStates(R.model, R.n, R.k)
  IN \A mv \in Moves : LET s == S[mv[1]]
                           a == Alt(R, s, mv[2], mv[3])
                       IN  DeltaE(R.model, R.k, s, mv[2], a, R.theta) = TrueDelta(R.model, R.k, s, mv[2], a, R.theta)
(* Undoing a move costs what it gained, so w(s) P(s->t) = w(t) P(t->s):       *)
(* E(s) + max(d,0) = E(t) + max(-d,0).                                        *)
DetailedBalance == LET S == AllStates(R.model, R.n, R.k)
  IN \A mv \in Moves :
       LET s == S[mv[1]]
           i == mv[2]
           a == Alt(R, s, i, mv[3])
           t == SetAt(s, i, a)
           d == DeltaE(R.model, R.k, s, i, a, R.theta)
           b == DeltaE(R.model, R.k, t, i, s[i], R.theta)
       IN  /\ s[i] \in NewValues(R.model, R.k, t, i)
           /\ b = -d
           /\ Energy(R.model, s, R.k, R.theta) + MaxOf(d, 0) = Energy(R.model, t, R.k, R.theta) + MaxOf(b, 0)
=============================================================================
