----------------------------- MODULE Ensemble -------------------------------
(* C06 and every check that needs exact averages: the Boltzmann ensemble of a *)
(* model whose observables are products over given tuples of spins (or the    *)
(* Potts indicators).  Multipliers are integer multiples of ln 2, so that     *)
(* every weight is a power of two and averages are exact rationals.           *)
EXTENDS Ham, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
vars == <<c, done>>

StatesOf(r) == CASE r.dom = "01" -> BinStates(r.n)
                 [] r.dom = "pm" -> SymStates(r.n)
                 [] r.dom = "k"  -> PottsStates(r.n, r.k)
TupleObs(r, s) == [q \in 1..Len(r.terms) |-> ProdTo(Len(r.terms[q]), LAMBDA d : s[r.terms[q][d]])]
ObsOf(r, s) == IF r.dom = "k" THEN PottsObs(s, r.k) ELSE TupleObs(r, s)
Table(r) == LET S == StatesOf(r) IN [x \in 1..Len(S) |-> ObsOf(r, S[x])]
(* exact averages at r.theta (times ln 2): weights relative to the ground state *)
Exact(r, T) ==
  LET A == [x \in 1..Len(T) |-> Dot(T[x], r.theta)]
      m == MinSeq(A)
      W == [x \in 1..Len(A) |-> 2^(A[x] - m)]
  IN  [w |-> W, z |-> SumSeq(W),
       num |-> [q \in 1..Len(r.theta) |-> SumTo(Len(T), LAMBDA x : W[x] * T[x][q])]]
Result(r) == LET T == Table(r)
             IN  [id |-> r.id, states |-> StatesOf(r), table |-> T,
                  exact |-> IF Len(r.theta) > 0 THEN Exact(r, T) ELSE [w |-> <<>>, z |-> 0, num |-> <<>>]]
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Emit(Result(Cases[c]))
Spec == Init /\ [][Next]_vars

R == Cases[c]
Normalised == Len(R.theta) > 0 =>
   LET T == Table(R)
       X == Exact(R, T)
   IN  /\ X.z > 0 /\ \A x \in 1..Len(X.w) : X.w[x] >= 1
       /\ \A q \in 1..Len(X.num) : Abs(X.num[q]) <= X.z
(* Potts: every spin is in exactly one state.                                 *)
OneState == (R.dom = "k" /\ Len(R.theta) > 0) =>
   LET X == Exact(R, Table(R))
   IN  \A i \in 1..R.n : SumTo(R.k, LAMBDA a : X.num[(a - 1) * R.n + i]) = X.z
=============================================================================
