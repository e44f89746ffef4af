------------------------------- MODULE Matrix -------------------------------
(* C19: an Ising system in the {0,1} basis given by one matrix, the fields on *)
(* its diagonal and the couplings outside it (each pair counted twice):       *)
(*   E(x) = sum h x + sum over i # j of J_ij x_i x_j,   P(x) ~ exp(-E(x)),    *)
(* restricted to states with at least minsize ones, in an external field      *)
(* subtracted from h.  All parameters are integer multiples of ln 2.          *)
EXTENDS Ham, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
R == Cases[c]
N(r) == Len(r.J)
SumS(x) == SumSeq(x)
RECURSIVE Keep(_, _)
Keep(q, m) == IF q = <<>> THEN <<>> ELSE (IF SumS(Head(q)) >= m THEN <<Head(q)>> ELSE <<>>) \o Keep(Tail(q), m)
States(r) == Keep(BinStates(N(r)), r.minsize)
LogW(r, x) == - SumTo(N(r), LAMBDA i : (r.J[i][i] - r.hext) * x[i])
              - SumTo(N(r), LAMBDA i : SumTo(N(r), LAMBDA j : IF i = j THEN 0 ELSE r.J[i][j] * x[i] * x[j]))
Result(r) ==
  LET S == States(r)
      A == [v \in 1..Len(S) |-> LogW(r, S[v])]
      m == MinSeq(A)
      W == [v \in 1..Len(S) |-> 2^(A[v] - m)]
  IN  [id |-> r.id, states |-> S, logw |-> A, w |-> W, z |-> SumSeq(W),
       cooc |-> [i \in 1..N(r) |-> [j \in 1..N(r) |-> SumTo(Len(S), LAMBDA v : W[v] * S[v][i] * S[v][j])]]]
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Emit(Result(R))
Spec == Init /\ [][Next]_<<c, done>>
(* a symmetric matrix is the Ising model of the other modules with fields -h  *)
(* and couplings -2 J                                                         *)
SameAsIsing == (\A i \in 1..N(R) : \A j \in 1..N(R) : R.J[i][j] = R.J[j][i]) =>
  LET n == N(R)
      P == Pairs(n)
      th == [q \in 1..(n + Len(P)) |-> IF q <= n THEN R.hext - R.J[q][q] ELSE -2 * R.J[P[q - n][1]][P[q - n][2]]]
  IN  \A v \in 1..Len(States(R)) : LogW(R, States(R)[v]) = - Energy("ising", States(R)[v], 0, th)
Bounded == LET X == Result(R) IN \A i \in 1..N(R) : \A j \in 1..N(R) :
             /\ X.cooc[i][j] = X.cooc[j][i] /\ X.cooc[i][j] <= X.cooc[i][i] /\ X.cooc[i][i] <= X.z
=============================================================================
