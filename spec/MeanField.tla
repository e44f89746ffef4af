------------------------------ MODULE MeanField -----------------------------
(* C19, C22: the mean field solution of the inverse Ising problem from counts *)
(* of co-occurrences among M samples: couplings are half the inverse of the   *)
(* covariance matrix (outside the diagonal), fields follow from them and the  *)
(* frequencies.  All numbers are exact: covariances c are integers over M^2.  *)
EXTENDS Base, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
R == Cases[c]
N(r) == Len(r.count)
F(r, i) == r.count[i][i]                                      \* times 1/M
C(r, i, j) == IF i <= j THEN r.count[i][j] * r.m - F(r, i) * F(r, j)      \* times 1/M^2
              ELSE r.count[j][i] * r.m - F(r, i) * F(r, j)
V(r, i) == F(r, i) * (r.m - F(r, i))                          \* times 1/M^2
Cov(r) == [i \in 1..N(r) |-> [j \in 1..N(r) |-> C(r, i, j)]]
Drop(q, k) == [x \in 1..(Len(q) - 1) |-> IF x < k THEN q[x] ELSE q[x + 1]]
Minor(A, i, j) == [x \in 1..(Len(A) - 1) |-> Drop(IF x < i THEN A[x] ELSE A[x + 1], j)]
RECURSIVE Det(_)
Det(A) == IF Len(A) = 0 THEN 1
          ELSE SumTo(Len(A), LAMBDA j : IF A[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * Det(Minor(A, 1, j)))
Adj(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(A, j, i))]]
(* inverse covariance = Adj * M^2 / Det                                       *)
Result(r) == LET A == Cov(r)
             IN  [id |-> r.id, cov |-> A, v |-> [i \in 1..N(r) |-> V(r, i)], det |-> Det(A), adj |-> Adj(A)]
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Emit(Result(R))
Spec == Init /\ [][Next]_<<c, done>>
Inverse == LET A == Cov(R)
               B == Adj(A)
           IN  \A i \in 1..N(R) : \A j \in 1..N(R) :
                 SumTo(N(R), LAMBDA k : A[i][k] * B[k][j]) = IF i = j THEN Det(A) ELSE 0
(* variances on the diagonal; no spin can be correlated with another by more  *)
Cauchy == \A i \in 1..N(R) : \A j \in 1..N(R) : C(R, i, i) = V(R, i) /\ C(R, i, j) * C(R, i, j) <= V(R, i) * V(R, j)
(* independent spins are not coupled                                          *)
Uncoupled == (\A i \in 1..N(R) : \A j \in 1..N(R) : i # j => C(R, i, j) = 0)
             => \A i \in 1..N(R) : \A j \in 1..N(R) : i # j => Adj(Cov(R))[i][j] = 0
=============================================================================
