------------------------------ MODULE Reweight ------------------------------
(* C12: the prediction of averages for a change of the multipliers is the     *)
(* exactly reweighted average of the sample.  The change is an integer        *)
(* multiple of ln 2, so that all weights are powers of two.                   *)
EXTENDS Ham, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
R == Cases[c]
Table(r) == [x \in 1..Len(r.sample) |-> Obs(r.model, r.sample[x], r.k)]
Pred(T, d) ==
  LET A == [x \in 1..Len(T) |-> Dot(T[x], d)]
      m == MinSeq(A)
      W == [x \in 1..Len(A) |-> 2^(A[x] - m)]
  IN  [z |-> SumSeq(W), num |-> [q \in 1..Len(d) |-> SumTo(Len(T), LAMBDA x : W[x] * T[x][q])]]
Sum(T, q) == SumTo(Len(T), LAMBDA x : T[x][q])
(* N^2 times the covariance of two observables over the sample                *)
Cov(T, p, q) == Len(T) * SumTo(Len(T), LAMBDA x : T[x][p] * T[x][q]) - Sum(T, p) * Sum(T, q)
P(r) == NParams(r.model, Len(r.sample[1]), r.k)
Result(r) == LET T == Table(r)
             IN  [id |-> r.id, pred |-> Pred(T, r.d), size |-> Len(T), table |-> T,
                  mean |-> [q \in 1..P(r) |-> Sum(T, q)],
                  cov |-> [p \in 1..P(r) |-> [q \in 1..P(r) |-> Cov(T, p, q)]]]
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Emit(Result(R))
Spec == Init /\ [][Next]_<<c, done>>
(* no change: the averages of the sample; a change of the order of the sample *)
(* changes nothing; variances are not negative                                *)
NoChange == LET T == Table(R)
                X == Pred(T, [q \in 1..P(R) |-> 0])
            IN  X.z = Len(T) /\ \A q \in 1..P(R) : X.num[q] = Sum(T, q)
Order == LET T == Table(R)
         IN  Pred(T, R.d) = Pred([x \in 1..Len(T) |-> T[Len(T) + 1 - x]], R.d)
Variances == LET T == Table(R) IN \A q \in 1..P(R) : Cov(T, q, q) >= 0
(* raising one multiplier never lowers the average of its observable          *)
Monotone == LET T == Table(R)
                X == Pred(T, R.d)
            IN  \A q \in 1..P(R) :
                 LET Y == Pred(T, [R.d EXCEPT ![q] = @ + 1])
                 IN  Y.num[q] * X.z >= X.num[q] * Y.z
=============================================================================
