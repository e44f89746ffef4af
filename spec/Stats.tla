------------------------------- MODULE Stats --------------------------------
(* C05: a sample is read one state at a time; the accumulators below are all  *)
(* the statistics of the package as exact integer sums (the harness divides   *)
(* by the emitted denominators).                                              *)
EXTENDS Base, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pos, acc
vars == <<c, pos, acc>>

Prod(t, s) == ProdTo(Len(t), LAMBDA d : s[t[d]])
NZ(x) == IF x = 0 THEN 0 ELSE 1
VAdd(a, b) == [k \in 1..Len(a) |-> a[k] + b[k]]
ZeroV(n) == [k \in 1..n |-> 0]
Tup(n, o) == Combos(n, o)

Zero(r) == LET n == r.n IN
  [s1 |-> ZeroV(n), s2 |-> ZeroV(NPairs(n)), w1 |-> ZeroV(n), w2 |-> ZeroV(NPairs(n)),
   n1 |-> ZeroV(n), n2 |-> ZeroV(NPairs(n)),
   k |-> [o \in 1..r.kmax |-> ZeroV(Len(Tup(n, o)))],
   kn |-> [o \in 1..r.kmax |-> ZeroV(Len(Tup(n, o)))],
   kw |-> [o \in 1..r.kmax |-> ZeroV(Len(Tup(n, o)))],
   u |-> <<>>, cnt |-> <<>>, wcnt |-> <<>>, inv |-> <<>>, wsum |-> 0]
Read(r, a, x, w) ==
  LET n == r.n
      P == Pairs(n)
      q1 == x
      q2 == [q \in 1..Len(P) |-> x[P[q][1]] * x[P[q][2]]]
      known == \E j \in 1..Len(a.u) : a.u[j] = x
      ix == IF known THEN CHOOSE j \in 1..Len(a.u) : a.u[j] = x ELSE Len(a.u) + 1
      pr(o) == LET T == Tup(n, o) IN [q \in 1..Len(T) |-> Prod(T[q], x)]
  IN  [s1 |-> VAdd(a.s1, q1), s2 |-> VAdd(a.s2, q2),
       w1 |-> VAdd(a.w1, [k \in 1..n |-> w * q1[k]]), w2 |-> VAdd(a.w2, [k \in 1..Len(P) |-> w * q2[k]]),
       n1 |-> VAdd(a.n1, SeqMap(NZ, q1)), n2 |-> VAdd(a.n2, SeqMap(NZ, q2)),
       k |-> [o \in 1..r.kmax |-> VAdd(a.k[o], pr(o))],
       kn |-> [o \in 1..r.kmax |-> VAdd(a.kn[o], SeqMap(NZ, pr(o)))],
       kw |-> [o \in 1..r.kmax |-> VAdd(a.kw[o], LET p == pr(o) IN [q \in 1..Len(p) |-> w * p[q]])],
       u |-> IF known THEN a.u ELSE Append(a.u, x),
       cnt |-> IF known THEN [a.cnt EXCEPT ![ix] = @ + 1] ELSE Append(a.cnt, 1),
       wcnt |-> IF known THEN [a.wcnt EXCEPT ![ix] = @ + w] ELSE Append(a.wcnt, w),
       inv |-> Append(a.inv, ix), wsum |-> a.wsum + w]

(* statistics of pairs of samples and of pairs of pairs                        *)
Overlap(X) == [a \in 1..Len(X) |-> [b \in 1..Len(X) |-> Dot(X[a], X[b])]]
NonEmpty(X) == [a \in 1..Len(X) |-> SumSeq(SeqMap(NZ, X[a]))]
DiagPairs(n) == Flatten([d \in 1..n |-> [i \in 1..(n - d + 1) |-> <<i, i + d - 1>>]])
Cooc(X, n) == [i \in 1..n |-> [j \in 1..n |->
                  IF i > j THEN 0 ELSE SumTo(Len(X), LAMBDA r : X[r][i] * X[r][j])]]
Fourth(X, n) == LET D == DiagPairs(n) IN
   [a \in 1..Len(D) |-> [b \in 1..Len(D) |->
      SumTo(Len(X), LAMBDA r : X[r][D[a][1]] * X[r][D[a][2]] * X[r][D[b][1]] * X[r][D[b][2]])]]

Init == c \in 1..Len(Cases) /\ pos = 0 /\ acc = Zero(Cases[c])
R == Cases[c]
Step == /\ pos < Len(R.x)
        /\ pos' = pos + 1 /\ c' = c
        /\ acc' = Read(R, acc, R.x[pos + 1], R.w[pos + 1])
Finish == /\ pos = Len(R.x) /\ pos' = pos + 1 /\ UNCHANGED <<c, acc>>
          /\ Emit([id |-> R.id, acc |-> acc, ov |-> Overlap(R.x), ne |-> NonEmpty(R.x),
                   cooc |-> Cooc(R.x, R.n), fourth |-> IF R.n <= 5 THEN Fourth(R.x, R.n) ELSE << >>])
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

CountsOK == /\ SumSeq(acc.cnt) = MinOf(pos, Len(R.x))
            /\ SumSeq(acc.wcnt) = acc.wsum
            /\ \A a, b \in 1..Len(acc.u) : a # b => acc.u[a] # acc.u[b]
            /\ \A j \in 1..Len(acc.inv) : acc.u[acc.inv[j]] = R.x[j]
OrdersAgree == /\ acc.k[1] = acc.s1
               /\ (R.kmax >= 2 => acc.k[2] = acc.s2)
               /\ \A q \in 1..Len(acc.s2) : acc.s2[q] <= acc.n2[q] /\ - acc.s2[q] <= acc.n2[q]
=============================================================================
