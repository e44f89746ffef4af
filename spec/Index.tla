------------------------------- MODULE Index --------------------------------
(* C02: the layouts of parameters.  Every case is a system size with a        *)
(* vector and a matrix of distinguishable entries; the model says where each  *)
(* entry goes.  Indices are emitted 0-based, as the code counts.              *)
EXTENDS Base, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
vars == <<c, done>>

Zero(q) == [k \in 1..Len(q) |-> q[k] - 1]
PairIx(n, i, j) == LET a == MinOf(i, j)
                       b == MaxOf(i, j)
                   IN  SumTo(a - 1, LAMBDA l : n - l) + (b - a)
(* rank of an increasing k-tuple among all of them, from the combinatorial    *)
(* number system, independent of the enumeration                              *)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE IF k > n THEN 0
               ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
Rank(t, n) ==
  LET k == Len(t)
      lo(d) == IF d = 1 THEN 1 ELSE t[d - 1] + 1
  IN  SumTo(k, LAMBDA d : SumTo(t[d] - lo(d), LAMBDA x : Binom(n - (lo(d) + x - 1), k - d)))

(* Matrix with v's fields on the diagonal and couplings off it.               *)
ToMat(n, v) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN v[i] ELSE v[n + PairIx(n, i, j)]]]
ToVec(n, m) == [i \in 1..n |-> m[i][i]] \o
               LET P == Pairs(n) IN [q \in 1..Len(P) |-> m[P[q][1]][P[q][2]]]
SetDiag(n, m, d) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN d[i] ELSE m[i][j]]]
(* Layout by diagonals: (i,j), i<=j, ordered by j-i then i.                   *)
DiagPairs(n) == Flatten([d \in 1..n |-> [i \in 1..(n - d + 1) |-> <<i, i + d - 1>>]])
DiagIx(n, i, j) == (i - 1) + (j - i) * n - ((j - i) * (j - i - 1)) \div 2
AboveDiag(n, m, keep, mult) ==
  LET D == DiagPairs(n)
      f == [q \in 1..Len(D) |-> m[D[q][1]][D[q][2]] * (IF D[q][1] = D[q][2] THEN 1 ELSE mult)]
  IN  IF keep THEN f ELSE SubSeq(f, n + 1, Len(f))
Unflat(n, v) == [i \in 1..n |-> [j \in 1..n |-> IF j >= i THEN v[DiagIx(n, i, j) + 1] ELSE 0]]
SymUpper(n, m) == [i \in 1..n |-> [j \in 1..n |-> IF i <= j THEN m[i][j] ELSE m[j][i]]]
Cut(m, cl) == [a \in 1..Len(cl) |-> [b \in 1..Len(cl) |-> m[cl[a]][cl[b]]]]
Embed(n, m, cl) == [i \in 1..n |-> [j \in 1..n |->
   IF \E a, b \in 1..Len(cl) : cl[a] = i /\ cl[b] = j
   THEN m[CHOOSE a \in 1..Len(cl) : cl[a] = i][CHOOSE b \in 1..Len(cl) : cl[b] = j]
   ELSE 0]]
Split(n, orders) ==
  LET s[k \in 0..orders] == IF k = 0 THEN <<0>> ELSE Append(s[k-1], s[k-1][k] + Binom(n, k))
  IN  s[orders]
Multinom(p) == LET s[k \in 0..Len(p)] == IF k = 0 THEN 1
                      ELSE s[k-1] * Binom(SumTo(k, LAMBDA x : p[x]), p[k])
               IN  s[Len(p)]

Big(r) == [id |-> r.id, kind |-> r.kind, pairs |-> SeqMap(Zero, Pairs(r.n))]
Tuples(r) == [id |-> r.id, kind |-> r.kind, t |-> SeqMap(Zero, Combos(r.n, r.k))]
Mat(r) == LET n == r.n
              v == r.vec
              m == r.mat
          IN  [id |-> r.id, kind |-> r.kind, v2m |-> ToMat(n, v), m2v |-> ToVec(n, SymUpper(n, m)),
               sym |-> SymUpper(n, m), rep |-> SetDiag(n, m, SubSeq(v, 1, n)),
               zero |-> SetDiag(n, m, [i \in 1..n |-> 0]),
               above |-> AboveDiag(n, m, FALSE, 1), abovek |-> AboveDiag(n, m, TRUE, 1),
               above2 |-> AboveDiag(n, m, FALSE, 2), abovek2 |-> AboveDiag(n, m, TRUE, 2),
               unflat |-> Unflat(n, v),
               unflat2 |-> LET u == Unflat(n, v) IN [i \in 1..n |-> [j \in 1..n |-> u[i][j] + u[j][i]]],
               diagix |-> [i \in 1..n |-> [j \in i..n |-> DiagIx(n, i, j)]],
               cut |-> Cut(m, r.cl), embed |-> Embed(n, Cut(m, r.cl), r.cl)]
SplitR(r) == [id |-> r.id, kind |-> r.kind, bounds |-> Split(r.n, r.k)]
Multi(r) == [id |-> r.id, kind |-> r.kind, value |-> Multinom(r.cl)]
Result(r) == CASE r.kind = "pairs" -> Big(r) [] r.kind = "tuples" -> Tuples(r)
               [] r.kind = "mat" -> Mat(r) [] r.kind = "split" -> SplitR(r)
               [] r.kind = "multi" -> Multi(r)

Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Emit(Result(Cases[c]))
Spec == Init /\ [][Next]_vars

R == Cases[c]
PairBijection == R.kind = "pairs" =>
  LET P == Pairs(R.n) IN /\ Len(P) = NPairs(R.n)
                         /\ \A q \in 1..Len(P) : PairIx(R.n, P[q][1], P[q][2]) = q
RankOK == R.kind = "tuples" =>
  LET T == Combos(R.n, R.k) IN /\ Len(T) = Binom(R.n, R.k)
                               /\ \A q \in 1..Len(T) : Rank(T[q], R.n) = q - 1
RoundTrip == R.kind = "mat" => /\ ToVec(R.n, ToMat(R.n, R.vec)) = R.vec
                               /\ AboveDiag(R.n, Unflat(R.n, R.vec), TRUE, 1) = R.vec
                               /\ Cut(Embed(R.n, Cut(R.mat, R.cl), R.cl), R.cl) = Cut(R.mat, R.cl)
DiagBijection == R.kind = "mat" =>
  LET D == DiagPairs(R.n) IN \A q \in 1..Len(D) : DiagIx(R.n, D[q][1], D[q][2]) = q - 1
=============================================================================
