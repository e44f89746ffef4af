------------------------------- MODULE Basis --------------------------------
(* C04: the two spin bases.  A model is a list of interaction orders          *)
(* 1..K, each listing every tuple of that order; substituting x=(s+1)/2 or    *)
(* s=2x-1 moves every interaction onto all of its sub-tuples.  To stay in     *)
(* the integers the {0,1} parameters are multiples of 2^K.                    *)
EXTENDS Base, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
vars == <<c, done>>

SetOf(q) == {q[k] : k \in 1..Len(q)}
Term(t, s) == ProdTo(Len(t), LAMBDA d : s[t[d]])
E(p, s) == LET n == Len(s) IN
   - SumTo(Len(p), LAMBDA o : LET T == Combos(n, o) IN SumTo(Len(T), LAMBDA q : p[o][q] * Term(T[q], s)))
(* contribution of all interactions containing the tuple u                    *)
Gather(p, n, u, w(_, _)) ==
   SumTo(Len(p) - Len(u) + 1, LAMBDA x :
      LET o == Len(u) + x - 1
          T == Combos(n, o)
      IN  SumTo(Len(T), LAMBDA q : IF SetOf(u) \subseteq SetOf(T[q]) THEN w(p[o][q], o) ELSE 0))
To11(p, n) == [o \in 1..Len(p) |-> LET T == Combos(n, o) IN
   [q \in 1..Len(T) |-> Gather(p, n, T[q], LAMBDA v, oo : v \div 2^oo)]]
To01(p, n) == [o \in 1..Len(p) |-> LET T == Combos(n, o) IN
   [q \in 1..Len(T) |-> Gather(p, n, T[q], LAMBDA v, oo : v * 2^o * (IF (oo - o) % 2 = 0 THEN 1 ELSE -1))]]
Pm(s) == [i \in 1..Len(s) |-> 2 * s[i] - 1]
(* sums over a sample of the first and second moments                         *)
Mom1(X) == [i \in 1..Len(X[1]) |-> SumTo(Len(X), LAMBDA r : X[r][i])]
Mom2(X) == LET P == Pairs(Len(X[1])) IN
           [q \in 1..Len(P) |-> SumTo(Len(X), LAMBDA r : X[r][P[q][1]] * X[r][P[q][2]])]
Result(r) ==
  IF r.kind = "par"
  THEN [id |-> r.id, kind |-> r.kind, to11 |-> To11(r.p, r.n), to01 |-> To01(r.p, r.n)]
  ELSE LET Y == SeqMap(Pm, r.x)
       IN [id |-> r.id, kind |-> r.kind, m1 |-> Mom1(r.x), m2 |-> Mom2(r.x), y1 |-> Mom1(Y), y2 |-> Mom2(Y)]
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Emit(Result(Cases[c]))
Spec == Init /\ [][Next]_vars

R == Cases[c]
AllStates(n) == [v \in 1..(2^n) |-> Digits(v - 1, 2, n)]
SameModel == (R.kind = "par" /\ R.n <= 4) =>
  LET S == AllStates(R.n)
      q == To11(R.p, R.n)
      z == To01(R.p, R.n)
      d11(x) == E(q, Pm(S[x])) - E(R.p, S[x])
      d01(x) == E(z, S[x]) - E(R.p, Pm(S[x]))
  IN  \A x \in 1..Len(S) : d11(x) = d11(1) /\ d01(x) = d01(1)
RoundTrip == (R.kind = "par" /\ R.n <= 5) => To01(To11(R.p, R.n), R.n) = R.p
MomOK == R.kind = "cor" =>
  LET Y == SeqMap(Pm, R.x)
      P == Pairs(R.n)
  IN  \A q \in 1..Len(P) : Mom2(Y)[q] = 4 * Mom2(R.x)[q] - 2 * Mom1(R.x)[P[q][1]] - 2 * Mom1(R.x)[P[q][2]] + Len(R.x)
=============================================================================
