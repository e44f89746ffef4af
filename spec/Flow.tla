-------------------------------- MODULE Flow --------------------------------
(* C15: the minimum probability flow objective of observed {0,1} states.  A   *)
(* case: states (distinct) and their counts, conn ("all": to all neighbours,  *)
(* "out": only to states that were not observed), flips ("one": neighbours    *)
(* by one flip, "two": by two), theta in units of 2 ln 2, so that             *)
(* exp((E(s) - E(t)) / 2) is a power of two.                                  *)
EXTENDS Ham, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
R == Cases[c]
NbSeq(r, s) == LET n == Len(s)
                   P == Pairs(n)
               IN IF r.flips = "one" THEN [i \in 1..n |-> Flip01(s, i)]
                  ELSE [q \in 1..Len(P) |-> Flip01(Flip01(s, P[q][1]), P[q][2])]
RECURSIVE Keep(_, _)
Keep(q, obs) == IF q = <<>> THEN <<>> ELSE (IF IsIn(Head(q), obs) THEN <<>> ELSE <<Head(q)>>) \o Keep(Tail(q), obs)
Neighbours(r, s) == IF r.conn = "all" THEN NbSeq(r, s) ELSE Keep(NbSeq(r, s), r.states)
Delta(r, s, t) == LET a == Obs(r.model, s, 0)
                      b == Obs(r.model, t, 0)
               IN  [q \in 1..Len(a) |-> b[q] - a[q]]
(* the flows: for each observed state its count and, for every neighbour, the *)
(* change of the observables                                                  *)
Flows(r) == [x \in 1..Len(r.states) |-> LET N == Neighbours(r, r.states[x])
                                        IN [count |-> r.counts[x], nb |-> N, d |-> [y \in 1..Len(N) |-> Delta(r, r.states[x], N[y])]]]
Connected(r) == \A x \in 1..Len(r.states) : Len(Neighbours(r, r.states[x])) > 0
All(F) == Flatten([x \in 1..Len(F) |-> [y \in 1..Len(F[x].d) |-> <<F[x].count, F[x].d[y]>>]])
(* objective and gradient times the number of samples times 2^scale           *)
K(r, A) == LET X == [y \in 1..Len(A) |-> Dot(A[y][2], r.theta)]
               m == IF Len(X) = 0 THEN 0 ELSE MinSeq(X)
           IN  [scale |-> -m, k |-> SumTo(Len(A), LAMBDA y : A[y][1] * 2^(X[y] - m)),
                \* the derivative for theta_q: half the change of observable q
                g2 |-> [q \in 1..Len(r.theta) |-> SumTo(Len(A), LAMBDA y : A[y][1] * A[y][2][q] * 2^(X[y] - m))]]
Result(r) == LET F == Flows(r) IN [id |-> r.id, connected |-> Connected(r), flows |-> F, exact |-> K(r, All(F)), size |-> SumSeq(r.counts)]
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Emit(Result(R))
Spec == Init /\ [][Next]_<<c, done>>
(* ---- laws ---- *)
Outside == R.conn = "out" => \A x \in 1..Len(R.states) : LET N == Neighbours(R, R.states[x]) IN \A y \in 1..Len(N) : ~IsIn(N[y], R.states)
(* all states with Boltzmann weights: no net flow, the objective is stationary *)
Boltzmann(r) == LET S == BinStates(Len(r.states[1]))
                    e == [x \in 1..Len(S) |-> 2 * Dot(Obs(r.model, S[x], 0), r.theta)]
                IN  [r EXCEPT !.states = S, !.counts = [x \in 1..Len(S) |-> 2^(e[x] - MinSeq(e))], !.conn = "all"]
Stationary == R.law => LET b == Boltzmann(R)
                           F == Flows(b)
                           k == K(b, All(F))
                       IN  \A q \in 1..Len(k.g2) : k.g2[q] = 0
(* raising one multiplier by a unit raises the objective at least as much as  *)
(* its tangent (convexity)                                                    *)
(* 2^b - 2^a >= 2^a (b - a) / 2 for integers a, b                             *)
Convex == LET A == All(Flows(R))
          IN  R.law => \A q \in 1..Len(R.theta) :
                LET up == SumTo(Len(A), LAMBDA y : A[y][1] * (2^(Dot(A[y][2], R.theta) + A[y][2][q] + 24 - 14)
                                                              - 2^(Dot(A[y][2], R.theta) + 24 - 14)))
                    g == SumTo(Len(A), LAMBDA y : A[y][1] * A[y][2][q] * 2^(Dot(A[y][2], R.theta) + 24 - 14))
                IN  2 * up >= g
=============================================================================
