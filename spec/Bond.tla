-------------------------------- MODULE Bond ---------------------------------
(* Clusters of the Ising model with couplings J = a ln2/2 and fields          *)
(* h = b ln2/2 (a, b integers), so that exp(-2 J si sj) = 2^(-a si sj).       *)
(* A bond between aligned spins is activated with probability 1 - 2^(-a si sj)*)
(* and the flip of a cluster C costs a factor 2^(-b.s over C).                *)
EXTENDS Base
Spin(x, n) == [k \in 1..n |-> 2 * Digits(x, 2, n)[k] - 1]
States(n) == {Spin(x, n) : x \in 0..(2^n - 1)}
PairIx(i, j, n) == LET lo == MinOf(i, j)
                       hi == MaxOf(i, j)
                   IN  (lo - 1) * n - ((lo - 1) * lo) \div 2 + hi - lo
A(r, i, j) == r.a[PairIx(i, j, r.n)]
Strength(r, s, i, j) == A(r, i, j) * s[i] * s[j]
RAdd(x, y) == Rat(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
RMul(x, y) == Rat(x[1] * y[1], x[2] * y[2])
ROne == <<1, 1>>
RZero == <<0, 1>>
RECURSIVE RSumSet(_)
RSumSet(S) == IF S = {} THEN RZero ELSE LET x == CHOOSE x \in S : TRUE IN RAdd(x[2], RSumSet(S \ {x}))
HalfPow(e) == IF e <= 0 THEN ROne ELSE <<1, 2^e>>
BondP(r, s, i, j) == IF Strength(r, s, i, j) <= 0 THEN RZero
                     ELSE Rat(2^Strength(r, s, i, j) - 1, 2^Strength(r, s, i, j))
Not(p) == Rat(p[2] - p[1], p[2])
FlipExp(r, s, C) == LET f[k \in 0..r.n] == IF k = 0 THEN 0 ELSE f[k-1] + (IF k \in C THEN r.b[k] * s[k] ELSE 0) IN f[r.n]
FlipP(r, s, C) == HalfPow(FlipExp(r, s, C))
FlipSet(s, C) == [k \in 1..Len(s) |-> IF k \in C THEN -s[k] ELSE s[k]]
(* twice the log2 weight of a state                                           *)
H2(r, s) == Dot(r.b, s) + SumTo(r.n, LAMBDA i : SumTo(i - 1, LAMBDA j : Strength(r, s, j, i)))

(* The law of the cluster, first as the algorithm explores it: the front of   *)
(* the queue offers a bond to every spin outside the cluster; the new members *)
(* join the end of the queue in increasing order.  lifo explores from the end.*)
RECURSIVE Offers(_, _, _, _, _)
Offers(r, s, i, T, U) ==    \* probability that of the spins U exactly T join
  IF U = {} THEN ROne
  ELSE LET j == CHOOSE j \in U : TRUE
           p == BondP(r, s, i, j)
       IN  RMul(IF j \in T THEN p ELSE Not(p), Offers(r, s, i, T, U \ {j}))
Sorted(T, n) == FilterSeq(Iota(n), T)
RECURSIVE Grow(_, _, _, _, _, _)
Grow(r, s, marked, queue, C, lifo) ==   \* probability that the cluster is C
  IF ~(marked \subseteq C) THEN RZero
  ELSE IF queue = <<>> THEN (IF marked = C THEN ROne ELSE RZero)
  ELSE LET i == IF lifo THEN queue[Len(queue)] ELSE queue[1]
           rest == IF lifo THEN SubSeq(queue, 1, Len(queue) - 1) ELSE Tail(queue)
           U == (1..r.n) \ marked
       IN  RSumSet({<<T, LET p == Offers(r, s, i, T, U)
                         IN IF p[1] = 0 THEN RZero
                            ELSE RMul(p, Grow(r, s, marked \union T, rest \o Sorted(T, r.n), C, lifo))>>
                    : T \in SUBSET (C \ marked)})
Cluster(r, s, i, C, lifo) == Grow(r, s, {i}, <<i>>, C, lifo)

(* and as percolation: all bonds drawn at once, C is the component of i       *)
RECURSIVE Close(_, _)
Close(S, E) == LET T == S \union {j \in UNION E : \E e \in E : j \in e /\ e \cap S # {}}
               IN  IF T = S THEN S ELSE Close(T, E)
PairSet(n) == {{Pairs(n)[k][1], Pairs(n)[k][2]} : k \in 1..NPairs(n)}
BondOf(r, s, e) == LET i == CHOOSE i \in e : TRUE
                       j == CHOOSE j \in e : j # i
                   IN  BondP(r, s, i, j)
RECURSIVE DrawP(_, _, _, _)
DrawP(r, s, E, U) == IF U = {} THEN ROne
                     ELSE LET e == CHOOSE e \in U : TRUE
                              p == BondOf(r, s, e)
                          IN  RMul(IF e \in E THEN p ELSE Not(p), DrawP(r, s, E, U \ {e}))
Percolation(r, s, i, C) ==
  RSumSet({<<E, IF Close({i}, E) = C THEN DrawP(r, s, E, PairSet(r.n)) ELSE RZero>> : E \in SUBSET PairSet(r.n)})

(* every bond decided by one common level u/256: activated iff u/256 < p      *)
Below(u, p) == u * p[2] < 256 * p[1]
Active(r, s, u) == {e \in PairSet(r.n) : Below(u, BondOf(r, s, e))}
CommonCluster(r, s, i, u) == Close({i}, Active(r, s, u))
Step(r, s, i, u) == LET C == CommonCluster(r, s, i, u)
                    IN  IF Below(u, FlipP(r, s, C)) THEN FlipSet(s, C) ELSE s
=============================================================================
