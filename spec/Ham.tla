-------------------------------- MODULE Ham ---------------------------------
(* The Hamiltonians of the package.  A model is given by its observables:    *)
(* the energy of a state is minus the inner product of the multipliers with  *)
(* the observables.  Layout: fields first, then interactions in              *)
(* lexicographic order of their site indices.                                *)
EXTENDS Base

PairProds(s) == LET P == Pairs(Len(s)) IN [q \in 1..Len(P) |-> s[P[q][1]] * s[P[q][2]]]
IsingObs(s) == s \o PairProds(s)
SymObs(s) == PairProds(s)
TripObs(s) == LET T == Triples(Len(s))
              IN IsingObs(s) \o [q \in 1..Len(T) |-> s[T[q][1]] * s[T[q][2]] * s[T[q][3]]]
(* Potts: k blocks of n occupation indicators (block a says which spins are  *)
(* in state a), then the indicator that both spins of a pair agree.          *)
PottsObs(s, k) ==
  LET n == Len(s)
      P == Pairs(n)
  IN  [x \in 1..(n * k) |-> Bool01(s[((x - 1) % n) + 1] = (x - 1) \div n)]
      \o [q \in 1..Len(P) |-> Bool01(s[P[q][1]] = s[P[q][2]])]

Obs(model, s, k) == CASE model = "ising"   -> IsingObs(s)
                      [] model = "sym"     -> SymObs(s)
                      [] model = "triplet" -> TripObs(s)
                      [] model = "potts"   -> PottsObs(s, k)
NParams(model, n, k) == CASE model = "ising"   -> n + NPairs(n)
                          [] model = "sym"     -> NPairs(n)
                          [] model = "triplet" -> n + NPairs(n) + (n * (n - 1) * (n - 2)) \div 6
                          [] model = "potts"   -> n * k + NPairs(n)
Energy(model, s, k, theta) == - Dot(theta, Obs(model, s, k))

(* All states of n spins in the binary counting order, first spin slowest.   *)
BinStates(n) == [v \in 1..(2^n) |-> Digits(v - 1, 2, n)]
SymStates(n) == [v \in 1..(2^n) |-> LET d == Digits(v - 1, 2, n) IN [i \in 1..n |-> 2 * d[i] - 1]]
PottsStates(n, k) == [v \in 1..(k^n) |-> Digits(v - 1, k, n)]

Flip(s, i) == [s EXCEPT ![i] = - s[i]]
Flip01(s, i) == [s EXCEPT ![i] = 1 - s[i]]
SetAt(s, i, a) == [s EXCEPT ![i] = a]

(* Position of the coupling of pair (i,j), i#j, in the pair list (1-based).  *)
PairIx(n, i, j) == LET a == MinOf(i, j)
                       b == MaxOf(i, j)
                   IN  SumTo(a - 1, LAMBDA l : n - l) + (b - a)
Coupling(theta, nf, n, i, j) == theta[nf + PairIx(n, i, j)]
(* Energy change of flipping spin i of an Ising state, from the local field. *)
LocalDelta(s, i, theta) ==
  LET n == Len(s)
  IN  2 * s[i] * (theta[i] + SumTo(n, LAMBDA j : IF j = i THEN 0
                                         ELSE Coupling(theta, n, n, i, j) * s[j]))
PottsLocalDelta(s, k, i, a, theta) ==
  LET n == Len(s)
  IN  theta[s[i] * n + i] - theta[a * n + i]
      + SumTo(n, LAMBDA j : IF j = i THEN 0
               ELSE Coupling(theta, k * n, n, i, j) * (Bool01(s[j] = s[i]) - Bool01(s[j] = a)))
=============================================================================
