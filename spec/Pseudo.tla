------------------------------- MODULE Pseudo -------------------------------
(* C16: single-spin conditionals of the Ising and Potts models.  For every    *)
(* spin r and observed state s, the alternatives of s (other values of spin   *)
(* r) change the observables by integer vectors; the conditional probability  *)
(* of the observed value is 1 / (1 + sum over alternatives of exp(theta . d)).*)
(* Multipliers are integer multiples of ln 2.                                 *)
EXTENDS Ham, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
R == Cases[c]
N(r) == Len(r.sample[1])
Values(r) == IF r.model = "potts" THEN Iota(r.k) ELSE IF r.dom = "01" THEN <<1, 2>> ELSE <<0, 2>>   \* value + 1
Alternatives(r, s, i) == FilterSeq(Values(r), (0..20) \ {s[i] + 1})
O(r, s) == Obs(r.model, s, r.k)
Delta(r, s, i, a) == LET x == O(r, s)
                         y == O(r, SetAt(s, i, a))
                     IN  [q \in 1..Len(x) |-> y[q] - x[q]]
Deltas(r, s, i) == LET A == Alternatives(r, s, i) IN [x \in 1..Len(A) |-> [to |-> A[x] - 1, d |-> Delta(r, s, i, A[x] - 1)]]
(* the parameters spin r's conditional depends on: its own field(s), then the *)
(* couplings to the other spins in increasing order (1-based places)          *)
Blocks(r) == IF r.model = "potts" THEN r.k ELSE 1
Own(r, i) == [b \in 1..Blocks(r) |-> (b - 1) * N(r) + i]
             \o SeqMap(LAMBDA j : Blocks(r) * N(r) + PairIx(N(r), i, j), FilterSeq(Iota(N(r)), 1..N(r) \ {i}))
             \o (IF r.model # "triplet" THEN <<>>
                 ELSE LET T == Triples(N(r))
                      IN  FilterSeq([x \in 1..(N(r) + NPairs(N(r)) + Len(T)) |-> x],
                                    {N(r) + NPairs(N(r)) + x : x \in {y \in 1..Len(T) : IsIn(i, T[y])}}))
Pick(v, ix) == [q \in 1..Len(ix) |-> v[ix[q]]]
(* exact conditionals: 1 / (1 + sum of 2^(theta . d)) as <<num, den>>          *)
Cond(r, s, i) == LET D == Deltas(r, s, i)
                     e == [x \in 1..Len(D) |-> Dot(D[x].d, r.theta)]
                     m == MinOf(0, MinSeq(e))
                 IN  <<2^(-m), 2^(-m) + SumTo(Len(e), LAMBDA x : 2^(e[x] - m))>>
Result(r) ==
  [id |-> r.id,
   own |-> [i \in 1..N(r) |-> Own(r, i)],
   obs |-> [i \in 1..N(r) |-> [x \in 1..Len(r.sample) |-> Pick(O(r, r.sample[x]), Own(r, i))]],
   alt |-> [i \in 1..N(r) |-> [x \in 1..Len(r.sample) |->
             LET D == Deltas(r, r.sample[x], i)
             IN [y \in 1..Len(D) |-> [to |-> D[y].to, d |-> D[y].d, obs |-> Pick(O(r, SetAt(r.sample[x], i, D[y].to)), Own(r, i))]]]],
   cond |-> [i \in 1..N(r) |-> [x \in 1..Len(r.sample) |-> Cond(r, r.sample[x], i)]]]
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Emit(Result(R))
Spec == Init /\ [][Next]_<<c, done>>

(* ---- laws ---- *)
W(r, s) == Dot(O(r, s), r.theta)
(* the conditionals are ratios of joint weights                               *)
Ratios == \A x \in 1..Len(R.sample) : \A i \in 1..N(R) :
  LET s == R.sample[x]
      V == Values(R)
      e == [y \in 1..Len(V) |-> W(R, SetAt(s, i, V[y] - 1))]
      m == MinSeq(e)
      z == SumTo(Len(V), LAMBDA y : 2^(e[y] - m))
      p == Cond(R, s, i)
  IN  p[1] * z = p[2] * 2^(W(R, s) - m)
(* they depend on nothing but spin r's own parameters                         *)
OwnOnly == \A x \in 1..Len(R.sample) : \A i \in 1..N(R) :
  LET D == Deltas(R, R.sample[x], i)
  IN  \A y \in 1..Len(D) : \A q \in 1..Len(R.theta) : ~IsIn(q, Own(R, i)) => D[y].d[q] = 0
(* the conditionals of all values of a spin add up to one                     *)
AddUp == \A x \in 1..Len(R.sample) : \A i \in 1..N(R) :
  LET V == Values(R)
      P == [y \in 1..Len(V) |-> Cond(R, SetAt(R.sample[x], i, V[y] - 1), i)]
      sum[k \in 0..Len(P)] == IF k = 0 THEN <<0, 1>> ELSE Rat(sum[k-1][1] * P[k][2] + P[k][1] * sum[k-1][2], sum[k-1][2] * P[k][2])
  IN  sum[Len(P)] = <<1, 1>>
=============================================================================
