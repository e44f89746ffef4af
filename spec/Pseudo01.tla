------------------------------ MODULE Pseudo01 ------------------------------
(* C16, C19: single-spin conditionals of a {0,1} model given as a matrix: the *)
(* weight of a state x is exp(-h.x - sum over pairs of 2 J_ij x_i x_j), with   *)
(* fields on the diagonal.  The conditional of spin r at state x is            *)
(* 1 / (1 + exp(v . J[r])) with an integer vector v.  With minsize > 0, states *)
(* of fewer than that many ones do not exist: a spin that cannot be flipped    *)
(* off has conditional probability one.  J is in units of ln 2 / 2.            *)
EXTENDS Base, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
R == Cases[c]
N(r) == Len(r.sample[1])
V(r, x, i) == [j \in 1..N(r) |-> IF j = i THEN 2 * x[i] - 1 ELSE (2 * x[i] - 1) * 2 * x[j]]
Free(r, x, i) == ~(x[i] = 1 /\ SumSeq(x) <= r.minsize)
(* twice the energy in units of ln 2 / 2: fields at even units                *)
E(r, x) == SumTo(N(r), LAMBDA i : SumTo(N(r), LAMBDA j :
             IF i = j THEN r.j[i][i] * x[i] ELSE r.j[i][j] * x[i] * x[j]))
Result(r) == [id |-> r.id,
   v |-> [i \in 1..N(r) |-> [x \in 1..Len(r.sample) |-> V(r, r.sample[x], i)]],
   free |-> [i \in 1..N(r) |-> [x \in 1..Len(r.sample) |-> Bool01(Free(r, r.sample[x], i))]]]
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Emit(Result(R))
Spec == Init /\ [][Next]_<<c, done>>
(* the exponent is the energy of the state minus that of the flipped one      *)
Exponent == \A y \in 1..Len(R.sample) : \A i \in 1..N(R) :
  LET x == R.sample[y]
  IN  SumTo(N(R), LAMBDA j : V(R, x, i)[j] * R.j[i][j]) = E(R, x) - E(R, [x EXCEPT ![i] = 1 - x[i]])
=============================================================================
