------------------------------ MODULE Lattice -------------------------------
(* C18: the ferromagnetic Ising model on a periodic rectangular lattice with  *)
(* local fields, E = - J sum over bonds - sum h s, and the energy change of   *)
(* flipping one site.  Every site has a bond to the right and one downwards.  *)
EXTENDS Base, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
R == Cases[c]
A(r) == Len(r.x)
B(r) == Len(r.x[1])
Wrap(i, n) == ((i - 1) % n) + 1
At(x, i, j) == x[Wrap(i, Len(x))][Wrap(j, Len(x[1]))]
En(r, x) == - r.J * SumTo(A(r), LAMBDA i : SumTo(B(r), LAMBDA j : At(x, i, j) * (At(x, i + 1, j) + At(x, i, j + 1))))
            - SumTo(A(r), LAMBDA i : SumTo(B(r), LAMBDA j : r.h[i][j] * x[i][j]))
DE(r, x, i, j) == 2 * x[i][j] * (r.J * (At(x, i + 1, j) + At(x, i - 1, j) + At(x, i, j + 1) + At(x, i, j - 1)) + r.h[i][j])
Turn(x, i, j) == [x EXCEPT ![i][j] = - x[i][j]]
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c
        /\ Emit([id |-> R.id, de |-> [i \in 1..A(R) |-> [j \in 1..B(R) |-> DE(R, R.x, i, j)]]])
Spec == Init /\ [][Next]_<<c, done>>
LocalExact == \A i \in 1..A(R) : \A j \in 1..B(R) : DE(R, R.x, i, j) = En(R, Turn(R.x, i, j)) - En(R, R.x)
(* with acceptance min(1, 2^-dE) the weight 2^-E is stationary                *)
Balance == \A i \in 1..A(R) : \A j \in 1..B(R) :
   LET y == Turn(R.x, i, j)
   IN  En(R, R.x) + MaxOf(DE(R, R.x, i, j), 0) = En(R, y) + MaxOf(DE(R, y, i, j), 0)
(* the shape of the lattice does not matter up to transposition               *)
Transposed == LET T == [R EXCEPT !.x = [j \in 1..B(R) |-> [i \in 1..A(R) |-> R.x[i][j]]], !.h = [j \in 1..B(R) |-> [i \in 1..A(R) |-> R.h[i][j]]]]
              IN  En(T, T.x) = En(R, R.x)
=============================================================================
