--------------------------- MODULE CoarseLattice ----------------------------
(* C17: block spins of a lattice of -1/+1: the sign of the sum over each full *)
(* factor x factor block; 0 stands for a tie, which may become either sign.   *)
(* Rows and columns that fill no block are left out.                          *)
EXTENDS Base, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
R == Cases[c]
Rows(r) == Len(r.x) \div r.f
Cols(r) == Len(r.x[1]) \div r.f
BlockSum(r, i, j) == SumTo(r.f, LAMBDA a : SumTo(r.f, LAMBDA b : r.x[(i - 1) * r.f + a][(j - 1) * r.f + b]))
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Block(r) == [i \in 1..Rows(r) |-> [j \in 1..Cols(r) |-> Sgn(BlockSum(r, i, j))]]
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Emit([id |-> R.id, y |-> Block(R)])
Spec == Init /\ [][Next]_<<c, done>>
(* the sign says which value is in the majority; turning all spins over turns *)
(* over every block                                                           *)
Ups(r, i, j) == SumTo(r.f, LAMBDA a : SumTo(r.f, LAMBDA b : Bool01(r.x[(i - 1) * r.f + a][(j - 1) * r.f + b] = 1)))
Majority == \A i \in 1..Rows(R) : \A j \in 1..Cols(R) : Block(R)[i][j] = Sgn(2 * Ups(R, i, j) - R.f * R.f)
Odd == LET B == Block([R EXCEPT !.x = [i \in 1..Len(R.x) |-> [j \in 1..Len(R.x[1]) |-> - R.x[i][j]]]])
       IN  \A i \in 1..Rows(R) : \A j \in 1..Cols(R) : B[i][j] = - Block(R)[i][j]
=============================================================================
