-------------------------------- MODULE Homog -------------------------------
(* C19: N spins of -1/+1 in the same field, all coupled alike:                *)
(* weight exp(h M + J M^2) with M the sum of the spins, h and J integer       *)
(* multiples of ln 2.                                                         *)
EXTENDS Base, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
R == Cases[c]
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
Mag(r, u) == 2 * u - r.n                       \* u spins up
Log(r, u) == r.h * Mag(r, u) + r.J * Mag(r, u) * Mag(r, u)
Low(r) == MinSeq([u \in 1..(r.n + 1) |-> Log(r, u - 1)])
W(r) == [u \in 1..(r.n + 1) |-> 2^(Log(r, u - 1) - Low(r))]
Result(r) == LET w == W(r)
             IN  [id |-> r.id, low |-> Low(r), w |-> w, count |-> [u \in 1..(r.n + 1) |-> Choose(r.n, u - 1)],
                  mag |-> [u \in 1..(r.n + 1) |-> Mag(r, u - 1)],
                  z |-> SumTo(r.n + 1, LAMBDA u : Choose(r.n, u - 1) * w[u]),
                  m1 |-> SumTo(r.n + 1, LAMBDA u : Choose(r.n, u - 1) * w[u] * Mag(r, u - 1))]
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Emit(Result(R))
Spec == Init /\ [][Next]_<<c, done>>
(* counting states by their magnetisation is summing over all of them         *)
AllStates(n) == [v \in 1..(2^n) |-> Digits(v - 1, 2, n)]
Counted == R.n <= 6 => LET S == AllStates(R.n)
                           w == W(R)
                       IN  /\ Result(R).z = SumTo(Len(S), LAMBDA v : w[SumSeq(S[v]) + 1])
                           /\ Result(R).m1 = SumTo(Len(S), LAMBDA v : w[SumSeq(S[v]) + 1] * Mag(R, SumSeq(S[v])))
(* turning the field around turns the magnetisation around                    *)
Odd == Result([R EXCEPT !.h = -R.h]).m1 = - Result(R).m1
=============================================================================
