----------------------------- MODULE TemperBeta -----------------------------
(* C10: adapting the inverse temperatures.  Spacings are scaled by the        *)
(* acceptance ratio of their pair relative to the mean; the coldest replica   *)
(* keeps its temperature.  beta = b/64, ratios a/8.                           *)
EXTENDS Base, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
R == Cases[c]
M == Len(R.b)
(* new beta times (64 * sum a), integers                                      *)
New(r) == LET m == Len(r.b)
              S == SumSeq(r.a)
              f[i \in 1..m] == IF i = 1 THEN S * r.b[m]
                               ELSE f[i-1] - (r.b[m - i + 2] - r.b[m - i + 1]) * r.a[m - i + 1] * (m - 1)
          IN  [i \in 1..m |-> f[m - i + 1]]
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Emit([id |-> R.id, new |-> New(R), den |-> 64 * SumSeq(R.a)])
Spec == Init /\ [][Next]_<<c, done>>
ColdKept == New(R)[M] = SumSeq(R.a) * R.b[M]
Increasing == (\A i \in 1..(M-1) : R.a[i] > 0 /\ R.b[i] < R.b[i+1]) => \A i \in 1..(M-1) : New(R)[i] < New(R)[i+1]
EqualRatiosFixed == (\A i \in 1..(M-1) : R.a[i] = R.a[1]) => \A i \in 1..M : New(R)[i] = SumSeq(R.a) * R.b[i]
=============================================================================
