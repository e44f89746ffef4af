----------------------------- MODULE WolffTable ------------------------------
(* C21: exact transition probabilities of one cluster update; r.exact asks    *)
(* for them, r.levels for the outcome when one number decides every draw.     *)
EXTENDS Bond, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
R == Cases[c]
N == R.n
Outcomes(r, s, i) ==
  {<<C, Cluster(r, s, i, C, FALSE)>> : C \in {D \in SUBSET (1..r.n) : i \in D}}
Live(r, s, i) == {x \in Outcomes(r, s, i) : x[2][1] > 0}
Row(r, s, i) == {[c |-> x[1], p |-> x[2], f |-> FlipP(r, s, x[1])] : x \in Live(r, s, i)}
Exact(r) == [id |-> r.id, rows |-> [x \in 1..2^r.n |-> [i \in 1..r.n |-> Row(r, Spin(x - 1, r.n), i)]]]
Common(r) == [id |-> r.id, steps |-> [x \in 1..Len(r.s) |-> [i \in 1..r.n |-> [l \in 1..Len(r.levels) |->
                 <<CommonCluster(r, r.s[x], i, r.levels[l]), Step(r, r.s[x], i, r.levels[l])>>]]],
              h2 |-> [x \in 1..Len(r.s) |-> H2(r, r.s[x])]]
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Emit(IF R.exact THEN Exact(R) ELSE Common(R))
Spec == Init /\ [][Next]_<<c, done>>

Small == R.exact
SumsToOne == Small => \A s \in States(N) : \A i \in 1..N : RSumSet(Outcomes(R, s, i)) = ROne
(* the order in which the cluster is explored does not matter                 *)
OrderFree == Small => \A s \in States(N) : \A i \in 1..N : \A C \in SUBSET (1..N) : i \in C =>
               /\ Cluster(R, s, i, C, FALSE) = Cluster(R, s, i, C, TRUE)
               /\ Cluster(R, s, i, C, FALSE) = Percolation(R, s, i, C)
(* w(s) P(s -> s') = w(s') P(s' -> s) for each initial site by itself         *)
Times2(x, e) == IF e >= 0 THEN RMul(x, <<2^e, 1>>) ELSE RMul(x, <<1, 2^(-e)>>)
Balance == Small => \A s \in States(N) : \A i \in 1..N : \A C \in SUBSET (1..N) : i \in C =>
             LET t == FlipSet(s, C)
                 d == (H2(R, t) - H2(R, s)) \div 2
             IN  /\ (H2(R, t) - H2(R, s)) % 2 = 0
                 /\ RMul(Cluster(R, s, i, C, FALSE), FlipP(R, s, C))
                    = Times2(RMul(Cluster(R, t, i, C, FALSE), FlipP(R, t, C)), d)
(* aligned only                                                               *)
Aligned == Small => \A s \in States(N) : \A i \in 1..N : \A C \in SUBSET (1..N) :
             (i \in C /\ Cluster(R, s, i, C, FALSE)[1] > 0) =>
               \A j \in C \ {i} : \E k \in C : k # j /\ Strength(R, s, j, k) > 0
=============================================================================
