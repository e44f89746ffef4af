---------------------------- MODULE PartialFreq -----------------------------
(* C13: how many states of a sample agree with a partially observed state     *)
(* (0: not observed), and how a vector of chosen parameters is filled in.     *)
EXTENDS Base, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
R == Cases[c]
Agree(s, p) == \A i \in 1..Len(p) : p[i] = 0 \/ s[i] = p[i]
Count(r, p) == SumTo(Len(r.sample), LAMBDA x : Bool01(Agree(r.sample[x], p)))
Filled(r) == [j \in 1..r.m |-> IF IsIn(j, r.ix) THEN r.x[CHOOSE q \in 1..Len(r.ix) : r.ix[q] = j] ELSE 0]
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c
        /\ Emit([id |-> R.id, size |-> Len(R.sample), counts |-> [x \in 1..Len(R.states) |-> Count(R, R.states[x])], filled |-> Filled(R)])
Spec == Init /\ [][Next]_<<c, done>>
(* an unobserved spin adds the counts of its two values                       *)
Marginal == \A x \in 1..Len(R.states) : \A i \in 1..Len(R.states[x]) :
   R.states[x][i] = 0 => Count(R, R.states[x]) = Count(R, [R.states[x] EXCEPT ![i] = 1]) + Count(R, [R.states[x] EXCEPT ![i] = -1])
=============================================================================
