------------------------------- MODULE Bracket ------------------------------
(* C22: choosing three grid points around the smallest of a list of values:   *)
(* the smallest (not at an end), the smallest before it and the smallest      *)
(* after it; equal values may be chosen from freely.                          *)
EXTENDS Base, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, left, mid, right, stage
vars == <<c, left, mid, right, stage>>
F == Cases[c].f
Least(lo, hi) == {k \in lo..hi : \A j \in lo..hi : F[k] <= F[j]}
Init == c \in 1..Len(Cases) /\ left = 0 /\ mid = 0 /\ right = 0 /\ stage = "mid"
Mid == /\ stage = "mid" /\ \E k \in Least(1, Len(F)) :
            /\ mid' = k
            /\ stage' = IF k = 1 \/ k = Len(F) THEN "boundary" ELSE "left"
       /\ UNCHANGED <<c, left, right>>
Left == /\ stage = "left" /\ \E k \in Least(1, mid - 1) : left' = k
        /\ stage' = "right" /\ UNCHANGED <<c, mid, right>>
Right == /\ stage = "right" /\ \E k \in Least(mid + 1, Len(F)) : right' = k
         /\ stage' = "done" /\ UNCHANGED <<c, left, mid>>
Next == Mid \/ Left \/ Right
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Report == stage \in {"done", "boundary"} => Emit([id |-> Cases[c].id, stage |-> stage, at |-> <<left, mid, right>>])
Encloses == stage = "done" => left < mid /\ mid < right /\ F[mid] <= F[left] /\ F[mid] <= F[right]
Tightest == stage = "done" => \A k \in 1..Len(F) : (k < mid => F[left] <= F[k]) /\ (k > mid => F[right] <= F[k])
Ends == <>(stage \in {"done", "boundary"})
=============================================================================
