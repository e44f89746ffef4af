----------------------------- MODULE Components ------------------------------
(* C21: connected components of a graph, and bonds drawn between spins whose  *)
(* coupling is satisfied (j: signs of couplings, p, u in 1/64).               *)
EXTENDS Bond, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
R == Cases[c]
Edges(r) == {{Pairs(r.n)[k][1], Pairs(r.n)[k][2]} : k \in {k \in 1..NPairs(r.n) : r.adj[k] = 1}}
Parts(r) == {Close({i}, Edges(r)) : i \in 1..r.n}
Prod(r) == [k \in 1..NPairs(r.n) |-> r.s[Pairs(r.n)[k][1]] * r.s[Pairs(r.n)[k][2]]]
Bonds(r) == [k \in 1..NPairs(r.n) |-> IF r.j[k] * Prod(r)[k] > 0 /\ r.u[k] < r.p[k] THEN 1 ELSE 0]
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Emit([id |-> R.id, parts |-> Parts(R), prod |-> Prod(R), bonds |-> Bonds(R)])
Spec == Init /\ [][Next]_<<c, done>>
Partition == /\ UNION Parts(R) = 1..R.n
             /\ \A C \in Parts(R) : \A D \in Parts(R) : C = D \/ C \cap D = {}
NoBridge == \A e \in Edges(R) : \E C \in Parts(R) : e \subseteq C
=============================================================================
