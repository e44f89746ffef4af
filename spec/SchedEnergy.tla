---------------------------- MODULE SchedEnergy -----------------------------
(* C08: a systematic chain in which every proposal is accepted, from a known  *)
(* start: the energies along it and the states recorded.                      *)
EXTENDS Ham, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
R == Cases[c]
(* the site (1..n) of update j (0-based) after the burn-in                    *)
SiteOf(r, j, cont) == IF cont THEN ((r.burn + j) % r.n) + 1 ELSE ((j % r.iters) % r.n) + 1
AfterBurn(r) == LET f[j \in 0..r.burn] == IF j = 0 THEN r.start ELSE Flip(f[j-1], ((j - 1) % r.n) + 1) IN f[r.burn]
Path(r, cont) == LET m == r.size * r.iters
                     f[j \in 0..m] == IF j = 0 THEN AfterBurn(r) ELSE Flip(f[j-1], SiteOf(r, j - 1, cont))
                 IN  [j \in 1..m |-> f[j]]
Out(r, cont) == LET p == Path(r, cont)
                IN  [path |-> p, hist |-> [j \in 1..Len(p) |-> Energy("ising", p[j], 2, r.theta)],
                     states |-> [x \in 1..r.size |-> p[x * r.iters]],
                     en |-> [x \in 1..r.size |-> Energy("ising", p[x * r.iters], 2, r.theta)]]
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Emit([id |-> R.id, ways |-> <<Out(R, FALSE), Out(R, TRUE)>>])
Spec == Init /\ [][Next]_<<c, done>>
Consistent == \A cont \in BOOLEAN : LET o == Out(R, cont) IN
   \A x \in 1..R.size : o.en[x] = o.hist[x * R.iters] /\ o.en[x] = Energy("ising", o.states[x], 2, R.theta)
=============================================================================
