------------------------------- MODULE Cluster ------------------------------
(* C14: the selection of clusters of the cluster expansion and the sums over  *)
(* the selected ones.  The entropies and couplings of the clusters are data:  *)
(* ent[mask] and par[mask] (fields, then couplings of the pairs), where mask  *)
(* has bit i-1 for member i; ref and refpar are the reference entropy and     *)
(* fields of each member.                                                     *)
EXTENDS Base, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, size, kept, seen, ph
vars == <<c, size, kept, seen, ph>>
R == Cases[c]
N == R.n
All == 1..N
Clusters == (SUBSET All) \ {{}}
Mask(v) == SumTo(N, LAMBDA i : IF i \in v THEN 2^(i - 1) ELSE 0)
NP == N + NPairs(N)
SumOver(S, f(_)) == LET Q == SetToSeq(S) IN SumTo(Len(Q), LAMBDA x : f(Q[x]))
S0(v) == SumTo(N, LAMBDA i : IF i \in v THEN R.ref[i] ELSE 0)
P0(v) == [q \in 1..NP |-> IF q <= N /\ q \in v THEN R.refpar[q] ELSE 0]
Excess(v) == R.ent[Mask(v)] - S0(v)
ExcessPar(v) == LET p == P0(v) IN [q \in 1..NP |-> R.par[Mask(v)][q] - p[q]]
(* contribution of a cluster: its excess minus the contributions of its       *)
(* proper subsets                                                             *)
Size(v) == Cardinality(v)
Contribution == LET d[v \in Clusters] == Excess(v) - SumOver((SUBSET v) \ {{}, v}, LAMBDA u : d[u]) IN d
ContributionPar == LET d[v \in Clusters] == LET e == ExcessPar(v) IN
                         [q \in 1..NP |-> e[q] - SumOver((SUBSET v) \ {{}, v}, LAMBDA u : d[u][q])] IN d

Init == c \in 1..Len(Cases) /\ size = 1 /\ kept = [k \in 1..R.n |-> IF k = 1 THEN {{i} : i \in 1..R.n} ELSE {}] /\ seen = {{i} : i \in 1..R.n} /\ ph = "grow"
Candidates == { v \in Clusters : Size(v) = size + 1 /\ \E a, b \in kept[size] : a # b /\ a \cup b = v }
Grow == /\ ph = "grow" /\ size < N /\ kept[size] # {}
        /\ LET D == Contribution
           IN  kept' = [kept EXCEPT ![size + 1] = { v \in Candidates : Abs(D[v]) > R.t }]
        /\ seen' = seen \cup UNION { (SUBSET v) \ {{}} : v \in Candidates }
        /\ size' = size + 1 /\ UNCHANGED <<c, ph>>
Kept == UNION { kept[k] : k \in 1..N }
Total == S0(All) + SumOver(Kept, LAMBDA v : Contribution[v])
TotalPar == LET D == ContributionPar IN [q \in 1..NP |-> P0(All)[q] + SumOver(Kept, LAMBDA v : D[v][q])]
(* four times the multipliers in the {-1,1} basis of exp(-h x - K x x)        *)
PairOf(i, j) == N + SumTo(MinOf(i, j) - 1, LAMBDA l : N - l) + MaxOf(i, j) - MinOf(i, j)
Mult(p) == [q \in 1..NP |-> IF q > N THEN - p[q]
              ELSE - 2 * p[q] - SumTo(N, LAMBDA j : IF j = q THEN 0 ELSE p[PairOf(q, j)])]
Report == /\ ph = "grow" /\ (size = N \/ kept[size] = {})
          /\ ph' = "done" /\ UNCHANGED <<c, size, kept, seen>>
          /\ LET D == Contribution
                 Q == SetToSeq(Clusters)
             IN Emit([id |-> R.id, kept |-> [k \in 1..N |-> SetToSeq({ Mask(v) : v \in kept[k] })],
                   seen |-> SetToSeq({ Mask(v) : v \in seen }), total |-> Total, par |-> TotalPar, mult |-> Mult(TotalPar),
                   delta |-> [m \in 1..Len(Q) |-> <<Mask(Q[m]), D[Q[m]]>>]])
Next == Grow \/ Report
Spec == Init /\ [][Next]_vars

(* ---- laws ---- *)
(* inclusion-exclusion: the alternating sum of the excesses of all subsets    *)
Moebius == ph = "done" =>
   LET D == Contribution
   IN \A v \in Clusters : D[v] = SumOver((SUBSET v) \ {{}}, LAMBDA u : (IF (Size(v) - Size(u)) % 2 = 0 THEN 1 ELSE -1) * Excess(u))
(* without a threshold: everything, hence the entropy and model of all spins  *)
Everything == (ph = "done" /\ R.t < 0) =>
   Kept = Clusters /\ Total = R.ent[2^N - 1] /\ TotalPar = R.par[2^N - 1]
Thresholded == \A v \in Kept : Size(v) > 1 => Abs(Contribution[v]) > R.t
(* every kept cluster has at least two kept subsets of one spin less          *)
Grown == \A v \in Kept : Size(v) > 1 => \E a, b \in Kept : a # b /\ a \subseteq v /\ b \subseteq v /\ Size(a) = Size(v) - 1 /\ Size(b) = Size(v) - 1
=============================================================================
