------------------------------- MODULE Coarse -------------------------------
(* C17: coarse-graining the columns of a data set by similarity.  In every    *)
(* round a most similar pair of the columns still waiting is merged (any one  *)
(* of them when several are equally similar) until at most one is left, which *)
(* goes to the next round alone.  Columns carry the set of original columns   *)
(* they came from.                                                            *)
EXTENDS Base, IOUtils, FiniteSetsExt
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, round, waiting, merged, pairs
vars == <<c, round, waiting, merged, pairs>>
R == Cases[c]
NRows == Len(R.x)
NCols == Len(R.x[1])
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Sim(a, b) == CASE R.sim = "dot"   -> SumTo(NRows, LAMBDA r : a[r] * b[r])
               [] R.sim = "neg"   -> - SumTo(NRows, LAMBDA r : a[r] * b[r])
               [] R.sim = "dist"  -> - SumTo(NRows, LAMBDA r : Abs(a[r] - b[r]))
               [] R.sim = "agree" -> SumTo(NRows, LAMBDA r : Bool01(a[r] = b[r]))
               [] R.sim = "none"  -> 0
Merge2(a, b) == [r \in 1..NRows |-> CASE R.coarse = "sum"  -> a[r] + b[r]
                                      [] R.coarse = "sign" -> Sgn(a[r] + b[r])
                                      [] R.coarse = "prod" -> a[r] * b[r]
                                      [] R.coarse = "max"  -> MaxOf(a[r], b[r])]
Merge1(a) == [r \in 1..NRows |-> IF R.coarse = "sign" THEN Sgn(a[r]) ELSE a[r]]
Column(j) == [r \in 1..NRows |-> R.x[r][j]]
All == waiting \cup merged
Init == /\ c \in 1..Len(Cases) /\ round = 1 /\ merged = {} /\ pairs = {}
        /\ waiting = {[g |-> {j}, col |-> Column(j)] : j \in 1..NCols}
Best == {p \in SUBSET waiting : Cardinality(p) = 2
          /\ LET S == {<<a, b>> \in waiting \X waiting : a # b}
                 top == Max({Sim(q[1].col, q[2].col) : q \in S})
             IN  \E a \in p : \E b \in p \ {a} : Sim(a.col, b.col) = top}
Pair == /\ round <= R.times /\ Cardinality(waiting) >= 2
        /\ \E p \in Best :
             LET a == CHOOSE x \in p : TRUE
                 b == CHOOSE x \in p : x # a
             IN  /\ waiting' = waiting \ p
                 /\ merged' = merged \cup {[g |-> a.g \cup b.g, col |-> Merge2(a.col, b.col)]}
                 /\ pairs' = pairs \cup {p}
        /\ UNCHANGED <<c, round>>
NextRound == /\ round <= R.times /\ Cardinality(waiting) <= 1
             /\ waiting' = merged \cup {[g |-> a.g, col |-> Merge1(a.col)] : a \in waiting}
             /\ merged' = {} /\ pairs' = {} /\ round' = round + 1 /\ c' = c
             /\ IF round = R.times THEN Emit([id |-> R.id, groups |-> waiting']) ELSE TRUE
Next == Pair \/ NextRound
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- laws ---- *)
Partition == /\ UNION {a.g : a \in All} = 1..NCols
             /\ \A a \in All : \A b \in All : a = b \/ a.g \cap b.g = {}
(* a round that starts with n columns ends with n/2, rounded up               *)
RECURSIVE Halved(_, _)
Halved(n, t) == IF t = 0 THEN n ELSE Halved((n + 1) \div 2, t - 1)
Sizes == merged = {} => Cardinality(waiting) = Halved(NCols, round - 1)
(* no two columns that were not merged were more similar to one another than  *)
(* each was to its own partner                                                *)
PairSim(p) == LET a == CHOOSE x \in p : TRUE
                  b == CHOOSE x \in p : x # a
              IN  Sim(a.col, b.col)
NoneBetter == \A p \in pairs : \A a \in p : \A b \in (UNION pairs \cup waiting) \ p :
                \/ PairSim(p) >= Sim(a.col, b.col)
                \/ \E q \in pairs : b \in q /\ PairSim(q) >= Sim(a.col, b.col)
(* sums, products and maxima only depend on the group                         *)
ColumnOfGroup == R.coarse = "sum" => \A a \in All : \A r \in 1..NRows :
                   a.col[r] = SumTo(NCols, LAMBDA j : IF j \in a.g THEN R.x[r][j] ELSE 0)
Finishes == <>(round > R.times)
=============================================================================
