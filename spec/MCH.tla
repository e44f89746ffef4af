-------------------------------- MODULE MCH ---------------------------------
(* C12: Monte Carlo histogram estimation.  The sampler and the reweighting    *)
(* prediction are the environment: the sampler may answer with any of the     *)
(* error vectors in Diffs (average of the new sample minus target), and so    *)
(* may the prediction.  Errors are in units of 1/4, multipliers in 1/32, eta  *)
(* in 1/2.  The error vectors have rational norms.                            *)
(* A case: m parameters, ix (the chosen ones, increasing), lam0 (initial      *)
(* guess of the chosen ones), tol and tolNorm (units of 1/4; 0: default),     *)
(* maxiter, size (initial sample size), sets: settings of each iteration      *)
(* [eta, maxd, maxnorm, maxsteps, size].                                      *)
EXTENDS Base, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
CONSTANTS Bounded
VARIABLES c, ph, counter, steps, lam, dlam, diff, dist, size, flag, tr
vars == <<c, ph, counter, steps, lam, dlam, diff, dist, size, flag, tr>>
R == Cases[c]
M == Len(R.ix)
Diffs == { R.diffs[x] : x \in 1..Len(R.diffs) }
Sq(v) == SumTo(Len(v), LAMBDA k : v[k] * v[k])
Root(x) == CHOOSE y \in 0..60 : y * y = x
Norm(v) == Root(Sq(v))
Log(e) == tr' = IF Bounded THEN <<>> ELSE Append(tr, e)
Set(k) == R.sets[MinOf(k + 1, Len(R.sets))]
Fill(v) == [j \in 1..R.m |-> IF IsIn(j, R.ix) THEN v[CHOOSE q \in 1..M : R.ix[q] = j] ELSE 0]
Zero == [q \in 1..M |-> 0]
(* tolerances in units of 1/4; the defaults are 1/sqrt(size) per observable   *)
(* and, for the norm, the number of multipliers times that                    *)
Tol == IF R.tol # 0 THEN R.tol ELSE 4 \div Root(R.size)
TolNorm == IF R.tolNorm # 0 THEN R.tolNorm ELSE (4 * R.m) \div Root(R.size)
Small(v) == Sq(v) < TolNorm * TolNorm /\ \A q \in 1..M : Abs(v[q]) < Tol

Init == /\ c \in 1..Len(Cases) /\ ph = "start" /\ counter = 0 /\ steps = 0
        /\ lam = R.lam0 /\ dlam = Zero /\ diff = Zero /\ dist = 4 /\ size = R.size /\ flag = -1 /\ tr = <<>>
Sampled(d) == diff' = d /\ Log([e |-> "sample", lam |-> Fill(lam), size |-> size, diff |-> d])
FirstSample == /\ ph = "start" /\ \E d \in Diffs : Sampled(d)
               /\ ph' = "learn" /\ steps' = 0 /\ dlam' = Zero /\ dist' = 4 /\ size' = Set(0).size
               /\ UNCHANGED <<c, counter, lam, flag>>
S == Set(counter)
Learn == /\ ph = "learn"
         /\ LET new == [q \in 1..M |-> dlam[q] - diff[q] * MinOf(dist, 4) * S.eta]
                k == steps + 1
                over == Sq(new) > S.maxnorm * S.maxnorm \/ \E q \in 1..M : Abs(new[q]) > S.maxd
            IN  \E d \in Diffs :
                /\ dlam' = new /\ steps' = k /\ diff' = d /\ dist' = Norm(d)
                /\ Log([e |-> "predict", dlam |-> Fill(new), diff |-> d])
                /\ IF over \/ k > S.maxsteps
                   THEN ph' = "sample" /\ lam' = [q \in 1..M |-> lam[q] + new[q]]
                   ELSE ph' = "learn" /\ UNCHANGED lam
         /\ UNCHANGED <<c, counter, size, flag>>
Resample == /\ ph = "sample" /\ counter' = counter + 1
            /\ \E d \in Diffs :
               /\ Sampled(d)
               /\ IF Small(d) THEN ph' = "done" /\ flag' = 0 /\ UNCHANGED size
                  ELSE IF counter' > R.maxiter THEN ph' = "done" /\ flag' = 1 /\ UNCHANGED size
                  ELSE ph' = "learn" /\ UNCHANGED flag /\ size' = Set(counter').size
            /\ steps' = 0 /\ dlam' = Zero /\ dist' = 4
            /\ UNCHANGED <<c, lam>>
Report == /\ ph = "done" /\ ph' = "over" /\ (IF Bounded THEN TRUE ELSE Emit([id |-> R.id, tr |-> tr, flag |-> flag, lam |-> Fill(lam), counter |-> counter]))
          /\ UNCHANGED <<c, counter, steps, lam, dlam, diff, dist, size, flag, tr>>
Next == FirstSample \/ Learn \/ Resample \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- laws ---- *)
FlagMeans == ph \in {"done", "over"} =>
   /\ (flag = 0) = Small(diff)
   /\ flag = 1 => counter = R.maxiter + 1
   /\ flag \in {0, 1} /\ counter <= R.maxiter + 1 /\ counter >= 1
(* while learning goes on the change stays within the limits                  *)
Limits == (ph = "learn" /\ steps > 0) =>
   /\ Sq(dlam) <= S.maxnorm * S.maxnorm /\ \A q \in 1..M : Abs(dlam[q]) <= S.maxd
   /\ steps <= S.maxsteps
Others == \A j \in 1..R.m : ~IsIn(j, R.ix) => Fill(lam)[j] = 0
(* the first move of an iteration is against the error of the sample          *)
Against == [][(ph = "learn" /\ steps = 0 /\ ph' \in {"learn", "sample"}) => dlam' = [q \in 1..M |-> -4 * S.eta * diff[q]]]_vars
Terminates == <>(ph = "over")
=============================================================================
