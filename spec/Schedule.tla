------------------------------ MODULE Schedule ------------------------------
(* C08: what a sampler does with its updates.  A session is a sequence of     *)
(* sampling runs (serial or parallel) on one sampler.  A run advances a       *)
(* number of chains; each chain makes `burn' updates, then `iters' updates    *)
(* before each recorded state.  The recorded states of the chains are         *)
(* concatenated and cut to the requested size.  With every proposal accepted, *)
(* a state of +-1 spins is its start with each site flipped as often as it    *)
(* was visited.  Where the sweep resumes after a recorded state is not fixed  *)
(* by the documentation: at the first site again, or where it stopped; both   *)
(* schedules are given.                                                       *)
EXTENDS Base
CONSTANTS N, NCpu, MaxOps, Sizes, Iters, Burns, Exhaustive
VARIABLES live,   \* number of chains whose last state is kept (0: none)
          req,    \* the run asked for next (<<>>: none)
          ops     \* the session so far
vars == <<live, req, ops>>
CeilDiv(a, b) == (a + b - 1) \div b
(* visits of site i after burn and k blocks                                   *)
Cyc(m, i) == (m + N - i) \div N          \* visits of site i by m updates from site 1
VisitsRestart(b, t, k) == [i \in 1..N |-> Cyc(b, i) + k * Cyc(t, i)]
VisitsCont(b, t, k) == [i \in 1..N |-> Cyc(b + k * t, i)]
Eff(b, t) == IF b = 99 THEN t ELSE b     \* burn-in defaults to the spacing
Chains(kind) == IF kind = "serial" THEN 1 ELSE NCpu
PerChain(kind, size) == CeilDiv(size, Chains(kind))
Records(kind, size, b, t, V(_, _, _)) ==
  [x \in 1..size |-> [chain |-> (x - 1) \div PerChain(kind, size) + 1,
                      visits |-> V(Eff(b, t), t, ((x - 1) % PerChain(kind, size)) + 1)]]
Start(kind, init) == IF init THEN "init" ELSE IF live = Chains(kind) THEN "cont" ELSE "fresh"
Run(kind, size, b, t, init) ==
  [kind |-> kind, size |-> size, burn |-> b, iters |-> t, start |-> Start(kind, init),
   per |-> PerChain(kind, size),
   restart |-> Records(kind, size, b, t, VisitsRestart),
   cont |-> Records(kind, size, b, t, VisitsCont),
   endr |-> VisitsRestart(Eff(b, t), t, PerChain(kind, size)),
   endc |-> VisitsCont(Eff(b, t), t, PerChain(kind, size))]
Init == live = 0 /\ ops = <<>> /\ req = <<>>
Ask == /\ req = <<>> /\ (Exhaustive \/ Len(ops) < MaxOps)
       /\ \E kind \in {"serial", "parallel"}, size \in Sizes, b \in Burns, t \in Iters, init \in BOOLEAN :
             req' = <<kind, size, b, t, init>>
       /\ UNCHANGED <<live, ops>>
Do == /\ req # <<>> /\ req' = <<>>
      /\ live' = Chains(req[1])
      /\ LET o == Run(req[1], req[2], req[3], req[4], req[5])
         IN  ops' = IF Exhaustive THEN <<o>> ELSE Append(ops, o)
Finish == ~Exhaustive /\ Len(ops) = MaxOps /\ Emit([ops |-> ops]) /\ ops' = <<>> /\ live' = 0 /\ req' = <<>>
Next == Ask \/ Do \/ Finish
Spec == Init /\ [][Next]_vars

Total(v) == SumSeq(v)
RunOK(o) ==
  /\ Len(o.restart) = o.size /\ Len(o.cont) = o.size
  /\ \A x \in 1..o.size :
       LET k == ((x - 1) % o.per) + 1
       IN  /\ Total(o.restart[x].visits) = Eff(o.burn, o.iters) + k * o.iters
           /\ Total(o.cont[x].visits) = Eff(o.burn, o.iters) + k * o.iters
           (* a systematic sweep never favours a site by more than one visit  *)
           /\ \A i, j \in 1..N : Abs(o.cont[x].visits[i] - o.cont[x].visits[j]) <= 1
           /\ \A i \in 1..(N-1) : o.restart[x].visits[i] >= o.restart[x].visits[i+1]
           /\ (o.iters % N = 0 /\ Eff(o.burn, o.iters) % N = 0) => o.restart[x] = o.cont[x]
           /\ o.restart[x].chain \in 1..Chains(o.kind)
  /\ o.per * Chains(o.kind) >= o.size
  /\ (o.per - 1) * Chains(o.kind) < o.size
  (* a chain is continued only from a run with equally many chains            *)
SessionOK == \A q \in 1..Len(ops) : RunOK(ops[q])
FirstFresh == (~Exhaustive /\ Len(ops) > 0) => ops[1].start # "cont"
=============================================================================
