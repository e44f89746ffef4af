------------------------------ MODULE ModelObj ------------------------------
(* C11: the life of a model object.  Its multipliers can be replaced, a       *)
(* sampler attached, averages and probabilities asked for (by default at the  *)
(* stored multipliers, or at given ones) and states sampled (likewise).       *)
(* Multiplier vectors are named by their position in Thetas.                  *)
EXTENDS Base
CONSTANTS NT, MaxOps, Exhaustive
VARIABLES cur,      \* stored multipliers
          samp,     \* 0: no sampler yet; else the multipliers the sampler last used
          tr
vars == <<cur, samp, tr>>
T == 1..NT
Log(op, arg, uses) == tr' = IF Exhaustive THEN <<[op |-> op, arg |-> arg, uses |-> uses]>>
                             ELSE Append(tr, [op |-> op, arg |-> arg, uses |-> uses])
Init == cur \in T /\ samp = 0 /\ tr = <<[op |-> "new", arg |-> cur, uses |-> cur]>>
Replace(x) == cur' = x /\ UNCHANGED samp /\ Log("set", x, x)
Attach == samp' = cur /\ UNCHANGED cur /\ Log("setup", 0, cur)
Or(x) == IF x = 0 THEN cur ELSE x
Averages(x) == UNCHANGED <<cur, samp>> /\ Log("averages", x, Or(x))
Probs(x) == UNCHANGED <<cur, samp>> /\ Log("probabilities", x, Or(x))
Sample(x, par) == samp # 0 /\ samp' = Or(x) /\ UNCHANGED cur /\ Log(IF par THEN "parallel" ELSE "serial", x, Or(x))
Stored == UNCHANGED <<cur, samp>> /\ Log("stored", 0, cur)
Finish == ~Exhaustive /\ Len(tr) = MaxOps /\ Emit([tr |-> tr]) /\ tr' = <<>> /\ UNCHANGED <<cur, samp>>
Next == \/ /\ (Exhaustive \/ (Len(tr) > 0 /\ Len(tr) < MaxOps))
           /\ \/ \E x \in T : Replace(x)
              \/ Attach
              \/ \E x \in T \cup {0} : Averages(x) \/ Probs(x) \/ \E par \in BOOLEAN : Sample(x, par)
              \/ Stored
        \/ Finish
Spec == Init /\ [][Next]_vars
(* Nothing but a replacement changes the stored multipliers, and a request    *)
(* without multipliers of its own uses the stored ones.                       *)
Last == tr[Len(tr)]
Coherent == Len(tr) > 0 =>
   /\ (Last.op \in {"averages", "probabilities", "serial", "parallel", "stored"} /\ Last.arg = 0) => Last.uses = cur
   /\ Last.op = "set" => cur = Last.arg
   /\ Last.arg # 0 => Last.uses = Last.arg
OnlySetChanges == [][cur' # cur => (Len(tr') > 0 /\ tr'[Len(tr')].op = "set")]_vars
=============================================================================
