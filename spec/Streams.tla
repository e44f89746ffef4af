------------------------------- MODULE Streams -------------------------------
(* C20: who may depend on which random numbers.  Several instances of one     *)
(* sampler work off the same script of operations, each at its own pace, each *)
(* with its own generator; instances 1 and 2 start with generators in equal   *)
(* states, instance 3 in another.  The global generator is reseeded and used  *)
(* by others at any time.  Results are symbols: an operation's result is a    *)
(* function of the operation, the state of the instance's generator, the      *)
(* multipliers and (for samplers that continue their chains) the kept states. *)
(* Parallel work is done by processes that finish in any order.               *)
EXTENDS Base
CONSTANTS Ops,       \* operations a script is made of: [k |-> kind, v |-> variant]
          Len0,      \* length of the script
          Keeps,     \* the sampler continues from the states of the last run
          Born,      \* its first states are drawn when it is made
          NProc, Exhaustive
I == 1..3
VARIABLES script, pc, gen, kept, theta, epoch,  \* per instance; gen, kept are symbols;
                                              \* epoch: the seed gen comes from
          names,    \* symbols in use; a symbol is a position in this table
          outs,     \* outs[i]: what the instance has returned
          busy,     \* per instance: chunks of running processes, by process
          glob,     \* state of the global generator
          log       \* the events, for the replay
vars == <<script, pc, gen, kept, theta, epoch, names, outs, busy, glob, log>>
Par(o) == o.k \in {"par", "condpar"}
Sampling(o) == o.k \in {"serial", "par", "cond", "condpar", "fresh", "draw"}
Find(t, x) == IF \E k \in 1..Len(t) : t[k] = x THEN CHOOSE k \in 1..Len(t) : t[k] = x ELSE 0
Put(t, x) == IF Find(t, x) > 0 THEN t ELSE Append(t, x)
Symbol(o, i) == <<o, gen[i], IF Keeps /\ o.k # "fresh" /\ o.k # "draw" THEN kept[i] ELSE 0, theta[i]>>
Note(e) == log' = IF Exhaustive THEN log ELSE Append(log, e)
Init == /\ script = <<>> /\ pc = [i \in I |-> 1]
        /\ names = << <<"seed", 1>>, <<"seed", 2>> >>
        /\ gen = [i \in I |-> IF i = 3 THEN 2 ELSE 1]
        /\ kept = [i \in I |-> IF Born THEN gen[i] ELSE 0] /\ theta = [i \in I |-> 0]
        /\ outs = [i \in I |-> <<>>] /\ busy = [i \in I |-> <<>>]
        /\ glob = 0 /\ log = <<>> /\ epoch = gen
Extend == /\ Len(script) < Len0 /\ \E o \in Ops : script' = Append(script, o)
          /\ UNCHANGED <<pc, gen, kept, theta, epoch, names, outs, busy, glob, log>>
Ready(i) == Len(script) = Len0 /\ pc[i] <= Len0 /\ busy[i] = <<>>
(* the result of an operation; the generator moves on                         *)
Return(i, sym, res) ==
  /\ names' = Put(Put(names, sym), <<"after", sym>>)
  /\ gen' = [gen EXCEPT ![i] = Find(names', <<"after", sym>>)]
  /\ kept' = [kept EXCEPT ![i] = IF sym[1].k = "draw" THEN @ ELSE Find(names', sym)]
  /\ outs' = [outs EXCEPT ![i] = Append(@, [at |-> pc[i], id |-> Find(names', sym), gen |-> gen[i], seed |-> epoch[i], v |-> res])]
  /\ pc' = [pc EXCEPT ![i] = @ + 1]
  /\ Note([i |-> i, at |-> pc[i]])
Serial(i) == /\ Ready(i) /\ Sampling(script[pc[i]]) /\ ~Par(script[pc[i]])
             /\ Return(i, Symbol(script[pc[i]], i), <<>>)
             /\ UNCHANGED <<script, theta, epoch, busy, glob>>
Fork(i) == /\ Ready(i) /\ Par(script[pc[i]])
           /\ busy' = [busy EXCEPT ![i] = [p \in 1..NProc |-> <<>>]]
           /\ UNCHANGED <<script, pc, gen, kept, theta, epoch, names, outs, glob, log>>
Chunk(i, p) == <<Symbol(script[pc[i]], i), p>>      \* the stream of process p
Finish(i, p) == /\ busy[i] # <<>> /\ busy[i][p] = <<>>
                /\ busy' = [busy EXCEPT ![i][p] = Chunk(i, p)]
                /\ UNCHANGED <<script, pc, gen, kept, theta, epoch, names, outs, glob, log>>
Join(i) == /\ busy[i] # <<>> /\ \A p \in 1..NProc : busy[i][p] # <<>>
           /\ Return(i, Symbol(script[pc[i]], i), busy[i])
           /\ busy' = [busy EXCEPT ![i] = <<>>]
           /\ UNCHANGED <<script, theta, epoch, glob>>
(* new multipliers; they do not come from the generator                       *)
Theta(i) == /\ Ready(i) /\ script[pc[i]].k = "theta"
            /\ theta' = [theta EXCEPT ![i] = script[pc[i]].v] /\ pc' = [pc EXCEPT ![i] = @ + 1]
            /\ Note([i |-> i, at |-> pc[i]])
            /\ UNCHANGED <<script, gen, kept, epoch, names, outs, busy, glob>>
(* the sampler of a model is made anew: without kept states, and from the     *)
(* same generator, which it may or may not draw from                          *)
Attach(i) == /\ Ready(i) /\ script[pc[i]].k = "setup"
             /\ names' = Put(names, <<"attached", gen[i]>>)
             /\ gen' = [gen EXCEPT ![i] = Find(names', <<"attached", gen[i]>>)]
             /\ kept' = [kept EXCEPT ![i] = 0] /\ pc' = [pc EXCEPT ![i] = @ + 1]
             /\ Note([i |-> i, at |-> pc[i]])
             /\ UNCHANGED <<script, theta, epoch, outs, busy, glob>>
(* a new generator                                                            *)
Seed(i) == /\ Ready(i) /\ script[pc[i]].k = "rng"
           /\ names' = Put(names, <<"seed", script[pc[i]].v>>)
           /\ gen' = [gen EXCEPT ![i] = Find(names', <<"seed", script[pc[i]].v>>)]
           /\ epoch' = [epoch EXCEPT ![i] = Find(names', <<"seed", script[pc[i]].v>>)]
           /\ pc' = [pc EXCEPT ![i] = @ + 1]
           /\ Note([i |-> i, at |-> pc[i]])
           /\ UNCHANGED <<script, kept, theta, outs, busy, glob>>
Noise == /\ Len(script) = Len0 /\ \E i \in I : pc[i] <= Len0
         /\ (Exhaustive \/ (log # <<>> /\ log[Len(log)].i # 0))
         /\ glob' = 1 - glob /\ Note([i |-> 0, at |-> 0])
         /\ UNCHANGED <<script, pc, gen, kept, theta, epoch, names, outs, busy>>
Finished == \A i \in I : pc[i] > Len0
Done == /\ ~Exhaustive /\ Finished /\ log # <<>>
        /\ Emit([script |-> script, log |-> log, outs |-> [i \in I |-> [x \in 1..Len(outs[i]) |->
                  [at |-> outs[i][x].at, id |-> outs[i][x].id, gen |-> outs[i][x].gen, seed |-> outs[i][x].seed]]]])
        /\ log' = <<>> /\ UNCHANGED <<script, pc, gen, kept, theta, epoch, names, outs, busy, glob>>
Next == \/ Extend \/ Noise \/ Done
        \/ \E i \in I : Serial(i) \/ Fork(i) \/ Join(i) \/ Theta(i) \/ Attach(i) \/ Seed(i)
        \/ \E i \in I, p \in 1..NProc : Finish(i, p)
Spec == Init /\ [][Next]_vars

(* equal generators and equal operations give equal results                   *)
Mirror == \A x \in 1..MinOf(Len(outs[1]), Len(outs[2])) : outs[1][x] = outs[2][x]
Aligned == pc[1] = pc[2] => gen[1] = gen[2] /\ kept[1] = kept[2] /\ theta[1] = theta[2]
(* results come in the order of the processes, whatever order they finish in  *)
InOrder == \A i \in I : \A x \in 1..Len(outs[i]) : outs[i][x].v # <<>> => \A p \in 1..NProc : outs[i][x].v[p][2] = p
(* no two processes share a stream                                            *)
OwnStream == (\A k \in 1..Len(script) : script[k].k # "rng") =>
  \A i \in I : \A x, y \in 1..Len(outs[i]) :
     (outs[i][x].v # <<>> /\ outs[i][y].v # <<>>) =>
       \A p, r \in 1..NProc : (x # y \/ p # r) => outs[i][x].v[p] # outs[i][y].v[r]
(* a generator in another state gives other results until it is replaced      *)
NoSeed == \A k \in 1..Len(script) : script[k].k # "rng"
Other == NoSeed => \A x \in 1..Len(outs[1]) : \A y \in 1..Len(outs[3]) : outs[1][x].id # outs[3][y].id
(* the generator never returns to an earlier state by itself                  *)
Forward == NoSeed => \A i \in I : \A x, y \in 1..Len(outs[i]) : x # y => outs[i][x].gen # outs[i][y].gen
View == <<script, pc, gen, kept, theta, epoch, names, outs, busy, glob>>
=============================================================================
