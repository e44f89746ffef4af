-------------------------------- MODULE Wolff --------------------------------
(* C21: the cluster update as a state machine.  The queue of spins to explore *)
(* is worked off from the front; each outcome of the random bonds is a        *)
(* transition, then the cluster is flipped or left.                           *)
EXTENDS Bond, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, s, init, site, marked, queue, bonds, phase
vars == <<c, s, init, site, marked, queue, bonds, phase>>
R == Cases[c]
N == 1..R.n
Init == /\ c \in 1..Len(Cases) /\ s \in States(Cases[c].n) /\ init = s
        /\ site = 0 /\ marked = {} /\ queue = <<>> /\ bonds = {} /\ phase = "pick"
Pick(i) == /\ phase = "pick" /\ site' = i /\ marked' = {i} /\ queue' = <<i>> /\ bonds' = {}
           /\ phase' = "grow" /\ init' = s /\ UNCHANGED <<c, s>>
Explore(T) == /\ phase = "grow" /\ queue # <<>>
              /\ T \subseteq {j \in N \ marked : BondP(R, s, queue[1], j)[1] > 0}
              /\ \A j \in N \ (marked \union T) : BondP(R, s, queue[1], j) # ROne
              /\ marked' = marked \union T
              /\ queue' = Tail(queue) \o Sorted(T, R.n)
              /\ bonds' = bonds \union {{queue[1], j} : j \in T}
              /\ UNCHANGED <<c, s, init, site, phase>>
Flip == /\ phase = "grow" /\ queue = <<>> /\ s' = FlipSet(s, marked) /\ phase' = "done"
        /\ UNCHANGED <<c, init, site, marked, queue, bonds>>
Leave == /\ phase = "grow" /\ queue = <<>> /\ FlipP(R, s, marked) # ROne /\ phase' = "done"
         /\ UNCHANGED <<c, s, init, site, marked, queue, bonds>>
Again == phase = "done" /\ phase' = "pick" /\ site' = 0 /\ marked' = {} /\ bonds' = {} /\ UNCHANGED <<c, s, init, queue>>
Next == (\E i \in N : Pick(i)) \/ (\E T \in SUBSET N : Explore(T)) \/ Flip \/ Leave \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

HoldsSite == phase # "pick" => site \in marked /\ marked \subseteq N
(* a spanning tree of activated bonds between spins that gain from alignment  *)
Tree == phase # "pick" => /\ Close({site}, bonds) = marked
                          /\ Cardinality(bonds) = Cardinality(marked) - 1
                          /\ \A e \in bonds : \E i \in e : \E j \in e : i # j /\ A(R, i, j) * init[i] * init[j] > 0
WholeOrNothing == phase = "done" => s = init \/ s = FlipSet(init, marked)
QueueInside == \A k \in 1..Len(queue) : queue[k] \in marked
               /\ \A l \in 1..Len(queue) : k # l => queue[k] # queue[l]
Ends == [](phase = "grow" => <>(phase = "done"))
=============================================================================
