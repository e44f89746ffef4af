--------------------------------- MODULE HMC ---------------------------------
(* C23: rounds of Hamiltonian Monte Carlo.  All spins stay collinear (polar   *)
(* angles multiples of half a turn) at the points the leapfrog visits, where  *)
(* the gradient vanishes, so momenta are kept along the path and the total    *)
(* energy changes by the change of energy.  Couplings in units of ln 2; a     *)
(* change d is accepted at level L if d <= L (draw 2^-(L+1/2)).               *)
EXTENDS Heisenberg, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, round, x, e, log
vars == <<c, round, x, e, log>>
R == Cases[c]
Init == /\ c \in 1..Len(Cases) /\ round = 1 /\ log = <<>>
        /\ x = R.x /\ e = HEnergy(R.x, R.theta)
(* the end of the path: k quarter turns in each of the steps                  *)
Path(y, k, m) == [d \in 1..Len(y) |-> y[d] + m * k[d]]
Round == /\ round <= Len(R.moves)
         /\ LET y == Path(x, R.moves[round], R.steps)
                d == HEnergy(y, R.theta) - e
                ok == d <= R.levels[round]
            IN  /\ x' = (IF ok THEN y ELSE x)
                /\ e' = (IF ok THEN e + d ELSE e)
                /\ log' = Append(log, [x |-> x', ok |-> ok])
         /\ round' = round + 1 /\ c' = c
         /\ (round = Len(R.moves) => Emit([id |-> R.id, log |-> log']))
Next == Round
Spec == Init /\ [][Next]_vars
EnergyKept == e = HEnergy(x, R.theta)
NoForce == \A d \in 1..Len(x) : HGrad(x, R.theta)[d] = 0
NoForceOnPath == round <= Len(R.moves) =>
   \A m \in 1..R.steps : LET y == Path(x, R.moves[round], m) IN \A d \in 1..Len(y) : HGrad(y, R.theta)[d] = 0
RejectStays == [][~log'[round].ok => x' = x]_vars
Bounded == [][e' - e <= R.levels[round]]_vars
=============================================================================
