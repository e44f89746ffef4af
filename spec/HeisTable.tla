----------------------------- MODULE HeisTable -------------------------------
(* C23: energies, gradients and single leapfrog steps of given configurations *)
EXTENDS Heisenberg, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
R == Cases[c]
Result(r) == [id |-> r.id, vec |-> [i \in 1..NSpins(r.x) |-> Vec(r.x, i)], e |-> HEnergy(r.x, r.theta), grad |-> HGrad(r.x, r.theta),
              gth |-> HCouplingGrad(r.x), y |-> Leap(r.x, r.k), leap |-> LeapDelta(r.x, r.k, r.theta),
              cross |-> Cross(r.u, r.v)]
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Emit(Result(R))
Spec == Init /\ [][Next]_<<c, done>>
Turn(x, d, q) == [x EXCEPT ![d] = @ + q]
(* the gradient is the derivative                                             *)
HalfDifference == \A d \in 1..Len(R.x) :
   2 * HGrad(R.x, R.theta)[d] = HEnergy(Turn(R.x, d, 1), R.theta) - HEnergy(Turn(R.x, d, 3), R.theta)
UnitVectors == \A i \in 1..NSpins(R.x) : Dot(Vec(R.x, i), Vec(R.x, i)) = 1
(* turning every spin about the axis changes nothing                          *)
Rotation == \A q \in 1..3 : HEnergy([d \in 1..Len(R.x) |-> IF d % 2 = 0 THEN R.x[d] + q ELSE R.x[d]], R.theta) = HEnergy(R.x, R.theta)
(* two pairs of angles give the same vector                                   *)
TwoNames == \A i \in 1..NSpins(R.x) :
   LET y == [R.x EXCEPT ![2*i-1] = - @, ![2*i] = @ + 2] IN HEnergy(y, R.theta) = HEnergy(R.x, R.theta)
(* leaping back undoes the change of total energy                             *)
Reversible == LET f == LeapDelta(R.x, R.k, R.theta)
                  g == LeapDelta(Leap(R.x, R.k), [d \in 1..Len(R.k) |-> - R.k[d]], R.theta)
              IN  g.de = - f.de /\ g.a = - f.a /\ g.b = - f.b
CrossLaws == LET w == Cross(R.u, R.v)
             IN  /\ Dot(w, R.u) = 0 /\ Dot(w, R.v) = 0
                 /\ Dot(w, w) = Dot(R.u, R.u) * Dot(R.v, R.v) - Dot(R.u, R.v) * Dot(R.u, R.v)
                 /\ w = [d \in 1..3 |-> - Cross(R.v, R.u)[d]]
=============================================================================
