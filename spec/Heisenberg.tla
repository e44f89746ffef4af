----------------------------- MODULE Heisenberg ------------------------------
(* C23: spins on the sphere given by two angles each, angles in quarter       *)
(* turns so that every sine and cosine is -1, 0 or 1.  The energy is a        *)
(* trigonometric polynomial of first degree in every angle, so its values on  *)
(* quarter turns determine it and its derivative is half the difference of    *)
(* its values a quarter turn either side.                                     *)
EXTENDS Base
Sin(q) == CASE q % 4 = 1 -> 1 [] q % 4 = 3 -> -1 [] OTHER -> 0
Cos(q) == Sin(q + 1)
NSpins(x) == Len(x) \div 2
Vec(x, i) == << Sin(x[2*i-1]) * Cos(x[2*i]), Sin(x[2*i-1]) * Sin(x[2*i]), Cos(x[2*i-1]) >>
Cross(a, b) == << a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1] >>
(* derivative of the energy by the coupling of each pair, and the energy      *)
HCouplingGrad(x) == LET P == Pairs(NSpins(x)) IN [k \in 1..Len(P) |-> - Dot(Vec(x, P[k][1]), Vec(x, P[k][2]))]
HEnergy(x, th) == Dot(th, HCouplingGrad(x))
(* the field seen by a spin and the two tangent directions of its vector      *)
PairAt(n, i, j) == LET a == MinOf(i, j)
                       b == MaxOf(i, j)
                   IN  SumTo(a - 1, LAMBDA l : n - l) + (b - a)
Local(x, th, i) == [d \in 1..3 |-> SumTo(NSpins(x), LAMBDA j : IF j = i THEN 0 ELSE th[PairAt(NSpins(x), i, j)] * Vec(x, j)[d])]
DTheta(x, i) == << Cos(x[2*i-1]) * Cos(x[2*i]), Cos(x[2*i-1]) * Sin(x[2*i]), - Sin(x[2*i-1]) >>
DPhi(x, i) == << - Sin(x[2*i-1]) * Sin(x[2*i]), Sin(x[2*i-1]) * Cos(x[2*i]), 0 >>
HGrad(x, th) == [c \in 1..Len(x) |-> LET i == (c + 1) \div 2
                                     IN - Dot(Local(x, th, i), IF c % 2 = 1 THEN DTheta(x, i) ELSE DPhi(x, i))]
(* One leapfrog step of length dt whose momenta carry x to x + k (quarter     *)
(* turns).  The total energy changes by de - a pi/4 + b dt^2/8.               *)
Leap(x, k) == [c \in 1..Len(x) |-> x[c] + k[c]]
LeapDelta(x, k, th) == LET y == Leap(x, k)
                           g == HGrad(x, th)
                           h == HGrad(y, th)
                       IN  [de |-> HEnergy(y, th) - HEnergy(x, th),
                            a |-> SumTo(Len(x), LAMBDA c : k[c] * (g[c] + h[c])),
                            b |-> SumTo(Len(x), LAMBDA c : h[c] * h[c] - g[c] * g[c])]
=============================================================================
