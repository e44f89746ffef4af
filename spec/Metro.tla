-------------------------------- MODULE Metro -------------------------------
(* One Metropolis update.  Multipliers are integer multiples of a unit;       *)
(* energy changes are integers in that unit.  A proposal with change d is     *)
(* accepted with probability 2^-max(d,0) (unit ln 2); for a given uniform     *)
(* draw u this is "d <= L" where L = floor(-log2 u) >= 0.                     *)
EXTENDS Ham
NewValues(m, k, s, i) == IF m = "potts" THEN (0..(k - 1)) \ {s[i]} ELSE {- s[i]}
DeltaE(m, k, s, i, a, theta) ==
  IF m = "potts" THEN PottsLocalDelta(s, k, i, a, theta) ELSE LocalDelta(s, i, theta)
TrueDelta(m, k, s, i, a, theta) == Energy(m, SetAt(s, i, a), k, theta) - Energy(m, s, k, theta)
Accepted(d, L) == d <= L
(* Everything one update at site i can lead to at level L.                    *)
After(m, k, s, i, theta, L) ==
  { IF Accepted(DeltaE(m, k, s, i, a, theta), L) THEN SetAt(s, i, a) ELSE s : a \in NewValues(m, k, s, i) }
AllStates(m, n, k) == IF m = "potts" THEN PottsStates(n, k) ELSE SymStates(n)
=============================================================================
