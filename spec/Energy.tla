------------------------------- MODULE Energy -------------------------------
(* C01: one transition per case evaluates a batch of states under the        *)
(* Hamiltonian; the observables and energies are what the code must return.  *)
EXTENDS Ham, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
vars == <<c, done>>

StatesOf(r) == IF ~r.all THEN r.states
               ELSE CASE r.dom = "01" -> BinStates(r.n)
                      [] r.dom = "pm" -> SymStates(r.n)
                      [] r.dom = "k"  -> PottsStates(r.n, r.k)
Result(r) == LET S == StatesOf(r)
             IN  [id |-> r.id, states |-> S,
                  obs |-> [x \in 1..Len(S) |-> Obs(r.model, S[x], r.k)],
                  e |-> [x \in 1..Len(S) |-> Energy(r.model, S[x], r.k, r.theta)]]

Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Emit(Result(Cases[c]))
Spec == Init /\ [][Next]_vars

(* Laws of the specification itself, checked on every case.                  *)
LayoutOK == LET r == Cases[c] IN Len(r.theta) = NParams(r.model, r.n, r.k)
(* The local-field form of the energy change agrees with the Hamiltonian.    *)
LocalOK ==
  LET r == Cases[c]
      S == StatesOf(r)
      x == 1 + (c % Len(S))
      s == S[x]
  IN  /\ (r.model = "ising" /\ r.dom = "pm") =>
            \A i \in 1..r.n : LocalDelta(s, i, r.theta) =
               Energy("ising", Flip(s, i), 0, r.theta) - Energy("ising", s, 0, r.theta)
      /\ r.model = "potts" => \A i \in 1..r.n : \A a \in 0..(r.k - 1) :
            PottsLocalDelta(s, r.k, i, a, r.theta) =
               Energy("potts", SetAt(s, i, a), r.k, r.theta) - Energy("potts", s, r.k, r.theta)
(* Fields-free models are symmetric under a global flip.                     *)
SymOK == LET r == Cases[c]
             s == StatesOf(r)[1]
         IN  r.model = "sym" => Energy("sym", s, 0, r.theta) =
                                Energy("sym", [i \in 1..r.n |-> -s[i]], 0, r.theta)
PairOK == LET r == Cases[c]
              P == Pairs(r.n)
          IN  \A q \in 1..Len(P) : PairIx(r.n, P[q][1], P[q][2]) = q
=============================================================================
