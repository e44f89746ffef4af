----------------------------- MODULE Tempering ------------------------------
(* C10: replica exchange.  Replica r runs at inverse temperature Beta[r] (in  *)
(* units of ln 2) on an Ising model with integer multipliers.  A round lets   *)
(* every replica update its state, then offers an exchange to the pairs       *)
(* (1,2), (2,3), ... in turn; a pair exchanges its states and walker numbers  *)
(* with probability min(1, 2^((b_i - b_j)(E_i - E_j))).                       *)
EXTENDS Ham
CONSTANTS N, M, BetaSet, Theta
ASSUME Len(Theta) = N + NPairs(N)
VARIABLES st,     \* state held by each replica
          walker, \* which walker sits in each replica
          en,     \* stored energy of each replica, with its temperature
          home,   \* the state each walker carries (ghost)
          pos,    \* next pair of the exchange sweep; M: updates may happen
          beta
vars == <<st, walker, en, home, pos, beta>>
E0(s) == Energy("ising", s, 2, Theta)
Levels == 0..3
Gain(i, j) == (beta[i] - beta[j]) * (E0(st[i]) - E0(st[j]))
Exchanges(i, L) == - Gain(i, i + 1) <= L
Swap(f, i) == [f EXCEPT ![i] = f[i+1], ![i+1] = f[i]]
Init == /\ st \in [1..M -> {SymStates(N)[x] : x \in 1..2^N}]
        /\ beta = [r \in 1..M |-> BetaSet[r]]
        /\ walker = [r \in 1..M |-> r]
        /\ en = [r \in 1..M |-> beta[r] * E0(st[r])]
        /\ home = st /\ pos = M
Update(r, i) == /\ pos = M
                /\ st' = [st EXCEPT ![r] = Flip(@, i)]
                /\ en' = [en EXCEPT ![r] = @ + beta[r] * LocalDelta(st[r], i, Theta)]
                /\ home' = [home EXCEPT ![walker[r]] = Flip(@, i)]
                /\ UNCHANGED <<walker, pos, beta>>
Begin == pos = M /\ pos' = 1 /\ UNCHANGED <<st, walker, en, home, beta>>
Offer(L) == /\ pos < M
            /\ pos' = pos + 1
            /\ IF Exchanges(pos, L)
               THEN /\ st' = Swap(st, pos) /\ walker' = Swap(walker, pos)
                    (* the energies move with the states, at the new temperatures *)
                    /\ en' = [en EXCEPT ![pos] = (en[pos+1] \div beta[pos+1]) * beta[pos],
                                        ![pos+1] = (en[pos] \div beta[pos]) * beta[pos+1]]
               ELSE UNCHANGED <<st, walker, en>>
            /\ UNCHANGED <<home, beta>>
(* The temperatures may be replaced; the replicas' multipliers follow.        *)
Next == \/ \E r \in 1..M, i \in 1..N : Update(r, i)
        \/ Begin
        \/ \E L \in Levels : Offer(L)
Spec == Init /\ [][Next]_vars

WalkersPermuted == \A a \in 1..M : \E r \in 1..M : walker[r] = a
EnergiesMatch == \A r \in 1..M : en[r] = beta[r] * E0(st[r])
StatesTravel == \A r \in 1..M : st[r] = home[walker[r]]
(* The exchange is reversible for the product of the Boltzmann distributions: *)
(* b_i E_i + b_j E_j + cost is the same from both sides.                      *)
Reversible == \A i \in 1..(M-1) :
   LET cost == MaxOf(0, - Gain(i, i + 1))
       back == MaxOf(0, Gain(i, i + 1))
       w == beta[i] * E0(st[i]) + beta[i+1] * E0(st[i+1])
       w2 == beta[i] * E0(st[i+1]) + beta[i+1] * E0(st[i])
   IN  w + cost = w2 + back
=============================================================================
