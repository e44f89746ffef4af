------------------------------ MODULE States --------------------------------
(* C03: state enumerations as counters.  The enumeration of n spins with k    *)
(* values each is the successor relation of an n-digit base-k counter; the    *)
(* digit strings and the one-flip neighbourhoods are emitted for replay.      *)
EXTENDS Ham, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
vars == <<c, done>>

RECURSIVE Repr(_, _)
Repr(v, b) == IF v < b THEN <<v>> ELSE Append(Repr(v \div b, b), v % b)
(* successor of a counter value, carrying from the last digit                 *)
RECURSIVE Succ(_, _, _)
Succ(d, k, p) == IF p = 0 THEN d
                 ELSE IF d[p] < k - 1 THEN [d EXCEPT ![p] = d[p] + 1]
                 ELSE Succ([d EXCEPT ![p] = 0], k, p - 1)
Result(r) ==
  CASE r.kind = "enum" -> [id |-> r.id, kind |-> r.kind, s |-> PottsStates(r.n, r.k)]
    [] r.kind = "repr" -> [id |-> r.id, kind |-> r.kind, s |-> SeqMap(LAMBDA v : Repr(v, r.k), r.v)]
    [] r.kind = "adj" -> [id |-> r.id, kind |-> r.kind,
                          s |-> [x \in 1..Len(r.s) |-> [i \in 1..r.n |->
                                  IF r.k = 0 THEN Flip(r.s[x], i) ELSE Flip01(r.s[x], i)]]]
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Emit(Result(Cases[c]))
Spec == Init /\ [][Next]_vars

R == Cases[c]
CounterOK == R.kind = "enum" =>
   LET S == PottsStates(R.n, R.k)
   IN  /\ S[1] = [i \in 1..R.n |-> 0]
       /\ \A x \in 1..(Len(S) - 1) : S[x + 1] = Succ(S[x], R.k, R.n)
       /\ S[Len(S)] = [i \in 1..R.n |-> R.k - 1]
Distinct == R.kind = "enum" => Cardinality({PottsStates(R.n, R.k)[x] : x \in 1..(R.k^R.n)}) = R.k^R.n
ReprOK == R.kind = "repr" => \A x \in 1..Len(R.v) :
   LET d == Repr(R.v[x], R.k)
       val[i \in 0..Len(d)] == IF i = 0 THEN 0 ELSE val[i-1] * R.k + d[i]
   IN  val[Len(d)] = R.v[x] /\ (Len(d) > 1 => d[1] # 0)
Hamming(a, b) == Cardinality({i \in 1..Len(a) : a[i] # b[i]})
AdjOK == R.kind = "adj" => \A x \in 1..Len(R.s) : \A i \in 1..R.n :
   Hamming(R.s[x], IF R.k = 0 THEN Flip(R.s[x], i) ELSE Flip01(R.s[x], i)) = 1
=============================================================================
