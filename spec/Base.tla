-------------------------------- MODULE Base --------------------------------
(* Vocabulary shared by every specification of coniii: finite sums, dot      *)
(* products, lexicographic combinations (the order in which all interaction  *)
(* parameters are laid out), exact rationals, and the emission of expected   *)
(* results to the replay harness.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Emit(r) == PrintT("@@" \o ToJson(r))

SumTo(n, f(_)) == LET s[k \in 0..n] == IF k = 0 THEN 0 ELSE s[k-1] + f(k) IN s[n]
SumSeq(q) == SumTo(Len(q), LAMBDA k : q[k])
Dot(a, b) == SumTo(Len(a), LAMBDA k : a[k] * b[k])
ProdTo(n, f(_)) == LET s[k \in 0..n] == IF k = 0 THEN 1 ELSE s[k-1] * f(k) IN s[n]
Abs(x) == IF x < 0 THEN -x ELSE x
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
MaxSeq(q) == LET s[k \in 1..Len(q)] == IF k = 1 THEN q[1] ELSE MaxOf(s[k-1], q[k]) IN s[Len(q)]
MinSeq(q) == LET s[k \in 1..Len(q)] == IF k = 1 THEN q[1] ELSE MinOf(s[k-1], q[k]) IN s[Len(q)]
SeqMap(f(_), q) == [k \in 1..Len(q) |-> f(q[k])]
Bool01(b) == IF b THEN 1 ELSE 0
Power(b, e) == ProdTo(e, LAMBDA k : b)
Pow2(e) == 2^e
Flatten(qq) == LET s[k \in 0..Len(qq)] == IF k = 0 THEN <<>> ELSE s[k-1] \o qq[k] IN s[Len(qq)]
Iota(n) == [k \in 1..n |-> k]
IsIn(x, q) == \E k \in 1..Len(q) : q[k] = x
RECURSIVE FilterSeq(_, _)
FilterSeq(q, S) == IF q = <<>> THEN <<>>
                   ELSE (IF Head(q) \in S THEN <<Head(q)>> ELSE <<>>) \o FilterSeq(Tail(q), S)

(* All k-element increasing sequences over lo..n, lexicographic order.       *)
RECURSIVE CombosFrom(_, _, _)
CombosFrom(lo, n, k) ==
  IF k = 0 THEN << <<>> >>
  ELSE IF n - lo + 1 < k THEN <<>>
  ELSE LET with == CombosFrom(lo + 1, n, k - 1)
       IN  [x \in 1..Len(with) |-> <<lo>> \o with[x]] \o CombosFrom(lo + 1, n, k)
Combos(n, k) == CombosFrom(1, n, k)
Pairs(n) == Flatten([i \in 1..n |-> [d \in 1..(n - i) |-> <<i, i + d>>]])
Triples(n) == Combos(n, 3)
NPairs(n) == (n * (n - 1)) \div 2

(* Exact rationals <<num, den>> in lowest terms, den > 0.                     *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Rat(p, q) == LET g == Gcd(Abs(p), Abs(q)) IN IF p = 0 THEN <<0, 1>>
             ELSE IF q < 0 THEN <<(-p) \div g, (-q) \div g>> ELSE <<p \div g, q \div g>>

(* Digits of v in base b, most significant first, exactly n of them.         *)
Digits(v, b, n) == [k \in 1..n |-> (v \div (b^(n - k))) % b]
=============================================================================
