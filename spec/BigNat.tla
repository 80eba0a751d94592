-------------------------------- MODULE BigNat --------------------------------
(* Natural numbers of any size: sequences of digits of base 10^4, the least   *)
(* significant first, without leading zeros (0 is <<>>).                      *)
EXTENDS Integers, Sequences, SequencesExt

LOCAL Base == 10000
LOCAL D(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
LOCAL Mx(x, y) == IF x > y THEN x ELSE y

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> THEN a
           ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE Digits(_)
Digits(c) == IF c = 0 THEN <<>> ELSE <<c % Base>> \o Digits(c \div Base)
\* there are naturals only: an observed number below zero is an evaluation
\* error, which the harness reports as an observation outside the specification
Big(n) == IF n < 0 THEN CHOOSE x \in {} : TRUE ELSE Digits(n)

(* digits of the columns s[i], which may be up to 2^31 / Base, with carries *)
LOCAL Norm(cols) ==
    LET st == FoldLeft(LAMBDA acc, c : LET v == c + acc.c IN
                [d |-> Append(acc.d, v % Base), c |-> v \div Base],
                [d |-> <<>>, c |-> 0], cols)
    IN Trim(st.d \o Digits(st.c))

BAdd(a, b) == Norm([i \in 1..Mx(Len(a), Len(b)) |-> D(a, i) + D(b, i)])

(* a times one digit of b, shifted *)
LOCAL Row(a, d, sh) == [i \in 1..(Len(a) + sh) |-> IF i <= sh THEN 0 ELSE a[i - sh] * d]
BMul(a, b) ==
    IF a = <<>> \/ b = <<>> THEN <<>>
    ELSE FoldLeft(LAMBDA acc, j : BAdd(acc, Norm(Row(a, b[j], j - 1))),
                  <<>>, [j \in 1..Len(b) |-> j])

RECURSIVE BPow(_, _)
BPow(a, n) == IF n = 0 THEN <<1>> ELSE BMul(a, BPow(a, n - 1))
Ten(n) == [i \in 1..(n \div 4) |-> 0] \o <<CASE n % 4 = 0 -> 1 [] n % 4 = 1 -> 10
                                             [] n % 4 = 2 -> 100 [] n % 4 = 3 -> 1000>>

RECURSIVE LeqAt(_, _, _)
LeqAt(a, b, i) == IF i = 0 THEN TRUE
                  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LeqAt(a, b, i - 1)
BLeq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LeqAt(a, b, Len(a))
BLess(a, b) == ~BLeq(b, a)
BEq(a, b) == a = b

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, borrow) ==
    IF i > Len(a) THEN <<>>
    ELSE LET v == (a[i] - D(b, i)) - borrow IN
         <<IF v < 0 THEN v + Base ELSE v>> \o SubFrom(a, b, i + 1, IF v < 0 THEN 1 ELSE 0)
(* a - b for a >= b *)
BSub(a, b) == Trim(SubFrom(a, b, 1, 0))
BDist(a, b) == IF BLeq(b, a) THEN BSub(a, b) ELSE BSub(b, a)

(* a and b agree within one part in n *)
Close(a, b, n) == BLeq(BMul(BDist(a, b), Big(n)), IF BLeq(a, b) THEN b ELSE a)

BSum(s) == FoldLeft(LAMBDA acc, x : BAdd(acc, x), <<>>, s)
BProd(s) == FoldLeft(LAMBDA acc, x : BMul(acc, x), <<1>>, s)
=============================================================================
