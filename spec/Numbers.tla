------------------------------- MODULE Numbers -------------------------------
(* Observed real numbers: records [k, m, e], where k is "num" for m * 10^e    *)
(* (m >= 0) or what else it is ("nan", "inf", "neg", ...); and fixed point    *)
(* arithmetic with 12 decimals on BigNat.                                     *)
EXTENDS BigNat

IsNum(x) == x.k = "num"
LOCAL Up(x, n) == IF x > n THEN x ELSE n
(* x * fx and y * fy agree within one part in n *)
SameNum(x, fx, y, fy, n) ==
    Close(BProd(<<Big(x.m), fx, Ten(Up(x.e - y.e, 0))>>),
          BProd(<<Big(y.m), fy, Ten(Up(y.e - x.e, 0))>>), n)
(* x * fx = fy *)
Equals(x, fx, fy, n) == SameNum(x, fx, [m |-> 1, e |-> 0], fy, n)
(* x^2 * fx = y^2 * fy *)
SameSquare(x, fx, y, fy, n) ==
    SameNum([m |-> x.m, e |-> 2 * x.e], BMul(Big(x.m), fx),
            [m |-> y.m, e |-> 2 * y.e], BMul(Big(y.m), fy), n)

(* a \div d for 0 < d < 200000 *)
BDivS(a, d) ==
    LET st == FoldLeft(LAMBDA acc, i : LET v == (acc.r * 10000) + a[i] IN
                [q |-> <<v \div d>> \o acc.q, r |-> v % d],
                [q |-> <<>>, r |-> 0], [j \in 1..Len(a) |-> (Len(a) + 1) - j])
    IN Trim(st.q)

(* a \div b *)
RECURSIVE DigitOf(_, _, _, _)
DigitOf(r, b, lo, hi) ==    \* largest d in lo..hi with d * b <= r
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2 IN
         IF BLeq(BMul(b, Big(m)), r) THEN DigitOf(r, b, m, hi)
         ELSE DigitOf(r, b, lo, m - 1)
BDiv(a, b) ==
    LET st == FoldLeft(LAMBDA acc, i :
                LET r == Trim(<<a[i]>> \o acc.r)
                    d == DigitOf(r, b, 0, 9999) IN
                [q |-> <<d>> \o acc.q, r |-> BSub(r, BMul(b, Big(d)))],
                [q |-> <<>>, r |-> <<>>], [j \in 1..Len(a) |-> (Len(a) + 1) - j])
    IN Trim(st.q)

(* fixed point numbers with 12 decimals: three digits *)
Fix(n) == BMul(Big(n), Ten(12))
FixRatio(a, b) == BDiv(BMul(a, Ten(12)), b)
FixMul(a, b) == LET p == BMul(a, b) IN IF Len(p) <= 3 THEN <<>> ELSE SubSeq(p, 4, Len(p))
FixInv(a) == BDiv(Ten(24), a)
FixNum(x) == IF x.e + 12 >= 0 THEN BMul(Big(x.m), Ten(x.e + 12))
             ELSE BDiv(Big(x.m), Ten(-(x.e + 12)))
(* exp of a fixed point number *)
SmallExp(a) ==
    FoldLeft(LAMBDA s, k :
               IF s.t = <<>> THEN s
               ELSE LET t == BDivS(FixMul(s.t, a), k) IN [t |-> t, s |-> BAdd(s.s, t)],
             [t |-> Fix(1), s |-> Fix(1)], [k \in 1..160 |-> k]).s
FixExp(a) == IF BLeq(a, Fix(1)) THEN SmallExp(a)
             ELSE FoldLeft(LAMBDA v, j : FixMul(v, v), SmallExp(BDivS(a, 64)),
                           <<1, 2, 3, 4, 5, 6>>)
(* log10(e) *)
Log10E == Trim(<<1903, 9448, 4342>>)
(* agreement within one part in n or a millionth of a millionth thousand fold *)
FixClose(a, b, n) == Close(a, b, n) \/ BLeq(BDist(a, b), Big(1000))
=============================================================================
