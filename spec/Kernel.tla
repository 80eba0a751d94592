-------------------------------- MODULE Kernel --------------------------------
(* The Gaussian kernel estimate under the Kijko iteration in fixed point      *)
(* arithmetic: the distribution function (Hastings), the width of the kernel  *)
(* (Silverman) and the integral by the trapezoidal rule.                      *)
EXTENDS Numbers

One == Fix(1)
LOCAL Coef(micro) == BMul(Big(micro), Ten(6))
(* 1/2 (1 + a1 x + a2 x^2 + a3 x^3 + a4 x^4)^-4 for x >= 0 *)
UpperTail(x) ==
    LET x2 == FixMul(x, x)
        poly == BSub(BAdd(BAdd(One, FixMul(Coef(196854), x)),
                          BAdd(FixMul(Coef(344), FixMul(x2, x)), FixMul(Coef(19527), FixMul(x2, x2)))),
                     FixMul(Coef(115194), x2))
        p2 == FixMul(poly, poly) IN
    BDivS(FixInv(FixMul(p2, p2)), 2)
(* distribution function at the signed number x = -1 or 1 times a *)
Cdf(sign, a) ==
    IF ~BLeq(a, Fix(5)) THEN IF sign < 0 THEN <<>> ELSE One
    ELSE IF sign < 0 /\ a # <<>> THEN UpperTail(a) ELSE BSub(One, UpperTail(a))
(* at num/den, den > 0 *)
CdfAt(num, den) == Cdf(IF num < 0 THEN -1 ELSE 1,
                       BDivS(Fix(IF num < 0 THEN -num ELSE num), den))

(* quantiles q/4 of sorted magnitudes, in 1/20 hundredths *)
LOCAL Clip(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x
Quantile20(s, q) ==
    LET n == Len(s)
        al == IF q = 1 THEN (5 * n) + 9 ELSE (15 * n) + 11     \* in 1/20
        kk == Clip(al, 20, 20 * (n - 1)) \div 20
        g == Clip(al - (20 * kk), 0, 20) IN
    IF n = 1 THEN 20 * s[1] ELSE ((20 - g) * s[kk]) + (g * s[kk + 1])
Iqr20(s) == Quantile20(s, 3) - Quantile20(s, 1)
(* h = 0.9 / 1.34 iqr n^(-1/5), to two decimals: with v = 90 iqr20 / (20 134) *)
(* (in hundredths) h - 1/2 <= v n^(-1/5) <= h + 1/2                           *)
Pow5(a) == BMul(BMul(BMul(a, a), BMul(a, a)), a)
IsWidth(h, s) ==
    LET v5 == BMul(Pow5(BMul(Big(90), Big(Iqr20(s)))), Big(32))
        d(x) == BMul(Pow5(BMul(Big(x), Big(2680))), Big(Len(s))) IN
    /\ BLeq(v5, BAdd(d((2 * h) + 1), BDivS(d((2 * h) + 1), 100000)))
    /\ h = 0 \/ BLeq(d((2 * h) - 1), BAdd(v5, BDivS(v5, 100000)))

(* the integral over the points mv (hundredths) of the kernel estimate of the *)
(* magnitudes (hundredths), to the power neq                                  *)
Integral(mv, mags, h, neq) ==
    LET n == Len(mv)
        total(x) == BSum([i \in 1..Len(mags) |-> CdfAt(x - mags[i], h)])
        at == [i \in 1..n |-> total(mv[i])]
        span == BSub(at[n], at[1])
        ratio(i) == FixRatio(BSub(at[i], at[1]), span)
        power(i) == FoldLeft(LAMBDA a, x : FixMul(a, ratio(i)), One, [x \in 1..neq |-> x])
        weight(i) == IF i = 1 THEN mv[2] - mv[1]
                     ELSE IF i = n THEN mv[n] - mv[n - 1] ELSE mv[i + 1] - mv[i - 1]
    IN BDivS(BSum([i \in 1..n |-> BMul(power(i), Big(weight(i)))]), 200)
=============================================================================
