"""Generates spec/WindowTables.tla: the published space and time windows
(van Stiphout et al. 2012, table 1, with the coefficients this project
documents), for magnitudes 0.00 .. 9.99 in hundredths, computed with 40 digit
decimals.  Space in metres, time in 1/10000 day, both rounded down."""
from decimal import Decimal as D, getcontext
getcontext().prec = 40
LN10 = D(10).ln()


def p10(x):
    return (x * LN10).exp()


def gk(m):
    s = p10(D("0.1238") * m + D("0.983"))
    t = p10(D("0.032") * m + D("2.7389")) if m >= D("6.5") \
        else p10(D("0.5409") * m - D("0.547"))
    return s, t


def gr(m):
    s = (D("1.77") + (D("0.037") + D("1.02") * m).sqrt()).exp()
    t = p10(D("2.8") + D("0.024") * m) if m >= D("6.5") \
        else (D("-3.95") + (D("0.62") + D("17.32") * m).sqrt()).exp()
    return s, t


def uh(m):
    s = (D("-1.024") + D("0.804") * m).exp()
    t = (D("-2.87") + D("1.235") * m / 365).exp() * 365
    return s, t


def table(name, values):
    out = [name + " == <<"]
    row = []
    for i, v in enumerate(values):
        row.append(str(int(v)) + ("," if i < len(values) - 1 else ""))
        if len(row) == 10:
            out.append("  " + " ".join(row))
            row = []
    if row:
        out.append("  " + " ".join(row))
    out.append(">>")
    return out


lines = ["---------------------------- MODULE WindowTables ----------------------------",
         "(* GENERATED by tools/gen_tables.py, do not edit.  Entry i+1 is for magnitude *)",
         "(* i/100. Space in metres, time in 1/10000 day, rounded down.                 *)"]
for n, f in (("GK", gk), ("GR", gr), ("UH", uh)):
    vals = [f(D(i) / 100) for i in range(1000)]
    lines += table("Space" + n, [v[0] * 1000 for v in vals])
    lines += table("Time" + n, [v[1] * 10000 for v in vals])
lines.append("=" * 77)
open("spec/WindowTables.tla", "w").write("\n".join(lines) + "\n")


# trigonometry on whole degrees, in 1/100000000 (rounded to nearest)
def pi():
    a, b, t, p = D(1), 1 / D(2).sqrt(), D("0.25"), D(1)
    for _ in range(8):
        a1 = (a + b) / 2
        b, t, p, a = (a * b).sqrt(), t - p * (a - a1) ** 2, 2 * p, a1
    return (a + b) ** 2 / (4 * t)


def cos(x):
    s = u = D(1)
    n = 0
    while abs(u) > D("1e-38"):
        n += 2
        u = -u * x * x / (n * (n - 1))
        s += u
    return s


PI = pi()
lines = ["----------------------------- MODULE TrigTables -----------------------------",
         "(* GENERATED by tools/gen_tables.py, do not edit. Entry i+1 is for i degrees,  *)",
         "(* in 1/100000000: cosines of 0..90, squared sines of the half of 0..360.      *)"]
near = lambda v: int((v * 10 ** 8 + D("0.5")).to_integral_value("ROUND_FLOOR"))
c = [cos(D(i) * PI / 180) for i in range(361)]
lines += table("Cos8", [near(v) for v in c[:91]])
lines += table("Hav8", [near((1 - v) / 2) for v in c])
lines.append("=" * 77)
open("spec/TrigTables.tla", "w").write("\n".join(lines) + "\n")

lines = ["----------------------------- MODULE LogTable -----------------------------",
         "(* GENERATED by tools/gen_tables.py, do not edit. Entry n is the decimal      *)",
         "(* logarithm of n in 1/100000000, rounded to nearest.                         *)"]
lines += table("Log8", [near(D(n).ln() / LN10) for n in range(1, 1001)])
lines.append("=" * 77)
open("spec/LogTable.tla", "w").write("\n".join(lines) + "\n")
