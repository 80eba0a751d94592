"""Weichert estimates: exact families, any counts, whole analyses."""
import math

import numpy as np

import common
from common import attempt, silent, Cases, number

with common.imports():
    from mtoolkit.scientific.recurrence import weichert, recurrence_analysis

r = common.rng("p21")
nr = np.random.RandomState(r.randrange(10 ** 6))
stats = {"estimates": 0, "without_solution": 0, "analyses": 0}
DELTA = 2.5e-5          # what the stabilisation tolerance leaves open in b
Q8 = 100000000


def factor(b, dm, up):
    """x = 10^(-b dm) over 10^8, as an integer, on the safe side."""
    x = Q8 * 10 ** min(9., max(-9., -b * dm / 100.))
    x = math.floor(x) - 1 if up < 0 else (
        math.ceil(x) + 1 if up > 0 else math.floor(x + .5))
    return int(max(0, min(x, 2000000000)))


NO = {"k": "none", "m": 0, "e": 0}


def outcome(o, got, dm, td, noref, j, family=None):
    res = {"out": o, "b": "none", "plo": 0, "phi": 0, "p": 0, "q": Q8,
           "a": NO, "siga": NO, "sigb": NO, "td": td, "dm": dm,
           "noref": noref, "j": j}
    if o == "ok":
        b, sigb, a, siga = got
        res.update(a=number(a), siga=number(siga), sigb=number(sigb),
                   b=number(abs(b))["k"])
        if res["b"] == "num":
            res.update(plo=factor(b + DELTA, dm, -1),
                       phi=factor(b - DELTA, dm, 1), p=factor(b, dm, 0))
            if res["p"] == 0:
                res["p"] = 1
            if family:
                res.update(p=family[0], q=family[1])
    return res


def estimate(label, n, t, td, dm, m0, j, beta=None, family=None, twin=None,
             between=False, odd=False):
    """n, t: counts and periods (in 1/td years); dm, m0: width and first
    lower edge in hundredths; j: reference in bins from there or None."""
    fmag = (m0 + dm * (np.arange(len(n)) + .5)) / 100.
    nobs, tper = np.array(n, dtype=float), np.array(t) / float(td)
    if r.random() < 0.3:
        nobs = nobs.astype(int)
    extra = [] if beta is None else [beta]

    def run(nobs, tper, j):
        ref = 0.0 if j is None else (m0 + dm * j) / 100.
        args = [tper.copy(), fmag.copy(), nobs.copy()]

        def go():
            with silent():
                if ref == 0.0 and not extra:
                    return weichert(*args)
                return weichert(*(args + [ref] + extra))
        o, got = attempt(go)
        stats["estimates"] += 1
        kept = all((x == y).all() for x, y in zip(args, (tper, fmag, nobs)))
        return o, got, kept
    if j is not None and m0 + dm * j == 0:
        j += 1                        # zero stands for no reference
    noref = j is None
    jj = 0 if noref else j
    o, got, kept = run(nobs, tper, j)
    case = {"label": label, "w": {"n": [int(x) for x in n],
                                  "t": [int(x) for x in t]},
            "o": outcome(o, got, dm, td, noref, jj, family), "kept": kept,
            "odd": odd, "between": False, "half": NO, "next": NO,
            "twin": {"kind": "none", "c": 1, "o": {}}}
    if between and not noref and m0 + dm * (j + 1) and m0 + dm * (j + .5):
        case["between"] = True
        for key, d in (("half", .5), ("next", 1)):
            o, got, _ = run(nobs, tper, j + d)
            case[key] = number(got[2]) if o == "ok" else NO
    if twin:
        kind, c = twin
        o, got, _ = run(nobs * (c * c if kind == "counts" else 1),
                        tper * (c if kind == "periods" else 1), j)
        case["twin"] = {"kind": kind, "c": c,
                        "o": outcome(o, got, dm, td, noref, jj, family)}
    cases.add(**case)


def reference(k):
    return r.choice([None, 0, 0, 1, 2, -1, -4, k, r.randint(-6, 12)])


def twins():
    return r.choice([None, ("counts", r.choice([2, 3, 10, 1000])),
                     ("periods", r.choice([2, 7, 100, 5000]))])


def solvable(n, t):
    """Whether the factor from bin to bin is in the range examined."""
    k = np.arange(len(n))

    def score(x):
        return sum(n) * (t * k * x ** k).sum() / (t * x ** k).sum() - (
            n * k).sum()
    return score(0.004) < 0 < score(15.)


cases = Cases("WeichertTrace")
FAMILIES = [(1, 2), (1, 10), (2, 3), (1, 3), (3, 4), (1, 4), (4, 5), (9, 10),
            (1, 1), (3, 2)]
for i in range(common.pick(120, 1200)):
    p, q = r.choice(FAMILIES)
    k = r.randint(2, 8)
    td = r.choice([1, 1, 2])
    t = sorted(r.choice([1, 5, 30, 100, 400]) * r.randint(1, 3)
               for _ in range(k))
    if r.random() < 0.2:
        r.shuffle(t)
    n = [t[x] * p ** x * q ** (k - 1 - x) for x in range(k)]
    if max(n) > 1500000000:
        continue
    estimate("exact-%d-%d/%d" % (i, p, q), n, t, td,
             r.choice([10, 20, 50, 100, 25, 15, 5]),
             r.choice([300, 400, 430, 455]),
             reference(k), beta=r.choice([None, None, 1.0, 2.5]),
             family=(p, q), twin=twins() if max(n) < 10 ** 6 else None,
             between=r.random() < 0.5)

for i in range(common.pick(250, 3000)):
    dm = r.choice([10, 20, 50, 50, 100, 25, 15, 5])
    k = r.randint(2, 12)
    t = np.sort(nr.randint(1, 400, k)).astype(float)
    if r.random() < 0.2:
        t = t[::-1].copy()
    kind = r.random()
    if kind < 0.5:
        x = 10 ** (-r.uniform(.3, 1.8) * dm / 100.)
        n = nr.poisson(r.choice([2, 10, 100, 10000]) * x ** np.arange(k)
                       * t / t.max()).astype(float)
    elif kind < 0.8:
        n = nr.choice([0, 0, 0, 1, 2, 5], k).astype(float)
    else:
        n = np.zeros(k)
        for _ in range(r.choice([1, 2, 3])):
            n[r.randrange(k)] += r.choice([1, 1, 3])
    if n[1:].any() and n[:-1].any() and not solvable(n, t):
        continue
    estimate("any-%d" % i, n, t, r.choice([1, 2]), dm,
             r.choice([250, 400, 430]), reference(k), twin=twins(),
             between=r.random() < 0.3)

# no solution: one bin, no events, no period, events at one end only
for i in range(common.pick(80, 500)):
    k = r.randint(1, 10)
    t = [r.randint(1, 300) for _ in range(k)]
    n = [0] * k
    kind = i % 5
    if kind == 0:
        k, t, n = 1, t[:1], [r.randint(0, 20)]
    elif kind == 1:
        n[0] = r.choice([1, 2, 17, 100000])
    elif kind == 2:
        n[-1] = r.choice([1, 2, 17, 100000])
    elif kind == 3:
        n = [r.randint(0, 5) for _ in range(k)]
        t[r.randrange(k)] = r.choice([0, -3])
    stats["without_solution"] += 1
    estimate("none-%d" % i, n, t, 1, r.choice([10, 20, 50, 100]),
             r.choice([300, 400, 430, 455]), reference(k))
# from starting values the iteration doesn't lead anywhere from it ends as well
for i in range(common.pick(16, 80)):
    k = r.randint(2, 6)
    estimate("start-%d" % i, [2 ** (k - x) + r.randint(0, 1)
                              for x in range(k)],
             [r.randint(20, 300) for _ in range(k)], 1,
             r.choice([10, 50]), r.choice([300, 455]), reference(k), odd=True,
             beta=[float("nan"), float("inf"), -float("inf"), 1e5, 1e9, -1e9,
                   1e300, 3000.][i % 8])
cases.close()

cases = Cases("WeichertRunTrace")


def analysis(label, ev, tab, dm, dt, j, times=1):
    start = min((m + 5) // 10 * 10 for _, m in ev)
    noref = j is None or start + dm * j == 0
    ref = 0.0 if noref else (start + dm * j) / 100.
    args = [np.tile([y / 2. for y, _ in ev], times),
            np.tile([m / 100. for _, m in ev], times),
            np.array([(y / 2., m / 100.) for y, m in tab])]

    def go():
        with silent():
            return recurrence_analysis(
                args[0], args[1], args[2], dm / 100., "Weichert", ref,
                dt / 2.)
    o, got = attempt(go)
    stats["analyses"] += 1
    cases.add(label=label,
              par={"ev": [{"y": y, "m": m} for y, m in ev],
                   "tab": [{"y": y, "m": m} for y, m in tab],
                   "dm": dm, "dt": dt, "times": times},
              o=outcome(o, got, dm, 2, noref, 0 if noref else j))


def gr_events(k, lo, b, y0, y1):
    res = [(2 * r.randint(y0, y1), lo)]
    for _ in range(k - 1):
        m = lo + int(min(300, 100 * r.expovariate(2.302585 * b)))
        if m % 10 == 5:
            m += 1
        res.append((2 * r.randint(y0, y1), m))
    r.shuffle(res)
    return res


for i in range(common.pick(120, 1500)):
    y0 = r.randint(1900, 1970)
    y1 = y0 + r.choice([10, 30, 80])
    lo = r.choice([300, 400, 430])
    dm = r.choice([10, 20, 50, 50, 100])
    ev = gr_events(r.choice([1, 2, 5, 20, 100]), lo, r.uniform(.6, 1.6),
                   y0, y1)
    rows = r.choice([1, 2, 3])
    last = max(y for y, _ in ev)
    years = sorted((r.randint(2 * y0 - 20, last + r.choice([0, 0, 6]))
                    // 2 * 2 for _ in range(rows)), reverse=True)
    tab = [(years[0], lo - r.choice([0, 0, 50]))] + [
        (y, lo + dm * r.randint(1, 4)) for y in years[1:]]
    tab.sort(key=lambda x: x[1])
    analysis("analysis-%d" % i, ev, tab, dm, r.choice([2, 2, 4, 10]),
             reference(4))
for times in (3, 130, 300, common.pick(9000, 30000)):
    analysis("times-%d" % times, gr_events(5, 400, 1., 1950, 1970) +
             [(3900, 410), (3900, 420)], [(3900, 400), (3900, 410)], 10, 2,
             reference(4), times)
cases.close()
common.coverage(**stats)
