"""Kijko estimates and their parts."""
import numpy as np

import common
from common import attempt, silent, Cases

with common.imports():
    from mtoolkit.scientific.maximum_magnitude import (
        exp_spaced_points, gauss_cdf_hastings, h_smooth,
        kijko_nonparametric_gauss, kijko_npg_intfunc_simps,
        maximum_magnitude_analysis)

r = common.rng("p23")
stats = {"estimates": 0, "integrals": 0, "converged": 0}
S8 = 1e8


def units(v):
    v = common.sc(v, S8) if abs(float(v)) < 21 else common.BIG
    return v


def magnitudes(n, lo, spread):
    return [lo + int(min(300, r.expovariate(1.0 / spread)))
            for _ in range(n)]


cases = Cases("KernelTrace")


def call(label, kind, func, add, **case):
    with silent():
        o, got = attempt(func)
    res = {}
    if o == "ok":
        o, res = attempt(lambda: add(got))
        res = res if o == "ok" else {}
    cases.add(label=label, kind=kind, out=o, **dict(case, **res))


def cdf(label, xs, den, bar=0.0, sig=1.0):
    x = np.array([v / float(den) for v in xs]) * sig + bar
    args = [x] if (bar, sig) == (0.0, 1.0) else [x, bar, sig]
    call(label, "cdf", lambda: gauss_cdf_hastings(*args),
         lambda y: {"ys": [units(v) for v in y]}, xs=xs, den=den, ys=[])


cdf("grid", list(range(-50, 51)), 10)
cdf("right-tail", [50, 51, 60, 100, 1000], 10)
cdf("left-tail", [-51, -60, -100, -1000], 10)
for i in range(common.pick(20, 200)):
    cdf("random-%d" % i, [r.choice([r.randint(-4999, 4999), r.randint(5001, 8000)])
                            for _ in range(8)], 1000,
        *r.choice([(), (0.5, 2.0), (-3.0, 0.25), (0.0, 0.5)]))

for i in range(common.pick(80, 800)):
    mags = sorted(magnitudes(r.choice([1, 2, 3, 4, 5, 8, 30, 100]),
                             r.choice([300, 400, 455]), r.choice([0.1, 20,
                                                                  60])))
    given = [m / 100. for m in mags]
    if r.random() < 0.5:
        r.shuffle(given)
    call("width-%d" % i, "width", lambda: h_smooth(np.array(given)),
         lambda h: {"h": common.exact(float(h), 100)}, mags=mags, h=-1)

for i in range(common.pick(40, 300)):
    lo = r.randint(0, 700)
    hi = lo + r.choice([1, 50, 200, 400])
    n = r.choice([2, 3, 10, 51])
    nn = r.choice([n, float(n)])
    call("points-%d" % i, "points",
         lambda: exp_spaced_points(lo / 100., hi / 100., nn),
         lambda p: {"pts": [units(v) for v in p]}, lower=lo, upper=hi, n=n,
         pts=[])

for i in range(common.pick(60, 600)):
    h = r.choice([5, 11, 20, 45])
    mags = [400 + r.randint(0, 4 * h) for _ in range(r.choice([1, 2, 3, 6]))]
    if r.random() < 0.6:
        mags.sort()
    lo = min(mags)
    # the tails begin beyond 5 widths: whether a difference of 5 widths is in
    # one is a matter of rounding
    top = 5 * h - 1
    mv = sorted(set([lo, lo + top] + [lo + r.randint(0, top)
                                      for _ in range(r.randint(0, 4))]))
    if max(m - lo for m in mags) > top:
        continue                     # see the finding about the left tail
    neq = r.choice([1, 2, len(mags), 5])
    stats["integrals"] += 1
    call("integral-%d" % i, "integral",
         lambda: kijko_npg_intfunc_simps(
             np.array([m / 100. for m in mv]),
             np.array([m / 100. for m in mags]), h / 100., float(neq)),
         lambda v: {"value": units(v)}, mv=mv, mags=mags, h=h, neq=neq,
         value=-1)
cases.close()

cases = Cases("KijkoTrace")


def run(mags, sig, neq, nsamp, tol, maxit, given, whole):
    args = [np.array([m / 100. for m in mags]),
            np.array([s / 1000. for s in sig])]
    before = [a.copy() for a in args]

    def go():
        with silent():
            if whole:
                return maximum_magnitude_analysis(
                    np.arange(len(mags)) + 1900., args[0], args[1],
                    "Kijko_Npg", tol, maxit, neq, nsamp, 7)
            return kijko_nonparametric_gauss(
                args[0], args[1], neq, nsamp, tol, maxit,
                (given["m"] / 100., given["s"] / 1000.)
                if given["has"] else False)
    o, got = attempt(go)
    stats["estimates"] += 1
    return o, got, all((a == b).all() for a, b in zip(args, before))


def orbit(mags, neq, nsamp, maxit, obs, moved=0):
    """The integral of the largest events, iterated from the observed."""
    used = np.sort(np.array([m / 100. for m in mags]))[-neq:]
    h = float(h_smooth(used))
    res = []
    if h > 0:
        m = obs / 100. + moved
        for _ in range(maxit + 1):
            d = float(kijko_npg_intfunc_simps(
                exp_spaced_points(used[0], m, nsamp), used, h,
                float(len(used))))
            res.append(units(d))
            if not abs(d) < 12:
                break
            m = obs / 100. + d
    return common.exact(h, 100), res


def estimate(label, mags, sig, neq, nsamp, tol, maxit, given):
    whole = not given["has"] and r.random() < 0.5
    tol8 = int(round(tol * S8))
    o, got, kept = run(mags, sig, neq, nsamp, tol, maxit, given, whole)
    obs = given["m"] if given["has"] else max(mags)
    with silent():
        oh, res = attempt(lambda: orbit(mags, neq, nsamp, maxit, obs))
    if oh != "ok":
        o, res = "helpers:" + oh, (0, [])
    h, orb = res
    # iterations which make rounding visible say nothing
    with silent():
        _, near = attempt(lambda: orbit(mags, neq, nsamp, maxit, obs, 1e-12))
    if oh == "ok" and (len(near[1]) != len(orb) or any(
            abs(a - b) > 1 for a, b in zip(near[1], orb))):
        stats["unstable"] = stats.get("unstable", 0) + 1
        return
    case = {"label": label, "mags": mags, "sig": sig, "neq": neq,
            "given": given, "tol": tol8, "maxit": maxit, "h": h,
            "orbit": orb, "out": o, "got": -1, "sigma": -1, "same": [],
            "kept": kept}
    if any(abs(v) > 1200000000 for v in orb):
        return                       # beyond any magnitude: not resolved
    if any(abs(b - a) <= tol8 for a, b in zip(orb, orb[1:])):
        stats["converged"] += 1
        n = min(j for j in range(1, len(orb))
                if abs(orb[j] - orb[j - 1]) <= tol8)
        stats["longest"] = max(stats.get("longest", 0), n)
    if o == "ok":
        case.update(got=units(got[0]), sigma=units(got[1]))
        idx = list(range(len(mags)))
        variants = []
        r.shuffle(idx)
        variants.append(([mags[i] for i in idx], [sig[i] for i in idx]))
        order = sorted(range(len(mags)), key=lambda i: mags[i])
        if len(mags) >= neq:
            # other events smaller than those which count
            least = mags[order[-neq]]
            extra = [r.randint(100, least) for _ in range(r.randint(1, 9))]
            variants.append((extra + mags, [r.randint(1, 500)
                                            for _ in extra] + sig))
            keep = sorted(order[-neq:])
            variants.append(([mags[i] for i in keep],
                             [sig[i] for i in keep]))
        ties = len(set(s for m, s in zip(mags, sig) if m == max(mags))) > 1
        for m2, s2 in variants:
            o2, got2, _ = run(m2, s2, neq, nsamp, tol, maxit, given, whole)
            ties2 = ties or len(set(s for m, s in zip(m2, s2)
                                    if m == max(m2))) > 1
            case["same"].append(
                {"got": units(got2[0]), "sigma": units(got2[1]),
                 "free": ties2 and not given["has"]}
                if o2 == "ok" else {"got": -5, "sigma": -5, "free": False})
    cases.add(**case)


for i in range(common.pick(220, 3000)):
    mags = magnitudes(r.choice([2, 3, 5, 10, 20, 40, 80]),
                      r.choice([300, 400, 455]), r.choice([20, 43, 60]))
    if r.random() < 0.4:             # the largest well above the others
        mags.append(max(mags) + r.choice([5, 30, 80]))
        r.shuffle(mags)
    sig = [r.randint(10, 500) for _ in mags]
    given = {"has": False, "m": 0, "s": 0}
    if r.random() < 0.25:
        given = {"has": True, "m": max(mags) + r.choice([0, 1, 40]),
                 "s": r.randint(10, 500)}
    estimate("random-%d" % i, mags, sig,
             r.choice([2, 3, 5, 10, 30, 100]), r.choice([11, 21, 51]),
             r.choice([0.1, 0.01, 0.001, 0.3, 1.0]),
             r.choice([0, 1, 2, 5, 30, 60]),
             given)
# slow ones: tight tolerances, the largest far above the others
for i in range(common.pick(30, 300)):
    mags = magnitudes(r.choice([5, 10, 20]), 400, r.choice([20, 43]))
    mags.append(max(mags) + r.choice([0, 5, 30]))
    estimate("slow-%d" % i, mags, [r.randint(10, 500) for _ in mags], 100,
             r.choice([11, 21, 51]), r.choice([1e-4, 1e-5, 1e-6]),
             r.choice([100, 101, 251]), {"has": False, "m": 0, "s": 0})
cases.close()
common.coverage(**stats)
