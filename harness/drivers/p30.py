"""Activity rates of faults; the scaling relation is a stand-in that records
what it was asked."""
import sys
import types

import numpy as np

import common
from common import attempt, silent, number, Cases

ASKED = []
ANSWER = [7.0]


class WC1994(object):
    def get_median_mag(self, area, rake):
        ASKED.append((area, rake))
        return ANSWER[0]


for name in ("nhlib", "nhlib.scalerel", "nhlib.scalerel.wc1994"):
    sys.modules[name] = types.ModuleType(name)
sys.modules["nhlib"].scalerel = sys.modules["nhlib.scalerel"]
sys.modules["nhlib.scalerel"].wc1994 = sys.modules["nhlib.scalerel.wc1994"]
sys.modules["nhlib.scalerel.wc1994"].WC1994 = WC1994
sys.modules["nhlib.scalerel"].WC1994 = WC1994

with common.imports():
    from mtoolkit.geo.simple_fault import SimpleFaultGeo
    from mtoolkit.geo.tectonic_region import TectonicRegionBuilder as Builder
    from mtoolkit.scientific.fault_calculator import get_mfd

r = common.rng("p30")
stats = {"distributions": 0, "rates": 0, "refused": 0}
cases = Cases("FaultRatesTrace")


def region(smod, dlr):
    def one(v):
        n = len(v)
        return {"value": list(v), "weight": [1.0 / n] * n}
    return Builder.create_new_tect_region(
        "006", {"model": ["WC1994"], "weight": [1.0]}, one(smod), one(dlr))


def th(x):
    """Thousandths as the nearest number."""
    return x / 1000.0


def rates(label, slip=10.0, aseismic=0, smod=(30.0,), dlr=(1.25e-5,),
          geo=None, b=1000, low=5000, w=100, high=7000, missing=False,
          rake=None, scaling=None, tr=None, keywords=False):
    if tr is None:
        tr = region(smod, dlr)
    else:
        smod, dlr = ((tr.shear_mod_first_value,),
                     (tr.disp_length_ratio_first_value,))
    geo = geo or ([(0.0, 0.0), (1.0, 0.0)], 0.0, 15.0, 90.0)
    fault = SimpleFaultGeo(*geo)
    area, width = fault.get_area(), fault.get_width()
    c0, c1 = scaling or (1605, 1500)
    kw = {}
    if scaling:
        kw["moment_scaling"] = (c0 / 100.0, c1 / 1000.0)
    if not missing:
        kw["max_mag"] = th(high)
        if rake is not None or r.random() < 0.3:
            kw["rake"] = rake
    else:
        kw["rake"] = rake
        if r.random() < 0.3:
            kw["max_mag"] = None
    ANSWER[0] = th(high) if missing else 9.875
    if r.random() < 0.3:
        ANSWER[0] = np.float64(ANSWER[0])

    def go():
        with silent():
            if keywords:
                return get_mfd(slip=slip, aseismic_coef=th(aseismic),
                               tectonic_region=tr, sf_geo=fault,
                               b_value=th(b), min_mag=th(low),
                               bin_width=th(w), **kw)
            return get_mfd(slip, th(aseismic), tr, fault, th(b), th(low),
                           th(w), **kw)
    del ASKED[:]
    o, v = attempt(go)
    asked = [{"area": bool(abs(a - area) <= 1e-9 * area), "rake": bool(
        (k is None and rake is None) or (k is not None and rake is not None
                                         and k == rake))}
             for a, k in ASKED]
    o2, v2 = attempt(go)
    valid = bool(slip > 0 and 0 <= aseismic < 1000)
    case = {"label": label, "valid": valid, "missing": missing,
            "asked": asked, "out": o, "rates": [],
            "p": {"min": low, "w": w, "max": high, "b": b, "c0": c0,
                  "c1": c1, "aseismic": aseismic, "slip": number(slip),
                  "smod": number(smod[0]), "dlr": number(dlr[0]),
                  "width": number(width)},
            "kept": bool(fault.get_area() == area
                         and fault.get_width() == width
                         and tr.shear_mod_first_value == smod[0]
                         and tr.disp_length_ratio_first_value == dlr[0])}
    if o == "ok":
        try:
            case["rates"] = [number(x) for x in v]
            case["again"] = o2 == "ok" and [float(x) for x in v] == \
                [float(x) for x in v2]
        except TypeError:
            case["out"] = "not a list of rates"
            case["again"] = False
    else:
        case["again"] = o2 == o
        stats["refused"] += 1
    stats["distributions"] += 1
    stats["rates"] += len(case["rates"])
    cases.add(**case)


rates("plain")
rates("one-bin", low=5000, w=100, high=5100)
rates("less-than-a-bin", low=5000, w=100, high=5001)
rates("no-bin", low=5000, w=100, high=5000)
rates("below", low=5000, w=100, high=4900)
rates("far-below", low=6000, w=100, high=4000)
for rake in (0.0, 90.0):
    rates("no-bin-rake-%s" % rake, high=5000, rake=rake)
    rates("below-rake-%s" % rake, high=4900, rake=rake)
for i, s in enumerate([0, 0.0, -1, -0.001, -10.0]):
    rates("slip-%d" % i, slip=s)
for i, a in enumerate([0, 1, 500, 999, 1000, 1001, 2000, -1, -500]):
    rates("aseismic-%d" % i, aseismic=a)
for w in (10, 20, 50, 70, 100, 150, 200, 250, 300, 333, 400, 500, 1000, 3000):
    for low, high in ((5000, 6000), (4500, 8100), (5300, 7700), (100, 3100)):
        if (high - low) / w <= 40:
            rates("bins-%d-%d-%d" % (w, low, high), low=low, w=w, high=high)
for rake in (0, 0.0, 90.0, -90.0, 180, -180.0, None, 45.5):
    rates("missing-maximum-%s" % rake, missing=True, rake=rake,
          high=r.choice([6500, 7123, 8000]))
for name in (Builder.ACTIVE_SHALLOW_CRUST, Builder.SUBDUCTION_INTERFACE,
             Builder.SUBDUCTION_INTRASLAB, Builder.STABLE_CONTINENTAL,
             Builder.VOLCANIC):
    rates("region-%s" % name.replace(" ", "-"),
          tr=Builder.create_tect_region_by_name(name))
rates("several-values", smod=(20.0, 40.0, 60.0), dlr=(1e-4, 1e-5))


def some_geo():
    x, y = r.randint(-179, 178), r.randint(-80, 80)
    t = [(float(x), float(y))]
    for _ in range(r.choice([1, 1, 2, 4])):
        t.append((x + r.random(), y + r.random()))
    a = r.choice([0.0, 0.0, 1.5, 5.0])
    return (t, a, a + r.choice([0.5, 5.0, 10.0, 25.0, 100.0]),
            r.choice([90.0, 60.0, 45, 30.0, 1.0, 89.5]))


for i in range(common.pick(220, 5000)):
    w = r.choice([100, 100, 50, 200, 250, 500, 10, r.randint(20, 700)])
    low = r.choice([4000, 5000, 5500, 6000, r.randint(0, 65) * 100,
                    r.randint(0, 6500)])
    n = r.choice([0, 1, 2, 3, 5, 10, 20, 25])
    high = low + n * w + r.choice([0, 0, 0, 1, w - 1, r.randint(0, w - 1)])
    rates("rates-%d" % i,
          slip=r.choice([0.001, 0.1, 1, 10.0, 50, r.uniform(0.01, 200)]),
          aseismic=r.choice([0, 0, 100, 250, 500, 900, 999,
                             r.randint(0, 999)]),
          smod=[r.choice([30.0, 29.0, 49.0, 1, 0.25, r.uniform(1, 100)])
                for _ in range(r.choice([1, 1, 2, 3]))],
          dlr=[r.choice([1.25e-5, 1e-4, 0.001, r.uniform(1e-6, 1e-3)])
               for _ in range(r.choice([1, 1, 2, 3]))],
          geo=some_geo(), b=r.choice([1000, 900, 1200, 100, 1490, 500,
                                      r.randint(300, 1400)]),
          low=low, w=w, high=high, missing=r.random() < 0.35,
          rake=r.choice([None, 0, 90.0, r.uniform(-180, 180)]),
          scaling=r.choice([None, None, None, (1605, 1500), (1600, 1500),
                            (910, 1500), (1705, 1600), (1610, 2000)]),
          keywords=r.random() < 0.4)
cases.close()
common.coverage(**stats)
