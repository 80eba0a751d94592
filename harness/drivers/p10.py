"""Gardner-Knopoff results against the state machine."""
from declustercases import *

r = common.rng("p10")
out = Cases("GKTrace")
skipped = 0


def add(label, events, cols=7, opt=None, pct=None):
    global skipped
    opt = opt or r.choice(WINDOWS)
    pct = r.choice([0, 0, 10, 25, 50, 75, 100, 150]) if pct is None else pct
    d = distances(events)
    m, t = abstract(events)
    if not clear(events, d, opt, pct) or max(
            m.count(x) for x in set(m)) > 6:
        skipped += 1
        return
    prop = pct / 100.0 if pct or r.random() < 0.5 else 0
    obs = run(gardner_knopoff_decluster, matrix(events, cols),
              {"window_opt": opt, "fs_time_prop": prop})
    for x in ("kept", "rows"):
        obs.pop(x, None)
    out.add(label=label, m=m, t=t, dist=d, opt=opt, pct=pct, **obs)


for n in (1, 2, 3):
    for i, ev in enumerate(small_catalogues(
            r, [0, 15, 60], [400, 500, 650], [0, 0.2, 1.0], n,
            common.pick(350, 6000))):
        add("small-%d-%d" % (n, i), ev)
for i in range(common.pick(350, 4000)):
    n = r.choice([2, 3, 4, 5, 6, 8, 10, 15])
    add("random-%d" % i, random_catalogue(
        r, n, ties=r.choice(["few", "some"])), r.choice([6, 7]))
for i in range(common.pick(40, 400)):
    n = r.choice([25, 40])
    add("larger-%d" % i, random_catalogue(
        r, n, mags=r.choice([(400, 800), (300, 700), (0, 900)]),
        spread=r.choice([0.8, 2.0]), span=r.choice([60, 400, 2000])))
# two events at every interesting distance in time from each other
for opt in WINDOWS:
    for m in (0, 250, 400, 475, 550, 640, 649, 650, 651, 700, 800, 950):
        tw = int(geo.time_days(opt, m / 100.0))
        for pct in (0, 50, 100):
            fw = int(geo.time_days(opt, m / 100.0) * pct / 100)
            for dt in (0, 1, tw - 1, tw, tw + 1, tw + 2, -1, -fw + 1, -fw,
                       -fw - 1, -fw - 2):
                a = date_of(2000 * 365 + 40)
                b = date_of(2000 * 365 + 40 + dt)
                ev = [a + (5.0, 5.0, m), b + (5.0, 5.01, max(0, m - 30))]
                if r.random() < 0.5:
                    ev.reverse()
                add("pair-%s-%d-%d-%d" % (opt, m, pct, dt), ev, opt=opt,
                    pct=pct)
# and just inside and outside the radius, in all directions
for opt in WINDOWS:
    for m in (300, 450, 600, 650, 750):
        km = geo.space_km(opt, m / 100.0)
        for lon, lat in CENTRES:
            for f in (0.98, 1.02):
                for k in range(2):
                    deg = math.degrees(km * f / geo.R)
                    if k:
                        p = (lon, lat + deg if lat < 0 else lat - deg)
                    else:
                        c = math.cos(math.radians(lat))
                        p = (wrap(lon + deg / c), lat)
                    ev = [(2000, 5, 5, lon, lat, m),
                          (2000, 5, 6, p[0], p[1], m - 10)]
                    add("radius-%s-%d" % (opt, m), ev, opt=opt)
# many clusters, the smallest mainshocks last
for i in range(common.pick(1, 4)):
    ev = []
    for n in range(280):
        day = 1100 * 365 + 1100 * n
        ev.append(date_of(day) + (10.0, 10.0, 760 - n))
        if n % 5 == 0 or n > 250:
            ev.append(date_of(day + 1) + (10.001, 10.0, 750 - n))
    r.shuffle(ev)
    add("clusters-%d" % i, ev, 7, WINDOWS[0])
# the starting points of the model, all of them or a sample
replayed = 0
for i, p in enumerate(common.generated("Gen_GardnerKnopoff", 400, 8000)):
    replayed += 1
    add("model-%d" % i, on_a_line(p), opt=p["opt"], pct=p["pct"])
out.close()
common.coverage(replayed=replayed, catalogues=out.n, skipped_near_limit=skipped)
