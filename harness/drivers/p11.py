"""Afteran results against the state machine."""
from declustercases import *

r = common.rng("p11")
out = Cases("AFTrace")
skipped = 0
WINS = [50, 150, 1050, 2050, 5050, 6000, 15080, 36550]


def add(label, events, cols=7, opt=None, win=None):
    global skipped
    opt = opt or r.choice(WINDOWS)
    win = r.choice(WINS) if win is None else win
    d = distances(events)
    m, t = abstract(events)
    o = orders(m, 24)
    if o is None or not clear(events, d, opt, 0, win):
        skipped += 1
        return
    obs = run(afteran_decluster, matrix(events, cols),
              {"window_opt": opt, "time_window": win / 100.0})
    for x in ("kept", "rows"):
        obs.pop(x, None)
    out.add(label=label, m=m, t=t, dist=d, opt=opt, win=win, orders=o, **obs)


for n in (1, 2, 3):
    for i, ev in enumerate(small_catalogues(
            r, [0, 15, 30, 60], [400, 500, 650], [0, 0.2, 1.0], n,
            common.pick(350, 6000))):
        add("small-%d-%d" % (n, i), ev)
for i, ev in enumerate(small_catalogues(
        r, [0, 15, 30, 45], [400, 500, 510, 520, 650], [0], 4,
        common.pick(300, 6000))):
    add("line-%d" % i, ev, win=2050)
for i in range(common.pick(400, 4000)):
    n = r.choice([2, 3, 4, 5, 6, 8, 10, 15])
    add("random-%d" % i, random_catalogue(
        r, n, ties=r.choice(["few", "few", "some"])), r.choice([6, 7]))
for i in range(common.pick(40, 400)):
    n = r.choice([25, 40])
    add("larger-%d" % i, random_catalogue(
        r, n, mags=r.choice([(400, 800), (300, 700), (0, 900)]),
        spread=r.choice([0.8, 2.0]), span=r.choice([60, 400, 2000])))
for win in WINS:
    w = win // 100
    for dt in (-w - 1, -w, -w + 1, -1, 0, 1, w - 1, w, w + 1):
        a = date_of(2001 * 365 + 40)
        b = date_of(2001 * 365 + 40 + dt)
        ev = [a + (5.0, 5.0, 600), b + (5.0, 5.01, 550)]
        if r.random() < 0.5:
            ev.reverse()
        add("pair-%d-%d" % (win, dt), ev, win=win)
# exactly on the limit of the window: same day, whole years
for i in range(common.pick(40, 400)):
    n = r.choice([2, 3, 4, 6])
    win = r.choice([0, 36500, 73000])
    y = r.choice([-200, 0, 1, 1999, 2004])
    mags = r.sample(range(400, 800), n)
    if win:
        ev = [(y + r.randint(0, 4), 1, 1, 5.0, 5.0, m) for m in mags]
    else:
        ev = [(y, 7, r.choice([1, 1, 1, 2]), 5.0, 5.0, m) for m in mags]
    add("limit-%d-%d" % (win, i), ev, win=win)
for opt in WINDOWS:
    for m in (300, 450, 600, 650, 750):
        km = geo.space_km(opt, m / 100.0)
        for lon, lat in CENTRES:
            for f in (0.98, 1.02):
                deg = math.degrees(km * f / geo.R)
                p = (lon, lat + deg if lat < 0 else lat - deg)
                add("radius-%s-%d" % (opt, m), [
                    (2000, 5, 5, lon, lat, m),
                    (2000, 5, 6, p[0], p[1], m - 10)], opt=opt)
# the starting points of the model, all of them or a sample
replayed = 0
for i, p in enumerate(common.generated("Gen_Afteran", 400, 8000)):
    replayed += 1
    add("model-%d" % i, on_a_line(p), opt=p["opt"], win=p["win"])
out.close()
common.coverage(replayed=replayed, catalogues=out.n, skipped_near_limit=skipped)
