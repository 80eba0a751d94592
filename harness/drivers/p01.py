"""Valid catalogues: everything is delivered, in order, unchanged; the header
decides whether a file is a catalogue at all."""
from readercases import *

r = common.rng("p01")
rec = Recorder()
H = ",".join(FIELDS)

# headers
bad = [H.replace("eventID", "EventID"), ",".join(FIELDS[1:]),
       H + ",extra", ",".join(reversed(FIELDS)), "", H.replace(",", ";"),
       H.replace("Mw,sigmaMw", "sigmaMw,Mw"), H + ",", "," + H,
       H.replace("second", "seconds"), ",".join(FIELDS[:-1]),
       H.replace("sigmaML", "sigmaMl"), H.replace("depth,", "", 1),
       H.replace("year,month", "month,year"), " ".join(FIELDS), "a,b"]
for i, f in enumerate(FIELDS):
    bad.append(",".join(FIELDS[:i] + FIELDS[i + 1:]))
    bad.append(",".join(FIELDS[:i] + [f + "x"] + FIELDS[i + 1:]))
for i in range(24):
    sw = list(FIELDS)
    sw[i], sw[i + 1] = sw[i + 1], sw[i]
    bad.append(",".join(sw))
for i, h in enumerate(bad):
    rec.add("bad-header-%d" % i, [default_row()], header=h,
            mode=["stream", "list"][i % 2], kind=["memory", "file"][i // 2 % 2])
for i, h in enumerate([H, " " + H + " ", ", ".join(FIELDS),
                       " , ".join(FIELDS), "\t,".join(FIELDS)]):
    rec.add("good-header-%d" % i, [default_row()], header=h)
rec.add("header-crlf", [default_row()], eol="\r\n", kind="file")
rec.add("header-only-no-eol", [], text=H, lines=[])
rec.add("empty-file", [], text="", lines=[], header="")
rec.add("empty-file-list", [], text="", lines=[], header="", mode="list")

# every documented value of every field, one at a time
for f in FIELDS:
    seen = set()
    for _ in range(400):
        v = valid_value(r, f, 1.0)
        if v in seen:
            continue
        seen.add(v)
        kw = {f: v}
        if f == "SemiMinor90":
            kw["SemiMajor90"] = "1000"
        if f == "day":
            kw["month"] = r.choice(["1", "2", "12"])
        rec.add("value-%s-%s" % (f, v), [default_row(**kw)],
                mode=r.choice(["stream", "list"]))
for m in range(1, 13):
    for d in range(1, 30 if m == 2 else 32):
        if d in (1, 2, 28, 29, 30, 31) or (d + m) % 5 == 0:
            rec.add("date-%d-%d" % (m, d),
                    [default_row(month=str(m), day=str(d))])
for h in range(24):
    rec.add("hour-%d" % h, [default_row(hour=str(h), minute=str(
        (h * 5) % 60))])
for i in range(60):
    rec.add("minute-%d" % i, [default_row(minute=str(i), second="%d.25" % i)])

# files: sizes, order, duplicates, layout
sizes = [0, 1, 2, 3, 5, 8, 13, 25]
for i in range(common.pick(60, 500)):
    n = r.choice(sizes)
    rows = [valid_row(r) for _ in range(n)]
    if n > 2 and r.random() < 0.4:
        rows[r.randrange(n)] = list(rows[0])
    blanks = set(r.sample(range(n), r.randint(0, n // 2))) \
        if n and r.random() < 0.3 else ()
    kind = r.choice(["memory", "file"])
    rec.add("file-%d" % i, rows, mode=r.choice(["stream", "list"]),
            kind=kind, blanks=blanks, quote=r.random() < 0.2,
            tail=r.random() < 0.8,
            eol="\r\n" if kind == "file" and r.random() < 0.3 else "\n")
for i in range(common.pick(6, 30)):
    rec.add("job-%d" % i, [valid_row(r) for _ in range(r.choice(sizes))],
            mode="list", kind="job")
for n in common.pick([130, 300], [130, 300, 1000, 3000]):
    rec.add("long-%d" % n, [valid_row(r) for _ in range(n)], mode="list",
            kind="job")
for i in range(common.pick(5, 40)):
    rec.interleaved("interleaved-%d" % i, [
        [valid_row(r) for _ in range(r.randint(0, 6))] for _ in range(3)])
rec.close()
