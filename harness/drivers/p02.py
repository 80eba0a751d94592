"""Invalid compulsory fields: the first invalid row ends the reading with a
validation error which names an invalid field and the line."""
from readercases import *

r = common.rng("p02")
rec = Recorder()


def place(rows, bad, where):
    return rows[:where] + [bad] + rows[where:]


for f in FIELDS:
    if f not in COMPULSORY:
        continue
    for v in bad_values(f):
        good = [valid_row(r) for _ in range(r.randint(0, 3))]
        where = r.randint(0, len(good))
        rec.add("bad-%s-%s" % (f, v), place(good, default_row(**{f: v}), where),
                mode=r.choice(["stream", "stream", "list"]),
                kind=r.choice(["memory", "file"]))
        rec.add("badv-%s-%s" % (f, v),
                place(good, [v if g == f else x for g, x in zip(
                    FIELDS, valid_row(r))], where), mode="stream")

# days against months
for m in range(1, 13):
    for d in (-1, 0, 1, 28, 29, 30, 31, 32):
        rec.add("date-%d-%d" % (m, d),
                [default_row(month=str(m), day=str(d)), default_row()])
# years around the limits, and every small hour, minute
for y in (-10001, -10000, -9999, NOW - 1, NOW, NOW + 1, NOW + 2):
    rec.add("year-%d" % y, [default_row(year=str(y))])
for v in range(-2, 26):
    rec.add("hour-%d" % v, [default_row(hour=str(v))])
for v in list(range(-2, 3)) + list(range(57, 63)):
    rec.add("minute-%d" % v, [default_row(minute=str(v))])

# several invalid fields and several invalid rows
for i in range(common.pick(150, 1500)):
    rows = [valid_row(r) for _ in range(r.randint(1, 8))]
    for _ in range(r.randint(1, 3)):
        row = rows[r.randrange(len(rows))]
        for f in r.sample(sorted(COMPULSORY), r.randint(1, 4)):
            row[POS[f]] = r.choice(bad_values(f))
    n = len(rows)
    blanks = set(r.sample(range(n), r.randint(0, n))) \
        if r.random() < 0.4 else ()
    kind = r.choice(["memory", "file"])
    rec.add("mixed-%d" % i, rows, mode=r.choice(["stream", "list"]),
            kind=kind, blanks=blanks, quote=r.random() < 0.2,
            eol="\r\n" if kind == "file" and r.random() < 0.3 else "\n")
# an invalid row far into a long file
for n in common.pick([120, 250], [120, 250, 1500]):
    rows = [valid_row(r) for _ in range(n)]
    rows[n - 3][POS["latitude"]] = "north"
    rows[n - 2][POS["longitude"]] = "east"
    rec.add("long-%d" % n, rows, mode="list", kind="job")
# rows which stop early
for i in range(1, 25):
    row = valid_row(r)
    rec.add("short-%d" % i, [default_row(), row[:i], default_row()])
for i in range(common.pick(5, 30)):
    files = []
    for _ in range(3):
        rows = [valid_row(r) for _ in range(r.randint(1, 5))]
        if r.random() < 0.7:
            f = r.choice(sorted(COMPULSORY))
            rows[r.randrange(len(rows))][POS[f]] = r.choice(bad_values(f))
        files.append(rows)
    rec.interleaved("interleaved-%d" % i, files)
rec.close()
