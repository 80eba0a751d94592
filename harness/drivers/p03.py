"""Optional fields: unusable values are blanked (a missing sigmaMw becomes
zero), usable ones are kept, and no row is lost for them."""
import itertools

from readercases import *

r = common.rng("p03")
rec = Recorder()
OPTIONAL = [f for f in FIELDS if f not in COMPULSORY and f != "Agency"]

for f in OPTIONAL:
    for v in odd_optional(f):
        rec.add("one-%s-%s" % (f, v), [default_row(**{f: v}), default_row()],
                mode=r.choice(["stream", "list"]))
# the error ellipse: all combinations of representative values
minor = ["", "x", "-0.001", "0", "2", "5"]
major = ["", "x", "-1", "0", "2", "5"]
strike = ["", "x", "-0.001", "0", "298", "360", "360.001"]
for a, b, c in itertools.product(major, minor, strike):
    rec.add("ellipse-%s-%s-%s" % (a, b, c),
            [default_row(SemiMajor90=a, SemiMinor90=b, ErrorStrike=c)])
# the values of one row never leak into another
for i in range(common.pick(120, 1200)):
    rows = [valid_row(r) for _ in range(r.randint(1, 8))]
    for row in rows:
        for f in r.sample(OPTIONAL, r.randint(0, 8)):
            row[POS[f]] = r.choice(odd_optional(f))
    rec.add("mixed-%d" % i, rows, mode=r.choice(["stream", "list"]),
            kind=r.choice(["memory", "file"]))
for n in common.pick([150], [150, 1500]):
    rows = [valid_row(r) for _ in range(n)]
    for row in rows:
        for f in r.sample(OPTIONAL, r.randint(0, 8)):
            row[POS[f]] = r.choice(odd_optional(f))
    rec.add("long-%d" % n, rows, mode="list", kind="job")
# all optional fields missing
rec.add("bare", [[x if f in COMPULSORY else "" for f, x in zip(
    FIELDS, valid_row(r))] for _ in range(6)])
for i in range(15, 25):
    row = default_row()
    if i > POS["Mw"]:
        rec.add("short-%d" % i, [row[:i], default_row()])
rec.close()
