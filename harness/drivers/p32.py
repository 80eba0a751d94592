"""Sources, pipelines and tectonic regions as values: histories of creating,
copying, naming and changing them; all of them are observed and compared after
every operation."""
import copy

import common
from common import attempt, silent, Cases

with common.imports():
    from mtoolkit import source_model as sm
    from mtoolkit.workflow import PipeLine
    from mtoolkit.geo.tectonic_region import TectonicRegion

r = common.rng("p32")
cases = Cases("ValueTrace")
stats = {"histories": 0, "replayed": 0, "operations": 0, "comparisons": 0}
TEXTS = ["nrml_id", "source_model_id", "area_source_id", "name",
         "tectonic_region"]


def canon(v):
    """A text which is the same for the same values only."""
    if isinstance(v, dict):
        return "{%s}" % ", ".join("%s: %s" % (k, canon(v[k]))
                                  for k in sorted(v))
    if isinstance(v, (tuple, list)):
        return "(%s)" % ", ".join(canon(x) for x in v)
    if isinstance(v, float) and v == int(v):
        v = int(v)
    return getattr(v, "__name__", None) or repr(v)


class Kind(object):
    """Concrete values by field and tokens; a value is unknown unless it was
    made from tokens."""

    def __init__(self):
        self.known = {}
        self.made = {}

    def value(self, field, tokens):
        key = (field,) + tuple(tokens)
        if key not in self.made:
            while True:
                v = self.concrete(field, list(tokens))
                if self.known.get((field, canon(v)), tokens) == tokens:
                    break
            self.made[key] = copy.deepcopy(v)
            self.known[field, canon(v)] = list(tokens)
        return copy.deepcopy(self.made[key])

    def tokens(self, field, v):
        return self.known.get((field, canon(v)), ["?"])

    def note(self, field, tokens, v):
        self.known[field, canon(v)] = list(tokens)

    def project(self, obj):
        return {f: self.tokens(f, self.get(obj, f)) for f in self.fields}


class Source(Kind):
    fields = TEXTS + ["area_boundary", "rupture_rate_model",
                      "rupture_depth_dist", "hypocentral_depth"]
    lists = ["area_boundary", "rupture_depth_dist"]
    first = ["d"]

    def __init__(self):
        Kind.__init__(self)
        self.where = {f: r.random() for f in self.fields}
        self.pristine = sm.default_area_source()
        for f in self.fields:
            v = getattr(self.pristine, f)
            self.made[f, "d"] = copy.deepcopy(v)
            self.note(f, ["d"], v)
        self.points = {}

    def new(self):
        return sm.default_area_source()

    def get(self, obj, f):
        return getattr(obj, f)

    def put(self, obj, f, v):
        setattr(obj, f, v)
        return obj

    def copy(self, obj):
        return copy.deepcopy(obj)

    def item(self, f, token):
        """What is appended to the list of a field."""
        if (f, token) not in self.points:
            n = len(self.points) + 1
            self.points[f, token] = (
                sm.POINT(r.choice([0, float(n)]), 10. + n)
                if f == "area_boundary" else 1000. * n)
        return self.points[f, token]

    def grow(self, obj, f, token):
        old = self.tokens(f, self.get(obj, f))
        if f in self.lists:
            v = self.get(obj, f)
            before = copy.deepcopy(v)
            after = (before.pos_list if f == "area_boundary"
                     else before.depth)
            after.append(self.item(f, token))
            self.note(f, old + [token], before)
            (v.pos_list if f == "area_boundary" else v.depth).append(
                self.item(f, token))
        else:
            self.put(obj, f, self.value(f, old + [token]))
        return obj

    def concrete(self, f, tokens):
        """Differs from the default in one place, the same for a field."""
        base = copy.deepcopy(self.made[f, "d"])
        n = r.randint(1, 10 ** 6)
        w = self.where[f]
        if f in TEXTS:
            return r.choice(["%s%d" % (base, n), "S %d" % n, base.lower() +
                             "x" * (n % 7 + 1)])
        if r.random() < 0.5:            # a small difference
            n /= 2. ** 24
        if f == "hypocentral_depth":
            return base + n / 8.
        if f == "area_boundary":
            if w < 0.3:
                return base._replace(srs_name="srs %r" % n)
            p = base.pos_list[0]
            return base._replace(pos_list=[
                p._replace(lon=n / 16.) if w < 0.6 else p._replace(
                    lat=n / 16.)] + ([] if w < 0.9 else [p]))
        if f == "rupture_depth_dist":
            if w < 0.25:
                return base._replace(magnitude=base.magnitude._replace(
                    type_mag="M%r" % n))
            if w < 0.5:
                return base._replace(magnitude=base.magnitude._replace(
                    values=[n / 4.] + ([] if w < .4 else [6.5])))
            return base._replace(depth=[n / 4.] + ([] if w < .7 else [5e3]))
        names = ["strike", "dip", "rake", "a_value", "b_value",
                 "min_magnitude", "max_magnitude", "type_tgr"]
        name = names[int(w * len(names))]
        if name in names[:3]:
            return base._replace(**{name: n / 4.})
        return base._replace(
            truncated_gutenberg_richter=base.truncated_gutenberg_richter
            ._replace(**{name: "mw%r" % n if name == "type_tgr" else n / 4.}))


def job_x(context):
    pass


def job_y(context):
    pass


def job_z(context):
    pass


class Pipe(Kind):
    fields = ["jobs"]
    first = []
    jobs = {"x": job_x, "y": job_y, "z": job_z}
    back = {j: t for t, j in jobs.items()}

    def new(self):
        return r.choice([lambda: PipeLine(), lambda: PipeLine([]),
                         lambda: PipeLine(None)])()

    def get(self, obj, f):
        return obj.jobs

    def tokens(self, f, v):
        return [self.back.get(j, "?") for j in v]

    def value(self, f, tokens):
        return [self.jobs[t] for t in tokens]

    def put(self, obj, f, v):
        obj.jobs = v
        return obj

    def grow(self, obj, f, token):
        obj.add_job(self.jobs[token])
        return obj

    def copy(self, obj):
        return PipeLine(list(obj.jobs))


class Region(Kind):
    fields = ["id", "msr", "smod", "dlr"]
    first = ["d"]
    order = ["id", "msr", "smod", "dlr"]
    immutable = True

    def __init__(self):
        Kind.__init__(self)
        self.where = r.random()
        self.built = []
        self.start = {
            "id": "001",
            "msr": {"model": ["Peer", "WC1994"],
                    "weight": [.25, .75]},
            "smod": {"value": [29., 31.5], "weight": [.5, .5]},
            "dlr": {"value": [1.25e-5], "weight": [1.]}}
        for f in self.fields:
            self.made[f, "d"] = copy.deepcopy(self.start[f])
            self.note(f, ["d"], self.start[f])

    def build(self, values):
        obj = TectonicRegion(*[copy.deepcopy(values[f])
                               for f in self.order])
        self.built.append((obj, copy.deepcopy(values)))
        return obj

    def new(self):
        return self.build(self.start)

    def values(self, obj):
        """What it was created from: a region doesn't show its parameters."""
        return [v for o, v in self.built if o is obj][0]

    def get(self, obj, f):
        return self.values(obj)[f]

    def put(self, obj, f, v):
        return self.build(dict(self.values(obj), **{f: v}))

    def grow(self, obj, f, token):
        raise AssertionError

    def copy(self, obj):
        return self.build(self.values(obj))

    def concrete(self, f, tokens):
        n = r.randint(1, 10 ** 6)
        v = copy.deepcopy(self.start[f])
        if f == "id":
            return "00%d" % n
        key = "model" if f == "msr" else "value"
        k = int(self.where * 3)
        if k == 0:
            v["weight"] = [n / 2. ** 20, 1 - n / 2. ** 20][:len(v["weight"])]
            if f == "dlr":
                v = {"value": v["value"] * 2, "weight": [n / 2. ** 20, 1 -
                                                         n / 2. ** 20]}
        elif k == 1 and f != "msr":
            v[key][-1] = n / 4.
        elif f == "msr":
            m = r.randint(1, 9)
            v = {key: [r.choice(MODELS) for _ in range(m)],
                 "weight": [1.] + [0.] * (m - 1)}
        else:
            v[key][0] = n / 4.
        return v


MODELS = ["WC1994", "Peer"]


def tri(func):
    o, got = attempt(func)
    return ("T" if got else "F") if o == "ok" else o


def history(label, kind, names, ops):
    held = [None] * names
    out = []
    stats["histories"] += 1
    for op in ops:
        s, t, f, x = op["s"] - 1, op["t"] - 1, op["f"], op["x"]

        def act():
            if op["op"] == "NEW":
                held[s] = kind.new()
            elif op["op"] == "COPY":
                held[s] = kind.copy(held[t])
            elif op["op"] == "ALIAS":
                held[s] = held[t]
            elif op["op"] == "GROW":
                held[s] = kind.grow(held[s], f, x)
            else:
                held[s] = kind.put(held[s], f, kind.value(f, [x]))
        with silent():
            o, _ = attempt(act)
        stats["operations"] += 1
        step = dict(op, out=o)
        step["eq"] = [["-" if a is None or b is None else
                       tri(lambda: a == b) for b in held] for a in held]
        step["ne"] = [["-" if a is None or b is None else
                       tri(lambda: a != b) for b in held] for a in held]
        stats["comparisons"] += names * names
        step["vals"] = [{} if a is None else kind.project(a) for a in held]
        out.append(step)
        if o != "ok":
            break
    cases.add(label=label, names=names, ops=out,
              default={f: kind.first for f in kind.fields})


def concrete(ops, kind):
    """The operations of the specification on fields of a kind."""
    fields = {"p": r.choice(kind.fields)}
    rest = [f for f in kind.fields if f != fields["p"]]
    fields["q"] = r.choice(rest or kind.fields)
    if isinstance(kind, Source) and r.random() < 0.5:
        fields["q"] = r.choice([f for f in kind.lists if f != fields["p"]])
    res = []
    for op in ops:
        op = dict(op, f=fields.get(op["f"], ""))
        if isinstance(kind, Region) and op["op"] in ("SET", "GROW"):
            op["op"] = "REPLACE"
        res.append(op)
    return res


KINDS = [Source, Source, Pipe, Region]
for i, ops in enumerate(common.generated("Gen_ValueObjects", 900, 9000)):
    kind = KINDS[i % 4]()
    stats["replayed"] += 1
    history("model-%d" % i, kind, 2, concrete(ops, kind))

# every field by itself: a copy is equal until the field differs, and again
# when it has the same value
for n in range(common.pick(8, 80)):
    for make in (Source, Pipe, Region):
        for f in make.fields:
            op = dict(s=1, t=0, f="", x="")
            setting = "REPLACE" if make is Region else "SET"
            history("field-%s-%d" % (f, n), make(), 3, [
                dict(op, op="NEW"), dict(op, op="NEW", s=2),
                dict(op, op="COPY", s=3, t=1),
                dict(op, op=setting, f=f, x="x"),
                dict(op, op=setting, s=2, f=f, x="y"),
                dict(op, op="COPY", s=3, t=2),
                dict(op, op=setting, s=2, f=f, x="x")])

for i in range(common.pick(60, 1500)):
    kind = r.choice(KINDS)()
    names = r.choice([2, 3, 4])
    ops = [dict(op="NEW", s=s + 1, t=0, f="", x="") for s in range(names)]
    for _ in range(r.randint(3, 12)):
        s = r.randint(1, names)
        t = r.choice([a for a in range(1, names + 1) if a != s])
        what = r.choice(["NEW", "COPY", "ALIAS", "SET", "GROW", "SET",
                         "GROW"])
        if isinstance(kind, Region) and what in ("SET", "GROW"):
            what = "REPLACE"
        change = what in ("SET", "GROW", "REPLACE")
        ops.append(dict(op=what, s=s, t=t if what in ("COPY", "ALIAS") else 0,
                        f=r.choice(kind.fields) if change else "",
                        x=r.choice("xyz") if change else ""))
    history("random-%d" % i, kind, names, ops)
cases.close()
common.coverage(**stats)
