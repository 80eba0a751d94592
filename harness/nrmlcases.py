"""Source models as data, as xml text and as tokens; used by the drivers."""
import math
from xml.sax.saxutils import escape, quoteattr

REGIONS = ["Active Shallow Crust", "Stable Shallow Crust",
           "Subduction Interface", "Subduction IntraSlab", "Volcanic"]
NONE = "~none"
NS = ('xmlns="http://openquake.org/xmlns/nrml/0.3" '
      'xmlns:gml="http://www.opengis.net/gml"')


def num(x):
    """The token of a number."""
    try:
        v = float(x)
    except (TypeError, ValueError):
        return "other %r" % (x,)
    return repr(v + 0.0 if v else 0.0)


def text(x):
    if x is None:
        return NONE
    return x if isinstance(x, str) else "other %r" % (x,)


def number_text(r, lo, hi):
    """A number in [lo, hi] as text, in one of many notations."""
    v = r.uniform(lo, hi)
    k = r.random()
    if k < 0.2:
        return "%d" % max(lo, min(hi, round(v)))
    if k < 0.5:
        t = "%.*f" % (r.randint(1, 5), v)
    elif k < 0.75:
        t = repr(v)
    elif k < 0.85:
        t = "%.6e" % v
    elif k < 0.9:
        t = "%.17g" % v
    else:
        t = repr(r.choice([lo, hi, (lo + hi) / 2.0]))
    if not lo <= float(t) <= hi:
        t = repr(v)
    if r.random() < 0.05 and t[0] not in "+-":
        t = "+" + t
    return t


NAMES = ["Source 1", "A & B", "x < y > z", "O'Brien \"quoted\"",
         u"\u00c9v\u00e9nement", u"\u6771\u4eac", "a", "Zone-7 (b)",
         "semi;colon, comma", "two  spaces", "100%", "\\back\\slash",
         "{brace}", "&amp;", "tab\tinside", "very " * 30]


def random_source(r, i, simple=False):
    """Texts of one area source."""
    n = r.choice([3, 4, 4, 5, 8, 30])
    lon0, lat0 = r.uniform(-170, 160), r.uniform(-80, 70)
    pos = []
    for k in range(n):
        a = 2 * math.pi * k / n
        pos.append((number_text(r, lon0 - 4, lon0 + 4)
                    if not simple else repr(lon0 + math.cos(a)),
                    number_text(r, lat0 - 4, lat0 + 4)
                    if not simple else repr(lat0 + math.sin(a))))
    if not simple and r.random() < 0.15:      # a point twice in a row
        k = r.randrange(n)
        pos.insert(k, pos[k])
    if not simple and r.random() < 0.15:      # closed
        pos.append(pos[0])
    k = r.choice([1, 1, 2, 3, 6])
    return {
        "id": "src_%d%s" % (i, r.choice(["", ".a", "-b", "_c"])),
        "name": r.choice(NAMES) if r.random() < 0.7 else "n%d" % i,
        "region": r.choice(REGIONS),
        "srs": r.choice(["urn:ogc:def:crs:EPSG::4326", "EPSG:4326",
                         "http://x.org/?a=1&b=2"]),
        "pos": pos,
        "a": number_text(r, -5, 5), "b": number_text(r, 0, 2),
        "mmin": number_text(r, 0, 6), "mmax": number_text(r, 6, 9),
        "tgr": r.choice(["ML", "Mw"]),
        "strike": number_text(r, 0, 360), "dip": number_text(r, 0, 90),
        "rake": number_text(r, -180, 180),
        "mtype": r.choice(["ML", "Mw"]),
        "mags": [number_text(r, 4, 8) for _ in range(k)],
        "depths": [number_text(r, 0, 50) for _ in range(
            k if r.random() < 0.5 else r.choice([1, 2, 3, 7]))],
        "hypo": number_text(r, 0, 60),
    }


def box(i, x0, y0, x1, y1, **kw):
    """A rectangular source with plain values."""
    s = {"id": "src_%d" % i, "name": "zone %d" % i, "region": REGIONS[0],
         "srs": "urn:ogc:def:crs:EPSG::4326",
         "pos": [(repr(float(x0)), repr(float(y0))),
                 (repr(float(x0)), repr(float(y1))),
                 (repr(float(x1)), repr(float(y1))),
                 (repr(float(x1)), repr(float(y0)))],
         "a": "1.5", "b": "0.9", "mmin": "4.0", "mmax": "7.5", "tgr": "Mw",
         "strike": "10.0", "dip": "80.0", "rake": "-90.0", "mtype": "Mw",
         "mags": ["5.0"], "depths": ["15.0"], "hypo": "15.0"}
    s.update(kw)
    return s


def token(s, nrml="n1", sm="sm1"):
    """What the reader has to make of the source."""
    return {"nrml": nrml, "sm": sm, "id": s["id"],
            "name": s["name"] if s["name"] != "" else NONE,
            "region": s["region"],
            "srs": NONE if s["srs"] is None else s["srs"],
            "pos": [[num(x), num(y)] for x, y in s["pos"]],
            "a": num(s["a"]), "b": num(s["b"]), "mmin": num(s["mmin"]),
            "mmax": num(s["mmax"]),
            "tgr": NONE if s["tgr"] is None else s["tgr"],
            "strike": num(s["strike"]), "dip": num(s["dip"]),
            "rake": num(s["rake"]),
            "mtype": NONE if s["mtype"] is None else s["mtype"],
            "mags": [num(x) for x in s["mags"]],
            "depths": [num(x) for x in s["depths"]],
            "hypo": num(s["hypo"])}


def object_token(o):
    """The token of a source object."""
    t = o.rupture_rate_model.truncated_gutenberg_richter
    m = o.rupture_depth_dist.magnitude
    return {"nrml": text(o.nrml_id), "sm": text(o.source_model_id),
            "id": text(o.area_source_id), "name": text(o.name),
            "region": text(o.tectonic_region),
            "srs": text(o.area_boundary.srs_name),
            "pos": [[num(p.lon), num(p.lat)]
                    for p in o.area_boundary.pos_list],
            "a": num(t.a_value), "b": num(t.b_value),
            "mmin": num(t.min_magnitude), "mmax": num(t.max_magnitude),
            "tgr": text(t.type_tgr),
            "strike": num(o.rupture_rate_model.strike),
            "dip": num(o.rupture_rate_model.dip),
            "rake": num(o.rupture_rate_model.rake),
            "mtype": text(m.type_mag), "mags": [num(v) for v in m.values],
            "depths": [num(v) for v in o.rupture_depth_dist.depth],
            "hypo": num(o.hypocentral_depth)}


def attr(name, value):
    return "" if value is None else " %s=%s" % (name, quoteattr(value))


def source_xml(s, style=0):
    sep = [" ", "\n          ", "\t", "  "][style % 4]
    pad = ["", " ", "\n"][style % 3]

    def el(tag, value):
        return "<%s>%s%s%s</%s>" % (tag, pad, value, pad, tag)
    note = "<!-- note -->" if style % 5 == 4 else ""
    name = escape(s["name"])
    if style % 7 == 3 and "]]>" not in s["name"]:
        name = "<![CDATA[%s]]>" % s["name"]
    return """    <areaSource gml:id=%s>%s
      <gml:name>%s</gml:name>
      <tectonicRegion>%s</tectonicRegion>
      <areaBoundary>
        <gml:Polygon><gml:exterior><gml:LinearRing%s>
              <gml:posList>%s</gml:posList>
        </gml:LinearRing></gml:exterior></gml:Polygon>
      </areaBoundary>
      <ruptureRateModel>%s
        <truncatedGutenbergRichter%s>
          %s %s
          %s %s
        </truncatedGutenbergRichter>
        %s%s%s
      </ruptureRateModel>
      <ruptureDepthDistribution>
        <magnitude%s>%s</magnitude>
        <depth>%s</depth>
      </ruptureDepthDistribution>
      %s
    </areaSource>
""" % (quoteattr(s["id"]), note, name, s["region"], attr("srsName", s["srs"]),
       pad + sep.join("%s %s" % p for p in s["pos"]) + pad, note,
       attr("type", s["tgr"]),
       el("aValueCumulative", s["a"]), el("bValue", s["b"]),
       el("minMagnitude", s["mmin"]), el("maxMagnitude", s["mmax"]),
       el("strike", s["strike"]), el("dip", s["dip"]), el("rake", s["rake"]),
       attr("type", s["mtype"]), sep.join(s["mags"]), sep.join(s["depths"]),
       el("hypocentralDepth", s["hypo"]))


def model_xml(sources, nrml="n1", sm="sm1", style=0, prolog=True):
    body = "".join(source_xml(s, style + i if style else 0)
                   for i, s in enumerate(sources))
    return ("%s<nrml %s gml:id=%s>\n  <sourceModel gml:id=%s>\n"
            "    <config/>\n%s  </sourceModel>\n</nrml>\n" % (
                '<?xml version="1.0" encoding="UTF-8"?>\n' if prolog else "",
                NS, quoteattr(nrml), quoteattr(sm), body))
