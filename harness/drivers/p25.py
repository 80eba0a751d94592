"""Reading of source model files: conforming and faulty, several at once."""
import os
import re
import shutil
import tempfile

import common
from common import attempt, silent, Cases
from nrmlcases import (random_source, model_xml, source_xml, object_token,
                       REGIONS, NS, number_text)
from xmltokens import tokens

with common.imports():
    from mtoolkit import jobs
    from mtoolkit.workflow import Context
    from nrml.reader import NRMLReader

r = common.rng("p25")
out = Cases("NrmlTrace")
here = tempfile.mkdtemp(prefix="p25", dir=common.OUT)
stats = {"documents": 0, "conforming": 0, "reads": 0, "sources": 0}
POINT_XML = """    <pointSource gml:id="p%d">
      <gml:name>a point</gml:name>
      <tectonicRegion>Volcanic</tectonicRegion>
      <location><gml:Point srsName="x"><gml:pos>1.5 2.5</gml:pos></gml:Point></location>
      <ruptureRateModel>
        <truncatedGutenbergRichter type="ML">
          <aValueCumulative>1</aValueCumulative><bValue>1</bValue>
          <minMagnitude>1</minMagnitude><maxMagnitude>2</maxMagnitude>
        </truncatedGutenbergRichter>
        <strike>1</strike><dip>2</dip><rake>3</rake>
      </ruptureRateModel>
      <ruptureDepthDistribution>
        <magnitude type="ML">6.0</magnitude><depth>5</depth>
      </ruptureDepthDistribution>
      <hypocentralDepth>5000.0</hypocentralDepth>
    </pointSource>
"""
FAULT_XML = """    <simpleFaultSource gml:id="f%d">
      <gml:name>a fault</gml:name>
      <tectonicRegion>Volcanic</tectonicRegion>
      <rake>12.5</rake>
      <truncatedGutenbergRichter type="ML">
        <aValueCumulative>1</aValueCumulative><bValue>1</bValue>
        <minMagnitude>1</minMagnitude><maxMagnitude>2</maxMagnitude>
      </truncatedGutenbergRichter>
      <simpleFaultGeometry gml:id="g%d">
        <faultTrace><gml:LineString srsName="x"><gml:posList>1 2 3 4</gml:posList></gml:LineString></faultTrace>
        <dip>45</dip>
        <upperSeismogenicDepth>0</upperSeismogenicDepth>
        <lowerSeismogenicDepth>10</lowerSeismogenicDepth>
      </simpleFaultGeometry>
    </simpleFaultSource>
"""


def document(n, plain=False):
    """A conforming document as text."""
    parts = []
    style = 0 if plain else r.randint(0, 40)
    for j in range(n):
        s = random_source(r, j)
        if r.random() < 0.1:
            s["srs"] = None
        if r.random() < 0.1:
            s["tgr"] = None
        if r.random() < 0.1:
            s["mtype"] = None
        x = source_xml(s, style + j if style else 0)
        k = r.random()
        if k < 0.1:
            x = re.sub(r"\s*<gml:name>.*?</gml:name>", "", x, flags=re.S)
        elif k < 0.15:
            x = x.replace("<gml:name>",
                          "<gml:description>d</gml:description><gml:name>", 1)
        elif k < 0.2:
            x = x.replace("</gml:name>",
                          "</gml:name><gml:name>another name</gml:name>", 1)
        elif k < 0.25:
            x = x.replace("<gml:name>", "<gml:name><!-- c -->", 1)
        elif k < 0.3:
            x = x.replace("<tectonicRegion>", "<?pi some?><tectonicRegion>")
        if r.random() < 0.1:
            x = x.replace("<ruptureRateModel>",
                          "<!-- a > b -->\n<ruptureRateModel>")
        if r.random() < 0.1:
            x = x.replace("<gml:Polygon>", '<gml:Polygon gml:id="poly%d" '
                          'srsName="other">' % j)
        k = r.random()
        if k < 0.15:
            extra = r.choice(["<gml:name>its shape</gml:name>",
                              "<gml:description>d</gml:description>",
                              "<gml:description>d</gml:description>"
                              "<gml:name>a</gml:name><gml:name>b</gml:name>"])
            x = re.sub("(<gml:(Polygon|LinearRing)[^>]*>)"
                       if k < 0.05 else "(<gml:Polygon[^>]*>)" if k < 0.1
                       else "(<gml:LinearRing[^>]*>)",
                       lambda m: m.group(1) + extra, x)
        if r.random() < 0.15:
            # holes are no part of the boundary
            x = x.replace("</gml:exterior>", "</gml:exterior>" + "".join(
                '<gml:interior><gml:LinearRing%s><gml:posList>%s'
                '</gml:posList></gml:LinearRing></gml:interior>' % (
                    r.choice(["", ' srsName="hole"']), " ".join(
                        number_text(r, -80, 80) for _ in range(8)))
                for _ in range(r.choice([1, 1, 2]))))
        parts.append(x)
        if r.random() < 0.08:
            parts.append(POINT_XML % j)
        if r.random() < 0.08:
            parts.append(FAULT_XML % (j, j))
    if r.random() < 0.05:
        parts.insert(0, POINT_XML % 900)
    head = r.choice(["", "\n", "<!-- head -->\n", "<?style x?>\n"])
    names = r.choice(["", "", "<gml:name>the model</gml:name>",
                      "<gml:description>some</gml:description>"
                      "<gml:name>one</gml:name><gml:name>two</gml:name>"])
    ids = r.choice([("n1", "sm1"), ("n1", "sm1"), ("a.b", "c-d"),
                    (u"\u00e9t\u00e9", "_x"), ("same", "other")])
    text = '%s<nrml %s gml:id="%s">%s\n  <sourceModel gml:id="%s">%s\n' \
        '%s%s  </sourceModel>\n</nrml>%s' % (
            head, NS, ids[0], r.choice(["", "", names]), ids[1], names,
            r.choice(["    <config/>\n", "    <config></config>\n",
                      "    <config> </config>\n", ""]), "".join(parts),
            r.choice(["", "\n", "\n<!-- end -->"]))
    k = r.random()
    if k < 0.15:      # another prefix
        text = text.replace("gml:", "geo:").replace("xmlns:gml", "xmlns:geo")
        text = text.replace('xmlns:geo="http', 'xmlns:geo="http')
    elif k < 0.25:    # no default namespace
        text = re.sub(r"<(/?)(?=[a-zA-Z]+[\s>/])", r"<\1q:", text)
        text = text.replace(' xmlns="', ' xmlns:q="', 1)
    elif k < 0.3:
        text = text.replace("<nrml ", '<nrml xmlns:xsi="http://www.w3.org/'
                            '2001/XMLSchema-instance" xsi:schemaLocation='
                            '"http://openquake.org/xmlns/nrml/0.3 n.xsd" ')
    return text


def encode(text):
    k = r.random()
    if k < 0.15:
        return text.strip().encode("utf-8")
    if k < 0.25:
        return ('<?xml version="1.0" encoding="UTF-16"?>\n'
                + text).encode("utf-16")
    if k < 0.35:
        return ('<?xml version="1.0" encoding="ISO-8859-1"?>\n'
                + text).encode("latin-1", "xmlcharrefreplace")
    if k < 0.4:
        return b"\xef\xbb\xbf" + text.encode("utf-8")
    if k < 0.5:
        return ('<?xml version="1.0" encoding="US-ASCII"?>\n'
                + text).encode("ascii", "xmlcharrefreplace")
    if k < 0.6:
        return ('<?xml version="1.0"?>\n' + text).replace(
            "\n", "\r\n").encode("utf-8")
    return ('<?xml version="1.0" encoding="UTF-8"?>\n' + text).encode("utf-8")


def elements(text):
    """The extents of the elements without and with content."""
    res, stack = [], []
    for m in re.finditer(r"<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>|<[^>]*>",
                         text, re.S):
        x = m.group()
        if x[1] in "!?":
            continue
        if x[1] == "/":
            res.append((stack.pop(), m.end()))
        elif x.endswith("/>"):
            res.append((m.start(), m.end()))
        else:
            stack.append(m.start())
    return sorted(res)


NUMEL = ["aValueCumulative", "bValue", "minMagnitude", "maxMagnitude",
         "strike", "dip", "rake", "depth", "magnitude", "hypocentralDepth",
         "gml:posList"]


def change_number(text):
    spots = [m for m in re.finditer(
        r"(<(\w+:)?(%s)( [^>]*)?>)([^<]*)(</)" % "|".join(
            x.split(":")[-1] for x in NUMEL), text)]
    m = r.choice(spots)
    words = m.group(5).split()
    p = r.randrange(len(words))
    words[p] = r.choice(["-1", "-0.000001", "0", "-0.0", "360", "360.1", "361",
                         "90", "90.5", "-180", "-181", "180", "180.0000001",
                         "1e5", "1E-3", ".5", "5.", "+7", "abc", "1,5", "1_0",
                         "0x10", "--1", "nan", "inf", "1.5.2", "-7",
                         "5d3", u"\u0663", "1e-7", "-1e-7",
                         number_text(r, -5, 100)])
    k = r.random()
    if k < 0.1:
        words.insert(p, "1")
    return text[:m.start(5)] + " ".join(words) + text[m.end(5):]


def attribute(text):
    spots = [m for m in re.finditer(r' ((\w+:)?(id|srsName|type))="[^"]*"',
                                    text)]
    m = r.choice(spots)
    k = r.random()
    if k < 0.25:
        new = ""
    elif k < 0.5:
        new = ' %s="%s"' % (m.group(1), r.choice(
            ["1x", "a b", "x:y", "Mb", "ml", "ML", "Mw", "", "a/b", "_ok"]))
    elif k < 0.65:
        new = m.group() + r.choice([' kind="x"', ' type="ML"',
                                    ' srsName="y"', m.group()])
    elif k < 0.8:
        new = m.group() + m.group().replace('="', 'X="')
    else:
        new = m.group().lower()
    return text[:m.start()] + new + text[m.end():]


def fault(text):
    """An edit of a document; most make it faulty."""
    k = r.choice(["without", "twice", "swap", "number", "number", "number",
                  "attr", "attr", "cut", "char", "text", "rename", "region",
                  "nest", "namespace", "after", "empty"])
    ext = elements(text)
    e = r.choice(ext)
    if k == "without":
        return text[:e[0]] + text[e[1]:]
    if k == "twice":
        return text[:e[1]] + text[e[0]:]
    if k == "swap":
        nxt = [f for f in ext if f[0] >= e[1]
               and not text[e[1]:f[0]].strip()]
        if nxt:
            f = nxt[0]
            return (text[:e[0]] + text[f[0]:f[1]] + text[e[1]:f[0]]
                    + text[e[0]:e[1]] + text[f[1]:])
        return text
    if k == "number":
        return change_number(text)
    if k == "attr":
        return attribute(text)
    if k == "cut":
        return text[:r.randrange(len(text))]
    if k == "char":
        p = r.randrange(len(text))
        c = r.choice(["<", ">", "&", "\"", "/", "x", " ", "\x01", "]]>", ""])
        return text[:p] + c + text[p + r.randint(0, 1):]
    if k == "text":
        return text[:e[1]] + r.choice(["some text", " ", "0"]) + text[e[1]:]
    if k == "rename":
        m = re.match(r"<([\w:]+)", text[e[0]:])
        name = m.group(1)
        body = text[e[0]:e[1]]
        new = r.choice([name + "x", name.lower(), name.capitalize()])
        body = "<" + new + body[1 + len(name):]
        if body.endswith("</%s>" % name):
            body = body[:-len(name) - 1] + new + ">"
        return text[:e[0]] + body + text[e[1]:]
    if k == "region":
        return re.sub(r"(tectonicRegion>)[^<]*", lambda m: m.group(1)
                      + r.choice([" Volcanic", "volcanic", "Volcanic ", "",
                                  "Active  Shallow Crust", "Crust"]
                                 + REGIONS), text, count=1)
    if k == "nest":
        f = r.choice(ext)
        return text[:e[1]] + text[f[0]:f[1]] + text[e[1]:]
    if k == "namespace":
        return text.replace(r.choice(["openquake.org/xmlns/nrml/0.3",
                                      "www.opengis.net/gml"]),
                            r.choice(["openquake.org/xmlns/nrml/0.4",
                                      "www.opengis.net/other"]), 1)
    if k == "after":
        return text + r.choice(["<nrml/>", "x", "</nrml>", "<!-- x -->", " "])
    m = r.choice(list(re.finditer(r">([^<]+)<", text)))
    return text[:m.start(1)] + text[m.end(1):]


# libxml2 takes "1e" for a number
LENIENT = re.compile(r"[0-9.][eE][+-]?[<\s]")
URI = re.compile(r"^[\w:./?=& -]*$", re.A)


def usable(toks):
    """What the property leaves open is left out."""
    seen, depth, odd, rings = {}, [], False, []
    for t in toks:
        if t["k"] == "close" and t["t"] in (
                "g:posList", "g:pos", "n:magnitude", "n:depth"):
            n = len(t["nums"])
            odd = odd or (not t["bad"] and (
                n == 0 or (t["t"] == "g:posList" and n % 2)))
        if t["k"] == "open":
            rings.append(t["t"])
            # a hole in nothing
            odd = odd or (t["t"] == "g:interior" and "g:exterior" not in
                          rings[max(i for i, x in enumerate(
                              ["g:Polygon"] + rings) if x == "g:Polygon"):])
            odd = odd or not URI.match(t["srs"].replace("~", ""))
            if t["id"] != "~none":
                odd = odd or t["id"] in seen or t["id"] != t["id"].strip()
                seen[t["id"]] = 1
            odd = odd or (t["t"] == "n:ruptureRateModel"
                          and depth and depth[-1] == t["t"])
            depth.append("")
        elif t["k"] == "close":
            depth.pop()
            if depth:
                depth[-1] = t["t"]
    return not odd


class Doc(object):
    count = 0

    def __init__(self, data):
        Doc.count += 1
        self.data = data
        self.path = os.path.join(here, "d%d.xml" % Doc.count)
        with open(self.path, "wb") as f:
            f.write(data)
        self.tokens = tokens(data)
        stats["documents"] += 1


class Read(object):

    def __init__(self, doc, reader=None):
        self.doc = doc
        stats["reads"] += 1
        self.it = (reader or NRMLReader(doc.path,
                                        jobs.NRML_SCHEMA_PATH)).read()
        self.over = False

    def step(self):
        """The next source, or the end."""
        def go():
            with silent():
                return next(self.it)
        o, v = attempt(go)
        if o == "ok":
            stats["sources"] += 1
            return "source", v
        self.over = True
        if o == "raise:StopIteration":
            stats["conforming"] += 1
            return "end", None
        return o, None


def see(o):
    k, v = attempt(lambda: object_token(o))
    return v if k == "ok" else {f: "?" + k for f in FIELDS}


FIELDS = ["nrml", "sm", "id", "name", "region", "srs", "pos", "a", "b",
          "mmin", "mmax", "tgr", "strike", "dip", "rake", "mtype", "mags",
          "depths", "hypo"]
NOSRC = {f: [] if f in ("pos", "mags", "depths") else "" for f in FIELDS}


def session(label, docs, plan):
    """plan(reads, run): drives the reads."""
    reads, steps, held = [], [], []

    def open_read(i, reader=None):
        reads.append(i)
        rd = Read(docs[i], reader)
        rd.n = len(reads)
        return rd

    def step(rd):
        o, v = rd.step()
        t = NOSRC
        if o == "source":
            t = see(v)
            held.append((v, t))
        steps.append({"r": rd.n, "o": o, "src": t})
        return o

    plan(open_read, step)
    out.add(label=label, docs=[d.tokens for d in docs],
            reads=[i + 1 for i in reads], steps=steps,
            kept=all(see(v) == t for v, t in held),
            untouched=all(open(d.path, "rb").read() == d.data for d in docs))
    for d in docs:
        os.remove(d.path)


def whole(open_read, step):
    rd = open_read(0)
    for _ in range(400):
        if step(rd) != "source":
            break


def job(label, doc):
    """The job which reads the configured model."""
    if not any(t["k"] == "open" and t["t"] == "n:areaSource"
               for t in doc.tokens):
        return
    stats["reads"] += 1

    def go():
        with silent():
            c = Context()
            c.config = {"source_model_file": doc.path}
            jobs.read_source_model(c)
            return c.sm_definitions
    o, v = attempt(go)
    steps = []
    if o == "ok":
        steps = [{"r": 1, "o": "source", "src": see(s)} for s in v]
        o = "end"
    steps.append({"r": 1, "o": o, "src": NOSRC})
    out.add(label=label, docs=[doc.tokens], reads=[1], steps=steps, kept=True,
            untouched=open(doc.path, "rb").read() == doc.data)


def good(n, **kw):
    return Doc(encode(document(n, **kw)))


def bad(n):
    for _ in range(50):
        text = document(n)
        for _ in range(r.choice([1, 1, 1, 2])):
            try:
                text = fault(text)
            except (IndexError, ValueError):  # the first edit left nothing to edit
                break
        data = encode(text)
        if usable(tokens(data)) and not LENIENT.search(text):
            return Doc(data)
    return good(n)


for i in range(common.pick(60, 400)):
    session("whole-%d" % i, [good(r.choice([1, 1, 2, 3, 6]))], whole)
for i in range(common.pick(4, 30)):
    session("long-%d" % i, [good(r.choice([25, 40, 60]))], whole)
for i in range(common.pick(260, 3000)):
    session("faulty-%d" % i, [bad(r.choice([1, 1, 2, 3]))], whole)
for i in range(common.pick(4, 30)):
    session("long-faulty-%d" % i, [bad(r.choice([25, 40]))], whole)
for i in range(common.pick(10, 60)):
    job("job-%d" % i, good(r.choice([1, 2, 5])))
for i in range(common.pick(10, 100)):
    job("faulty-job-%d" % i, bad(r.choice([1, 2])))


def interleaved(docs):
    def plan(open_read, step):
        live = [open_read(i) for i in range(len(docs))]
        readers = [NRMLReader(d.path, jobs.NRML_SCHEMA_PATH) for d in docs]
        for _ in range(r.choice([0, 1, 2, 3])):
            i = r.randrange(len(docs))
            live.append(open_read(i, readers[i]))
        abandon = r.random() < 0.3
        n = 0
        while live and n < 300:
            n += 1
            rd = r.choice(live)
            if abandon and r.random() < 0.1:
                live.remove(rd)
                if r.random() < 0.5:
                    rd.it.close()
                continue
            if step(rd) != "source":
                live.remove(rd)
                if r.random() < 0.2:
                    i = docs.index(rd.doc)
                    live.append(open_read(i, readers[i]))
    return plan


for i in range(common.pick(25, 200)):
    docs = [good(r.choice([1, 2, 4, 8])) if r.random() < 0.7
            else bad(r.choice([1, 2, 3]))
            for _ in range(r.choice([1, 2, 2, 3]))]
    session("several-%d" % i, docs, interleaved(docs))
out.close()
common.coverage(cases=out.n, **stats)
shutil.rmtree(here)
