"""XML documents as streams of tokens (read by expat, independently of the
code under test)."""
import decimal
import re
from xml.parsers import expat

from nrmlcases import NONE, num

PREFIX = {"http://openquake.org/xmlns/nrml/0.3": "n:",
          "http://www.opengis.net/gml": "g:"}
NUMBER = re.compile(
    r"^([+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?)$")
NCNAME = re.compile(r"^[^\W\d][\w.-]*$")
XSI = "http://www.w3.org/2001/XMLSchema-instance "
NUMERIC = {"g:posList", "g:pos", "n:aValueCumulative", "n:bValue",
           "n:minMagnitude", "n:maxMagnitude", "n:strike", "n:dip", "n:rake",
           "n:magnitude", "n:depth", "n:hypocentralDepth",
           "n:upperSeismogenicDepth", "n:lowerSeismogenicDepth"}


def millionths(word):
    """The number in 10^-6, rounded away from zero, clipped."""
    d = decimal.Decimal(word)
    if d == 0:
        return 0
    if abs(d) >= 2000:
        return 2000000000 if d > 0 else -2000000000
    if abs(d) < decimal.Decimal("1e-6"):
        return 1 if d > 0 else -1
    return int((d * 1000000).to_integral_value(rounding=decimal.ROUND_UP))


def _tag(name):
    ns, _, local = name.rpartition(" ")
    return PREFIX.get(ns, "x:") + local


def tokens(data):
    out = []
    texts = []

    def start(name, attrs):
        t = {"k": "open", "t": _tag(name), "id": NONE, "idok": True,
             "srs": NONE, "type": NONE, "extra": False}
        for key, value in attrs.items():
            if _tag(key) == "g:id":
                t["id"] = value
                t["idok"] = NCNAME.match(value) is not None
            elif key == "srsName":
                t["srs"] = value
            elif key == "type":
                t["type"] = value
            elif not key.startswith(XSI):
                t["extra"] = True
        out.append(t)
        texts.append([])

    def end(name):
        s = "".join(texts.pop())
        tag = _tag(name)
        words = s.split() if tag in NUMERIC else []
        good = [w for w in words if NUMBER.match(w)]
        out.append({"k": "close", "t": tag, "s": s if tag not in NUMERIC
                    else "~numbers",
                    "blank": not s.strip(" \t\r\n"),
                    "bad": len(good) != len(words) if tag in NUMERIC
                    else bool(s.strip(" \t\r\n")),
                    "nums": [{"s": num(w), "v": millionths(w)}
                             for w in good]})

    p = expat.ParserCreate(namespace_separator=" ")
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = lambda s: texts[-1].append(s)
    try:
        p.Parse(data, True)
    except expat.ExpatError:
        out.append({"k": "broken"})
    return out
