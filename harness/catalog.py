"""Catalogue rows as tokens and as csv text; used by the drivers."""
import csv
import io
import math

FIELDS = ["eventID", "Agency", "Identifier", "year", "month", "day", "hour",
          "minute", "second", "timeError", "longitude", "latitude",
          "SemiMajor90", "SemiMinor90", "ErrorStrike", "depth", "depthError",
          "Mw", "sigmaMw", "Ms", "sigmaMs", "mb", "sigmamb", "ML", "sigmaML"]
INT = {"eventID", "Identifier", "year", "month", "day", "hour", "minute"}
REAL = set(FIELDS) - INT - {"Agency"}
COMPULSORY = INT | {"longitude", "latitude", "depth", "Mw"}
POS = {f: i for i, f in enumerate(FIELDS)}
CAP = 2000000000


def scaled(x):
    """Thousandths, rounded away from zero."""
    v = x * 1000
    r = round(v)
    if r / 1000.0 == x:
        n = int(r)
    else:
        n = int(math.ceil(v)) if v > 0 else int(math.floor(v))
    return max(-CAP, min(CAP, n))


def raw_token(field, text):
    """The token of a raw csv text, by Python-independent rules."""
    t = text.strip()
    if field == "Agency":
        return ({"k": "str", "v": 0, "s": text} if text != ""
                else {"k": "blank", "v": 0, "s": ""})
    if t == "":
        return {"k": "blank", "v": 0, "s": ""}
    if field in INT:
        body = t[1:] if t[0] in "+-" else t
        if body.isdigit() and body.isascii():
            n = int(t)
            return {"k": "int", "v": max(-CAP, min(CAP, n)), "s": str(n)}
        return {"k": "str", "v": 0, "s": text}
    try:
        x = float(t)
    except ValueError:
        return {"k": "str", "v": 0, "s": text}
    if math.isnan(x):                   # not a number
        return {"k": "nan", "v": 0, "s": "nan"}
    if math.isinf(x):
        return {"k": "num", "v": CAP if x > 0 else -CAP, "s": repr(x)}
    return {"k": "num", "v": scaled(x), "s": repr(x + 0.0 if x else 0.0)}


def out_token(field, value):
    """The token of a value delivered by the reader."""
    if isinstance(value, str):
        if value == "":
            return {"k": "blank", "v": 0, "s": ""}
        return {"k": "str", "v": 0, "s": value}
    if isinstance(value, bool) or value is None:
        return {"k": "other", "v": 0, "s": repr(value)}
    if isinstance(value, int):
        if field in REAL:
            return {"k": "int", "v": 0, "s": str(value)}
        return {"k": "int", "v": max(-CAP, min(CAP, value)), "s": str(value)}
    try:
        x = float(value)
        if not math.isfinite(x):
            return {"k": "other", "v": 0, "s": repr(x)}
        if field in INT:
            return {"k": "num", "v": 0, "s": repr(x)}
        return {"k": "num", "v": scaled(x), "s": repr(x + 0.0 if x else 0.0)}
    except (TypeError, ValueError):
        return {"k": "other", "v": 0, "s": repr(value)}


def out_row(entry):
    """Tokens of a delivered entry, in field order; missing or extra fields
    show as 'other' tokens."""
    row = [out_token(f, entry[f]) if f in entry
           else {"k": "other", "v": 0, "s": "missing"} for f in FIELDS]
    extra = [key for key in entry if key not in POS]
    if extra:
        row[0] = {"k": "other", "v": 0, "s": "extra %s" % extra}
    return row


def default_row(**kw):
    """A valid row (texts), with replacements."""
    row = {"eventID": "1", "Agency": "AAA", "Identifier": "20000102034913",
           "year": "2000", "month": "1", "day": "2", "hour": "3",
           "minute": "49", "second": "13.0", "timeError": "0.02",
           "longitude": "7.282", "latitude": "44.368", "SemiMajor90": "2.43",
           "SemiMinor90": "1.01", "ErrorStrike": "298.0", "depth": "9.3",
           "depthError": "0.5", "Mw": "1.71", "sigmaMw": "0.355", "Ms": "",
           "sigmaMs": "", "mb": "", "sigmamb": "", "ML": "1.7",
           "sigmaML": "0.1"}
    row.update(kw)
    return [row[f] for f in FIELDS]


def render(rows, header=None, eol="\n", blanks=(), quote=False, tail=True):
    """csv text and the line number of every row; blanks: numbers of the rows
    before which a blank line stands."""
    out = io.StringIO()
    out.write(",".join(FIELDS) if header is None else header)
    out.write(eol)
    line = 1
    lines = []
    for i, row in enumerate(rows):
        if i in blanks:
            out.write(eol)
            line += 1
        buf = io.StringIO()
        csv.writer(buf, lineterminator="",
                   quoting=csv.QUOTE_ALL if quote else csv.QUOTE_MINIMAL
                   ).writerow(row)
        out.write(buf.getvalue())
        line += 1
        lines.append(line)
        if tail or i < len(rows) - 1:
            out.write(eol)
    return out.getvalue(), lines
