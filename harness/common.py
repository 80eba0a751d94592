"""Helpers shared by the drivers (they run inside the translated tree)."""
import contextlib
import io
import json
import logging
import math
import os
import random
import signal
import sys
import warnings

warnings.simplefilter("ignore")
logging.getLogger("mt_logger").addHandler(logging.NullHandler())
logging.getLogger("mt_logger").propagate = False

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
OUT = sys.argv[1] if len(sys.argv) > 1 else "/tmp/out"
TREE = os.environ.get("TREE", "")

NAN = 2147483001
BIG = 2147483002


def pick(quick, thorough):
    return thorough if THOROUGH else quick


def rng(name):
    return random.Random("%s/%s" % (SEED, name))


class Timeout(BaseException):
    """Not an Exception, so that the code under test cannot swallow it."""


def _alarm(*_):
    raise Timeout()


_late = [0]


def patience(seconds):
    """How long to wait for one call: less and less once calls have hung, so
    that code which hangs is reported instead of using up the time."""
    if _late[0] < 4:
        return seconds
    return min(seconds, 3) if _late[0] < 24 else 0


def hung():
    _late[0] += 1


def attempt(func, seconds=20):
    """Runs func(); returns ('ok', value) or (outcome, None) where outcome is
    'raise:<Type>' or 'timeout'."""
    seconds = patience(seconds)
    if not seconds:
        return "timeout", None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return "ok", func()
    except Timeout:
        hung()
        return "timeout", None
    except SystemExit as e:
        return "raise:SystemExit", e
    except Exception as e:
        return "raise:" + type(e).__name__, e
    finally:
        signal.alarm(0)


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()) as out, \
            contextlib.redirect_stderr(io.StringIO()) as err:
        yield out, err


def sc(value, scale=1):
    """A float as a scaled integer TLC can hold; sentinels for nan and for
    what does not fit."""
    v = float(value)
    if math.isnan(v):
        return NAN
    v = v * scale
    if v > 2.0e9:
        return BIG
    if v < -2.0e9:
        return -BIG
    return int(math.floor(v + 0.5))


def exact(value, scale):
    """As sc, but sentinel NAN when value is not exactly a scaled integer."""
    v = float(value)
    n = sc(v, scale)
    if abs(n) < 2000000000 and n / float(scale) == v:
        return n
    return NAN


def number(v):
    """[k, m, e]: v = m * 10^e with nine digits."""
    try:
        v = float(v)
    except (TypeError, ValueError):
        return {"k": "other", "m": 0, "e": 0}
    if math.isnan(v):
        return {"k": "nan", "m": 0, "e": 0}
    if math.isinf(v):
        return {"k": "inf", "m": 0, "e": 0}
    if v < 0:
        return {"k": "neg", "m": 0, "e": 0}
    if v == 0:
        return {"k": "num", "m": 0, "e": 0}
    m, e = ("%.8e" % v).split("e")
    e = int(e) - 8
    if abs(e) > 80:
        return {"k": "huge", "m": 0, "e": 0}
    return {"k": "num", "m": int(m.replace(".", "")), "e": e}


def ranks(*groups):
    """The values of all groups as dense ranks (order and ties are kept)."""
    values = sorted({float(v) for g in groups for v in g})
    pos = {v: i + 1 for i, v in enumerate(values)}
    return [[pos[float(v)] for v in g] for g in groups]


def generated(module, quick=None, thorough=None):
    """The behaviours TLC generated from a Gen_* module, to be replayed into
    the implementation: all of them, or as many as the tier's limit, chosen
    by the seed."""
    with open(os.path.join(os.environ["GEN_DIR"], module + ".ndjson")) as f:
        lines = f.read().split("\n")[:-1]
    limit = pick(quick, thorough)
    if limit is not None and len(lines) > limit:
        lines = rng(module).sample(lines, limit)
    return [json.loads(line) for line in lines]


def pairs(y, m):
    return [{"y": a, "m": b} for a, b in zip(y, m)]


class Cases(object):
    """Collects the cases of one conformance module."""

    def __init__(self, module):
        self.path = os.path.join(OUT, module + ".ndjson")
        self.file = open(self.path, "w", encoding="utf-8")
        self.n = 0

    def add(self, **case):
        self.n += 1
        case.setdefault("label", str(self.n))
        self.file.write(json.dumps(case, ensure_ascii=True) + "\n")

    def close(self):
        self.file.close()


def coverage(**kw):
    with open(os.path.join(OUT, "coverage.json"), "w") as f:
        json.dump(kw, f)


def importing(func):
    """Runs func (imports of the code under test); exit 7 when it fails."""
    try:
        return func()
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(7)


@contextlib.contextmanager
def imports():
    """Guards the imports of the code under test; exit 7 when they fail."""
    try:
        yield
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(7)
