"""Command lines, log levels and small runs of the program."""
import itertools
import logging
import os
import subprocess
import sys

import yaml

import common
from common import attempt, silent, Cases
import nrmlcases
import runcases

with common.imports():
    from mtoolkit.console import cmd_line, build_logger

r = common.rng("p31")
stats = {"lines": 0, "runs": 0, "logs": 0}
cases = Cases("ConsoleTrace")
HOME = os.path.join(os.getcwd(), "console")
os.makedirs(os.path.join(HOME, "sub", "deep"))
os.environ["HOME"] = HOME           # only a shell expands ~ and $HOME
START = os.getcwd()
os.chdir(HOME)

THERE = ["config.yml", "sub/c.yml", "with space.yml", u"\u00e9t\u00e9.yml",
         "a=b.yml", os.path.join(HOME, "config.yml"), "./config.yml",
         "no_extension", "sub/../config.yml", "sub/deep/x", "v", "d", "i",
         "config.txt", "sub/c.v2", "after ", " before", ".hidden"]
GONE = ["gone.yml", "sub/gone.yml", "none/config.yml", "", "config.ym",
        "Config.yml", "config.yml.bak", os.path.join(HOME, "gone"), "x y",
        "config.yml ", " config.yml", "after", "before", "*.yml",
        "~/config.yml", "~", "$HOME/config.yml", "config*"]


def word(f):
    return {"t": "word", "f": f, "there": os.path.exists(f)}, [f]


def value(f, form):
    """The input option with its value in one argument."""
    return ({"t": "i=", "f": f, "there": os.path.exists(f)},
            ["--input-file=" + f if form else "-i" + f])


def token(t, texts):
    return lambda: ({"t": t, "f": "", "there": False}, [r.choice(texts)])


I = token("i", ["-i", "--input-file"])
D = token("d", ["-d", "--detailed"])
V = token("v", ["-v", "--version"])
H = token("h", ["-h", "--help"])
OTHER = token("other", ["-x", "--unknown", "-q", "--output", "--files"])


def some_file():
    return r.choice(THERE) if r.random() < 0.7 else r.choice(GONE)


def W():
    return word(some_file())


def E():
    f = some_file()
    return value(f or "gone.yml", r.random() < 0.6)


def flat(line):
    return [x for _, args in line for x in args]


def kind(code, text):
    if code in (0, None):
        return "help" if "usage" in text.lower() else "version"
    return "refused" if "usage" in text.lower() else "ended without usage"


def parse(label, line):
    argv, sys.argv = sys.argv, ["main.py"] + flat(line)
    given = list(sys.argv)
    try:
        with silent() as (out, err):
            o, v = attempt(cmd_line)
            text = out.getvalue() + err.getvalue()
    finally:
        sys.argv = argv
    case = {"label": label, "kind": "line", "line": [t for t, _ in line],
            "f": "", "detailed": False, "argv": given}
    if o == "raise:SystemExit":
        res = kind(v.code, text)
    elif o != "ok":
        res = o
    elif not v:
        res = "usage" if "usage" in text.lower() else "nothing, no usage"
    else:
        res = "arguments"
        f = getattr(v, "input_file", None)
        if isinstance(f, (list, tuple)) and len(f) == 1:
            f = f[0]
        case["f"] = f if isinstance(f, str) else "other %r" % (f,)
        case["detailed"] = bool(getattr(v, "detailed", False))
    case["res"] = res
    stats["lines"] += 1
    cases.add(**case)


def log(label, level, events):
    """Another process builds the logger and logs."""
    home = os.path.join(HOME, "log%d" % stats["logs"])
    os.makedirs(home)
    os.chdir(home)
    logger = logging.getLogger("mt_logger")
    old = list(logger.handlers), logger.level, logger.propagate
    for h in old[0]:
        logger.removeHandler(h)
    logger.setLevel(logging.NOTSET)
    logger.propagate = False
    shown, filed, there = ["none"], [], False
    old_text = r.choice(["", "", "of a run before\n\n"])
    if old_text:
        write("debug.log", old_text)
    try:
        with silent() as (out, err):
            o, _ = attempt(lambda: build_logger(level))
            if o == "ok":
                for lv, text in events:
                    logger.log(lv, text)
        if o == "ok":
            shown = [x for x in (out.getvalue() + err.getvalue()).split("\n")
                     if x]
        else:
            shown = [o]
    finally:
        for h in list(logger.handlers):
            logger.removeHandler(h)
            h.close()
        for h in old[0]:
            logger.addHandler(h)
        logger.setLevel(old[1])
        logger.propagate = old[2]
    files = os.listdir(home)
    if files:
        there = True
        if files == ["debug.log"]:
            with open("debug.log", encoding="utf-8") as f:
                text = f.read()
            filed = [x for x in text[len(old_text):].split("\n") if x]
            if text[:len(old_text)] != old_text:
                filed = ["earlier messages lost"]
            # as it was (a log without messages adds nothing)
            if old_text and text == old_text:
                there = level < logging.INFO
        else:
            filed = ["other files"]
    os.chdir(HOME)
    stats["logs"] += 1
    cases.add(label=label, kind="log", line=[], level=level,
              events=[{"level": a, "text": b} for a, b in events],
              shown=shown, file=there, filed=filed)


def write(p, text):
    with open(p, "w", encoding="utf-8", newline="") as f:
        f.write(text)


def contents(home):
    res = {}
    for d, _, fs in os.walk(home):
        for f in fs:
            p = os.path.join(d, f)
            res[p] = open(p, "rb").read()
    return res


def main(label, make):
    """A run of the program in a folder with a complete configuration."""
    home = os.path.join(HOME, "run%d" % stats["runs"])
    os.makedirs(os.path.join(home, "sub"))
    os.chdir(home)
    c = runcases.base_config(apply_processing_jobs=False,
                             result_file="result.xml")
    runcases.write_catalogue("cat.csv", [
        {"y": 1990 + i, "lon": 0.5, "lat": 0.5, "mw": "5.%d" % i}
        for i in range(4)])
    write("sm.xml", nrmlcases.model_xml([nrmlcases.box(1, 0, 0, 1, 1)]))
    for p in ("config.yml", "sub/c.yml"):
        write(p, yaml.safe_dump(c))
    line = make()
    before = contents(home)
    env = dict(os.environ, PYTHONPATH=common.TREE)
    try:
        p = subprocess.run(
            [sys.executable, "-B", "-W", "ignore",
             os.path.join(common.TREE, "main.py")] + flat(line), cwd=home,
            env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            timeout=common.patience(60) or 1)
        text = p.stdout.decode("utf-8", "replace")
        code = p.returncode
    except subprocess.TimeoutExpired:
        text, code = "", "timeout"
        common.hung()
    after = contents(home)
    made = set(p for p in after if after[p] != before.get(p)) | \
        (set(before) - set(after))
    logfile = os.path.join(home, "debug.log")
    if os.path.join(home, "result.xml") in made:
        res = "arguments"
    elif code == 0 and "error" in text.lower():
        res = "usage" if "usage" in text.lower() else "no usage"
    elif code == 0 and not line:
        res = "usage" if "usage" in text.lower() else "no usage"
    else:
        res = kind(code, text)
    cases.add(label=label, kind="main", line=[t for t, _ in line], res=res,
              logfile=logfile in made, made=bool(made - {logfile}),
              argv=flat(line))
    stats["runs"] += 1
    os.chdir(HOME)


for f in set(os.path.normpath(x) for x in THERE):
    if not os.path.exists(f):
        write(f, "x: 1\n")

parse("nothing", [])
for f in THERE + GONE:
    for k, make in enumerate((lambda: [I(), word(f)], lambda: [D(), I(), word(f)],
                              lambda: [I(), word(f), D()])):
        parse("file-%s-%d" % (f if f != HOME else "home", k), make())
    if f:
        for form in (0, 1):
            parse("attached-%s-%d" % (f, form), [value(f, form)])
            parse("attached-d-%s-%d" % (f, form), [D(), value(f, form)])
MAKERS = [I, D, V, H, OTHER, W, E]
# every line of up to three tokens, sampled longer ones
for n in (1, 2, 3):
    for j, ms in enumerate(itertools.product(MAKERS, repeat=n)):
        parse("all-%d-%d" % (n, j), [m() for m in ms])
for i in range(common.pick(250, 8000)):
    n = r.choice([4, 5, 6, 7])
    line = []
    while len(line) < n:
        m = r.choice([I, I, D, E, W] if r.random() < 0.8 else MAKERS)
        line.append(m())
        if m is I and r.random() < 0.85:
            line.append(W())
    parse("line-%d" % i, line)

LEVELS = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR]
for level in LEVELS:
    log("quiet-%d" % level, level, [])
    log("each-%d" % level, level, [(a, "message %d" % a) for a in LEVELS])
for i in range(common.pick(20, 300)):
    log("log-%d" % i, r.choice(LEVELS[:2] + LEVELS), [
        (r.choice(LEVELS), "text %d %s" % (k, r.choice(
            ["", "a b", "100%", "{}", "\\n", u"\u00e9"])))
        for k in range(r.randint(0, 12))])


def here(f):
    return lambda: word(f)


for i, ms in enumerate([
        [], [I, here("config.yml")], [I, here("config.yml"), D],
        [D, I, here("sub/c.yml")], [I], [I, here("gone.yml")],
        [I, here("gone.yml"), D], [D], [V], [H], [OTHER],
        [I, here("config.yml"), OTHER], [here("config.yml")],
        [I, here("gone.yml"), I, here("config.yml")],
        [I, here("config.yml"), I, here("gone.yml"), D],
        [D, D, lambda: value("config.yml", 1)],
        [lambda: value("sub/c.yml", 0)]]):
    main("main-%d" % i, lambda: [m() for m in ms])
for i in range(common.pick(6, 60)):
    ms = [r.choice([D, D, I, OTHER, V]) for _ in range(r.randint(0, 2))]
    k = r.randint(0, len(ms))
    ms[k:k] = [I, here(r.choice(["config.yml", "config.yml", "gone.yml"]))]
    main("some-main-%d" % i, lambda: [m() for m in ms])
cases.close()
common.coverage(**stats)
