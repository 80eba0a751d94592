"""Runs the check of one property: run.py PROPERTY-ID

1. the Python 2 sources of /repo's working tree are translated into a scratch
   tree (the implementation under test);
2. the property's driver runs the implementation there and records cases
   (inputs and what was observed) as ndjson, one file per conformance module;
3. TLC explores the design models (MC_*) and decides, for every recorded case,
   whether the specification has a behaviour that explains it (*Trace);
4. the evidence file is rewritten; exit 0, or 1 with a VIOLATION line.

Any machinery failure ends with exit code 2."""
import concurrent.futures
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla"
sys.path.insert(0, HERE)
import props  # noqa: E402
import translate  # noqa: E402


class Machinery(Exception):
    pass


def tlc(module, cfg, scratch, name, env, workers, heap, timeout):
    """One TLC run; returns (exit code, output)."""
    meta = os.path.join(scratch, "tlc-" + name)
    os.makedirs(meta)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-Xss32m", "-Xmx%s" % heap,
           "-Djava.io.tmpdir=" + meta,
           "-cp", "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (TLA, TLA),
           "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
           "-nowarning", "-noGenerateSpecTE", "-config", cfg, module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env)
    out = os.path.join(scratch, name + ".out")
    with open(out, "wb") as f:
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=f,
                             stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise Machinery("TLC timed out: %s" % name)
    with open(out, encoding="utf-8", errors="replace") as f:
        text = f.read()
    shutil.rmtree(meta, ignore_errors=True)
    return rc, text


def stats(text):
    m = re.findall(r"^(\d+) states generated.*?, (\d+) distinct states found",
                   text, re.M)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


def known_findings(prop):
    """Lines 'known: property=ID case=LABEL clause=CLAUSE what fails'."""
    res = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) case=(\S+) clause=(\S+) (.*)",
                         line)
            if m and m.group(1) == prop:
                res.append(m.groups()[1:])
    return res


def run_driver(prop, tree, out, env, timeout):
    cmd = [PY, "-B", os.path.join(HERE, "drivers", prop.lower() + ".py"), out]
    e = dict(os.environ)
    e.update({"PYTHONPATH": tree + os.pathsep + HERE, "TREE": tree,
              "PYTHONHASHSEED": "0", "TZ": "UTC", "LC_ALL": "C.UTF-8",
              "PYTHONDONTWRITEBYTECODE": "1",
              "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"})
    e.update(env)
    work = os.path.join(os.path.dirname(out), "work")
    os.makedirs(work)
    log = out + ".log"
    with open(log, "wb") as f:
        p = subprocess.Popen(cmd, cwd=work, env=e, stdout=f,
                             stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise Machinery("driver timed out")
    with open(log, encoding="utf-8", errors="replace") as f:
        text = f.read()
    return rc, text


def main():
    prop = sys.argv[1].upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = props.PROPS[prop]
    started = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    budget = 840 if tier == "quick" else 6 * 3600
    try:
        return check(prop, spec, seed, tier, scratch, started, budget)
    except Machinery as e:
        print("ERROR property=%s %s" % (prop, e))
        return 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def check(prop, spec, seed, tier, scratch, started, budget):
    tree = os.path.join(scratch, "tree")
    try:
        translate.mirror(REPO, tree)
    except Exception as e:
        raise Machinery("cannot translate %s: %s" % (REPO, e))
    out = os.path.join(scratch, "cases")
    os.makedirs(out)
    env = {"VERIF_SEED": str(seed), "VERIF_TIER": tier}
    left = lambda: max(10, budget - (time.time() - started))
    pool = concurrent.futures.ThreadPoolExecutor(8)
    mcs = []
    for entry in spec.get("mc", []):
        module = entry["module"]
        cfg = entry.get("cfg", module)
        if tier == "thorough":
            cfg = entry.get("thorough", cfg)
        mcs.append((cfg, pool.submit(
            tlc, module, cfg + ".cfg", scratch, "mc-" + cfg, env,
            entry.get("workers", 2), entry.get("heap", "3g"), left())))
    # behaviours of the specification for the driver to replay
    behaviours = os.path.join(scratch, "gen")
    os.makedirs(behaviours)
    gens = []
    for module in spec.get("gen", []):
        cfg = module + ("_thorough" if tier == "thorough" else "")
        gens.append((module, cfg, pool.submit(
            tlc, module, cfg + ".cfg", scratch, "gen-" + cfg, env, 2, "3g",
            left())))
    generated = {}
    for module, cfg, f in gens:
        rc, text = f.result()
        if rc != 0 or "Model checking completed. No error has been found" \
                not in text:
            raise Machinery("generator %s: TLC exit %s\n%s" % (
                cfg, rc, text[-4000:]))
        lines = sorted(set(
            json.loads(m)[4:]
            for m in re.findall(r'^("GEN .*")$', text, re.M)))
        if not lines:
            raise Machinery("generator %s: no behaviours" % cfg)
        with open(os.path.join(behaviours, module + ".ndjson"), "w",
                  encoding="utf-8") as g:
            g.write("\n".join(lines) + "\n")
        n, d = stats(text)
        generated["gen:" + cfg] = {"states": d, "transitions": n,
                                   "behaviours": len(lines)}
    env["GEN_DIR"] = behaviours
    rc, log = run_driver(prop, tree, out, env, left())
    if rc != 0:
        for _, f in mcs:
            f.cancel()
        # 7: the implementation could not even be imported
        if rc == 7:
            return violation(prop, tier, seed, started, {}, [
                {"case": "import", "clauses": ["importable"],
                 "log": log[-4000:]}])
        # an observation the driver cannot project into the specification's
        # state: no behaviour of the specification explains it
        if rc == 1 and "Traceback (most recent call last)" in log \
                and not re.search(r"MemoryError|No space left", log):
            return violation(prop, tier, seed, started, {}, [
                {"case": "driver", "clauses": [
                    "observation outside of the specification: "
                    + log.strip().split("\n")[-1][:300]],
                 "log": log[-4000:]}])
        raise Machinery("driver failed (%s):\n%s" % (rc, log[-6000:]))

    confs = []
    cases = {}
    for name in sorted(os.listdir(out)):
        if not name.endswith(".ndjson"):
            continue
        module = name[:-len(".ndjson")]
        with open(os.path.join(out, name), encoding="utf-8") as f:
            lines = f.read().splitlines()
        cases[module] = lines
        n = len(lines)
        size = sum(map(len, lines))
        shards = max(1, min(6, n // 4 or 1, 1 + n // 150 + size // 400000))
        for s in range(shards):
            part = list(range(s, n, shards))
            path = os.path.join(scratch, "%s.%d.ndjson" % (module, s))
            with open(path, "w", encoding="utf-8") as f:
                for i in part:
                    f.write(lines[i] + "\n")
            e = dict(env)
            e["CASES"] = path
            confs.append((module, part, pool.submit(
                tlc, module, "Trace.cfg", scratch, "%s-%d" % (module, s), e,
                1 if shards > 3 else 2, "3g", left())))
    wanted = set(spec["conf"])
    if set(cases) != wanted:
        raise Machinery("driver wrote %s, expected %s" % (
            sorted(cases), sorted(wanted)))

    states = transitions = 0
    info = generated
    for g in generated.values():
        states += g["states"]
        transitions += g["transitions"]
    for cfg, f in mcs:
        rc, text = f.result()
        if rc != 0 or "Model checking completed. No error has been found" \
                not in text:
            raise Machinery("model %s: TLC exit %s\n%s" % (
                cfg, rc, text[-4000:]))
        g, d = stats(text)
        info["mc:" + cfg] = {"states": d, "transitions": g}
        states += d
        transitions += g
    bad = []
    accepted_total = 0
    for module, part, f in confs:
        rc, text = f.result()
        if rc != 0 or "Model checking completed. No error has been found" \
                not in text:
            # TLC cannot evaluate the specification on what was observed
            if (rc in (75, 76, 77) or "Error: Overflow" in text) \
                    and not re.search(r"OutOfMemory|heap space|StackOverflow|"
                                      r"java\.io|Unknown operator", text):
                k = re.findall(r"^/\\ k = (\d+)", text, re.M)
                n = int(k[-1]) if k else 1
                bad.append({"module": module, "index": part[n - 1],
                            "clauses": ["observation outside of the "
                                        "specification"],
                            "case": json.loads(cases[module][part[n - 1]])})
                continue
            raise Machinery("conformance %s: TLC exit %s\n%s" % (
                module, rc, text[-6000:]))
        g, d = stats(text)
        states += d
        transitions += g
        t = info.setdefault("trace:" + module,
                            {"states": 0, "transitions": 0, "cases": 0})
        t["states"] += d
        t["transitions"] += g
        t["cases"] += len(part)
        accepted = set()
        rejected = {}
        for m in re.finditer(r'^"?<<\\?"(ACCEPT|REJECT)\\?", (\d+)(.*)$',
                             text, re.M):
            k = int(m.group(2))
            if m.group(1) == "ACCEPT":
                accepted.add(k)
            else:
                rejected.setdefault(k, set()).update(
                    re.findall(r'\\?"([^"\\]+)\\?"', m.group(3)))
        accepted_total += len(accepted)
        for pos, i in enumerate(part, 1):
            if pos not in accepted:
                bad.append({"module": module, "index": i,
                            "clauses": sorted(rejected.get(
                                pos, {"no behaviour explains the case"})),
                            "case": json.loads(cases[module][i])})
    coverage = {
        "states": states, "transitions": transitions,
        "traces_validated_against_impl": accepted_total,
        "samples": [json.loads(v[len(v) // 2]) for v in cases.values()][:4],
        "runs": info,
    }
    cov = os.path.join(out, "coverage.json")
    if os.path.exists(cov):
        coverage["driver"] = json.load(open(cov))
    # keep samples small
    for i, s in enumerate(coverage["samples"]):
        t = json.dumps(s)
        if len(t) > 3000:
            coverage["samples"][i] = t[:3000] + "..."
    if min(len(v) for v in cases.values()) == 0:
        raise Machinery("no cases recorded")

    fresh = []
    known = known_findings(prop)
    seen = set()
    for b in bad:
        label = str(b["case"].get("label", b["index"]))
        hit = [k for k in known if k[0] == label and k[1] in b["clauses"]
               and len(b["clauses"]) == 1]
        if hit:
            for k in hit:
                seen.add(k)
        else:
            fresh.append(b)
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    if fresh:
        return violation(prop, tier, seed, started, coverage, fresh)
    evidence(prop, tier, seed, started, coverage, 0)
    print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
        prop, states, transitions, accepted_total, time.time() - started))
    return 0


def violation(prop, tier, seed, started, coverage, fresh):
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    path = os.path.join(VERIF, "replay", prop + ".json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": prop, "seed": seed, "tier": tier,
                   "command": "VERIF_SEED=%d VERIF_TIER=%s bin/check %s" % (
                       seed, tier, prop),
                   "violations": len(fresh), "cases": fresh[:20]}, f, indent=1)
    if not coverage:
        coverage = {"states": 0, "transitions": 0,
                    "traces_validated_against_impl": 0, "samples": []}
    evidence(prop, tier, seed, started, coverage, len(fresh))
    for b in fresh[:10]:
        print("  case %s: %s" % (
            b["case"].get("label", b.get("index")) if isinstance(
                b["case"], dict) else b["case"], "; ".join(b["clauses"])))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def evidence(prop, tier, seed, started, coverage, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w",
              encoding="utf-8") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed,
                   "level": "model_checking", "coverage": coverage,
                   "assumptions": props.ASSUMPTIONS + props.PROPS[prop].get(
                       "assumptions", []),
                   "wall_s": round(time.time() - started, 2),
                   "violations": violations}, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
