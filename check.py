#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property of /repo's working tree.

1. TLC checks the design models of the property (and that their broken variants are refuted).
2. TLC enumerates behaviours of the specification where the property has a generator.
3. Drivers run the real code, on those behaviours and on generated inputs, and record traces.
4. TLC judges every recorded trace against the trace specification T_<ID>.

check.py --replay FILE judges a recorded violation again, on a new run of the code.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/harness")
from registry import CHECKS  # noqa: E402

PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 4)
LEVEL = "model_checking"


class Machinery(Exception):
    pass


def tlc(module, cfg, tmp, env=None, workers=NPROC, heap="4g", timeout=3000, extra=()):
    """-> (output, states generated, distinct states)"""
    meta = tempfile.mkdtemp(dir=tmp)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir",
           meta, "-workers", str(workers), "-config", cfg, *extra, module]
    p = subprocess.run(cmd, cwd=V + "/spec", env={**os.environ, **(env or {}), "TMPDIR": tmp, "JAVA_TOOL_OPTIONS":
                       "-Djava.io.tmpdir=" + tmp}, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
    g, d = map(int, m[-1]) if m else (0, 0)
    return p.stdout, g, d, p.returncode


def design(entry, tmp, tier):
    """One design model: (module, cfg, expected) with expected 'ok' or the name of the invariant a mutant breaks."""
    module, cfg, expect = entry[:3]
    if len(entry) > 3 and entry[3] == "thorough" and tier != "thorough":
        return None
    out, g, d, rc = tlc(module, cfg, tmp, workers=4)
    if expect == "ok":
        if rc != 0 or "No error has been found" not in out:
            raise Machinery("design model %s/%s: %s" % (module, cfg, out[-1200:]))
    elif ("Invariant %s is violated" % expect) not in out and ("property %s was violated" % expect) not in out and \
            ("Temporal properties were violated" not in out or expect != "temporal") and \
            ("Action property %s is violated" % expect) not in out:
        raise Machinery("broken variant %s/%s is not refuted: %s" % (module, cfg, out[-1200:]))
    return {"model": module, "config": cfg, "expect": expect, "states": d, "transitions": g}


def generate(entry, tmp, tier, seed):
    """Behaviours enumerated by TLC: lines the model prints as GEN <json>."""
    module, cfgs = entry[0], entry[1]
    cfg = cfgs[tier] if isinstance(cfgs, dict) else cfgs
    out, g, d, rc = tlc(module, cfg, tmp, workers=4, env={"GENSEED": str(seed)})
    if rc != 0 or "No error has been found" not in out:
        raise Machinery("generator %s: %s" % (module, out[-1200:]))
    lines = sorted(set(json.loads(x)[4:] for x in re.findall(r'^("GEN .*")$', out, re.M)))
    if not lines:
        raise Machinery("generator %s printed nothing" % module)
    path = os.path.join(tmp, "gen.ndjson")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    return path, {"model": module, "config": cfg, "expect": "generator", "states": d, "transitions": g,
                  "behaviours": len(lines)}


def shard(pid, tier, seed, i, n, tmp, gen, only):
    out = os.path.join(tmp, "t%d.ndjson" % i)
    env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "VERIF_GEN": gen or "", "VERIF_ONLY": only or "",
           "TMPDIR": tmp, "HOME": tmp}
    p = subprocess.run([PY, "-B", V + "/harness/run_driver.py", pid, tier, str(seed), str(i), str(n), out], env=env, cwd=tmp,
                       text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        return None, p.stdout[-1200:]
    return out, p.stdout


def judge(pid, lines, tmp, conf, heap="8g"):
    """-> {case id: (ok, clauses)}, states, transitions.  A trace the specification cannot evaluate is outside of it: bad."""
    path = os.path.join(tmp, "trace.ndjson")
    verdicts, outside, lines = {}, {}, list(lines)
    for attempt in range(12):
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        out, g, d, rc = tlc(conf.get("trace", "T_" + pid), "T.cfg", tmp, env={"TRACE": path}, heap=heap)
        for m in re.finditer(r'^"VERDICT (\S+) (ok|bad)(.*)"$', out, re.M):
            verdicts[m.group(1)] = (m.group(2) == "ok", m.group(3).strip())
        if "No error has been found" in out:
            break
        i = out.find("Error:")
        m = re.search(r"^/\\ c = (\d+)", out[i:], re.M)
        if not m or attempt == 11:
            if any(not v[0] and "#canary" not in k for k, v in verdicts.items()) or outside:
                break                  # there are verdicts to report
            raise Machinery("TLC on T_%s: %s" % (pid, out[i:i + 3000]))
        case = json.loads(lines.pop(int(m.group(1)) - 1))["id"]
        outside[case] = (False, "outside-the-specification")
        if attempt == 0:
            print("TLC: " + re.sub(r"\s+", " ", out[i:i + 600]), file=sys.stderr)
        if not lines:
            break
    verdicts.update(outside)
    return verdicts, g, d


def main():
    if sys.argv[1] == "--replay":
        rep = json.load(open(sys.argv[2]))
        sys.exit(run(rep["property"], rep["tier"], rep["seed"], rep["job"]))
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.exit(run(pid, tier, seed, ""))


def findings(pid):
    """known_findings.txt: lines 'known: property=ID case=REGEX clauses=REGEX what' (and 'fixed: ...', which suppress nothing)."""
    out = []
    path = V + "/known_findings.txt"
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) case=(\S+) clauses=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), re.compile(m.group(3)), m.group(4)))
    return out


def run(pid, tier, seed, only):
    t0 = time.time()
    conf = CHECKS[pid]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return _run(pid, tier, seed, only, conf, tmp, t0)
    except Machinery as e:
        print("MACHINERY ERROR property=%s: %s" % (pid, e))
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(pid, tier, seed, only, conf, tmp, t0):
    models, gen = [], None
    with cf.ThreadPoolExecutor(16) as ex:
        if conf.get("gen"):
            gen, info = generate(conf["gen"], tmp, tier, seed)
            models.append(info)
        n = 1 if only else NPROC
        shards = [ex.submit(shard, pid, tier, seed, i, n, tmp, gen, only) for i in range(n)]
        mcs = [] if only else [ex.submit(design, e, tmp, tier) for e in conf.get("models", [])]
        lines, errors = [], []
        for s in shards:
            out, log = s.result()
            if out is None:
                errors.append(log)
            else:
                lines += open(out).read().splitlines()
        # the design models are judged after the code: a violation of the code has priority
        t1 = time.time()
        cases = {}
        for line in lines:
            c = json.loads(line)
            if c["id"] in cases:
                raise Machinery("two cases are named " + c["id"])
            cases[c["id"]] = c
        verdicts, g, d = judge(pid, lines, tmp, conf) if lines else ({}, 0, 0)
        t2 = time.time()
        real = [c for c in cases.values() if not c["canary"]]
        missing = [i for i in cases if i not in verdicts]
        known, viol, shown = findings(pid), [], set()
        for c in real:
            ok, why = verdicts.get(c["id"], (True, ""))
            if ok:
                continue
            for rid, rcl, what in known:
                if rid.fullmatch(c["id"]) and rcl.fullmatch(why):
                    shown.add(what)
                    break
            else:
                viol.append((c, why))
        for what in sorted(shown):
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
        canaries = [c for c in cases.values() if c["canary"]]
        asleep = [c["id"] for c in canaries if verdicts.get(c["id"], (True, ""))[0]]
        for m in mcs:
            r = m.result()
            if r:
                models.append(r)
    os.makedirs(V + "/evidence", exist_ok=True)
    paths = []
    for n, (c, why) in enumerate(viol[:5]):
        os.makedirs(V + "/replays", exist_ok=True)
        path = V + "/replays/%s-%d.json" % (pid, n)
        json.dump({"property": pid, "tier": tier, "seed": seed, "job": re.sub(r"\.\d+$", "", c["id"]), "broken": why,
                   "case": c}, open(path, "w"))
        paths.append(path)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  case %s: %s %s" % (c["id"], why, c["error"]))
    if len(viol) > 5:
        print("  and %d more cases" % (len(viol) - 5))
    small = sorted((json.dumps(c) for c in real), key=len)
    samples = [json.loads(s) for s in small[len(small) // 3:len(small) // 3 + 2] if len(s) < 20000] or small[:1]
    by = {}
    for c in real:
        k = str(c.get("tag", "case"))
        by[k] = by.get(k, 0) + 1
    ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL, "wall_s": round(time.time() - t0, 1),
          "violations": len(viol), "assumptions": conf.get("assumptions", []),
          "coverage": {"states": d + sum(m["states"] for m in models), "transitions": g + sum(m["transitions"] for m in models),
                       "traces_validated_against_impl": len(real), "cases_by_kind": by, "design_models": models,
                       "canaries_rejected": len(canaries) - len(asleep), "samples": samples}}
    if not only:
        with open(V + "/evidence/%s.json" % pid, "w") as f:
            json.dump(ev, f)
    print("%s %s: %d traces of the code judged, %d broken; %d canaries; %d design models; %.0f s (judging %.0f s)" % (
        pid, tier, len(real), len(viol), len(canaries), len(models), time.time() - t0, t2 - t1))
    if viol:
        return 1
    if errors:
        raise Machinery("driver failed: " + errors[0])
    if missing or not real:
        raise Machinery("no verdict for %d cases of %d" % (len(missing), len(cases)))
    if asleep:
        raise Machinery("corrupted traces accepted: %s" % asleep[:5])
    return 0


if __name__ == "__main__":
    main()
