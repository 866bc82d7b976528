#!/usr/bin/python3
"""check.py PROPERTY [--tier quick|thorough]

1. TLC explores the property's specification exhaustively within the constants of its configuration and
   checks the property's invariants there.
2. TLC generates behaviours of the same specification; a driver replays them, and further inputs of its
   own, on the real code of /repo and records what the code did.
3. TLC validates every record against the trace specification (the same operators as in 1).
4. A few records are corrupted, to see that the trace specification rejects them.

exit 0: held on everything explored; exit 1 + VIOLATION line: the code does something the specification
does not allow; exit 2: the machinery itself failed."""
import argparse
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
import tlc
from props import PROPS

PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 2)


class Machinery(Exception):
    pass


def cfg_text(name):
    with open(os.path.join(tlc.SPEC, name)) as f:
        return f.read()


def pick(v, tier):
    return v[tier] if isinstance(v, dict) else v


def run_mc(spec, scratch, tier, i, timeout):
    name = pick(spec["cfg"], tier)
    p = tlc.start(spec["module"], cfg_text(name), scratch, f"mc{i}", workers=str(pick(spec.get("workers", "4"), tier)),
                  heap=pick(spec.get("heap", "4g"), tier), extra=((*(("-coverage", "600") if tier == "thorough" and not spec.get("nocov") else ()), *pick(spec.get("extra", ()), tier))))
    out = tlc.finish(p, timeout)
    if p.returncode != 0 or "No error has been found" not in out:
        if not (p.returncode == 0 and "-simulate" in str(pick(spec.get("extra", ()), tier))):
            raise Machinery(f"specification check failed: {spec['module']} {name}\n{out[-3000:]}")
    gen, dist = tlc.stats(out)
    cov = {a: n[1] for a, n in tlc.coverage(out).items()}
    return {"module": spec["module"], "cfg": name, "generated": gen, "distinct": dist, "actions": cov}


def run_gen(spec, scratch, tier, i, timeout, seed):
    extra = [str(x).replace("@SEED", str(seed)) for x in pick(spec.get("extra", ()), tier)]
    name = pick(spec["cfg"], tier)
    p = tlc.start(spec["module"], cfg_text(name), scratch, f"gen{i}", workers="1", heap="4g", extra=extra)
    out = tlc.finish(p, timeout)
    vals = tlc.printed_json(out, "GEN")
    if p.returncode != 0 or not vals:
        raise Machinery(f"behaviour generation failed: {spec['module']} {name} rc={p.returncode}\n{out[-3000:]}")
    path = os.path.join(scratch, f"gen{i}.json")
    uniq = {}
    for v in vals:
        uniq.setdefault(json.dumps(v), v)
    with open(path, "w") as f:
        json.dump(list(uniq.values()), f)
    return path, len(uniq)


def run_driver(p, scratch, tier, gens, seed, timeout):
    cwd = os.path.join(scratch, "cwd")
    out = os.path.join(scratch, "traces")
    os.makedirs(cwd)
    os.makedirs(out)
    shutil.copy(os.path.join(REPO, "test", "config.toml"), cwd)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), PYTHONHASHSEED="0",
               PYTHONUTF8="1", TZ="UTC", VERIF_SEED=str(seed))
    r = subprocess.run([PY, os.path.join(HERE, "harness", "drive.py"), p["driver"], out, str(pick(p.get("shards", NCPU), tier)), tier, *gens],
                       cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    if r.returncode != 0:
        frames = re.findall(r'^  File "([^"]+)", line (\d+), in (\S+)', r.stderr, re.M)
        last = [f for f in frames if not f[0].startswith("<") and "/lib/python3" not in f[0]]
        if last and last[-1][0].startswith(REPO + "/src"):
            return None, r.stderr
        err = f"driver {p['driver']} failed\n{r.stderr[-3000:]}"
        try:
            with open(os.path.join(out, "driver.json")) as f:
                d = json.load(f)
        except (OSError, ValueError):
            raise Machinery(err)
        if not d["cases"]:
            raise Machinery(err)
        return dict(d, broken=err), ""     # the cases recorded so far are judged; with no violation in them it is no answer
    with open(os.path.join(out, "driver.json")) as f:
        return json.load(f), ""


def trace_cfg(p):
    module, init, judge = p["trace"]
    return f"SPECIFICATION TraceSpec\nCONSTANTS InitSt <- {init}\n Judge <- {judge}\nCHECK_DEADLOCK FALSE\n" + p.get("trace_cfg", "")


def validate(p, path, scratch, tag, timeout, max_aborts=12):
    """-> list of (event, clauses), states. Total: an event the specification cannot even evaluate is reported too."""
    module = p["trace"][0]
    bad, states, aborts = [], 0, 0
    lines = open(path).read().splitlines()
    offset = 0
    cur = path
    while True:
        q = tlc.start(module, trace_cfg(p), scratch, f"{tag}_{aborts}", workers="1", heap=p.get("heap", "3g"), env={"TRACE": cur})
        out = tlc.finish(q, timeout)
        states += tlc.stats(out)[0]
        seen = set()
        for m in re.finditer(r'<<\s*"TRACE-BAD",\s*(\d+),\s*\{(.*?)\}\s*>>', out, re.S):
            n = int(m.group(1)) + offset
            if n not in seen:
                seen.add(n)
                bad.append((n, sorted(re.findall(r'"([^"]*)"', m.group(2)))))
        if '"TRACE-DONE"' in out and q.returncode == 0:
            break
        at = re.findall(r"^/\\ l = (\d+)", out, re.M)
        if not at or "Finished computing initial states" not in out:
            raise Machinery(f"trace validation failed: {module} {path}\n{out[-3000:]}")
        n = int(at[-1]) + offset
        reason = re.search(r"^(Error:.*(?:\n.*){0,4})", out, re.M)
        bad.append((n, ["unexplainable-observation"]))
        print(f"note: event {n} of {os.path.basename(path)} could not be evaluated: {reason.group(1)[:300] if reason else out[-300:]}", file=sys.stderr)
        aborts += 1
        if aborts > max_aborts:             # enough to report; the rest of the file would only repeat it
            break
        nx = json.loads(lines[n - 1])["nx"]            # relative to the original file
        if nx > len(lines):
            break
        offset = nx - 1
        cur = f"{path}.rest{aborts}"
        with open(cur, "w") as f:
            for t in lines[offset:]:
                e = json.loads(t)
                e["nx"] -= offset
                f.write(json.dumps(e) + "\n")
    return [(n, json.loads(lines[n - 1]), w) for n, w in sorted(bad)], states, lines


def leaves(v, path=()):
    if isinstance(v, bool) or isinstance(v, int):
        yield path
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from leaves(x, path + (i,))
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from leaves(x, path + (k,))


def mutate(e, rnd):
    ls = list(leaves(e.get("o"), ())) if isinstance(e.get("o"), (dict, list)) else []
    if not ls:
        return None
    path = rnd.choice(ls)
    e = json.loads(json.dumps(e))
    x = e["o"]
    for k in path[:-1]:
        x = x[k]
    v = x[path[-1]]
    x[path[-1]] = (not v) if isinstance(v, bool) else (v ^ 1 if v >= 0 else v - 1)
    return e


def selftest(p, files, badkeys, scratch, seed, timeout):
    rnd = random.Random(seed)
    cases = []
    for path in files:
        cur = None
        for t in open(path):
            e = json.loads(t)
            if e["first"]:
                cur = []
                cases.append(cur)
            cur.append(e)
    cases = [c for c in cases if c[0]["key"] not in badkeys]
    rnd.shuffle(cases)
    made, n, text = 0, 0, []
    for c in cases:
        if made >= 40:
            break
        i = rnd.randrange(len(c))
        m = mutate(c[i], rnd)
        if m is None:
            continue
        c = c[:i] + [m]
        base = len(text)
        for k, e in enumerate(c):
            e = dict(e, first=(k == 0), nx=base + len(c) + 1)
            text.append(json.dumps(e))
        made += 1
    if not made:
        return 0, 0
    path = os.path.join(scratch, "corrupt.ndjson")
    with open(path, "w") as f:
        f.write("\n".join(text) + "\n")
    try:
        with open(os.devnull, "w") as dn:
            old, sys.stderr = sys.stderr, dn
            try:
                bad, _, _ = validate(p, path, scratch, "self", timeout, max_aborts=45)
            finally:
                sys.stderr = old
    except Machinery as e:
        raise Machinery("self-test: " + str(e))
    return made, len({e["key"] + str(n) for n, e, w in bad})


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    p = PROPS[a.prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    budget = 800 if a.tier == "quick" else 6 * 3600
    scratch = tempfile.mkdtemp(prefix=f"verif-{a.prop}-")
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    rc = 2
    try:
        rc = go(a, p, seed, t0, budget, scratch, evdir)
    except (Machinery, tlc.TlcError) as e:
        print(f"ERROR property={a.prop}: {e}")
    except subprocess.TimeoutExpired as e:
        print(f"ERROR property={a.prop}: {e}")
    finally:
        if a.keep:
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    return rc


def go(a, p, seed, t0, budget, scratch, evdir):
    pid = a.prop
    ex = cf.ThreadPoolExecutor(NCPU)
    gens = [ex.submit(run_gen, g, scratch, a.tier, i, budget, seed) for i, g in enumerate(p.get("gen", ()))]
    mcs = [ex.submit(run_mc, m, scratch, a.tier, i, budget) for i, m in enumerate(p.get("mc", ())) if not (m.get("tier") == "thorough" and a.tier == "quick")]
    gens = [g.result() for g in gens]
    drv, crash = run_driver(p, scratch, a.tier, [g[0] for g in gens], seed, budget)
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(evdir, "replay")):
        if f.startswith(pid + "-"):
            os.remove(os.path.join(evdir, "replay", f))
    viols, known = [], {}
    states = made = killed = 0
    samples = []
    if drv is None:
        viols.append(("the code under test raised an exception outside any recorded call", crash.splitlines()[-40:], ["unexpected-exception"]))
        drv = {"cases": 0, "events": 0, "distinct": 0, "kinds": {}, "files": []}
    else:
        futs = [ex.submit(validate, p, f, scratch, f"tr{i}", budget) for i, f in enumerate(drv["files"])]
        kf = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == pid]
        badkeys = set()
        for fut in futs:
            bad, st, lines = fut.result()
            states += st
            if len(samples) < 3:
                samples.append(json.loads(lines[len(lines) // 2]))
            for n, e, why in bad:
                badkeys.add(e["key"])
                hit = next((k for k in kf if re.fullmatch(k["key"], e["key"]) and set(why) <= set(k["clauses"])), None)
                if hit:
                    known.setdefault(hit["id"], [hit, 0])[1] += 1
                    continue
                start = n
                while not json.loads(lines[start - 1])["first"]:
                    start -= 1
                viols.append((e["key"], [json.loads(x) for x in lines[start - 1:n]], why))
        made, killed = selftest(p, drv["files"], badkeys, scratch, seed, budget)
        if "broken" in drv and not viols:
            raise Machinery(drv["broken"])
        if made and not killed and not viols:
            raise Machinery(f"self-test: none of {made} corrupted records was rejected")
    mcs = [m.result() for m in mcs]
    for m in mcs:
        dead = [x for x, n in m["actions"].items() if n == 0]
        if dead:
            raise Machinery(f"specification action never taken: {dead} in {m['cfg']}")
    for k, n in known.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']} ({n} recorded events)")
    files = []
    for i, (key, events, why) in enumerate(viols):
        if i >= 20:
            break
        path = os.path.join(evdir, "replay", f"{pid}-{i}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "key": key, "violated_clauses": why, "events_up_to_violation": events}, f, indent=1)
        files.append(path)
    for path, v in list(zip(files, viols))[:5]:
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {','.join(v[2])}: {str(v[0])[:200]}")
    if len(viols) > 5:
        print(f"  ... {len(viols)} violating cases in all")
    ev = {
        "property": pid, "tier": a.tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(m["distinct"] for m in mcs) + states,
            "transitions": sum(m["generated"] for m in mcs) + states,
            "traces_validated_against_impl": drv["cases"],
            "events_validated": drv["events"], "distinct_cases": drv["distinct"], "event_kinds": drv["kinds"],
            "spec_generated_behaviours_replayed": sum(g[1] for g in gens),
            "model_runs": mcs, "trace_states": states,
            "corrupted_records_rejected": f"{killed} of {made}",
            "samples": [json.dumps(s)[:600] for s in samples],
        },
        "assumptions": p.get("assumptions", []) + ["TLC and the CommunityModules evaluate the specification correctly",
                                                   "the public API is the observation point; code that no driver calls is not judged"],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(viols),
    }
    with open(os.path.join(evdir, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {a.tier}: {len(mcs)} model runs ({sum(m['distinct'] for m in mcs)} states), {drv['cases']} cases / {drv['events']} events validated, "
          f"self-test {killed}/{made}, {len(viols)} violations, {ev['wall_s']} s")
    return 1 if viols else 0


if __name__ == "__main__":
    sys.exit(main())
