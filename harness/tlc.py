"""running TLC"""
import json
import os
import re
import subprocess

VT = "/opt/veriftools/tla"
CP = f"{VT}/tla2tools.jar:{VT}/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TlcError(Exception):
    pass


def command(module, cfg, meta, workers="1", heap="2g", extra=()):
    return ["java", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
            f"-Djava.io.tmpdir={meta}", f"-DTLA-Library={SPEC}", "-cp", CP, "tlc2.TLC", "-config", cfg, "-metadir", meta, "-workers", workers,
            "-noGenerateSpecTE", "-nowarning", *extra, f"{SPEC}/{module}.tla"]


def stats(out):
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m:
        return tuple(int(x.replace(",", "")) for x in m.groups())
    m = re.search(r"The number of states generated: ([\d,]+)", out)
    if m:
        n = int(m.group(1).replace(",", ""))
        return n, n
    return 0, 0


def coverage(out):
    """-coverage 1: action name -> (distinct, total) of the last report"""
    acts = {}
    for m in re.finditer(r"^<(\w+) line [^>]*>: (\d+):(\d+)", out, re.M):
        acts[m.group(1)] = (int(m.group(2)), int(m.group(3)))
    return acts


def start(module, cfgtext, scratch, tag, workers="1", heap="2g", extra=(), env=None):
    d = os.path.join(scratch, tag)
    os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, "m.cfg")
    with open(cfg, "w") as f:
        f.write(cfgtext)
    log = open(os.path.join(d, "out.txt"), "w+")
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(command(module, cfg, d, workers, heap, extra), stdout=log, stderr=subprocess.STDOUT, env=e, cwd=d)
    p.logfile = log
    p.tag = tag
    p.module = module
    return p


def finish(p, timeout):
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise TlcError(f"TLC timed out on {p.module} ({p.tag})")
    p.logfile.seek(0)
    out = "".join(x for x in p.logfile if not x.startswith(("Parsing ", "Semantic ", "Linting ", "(jar:")))
    p.logfile.close()
    return out


def printed_json(out, tag):
    """lines printed by PrintT(<<tag, ToJson(x)>>) -> list of parsed values"""
    res = []
    pre = f'<<"{tag}", "'
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('">>'):
            s = line[len(pre) - 1:-2]
            res.append(json.loads(json.loads(s)))
    return res
