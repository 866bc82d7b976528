#!/usr/bin/python3
"""seed.py new ID PROP NEEDS BREAKS FILE OLD NEW DEMO  - makes and validates a planted bug (run by hand)
   seed.py verify ID...      - applies, builds, tests, runs the demo both ways in a scratch copy
   seed.py check ID...       - runs the property's quick check against the planted bug (in /repo, undone afterwards)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = f"{ROOT}/seeded"
BOOT = '''import contextlib, importlib, io, os, sys, types
sys.dont_write_bytecode = True
REPO = os.environ["DEMO_REPO"]
sys.path.insert(0, REPO)
importlib.import_module("src")
pkg = types.ModuleType("src.DLMS_SPODES")
pkg.__path__ = [REPO + "/src/DLMS_SPODES"]
sys.modules["src.DLMS_SPODES"] = pkg


def mod(name):
    with contextlib.redirect_stdout(io.StringIO()):
        return importlib.import_module("src.DLMS_SPODES." + name)


def cosem():
    mod("config_parser")
    cdt, ut = mod("types.common_data_types"), mod("types.useful_types")
    if not hasattr(ut, "CosemAttributeDescriptorWithSelection"):
        ut.CosemAttributeDescriptorWithSelection = type("CosemAttributeDescriptorWithSelection", (ut.Sequence,), {})
    if "method" not in sys.modules:
        m = types.ModuleType("method")
        m.ReplyToHLSAuthentication = type("ReplyToHLSAuthentication", (cdt.OctetString,), {})
        sys.modules["method"] = m
    return mod("cosem_interface_classes.collection")


def raises(fn, *kinds):
    try:
        fn()
    except kinds:
        return True
    return False


'''
SH = '''#!/bin/bash
# cwd is /repo
here="$(cd "$(dirname "$0")" && pwd)"
export DEMO_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1
t="$(mktemp -d)"
cp "$PWD/test/config.toml" "$t/"
cd "$t" && timeout 120 /opt/venv/bin/python "$here/demo.py"
rc=$?
cd / && rm -rf "$t"
exit $rc
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def inside(copy, cmd, timeout=1200):
    """runs cmd where /repo is the copy (private mount namespace), /verif/evidence a scratch folder"""
    ev = tempfile.mkdtemp(prefix="seed-ev-")
    try:
        return sh(f"unshare -Urm bash -c 'mount --bind {copy} /repo && mount --bind {ev} {ROOT}/evidence && cp -a /opt/vp {ev}/vp && mount --bind {ev}/vp /opt/vp && cd {ROOT} && {cmd}'", timeout=timeout)
    finally:
        shutil.rmtree(ev)


class Copy:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="seed-")
        sh(f"cp -a /repo {self.d}/repo")
        return f"{self.d}/repo"

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def verify(i):
    d = f"{SEEDS}/{i}"
    with Copy() as r:
        a = sh(f"bash {d}/demo.sh", cwd=r)
        ap = sh(f"git apply {d}/patch.diff", cwd=r)
        b = sh(f"bash {d}/demo.sh", cwd=r)
        ok = a.returncode == 0 and ap.returncode == 0 and b.returncode != 0
        if not ok:
            print(i, "INVALID: demo clean", a.returncode, "apply", ap.returncode, "demo patched", b.returncode, (a.stderr + ap.stderr + b.stderr)[-400:])
            return False
        x = inside(r, f"bash /opt/vp/build.sh && bash /opt/vp/test.sh {r}/../o.json")
        base, o = json.load(open("/opt/vp/BASELINE.json"))["stable"], {"passed": []}
        if os.path.exists(f"{r}/../o.json"):
            o = json.load(open(f"{r}/../o.json"))
        good = set(base) <= set(o["passed"])
        # only original lines may be changed: the removed lines must be in the first commit's files
        orig = original()
        p = open(f"{d}/patch.diff").read()
        f, own = None, []
        for line in p.splitlines():
            if line.startswith("--- a/"):
                f = line[6:]
            elif line.startswith("-") and not line.startswith("---") and line[1:].strip():
                src = sh(f"git -C /repo show {orig}:{f}").stdout
                if line[1:] not in src.splitlines():
                    own.append(line)
        print(i, "verified" if good else "TESTS? " + x.stdout[-200:], f"NOT ORIGINAL {own}" if own else "")
        return good and not own


def original():
    log = sh("git -C /repo log --format=%H%x09%s").stdout.splitlines()
    for h in log:
        a, b = h.split("\t", 1)
        if not b.startswith("fix:"):
            return a


def check(i):
    d = f"{SEEDS}/{i}"
    meta = json.load(open(f"{d}/meta.json"))
    p = meta["property"]
    with Copy() as r:
        ap = sh(f"git apply {d}/patch.diff", cwd=r)
        assert ap.returncode == 0, (i, ap.stderr)
        x = inside(r, f"python3 check.py {p} --tier quick")
    hit = x.returncode == 1 and f"VIOLATION property={p}" in x.stdout
    now = "caught" if hit else "missed" if x.returncode == 0 else f"no answer ({x.returncode})"
    meta.setdefault("first", now)
    meta["result"] = now if meta["first"] == now else f"first {meta['first']}, now {now}"
    json.dump(meta, open(f"{d}/meta.json", "w"), indent=1)
    print(i, p, now.upper(), "|", " ".join(x.stdout.split("\n")[1:2])[:110], "|", x.stdout.strip().splitlines()[-1][-60:] if x.stdout.strip() else x.stderr[-200:], flush=True)


def new(i, p, needs, breaks, edits, demo):
    d = f"{SEEDS}/{i}"
    os.makedirs(d, exist_ok=True)
    with Copy() as r:
        for f, old, neu in edits:
            f = f"{r}/src/DLMS_SPODES/{f}"
            s = open(f, newline="").read()
            if "\r\n" in s:
                old, neu = old.replace("\n", "\r\n"), neu.replace("\n", "\r\n")
            assert s.count(old) == 1, (i, f, s.count(old))
            open(f, "w", newline="").write(s.replace(old, neu))
        x = subprocess.run(["git", "-C", r, "diff"], capture_output=True).stdout
        assert x, i
        open(f"{d}/patch.diff", "wb").write(x)
    open(f"{d}/demo.py", "w").write(BOOT + demo.strip() + "\n")
    open(f"{d}/demo.sh", "w").write(SH)
    json.dump({"property": p, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
        list(ex.map({"verify": verify, "check": check}[sys.argv[1]], sys.argv[2:] or sorted(os.listdir(SEEDS))))
