"""Brings the code under test in from /repo's working tree, and the recording helpers the drivers use.

The package does not import as a whole at the pinned commit (DLMS_SPODES/__init__ pulls in a module that
does not exist), so the package is entered in sys.modules without running its __init__, exactly as
/opt/vp/import_check.py does.  Drivers hold no expected values: they only call the public API and record
what it did; the TLA+ trace specifications judge the records."""
import contextlib
import importlib
import io
import json
import os
import random
import re
import signal
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = f"{REPO}/src/DLMS_SPODES"
PKG = "src.DLMS_SPODES"


def boot():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    importlib.import_module("src")
    pkg = types.ModuleType(PKG)
    pkg.__path__ = [ROOT]
    sys.modules[PKG] = pkg
    with contextlib.redirect_stdout(io.StringIO()):
        importlib.import_module(PKG + ".config_parser")
    import logging
    logging.disable(logging.CRITICAL)


def mod(name):
    with contextlib.redirect_stdout(io.StringIO()):
        return importlib.import_module(f"{PKG}.{name}")


def cosem():
    """The interface-class layer: the three names it lacks at the pinned commit are supplied (only if absent)."""
    mod("config_parser")
    cdt = mod("types.common_data_types")
    ut = mod("types.useful_types")
    if not hasattr(ut, "CosemAttributeDescriptorWithSelection"):
        ut.CosemAttributeDescriptorWithSelection = type("CosemAttributeDescriptorWithSelection", (ut.Sequence,), {})
    if "method" not in sys.modules:
        m = types.ModuleType("method")
        m.ReplyToHLSAuthentication = type("ReplyToHLSAuthentication", (cdt.OctetString,), {})
        sys.modules["method"] = m
    mod("cosem_interface_classes")


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def outcome(fn, limit=5.0):
    """call fn under a time limit; -> (error class name or '', value or None).  Every ValueError is 'ValueError'."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        v = fn()
        return "", v
    except Hang:
        return "Hang", None
    except UnicodeError as e:
        return "ValueError", None
    except ValueError:
        return "ValueError", None
    except RecursionError:
        return "RecursionError", None
    except Exception as e:
        return type(e).__name__, None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def B(x):
    """octets as a JSON array"""
    return list(bytes(x))


ODD = re.compile(r"null|NaN|Infinity|\d\.\d|\d[eE][-+]?\d|\d{10}")


def tame(v):
    """what the specification's numbers cannot hold is recorded as a text, which fits no expected value"""
    if v is None or isinstance(v, float):
        return f"?{v}"
    if isinstance(v, int) and not isinstance(v, bool) and not -(1 << 31) < v < 1 << 31:
        return f"?{v}"
    if isinstance(v, dict):
        return {str(k): tame(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [tame(x) for x in v]
    return v


def line(e):
    t = json.dumps(e, separators=(",", ":"), default=lambda x: f"?{type(x).__name__}")
    return json.dumps(tame(e), separators=(",", ":"), default=lambda x: f"?{type(x).__name__}") if ODD.search(t) else t


class Rec:
    """writes cases (lists of events) as ndjson shards; fields first/nx are added here"""

    def __init__(self, outdir, shards):
        self.dir = outdir
        self.n = shards
        self.shard = [[] for _ in range(shards)]
        self.weight = [0] * shards
        self.cases = 0
        self.events = 0
        self.keys = set()
        self.kinds = {}

    def case(self, key, events):
        if not events:
            return
        self.cases += 1
        self.events += len(events)
        self.keys.add(key)
        for e in events:
            self.kinds[e["ev"]] = self.kinds.get(e["ev"], 0) + 1
        txt = [line(e) for e in events]
        i = min(range(self.n), key=self.weight.__getitem__)
        self.weight[i] += sum(map(len, txt)) + 40 * len(txt)
        base = len(self.shard[i])
        for k, t in enumerate(txt):
            head = '{"first":%s,"nx":%d,"key":%s,' % ("true" if k == 0 else "false", base + len(txt) + 1, json.dumps(key))
            self.shard[i].append(head + t[1:])

    def close(self):
        files = []
        for i, lines in enumerate(self.shard):
            if lines:
                p = f"{self.dir}/trace{i}.ndjson"
                with open(p, "w") as f:
                    f.write("\n".join(lines) + "\n")
                files.append(p)
        with open(f"{self.dir}/driver.json", "w") as f:
            json.dump({"cases": self.cases, "events": self.events, "distinct": len(self.keys), "kinds": self.kinds,
                       "files": files}, f)


def rng():
    return random.Random(int(os.environ.get("VERIF_SEED", "1")))
