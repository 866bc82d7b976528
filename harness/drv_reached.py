"""driver for what names reach: attributes, methods, elements of structures, captured columns, what scripts do"""
import json
import tomllib
from load import mod, outcome, rng, B
import drv_collection as dc
from drv_typed import Make, LN

SCRIPTS = [0, 0, 10, 0, 100, 255]
SCREEN = [1, 0, 99, 98, 0, 255]
KNOWN = [("clock:Clock", [0, 0, 1, 0, 0, 255], 8, 0), ("register:Register", [1, 0, 1, 8, 0, 255], 3, 0), ("extended_register:ExtendedRegister", [1, 0, 1, 6, 0, 255], 4, 0),
         ("data:Data", [0, 0, 96, 1, 5, 255], 1, 0), ("gsm_diagnostic.ver0:GSMDiagnostic", [0, 0, 25, 6, 0, 255], 47, 0),
         ("disconnect_control:DisconnectControl", [0, 0, 96, 3, 10, 255], 70, 0), ("profile_generic.ver1:ProfileGeneric", [1, 0, 99, 1, 0, 255], 7, 1),
         ("single_action_schedule:SingleActionSchedule", [0, 0, 15, 0, 0, 255], 22, 0), ("gprs_modem_setup:GPRSModemSetup", [0, 0, 25, 4, 0, 255], 45, 0),
         ("image_transfer.ver0:ImageTransfer", [0, 0, 44, 0, 0, 255], 18, 0)]


def pts(s):
    return [ord(c) for c in str(s)]


def reached(rec, tier, gens):
    col, cdt, cst, ut, ow, version = dc.lib()
    structs, arrays, integers = mod("types.implementations.structs"), mod("types.implementations.arrays"), mod("types.implementations.integers")
    r = rng()
    mk = Make(r)
    deep = tier == "thorough"
    table, given, walks = {}, {}, []
    for g in gens:
        for h in json.load(open(g)):
            if "schema" in h:
                table = {s["key"]: s for s in h["schema"]}
            elif "names" in h:
                given = {s["key"]: s for s in h["names"]}
            elif "ops" in h and h["ops"] and "k" in h["ops"][0]:
                walks.append(h)
    with open("config.toml", "rb") as f:
        words = tomllib.load(f)["DLMS"].get("am_names", {})

    def cls(key):
        m, n = key.split(":")
        return getattr(mod("cosem_interface_classes." + m), n)

    def enc(x):
        return [] if x is None else B(x.encoding)

    class Obj:
        def __init__(self, key):
            self.key, self.g = key, given[key]
            e, self.o = outcome(lambda: cls(key)(cst.LogicalName(bytearray(LN))))
            self.evs = [{"ev": "new", "ck": key, "ln": LN, "o": {"e": e, "vs": self.values() if e == "" else []}}]

        def values(self):
            return outcome(lambda: [enc(self.o.get_attr(i)) for i in range(1, len(self.g["attrs"]) + 1)])[1] or []

        def where(self, v):
            """the attributes and parameters which are this very value"""
            if v is None:
                return {"at": [], "mat": []}
            return {"at": [i for i in range(1, len(self.g["attrs"]) + 1) if self.o.get_attr(i) is v], "mat": [i for i in range(1, len(self.g["meths"]) + 1) if self.o.get_meth(i) is v]}

        def note(self, ev, o, **kw):
            self.evs.append({"ev": ev, **kw, "o": o})

        def force(self, i, k):
            e, _ = outcome(lambda: self.o.set_attr_force(i, cdt.OctetString(bytearray([k]))))
            self.note("force", {"e": e, "vs": self.values()}, i=i, v=[9, 1, k])

        def clear(self, i):
            e, _ = outcome(lambda: self.o.clear_attr(i))
            self.note("clear", {"e": e, "vs": self.values()}, i=i)

        def seen(self, fn):
            e, v = outcome(fn)
            e2, x = outcome(lambda: enc(v) if e == "" else [])
            return {"e": e or e2, "v": x if e2 == "" else [], **self.where(v if e == "" and e2 == "" else None)}

        def read(self, n):
            self.note("read", self.seen(lambda: getattr(self.o, n)), n=n)

        def item(self, i, m, sub):
            self.note("item", self.seen(lambda: self.o.get_meth(i) if m else self.o[i] if sub else self.o.get_attr(i)), i=i, m=m)

        def all(self):
            e, vs = outcome(lambda: [enc(x) for x in self.o])
            e2, ps = outcome(lambda: [{"i": i, "v": enc(v)} for i, v in self.o.get_index_with_attributes(in_init_order=len(self.evs) % 2 == 0)])
            e3, ms = outcome(lambda: [{"i": i, "v": enc(v)} for i, v in self.o.it_index_with_meth])
            self.note("all", {"e": e or e2 or e3, "vs": vs if e == "" else [], "ps": ps if e2 == "" else [], "ms": ms if e3 == "" else []})

    def look(o, few=False):
        us = list(o.g["usable"])
        r.shuffle(us)
        for n in us[:4] if few else us:
            o.read(n)

    for key in given:
        for n in range(3 if deep else 1):
            o = Obj(key)
            na, nm = len(o.g["attrs"]), len(o.g["meths"])
            look(o, True)
            for i in range(2, na + 1):
                o.force(i, 10 * n + i)
            look(o)
            for i in range(-1, na + 2):
                o.item(i, False, i % 2 == 0)
                o.item(i, False, i % 2 == 1)
            for i in range(-1, nm + 2):
                o.item(i, True, False)
            o.all()
            for i in r.sample(range(1, na + 1), min(3, na)):
                o.clear(i)
            look(o, not deep)
            o.all()
            rec.case(f"named:{key}:{n}", o.evs)
    for n, h in enumerate(walks):
        o = Obj(h["key"])
        for x in h["ops"]:
            if x["op"] == "force":
                o.force(x["i"], x["k"])
            else:
                o.clear(x["i"])
            look(o, True)
        look(o)
        o.all()
        rec.case(f"walk:{n}", o.evs)

    # the structures of the types
    def types_in(T):
        out = []
        if isinstance(T, type) and issubclass(T, cdt.Structure):
            if hasattr(T, "ELEMENTS"):
                out.append(T)
                for el in T.ELEMENTS:
                    out += types_in(el.TYPE)
        elif isinstance(T, type) and issubclass(T, cdt.Array):
            out += types_in(T.TYPE)
        elif isinstance(T, ut.CHOICE):
            for el in T.ELEMENTS.values():
                for x in el.values() if isinstance(el, dict) else [el]:
                    out += types_in(getattr(x, "TYPE", None))
        return out

    def values_in(v):
        out = []
        if isinstance(v, (cdt.Structure, cdt.Array)):
            if isinstance(v, cdt.Structure):
                out.append(v)
            for x in v:
                out += values_in(x)
        return out
    for key, g in given.items():
        evs = []
        for meth, what, inner in ((False, table[key]["attrs"], g["structs"]), (True, table[key]["meths"], g["mstructs"])):
            for i, a in enumerate(what, 1):
                C = cls(key)
                T = (C.get_meth_element if meth else C.get_attr_element)(i).DATA_TYPE
                e, ts = outcome(lambda: types_in(T))
                ts = ts if e == "" else []
                evs.append({"ev": "structs", "ck": key, "m": meth, "i": i, "o": {"all": [[x.NAME for x in t.ELEMENTS] for t in ts]}})
                found = {}
                for _ in range(6):
                    e, v = outcome(lambda: T(bytes(mk.of(a["t"]))))
                    if e == "":
                        for x in values_in(v):
                            found.setdefault(type(x), x)
                for n, ns in enumerate(inner[i - 1], 1):
                    if n > len(ts):
                        continue
                    x = found.get(ts[n - 1])
                    if x is None:
                        e, x = outcome(lambda: ts[n - 1]())
                        if e:
                            continue
                    at = [[k for k, y in enumerate(x, 1) if y is outcome(lambda: getattr(x, w))[1]] for w in ns]
                    evs.append({"ev": "struct", "ck": key, "m": meth, "i": i, "n": n, "o": {"own": [q.NAME for q in x.ELEMENTS], "at": at}})
        if len(evs):
            rec.case("structures:" + key, evs)

    # columns and scripts
    def definition(x):
        return bytes([2, 4, 18, x["k"] >> 8, x["k"] & 255, 9, 6] + x["ln"] + [15, x["i"] % 256, 18, x["d"] >> 8, x["d"] & 255])

    def element(el):
        """text of the name of an element"""
        return pts(el)

    def captured(kind, pool, own):
        key, ln, k, v = kind
        t = table[key]["attrs"]
        i = r.randrange(1, len(t) + 1)
        st = t[i - 1]["t"]["k"] == "struct"
        d = r.randrange(0, len(t[i - 1]["t"]["sub"]) + 1) if st else 0
        return {"ln": ln, "k": k, "i": i, "d": d}

    def opened(kinds):
        c = col.Collection()
        evs = [{"ev": "cols", "o": {"e": ""}}]
        objs = {}
        for key, ln, k, v in kinds:
            e, o = outcome(lambda: c.add(ut.CosemClassId(k), cdt.Unsigned(v), cst.LogicalName(bytearray(ln))))
            if e == "" and type(o) is not cls(key):
                continue
            caps = []
            if k == 7 and e == "":
                caps = [captured(x, None, None) for x in r.sample([x for x in kinds if x[2] not in (7, 1)], 2)]
                caps = [dict(x, d=0) if r.random() < .3 else x for x in caps]
                outcome(lambda: o.set_attr_force(3, mod("cosem_interface_classes.profile_generic.ver1").CaptureObjects(bytes([1, len(caps)]) + b"".join(map(definition, caps)))))
            if e == "":
                objs[tuple(ln)] = o
            e2, on = outcome(lambda: mod("relation_to_OBIS").get_name(cst.LogicalName(bytearray(ln))))
            evs.append({"ev": "put", "ck": key, "ln": ln, "on": pts(on), "at": [pts(words.get(a["n"], a["n"])) for a in table[key]["attrs"]],
                        "mt": [pts(words.get(a["n"], a["n"])) for a in table[key]["meths"]], "caps": caps, "o": {"e": e}})
        return c, objs, evs

    def column(c, objs, evs, x):
        e, v = outcome(lambda: c.get_name_and_type(structs.CaptureObjectDefinition(definition(x))))
        o = {"e": e, "names": [], "el": "", "part": 0}
        if e == "":
            ns, T = v
            o["names"] = [pts(n) for n in ns[:2]]
            o["el"] = ns[2] if len(ns) == 3 else "" if len(ns) == 2 else "?"
            at = objs.get(tuple(x["ln"]))
            y = x
            if at is not None and x["k"] == 7 and x["i"] == 2 and x["d"]:
                caps = [q for q in evs if q["ev"] == "put" and q["ln"] == x["ln"]][0]["caps"]
                y = caps[min(x["d"], len(caps)) - 1]
                at = objs.get(tuple(y["ln"]))
            if at is not None:
                D = at.get_attr_data_type(y["i"])
                hits = [0] if T is D else [k for k, el in enumerate(getattr(D, "ELEMENTS", ()), 1) if el.TYPE is T] if isinstance(D, type) and issubclass(D, cdt.Structure) else []
                o["part"] = y["d"] if y["d"] in hits else hits[0] if hits else -1
        evs.append({"ev": "column", "ln": x["ln"], "i": x["i"], "d": x["d"], "o": o})

    for n in range(12 if deep else 4):
        kinds = r.sample(KNOWN[:-1], 8) + KNOWN[-1:]
        c, objs, evs = opened(kinds)
        here = [x for x in kinds if tuple(x[1]) in objs]
        for _ in range(40):
            key, ln, k, v = r.choice(here)
            t = table[key]["attrs"]
            i = r.randrange(1, len(t) + 1)
            ty = t[i - 1]["t"]
            d = r.choice([0, 1, 2, 3, r.randrange(0, 9)])
            if ty["k"] in ("choice", "switch", "anystruct"):
                d = 0
            column(c, objs, evs, {"ln": ln, "k": k, "i": i, "d": d})
        for key, ln, k, v in here:
            if k == 7:
                for d in range(4):
                    column(c, objs, evs, {"ln": ln, "k": k, "i": 2, "d": d})
            else:
                for i, a in enumerate(table[key]["attrs"], 1):
                    if a["t"]["k"] == "struct":
                        for d in range(len(a["t"]["sub"]) + 2):
                            column(c, objs, evs, {"ln": ln, "k": k, "i": i, "d": d})
        column(c, objs, evs, {"ln": [0, 0, 1, 0, 7, 255], "k": 8, "i": 2, "d": 0})
        rec.case(f"columns:{n}", evs)

    for n in range(20 if deep else 6):
        kinds = r.sample(KNOWN, 7)
        c, objs, evs = opened(kinds)
        here = [x for x in kinds if tuple(x[1]) in objs]
        e, sc = outcome(lambda: c.add(ut.CosemClassId(9), cdt.Unsigned(0), cst.LogicalName(bytearray(SCRIPTS))))
        scripts = []
        for _ in range(r.choice([1, 3, 5])):
            acts = []
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                key, ln, k, v = r.choice(here)
                s = r.choice([1, 2]) if table[key]["meths"] else 1
                m = len(table[key]["meths" if s == 2 else "attrs"])
                wrong = r.choice(["", "", "", "", "", "class", "index", "param", "absent"])
                acts.append({"s": s, "k": r.choice([1, 3, 4, 8, 70]) if wrong == "class" else k, "ln": [0, 0, 96, 9, 9, 255] if wrong == "absent" else ln,
                             "i": r.choice([0, m + 1, -1]) if wrong == "index" else r.randrange(1, m + 1), "nul": wrong != "param"})
            scripts.append({"id": r.choice([0, 1, 2, 3, 300]), "acts": acts})
        oct_ = bytes([1, len(scripts)]) + b"".join(
            bytes([2, 2, 18, x["id"] >> 8, x["id"] & 255, 1, len(x["acts"])]) + b"".join(
                bytes([2, 5, 22, a["s"], 18, a["k"] >> 8, a["k"] & 255, 9, 6] + a["ln"] + [15, a["i"] % 256] + ([0] if a["nul"] else [17, 1])) for a in x["acts"]) for x in scripts)
        e, _ = outcome(lambda: sc.set_attr(2, oct_))
        if e:
            evs.append({"ev": "unset-" + e, "o": {"e": e}})
        for k in (0, 1, 2, 3, 300):
            e, t = outcome(lambda: c.get_script_names(cst.LogicalName(bytearray(SCRIPTS)), cdt.LongUnsigned(k)))
            evs.append({"ev": "script", "scripts": scripts, "id": k, "o": {"e": e, "t": pts(t) if e == "" else []}})
        for ln in ([0, 0, 10, 0, 101, 255], here[0][1]):        # none there; not a table of scripts
            e, t = outcome(lambda: c.get_script_names(cst.LogicalName(bytearray(ln)), cdt.LongUnsigned(1)))
            evs.append({"ev": "script", "scripts": [], "id": 1, "o": {"e": e, "t": pts(t) if e == "" else []}})
        rec.case(f"scripts:{n}", evs)

    # the readout of a display
    D = cls("implementations.profile_generic:SPODES3DisplayReadout")
    for n in range(16 if deep else 6):
        c, objs, evs = opened([x for x in KNOWN if x[2] != 7])
        here = [x for x in KNOWN if tuple(x[1]) in objs]
        p = D(cst.LogicalName(bytearray(SCREEN)))
        p.collection = c
        for _ in range(r.choice([1, 2, 3])):
            caps = [captured(r.choice(here), None, None) for _ in range(r.choice([1, 2, 3, 6]))]
            e, _ = outcome(lambda: p.set_attr(3, bytes([1, len(caps)]) + b"".join(map(definition, caps))))
            e2, num = outcome(lambda: len(p.capture_objects))
            evs.append({"ev": "display", "caps": caps, "o": {"e": e, "num": num if e2 == "" else -1, "rows": enc(p.buffer)}})
            for _ in range(3):
                w = r.choice([len(caps)] * 4 + [len(caps) + 1, len(caps) - 1])
                q = r.choice([0, 1, 2, 5])
                s = [1, q] + sum(([2, w] + sum(([3 if r.random() < .98 else 17, r.choice([0, 1])] for _ in range(w)), []) for _ in range(q)), [])
                if r.random() < .1:
                    s = s[:-1]
                e, _ = outcome(lambda: p.set_attr(2, bytes(s)))
                T = p.buffer.TYPE
                els = [table[k[0]]["attrs"][x["i"] - 1] for x in caps for k in here if k[1] == x["ln"]]
                elt = []
                for x, a in zip(caps, els):
                    k = [k for k in here if k[1] == x["ln"]][0]
                    ns = given[k[0]]["structs"][x["i"] - 1]
                    elt.append(ns[0][x["d"] - 1] if x["d"] else "")
                evs.append({"ev": "rows", "caps": caps, "s": s, "els": [pts(w) for w in elt], "elt": elt,
                            "o": {"e": e, "rows": enc(p.buffer), "cols": [pts(q.NAME) for q in T.ELEMENTS] if hasattr(T, "ELEMENTS") else []}})
        rec.case(f"display:{n}", evs)
