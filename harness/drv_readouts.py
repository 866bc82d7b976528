"""driver for what is read by a person: messages, events, packed numbers, reports, limited values"""
import ast
import json
import os
import tomllib
from load import REPO, mod, outcome, rng
import drv_collection as dc
from drv_typed import Make

GROUPS = {"Voltage": "VOLTAGE", "Current": "CURRENT", "Commutation": "COMMUTATION", "Programming": "PROGRAMING", "External": "EXTERNAL_IMPACT",
          "Communication": "COMMUNICATION", "Access": "ACCESS", "SelfDiagnostic": "SELF_DIAGNOSTIC", "ReactivePower": "REACTIVE_POWER",
          "PowerQuality1": "POWER_QUALITY1", "PowerQuality2": "POWER_QUALITY2"}
CHANNELS = "RESERVED OPTO_P1 P2 P3 P4 OTHER INNER SERVER_KEY".split()
INTERFACES = ("NO_DEFINED OPTO RS485 PLC GSM NBIO ETHERNET RF LORA WIFI BLUETOOTH ZIGBEE " + " ".join(f"RESERVED_{i}" for i in range(12, 30))
              + " MANUFACTURE_30 MANUFACTURE_31").split()
MORE = [((0, 0, 10, 0, 0, 255), 9, 0), ((0, 0, 17, 0, 0, 255), 71, 0), ((0, 0, 16, 1, 0, 255), 21, 0), ((0, 0, 12, 0, 0, 255), 10, 0), ((0, 0, 13, 0, 0, 255), 20, 0),
        ((0, 0, 15, 0, 0, 255), 22, 0), ((0, 0, 14, 0, 0, 255), 6, 0), ((1, 0, 1, 4, 0, 255), 5, 0), ((1, 0, 1, 6, 0, 255), 4, 0)]


def pts(s):
    return [ord(c) for c in s]


def names_of(lang):
    """the texts of events, by the group of their names"""
    with open(os.path.join(REPO, "src/DLMS_SPODES/Values", lang, "events.py"), encoding="utf-8") as f:
        tree = ast.parse(f.read())
    ret = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            g, _, k = n.targets[0].id.rpartition("_")
            if g in GROUPS.values():
                ret.setdefault(g, {})[int(k, 16 if g.startswith("POWER_") else 10)] = n.value.value
    return ret


def readouts(rec, tier, gens):
    col, cdt, cst, ut, ow, version = dc.lib()
    im = col.impl.data
    en, cp, rep = mod("enums"), mod("config_parser"), mod("cosem_interface_classes.reports")
    gsm = mod("cosem_interface_classes.gsm_diagnostic.ver0")
    ip, lu, st = mod("types.implementations.double_long_usingneds"), mod("types.implementations.long_unsigneds"), mod("settings")
    r = rng()
    deep = tier == "thorough"
    mk = Make(r)
    schema, walks = [], []
    for g in gens:
        for h in json.load(open(g)):
            if "schema" in h:
                schema = h["schema"]
            elif "ops" in h:
                walks.append(h["ops"])
    table = {s["key"]: s for s in schema}
    with open("config.toml", "rb") as f:
        conf = tomllib.load(f)["DLMS"]
    words = conf.get("messages", {})
    patterns = conf.get("report", {}).get("struct", {})
    WORDS = {"ev": "words", "tab": [{"k": pts(k), "t": pts(v)} for k, v in words.items()], "cs": [pts(x) for x in CHANNELS], "is": [pts(x) for x in INTERFACES], "o": {"e": ""}}

    def text(fn):
        e, t = outcome(fn)
        if e == "" and not isinstance(t, str):
            e = "NoText"
        return {"e": e, "t": pts(t) if e == "" else []}

    # messages
    evs = [WORDS]

    def message(s):
        evs.append({"ev": "message", "s": pts(s), "o": text(lambda: cp.get_message(s))})
    keys = list(words)
    for k in keys:
        message(f"${k}$")
        message(f"x${k}$$y$")
    for s in ("", "$$", "a$$b", "$$$$", "$no such word$", "–1 ≤ ы", "$or$$$$or$", "$or$$or$", "$$or$$"):
        message(s)
    for _ in range(4000 if deep else 400):
        message("".join(r.choice(["$", "$$", "$" + r.choice(keys or ["a"]) + "$", r.choice(keys or ["a"]), "а", " ", "$нет$", "%", r.choice("abcxyz")]) for _ in range(r.randrange(9))))
    rec.case("messages", evs)
    evs = [WORDS]
    for b in range(256):
        evs.append({"ev": "seal", "b": b, "o": text(lambda: im.SealUnsigned(b).get_report())})
        evs.append({"ev": "signal", "b": b, "o": text(lambda: gsm.SignalQuality(b).get_report())})
    rec.case("seals and signals", evs)

    # events
    names = names_of({"ENGLISH": "EN", "RUSSIAN": "RU"}[st.get_current_language().name])
    for pre, group in GROUPS.items():
        flags = group.startswith("POWER_")
        ts = [t for t in (getattr(im, p + pre + ("Event" if flags else "Event") + "Values", None) for p in ("", "KPZ1")) if t is not None]
        tab = names.get(group, {})
        evs = [{"ev": "names", "tab": [{"k": k, "t": pts(v)} for k, v in tab.items()], "o": {"e": ""}}]
        for t in ts:
            if flags:
                ns = list(range(256)) + [1 << i for i in range(16)] + [0xffff, 0xc001, 0x4010] + [r.randrange(65536) for _ in range(2000 if deep else 60)]
            else:
                ns = list(range(max(tab, default=0) + 3)) + [255, 256, 65535] + [r.randrange(65536) for _ in range(20)]
            for n in ns:
                evs.append({"ev": "flags" if flags else "event", "n": n, "o": text(lambda: t(n).get_report())})
        if ts:
            rec.case("events of " + group, evs)

    # packed and limited values, entered again and again
    class Play:
        def __init__(self):
            self.port = self.period = self.sap = self.spec = self.addr = None
            self.evs = [WORDS]

        def see(self, e):
            q = self.port
            z, v = outcome(lambda: (int(q), int(q.channel), int(q.interface), str(q)))
            return {"e": e or z, "n": v[0] if v else -1, "c": v[1] if v else -1, "i": v[2] if v else -1, "t": pts(v[3]) if v else []}

        def new_port(self, b):
            e, self.port = outcome(lambda: im.ChannelNumberValue(b))
            self.evs.append({"ev": "port", "b": b, "o": self.see(e)})

        def choose(self, what, n):
            e, _ = outcome(lambda: setattr(self.port, what, (en.ChannelNumber if what == "channel" else en.Interface)(n)))
            self.evs.append({"ev": what, "c" if what == "channel" else "i": n, "o": self.see(e)})

        def enter(self, attr, make, x):
            """into the value there is, or a new one"""
            v = getattr(self, attr)
            if v is not None and r.random() < .6:
                return outcome(lambda: v.set(x))[0]
            e, w = outcome(lambda: make(x))
            if e == "":
                setattr(self, attr, w)
            return e

        def kept(self, v, f, none):
            return none if v is None else outcome(lambda: f(v))[1]

        def enter_period(self, n):
            e = self.enter("period", im.SPODES3MeasurementPeriodValue, n)
            self.evs.append({"ev": "period", "n": n, "o": {"e": e, "v": self.kept(self.period, int, -1)}})

        def enter_sap(self, n):
            e = self.enter("sap", lu.ServerSAP, n)
            self.evs.append({"ev": "sap", "n": n, "o": {"e": e, "v": self.kept(self.sap, int, -1)}})

        def enter_spec(self, v):
            e = self.enter("spec", im.SPODES3SPODESVersionValue, bytearray(".".join(map(str, v)), "ascii"))
            self.evs.append({"ev": "spec", "v": v, "o": {"e": e, "v": self.kept(self.spec, lambda q: [int(x) for x in bytes(q.contents).decode().split(".")], [])}})

        def enter_address(self, s):
            e = self.enter("addr", ip.IPAddress, s)
            self.evs.append({"ev": "address", "s": pts(s), "o": {"e": e, "a": self.kept(self.addr, lambda q: list(q.contents), []), "t": self.kept(self.addr, lambda q: pts(str(q)), [])}})
    for n, ops in enumerate(walks):
        p = Play()
        for o in ops:
            if o["ev"] == "port":
                p.new_port(o["n"])
            elif o["ev"] == "period":
                p.enter_period(o["n"])
            elif o["ev"] == "address":
                p.enter_address("".join(map(chr, o["s"])))
            else:
                p.choose(o["ev"], o["n"])
        rec.case(f"walk {n}", p.evs)

    def number():
        return r.choice(["0", "", "00", "007", "255", "256", "1", "9", "10", "99", "100", "x", "1x", str(r.randrange(300)), str(r.randrange(256))])
    for n in range(1500 if deep else 150):
        p = Play()
        p.new_port(n % 256)
        for _ in range(12):
            q = r.randrange(6)
            if q == 0:
                p.choose("channel", r.randrange(8))
            elif q == 1:
                p.choose("interface", r.randrange(32))
            elif q == 2:
                p.enter_period(r.choice([1, 2, 3, 5, 10, 15, 20, 30, 60, r.randrange(256)]))
            elif q == 3:
                p.enter_sap(r.choice([0, 1, 16, 0x3fff, 0x4000, 0xffff, r.randrange(65536)]))
            elif q == 4:
                p.enter_spec([r.choice([0, 0, 1, 2, 3, 12]) for _ in range(r.choice([2, 2, 2, 3]))])
            else:
                p.enter_address(".".join(number() for _ in range(r.choice([1, 2, 3, 4, 4, 4, 5]))))
        rec.case(f"play {n}", p.evs)
    p = Play()
    for b in range(256):
        p.new_port(b)
        p.enter_period(b)
    rec.case("all numbers", p.evs)

    # a firmware newer than what is described
    for n in range(300 if deep else 40):
        c = col.Collection()
        g = r.choice([0, 0, 1])
        e, f = outcome(lambda: c.add(class_id=ut.CosemClassId(1), version=cdt.Unsigned(0), logical_name=cst.LogicalName(bytearray((0, g, 0, 2, 1, 255)))))
        if e or not isinstance(f, im.ActiveFirmwareId):
            continue
        evs = []
        for _ in range(12):
            v = [r.choice((0, 1)), r.choice((0, 1, 2)), r.choice((0, 1, 2, 10))]
            if r.random() < .5:
                g2, force = r.choice((0, 1)), r.random() < .3
                e, _ = outcome(lambda: c.set_server_ver(g2, version.AppVersion(*v), *((True,) if force else r.choice(((), (False,))))))
                seen = [c.server_ver.get(i) for i in (0, 1)]
                evs.append({"ev": "server", "g": g2 + 1, "v": v, "f": force, "o": {"e": e, "vers": [[] if x is None else [x.major, x.minor, x.patch] for x in seen]}})
            else:
                x = ".".join(map(str, v)).encode()
                e, _ = outcome(lambda: f.set_attr(2, bytes([9, len(x)]) + x))
                evs.append({"ev": "firmware", "g": g + 1, "v": v, "o": {"e": e}})
        rec.case(f"firmware {n}", evs)

    # reports
    def tree(v, name):
        if isinstance(v, cdt.Array):
            return {"k": "array", "n": pts(name), "t": [], "p": [], "x": [tree(v[i], "") for i in range(len(v))]}
        if isinstance(v, cdt.Structure):
            own = getattr(type(v), "ELEMENTS", None)
            els = [f"#{i}" for i in range(len(v.values))] if own is None else [x.NAME for x in own]
            pat = patterns.get(type(v).__name__, "")
            return {"k": "struct", "n": pts(name), "t": [], "p": pts(pat), "x": [tree(v.values[i], els[i]) for i in range(len(els))]}
        return {"k": "leaf", "n": pts(name), "t": pts(str(v)), "p": [], "x": []}

    def attr(o, i):
        v = o.get_attr(i)
        name = str(o.get_attr_element(i))
        if v is None or not isinstance(v, (cdt.SimpleDataType, cdt.ComplexDataType)):
            return {"k": "none", "n": [], "t": [], "p": [], "x": []}
        if isinstance(v, cdt.SimpleDataType):
            t = v.to_str() if isinstance(o, im.DLMSDeviceIDObject) and i == 2 else v.report if hasattr(v, "report") else str(v)
            return {"k": "leaf", "n": pts(name), "t": pts(t), "p": [], "x": []}
        return dict(tree(v, name), p=[])
    many = 20 if deep else 5

    def free_value(d=0):
        """a value of a type of its own"""
        k = r.choice((9, 17, 18, 6, 22, 10, 3, 2, 1) if d < 3 else (9, 17, 18, 10))
        if k == 2:
            n = r.randrange(1, 5)
            return [2, n] + [x for _ in range(n) for x in free_value(d + 1)]
        if k == 1:
            x = free_value(d + 1)
            n = r.randrange(0, 3)
            return [1, n] + x * n
        return mk.leaf(k)
    for n, k, v in dc.STOCK + MORE:
        for turn in range(many):
            c = col.Collection()
            e, o = outcome(lambda: c.add(class_id=ut.CosemClassId(k), version=cdt.Unsigned(v), logical_name=cst.LogicalName(bytearray(n))))
            if e:
                break
            key = type(o).__module__.split("cosem_interface_classes.")[-1] + ":" + type(o).__name__
            count = len(type(o).A_ELEMENTS) + 1
            for i in range(2, count + 1):
                if key in table and not (k in (1, 3) and i == 2 and r.random() < .6):
                    outcome(lambda: o.set_attr(i, bytes(mk.of(table[key]["attrs"][i - 1]["t"]))))
                else:
                    outcome(lambda: o.set_attr(i, bytes(free_value())))
            good = {}
            for i in range(1, count + 1):
                e, a = outcome(lambda: attr(o, i))
                if e == "":
                    good[i] = a
            idx = r.sample(sorted(good), min(4, len(good)))
            idx += r.sample(idx, 1) if idx and len(idx) < 4 and r.random() < .3 else []
            arg = tuple((i, 1) if r.random() < .2 else i for i in idx)
            rec.case(f"report {n} {k} {v} {turn} {arg}", [{"ev": "report", "n": pts(col.get_name(o.logical_name)), "vs": [good[i] for i in idx], "o": text(lambda: rep.get_obj_report(o, arg))}])
