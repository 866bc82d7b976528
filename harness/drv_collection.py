"""drivers for the collection of interface objects: histories of operations, classes accepted by names"""
import json
from load import mod, cosem, outcome, B, rng

CLASSES = [(1, 0), (3, 0), (4, 0), (5, 0), (6, 0), (7, 1), (8, 0), (9, 0), (10, 0), (11, 0), (15, 0), (15, 1), (15, 2), (18, 0), (20, 0), (21, 0), (22, 0), (23, 1),
           (27, 0), (27, 1), (40, 2), (41, 0), (42, 0), (45, 0), (47, 0), (47, 1), (64, 0), (64, 1), (68, 0), (70, 0), (71, 0), (100, 0)]
ODD = [(1, 1), (3, 1), (7, 0), (8, 1), (12, 0), (15, 3), (15, 255), (23, 0), (23, 2), (40, 0), (40, 1), (47, 2), (47, 3), (2, 0), (99, 0), (0, 0), (65535, 0)]
SHORT = """LDN current_association PUBLIC_ASSOCIATION COMMUNICATION_PORT_PARAMETER clock activity_calendar special_day_table TCP_UDP_setup IPv4_setup boot_image_transfer
firmware_image_transfer RU_EXTENDED_PASSPORT_DATA firmware_version device_type manufacturing_date RU_LOAD_LOCK_STATUS firmwares_description serial_number RU_MAGNETIC_EFFECT
RU_HF_FIELD_EFFECT RU_ELECTRIC_SEAL_STATUS RU_CLOSE_ELECTRIC_SEAL RU_ERASE_MAGNETIC_EVENTS RU_ALARM_REGISTER_2 RU_FILTER_ALARM_2 RU_DAILY_PROFILE
RU_MAXIMUM_CURRENT_EXCESS_LIMIT RU_MAXIMUM_VOLTAGE_EXCESS_LIMIT""".split()
SHORTOF = ["getASSOCIATION", "getIECHDLCSetup", "getIPv4Setup", "getDISCONNECT_CONTROL", "getARBITRATOR"]
LDN = (0, 0, 42, 0, 0, 255)
# name, class, version that goes with it
STOCK = [((0, 0, 1, 0, 0, 255), 8, 0), ((0, 0, 40, 0, 0, 255), 15, 1), ((0, 0, 40, 0, 1, 255), 15, 1), ((0, 0, 40, 0, 2, 255), 15, 0), ((0, 0, 96, 1, 0, 255), 1, 0),
         ((0, 0, 96, 1, 1, 255), 1, 0), ((0, 0, 96, 1, 2, 255), 1, 0), ((0, 0, 96, 1, 4, 255), 1, 0), ((0, 0, 96, 12, 4, 255), 1, 0), ((0, 0, 13, 0, 0, 255), 20, 0),
         ((0, 0, 11, 0, 0, 255), 11, 0), ((0, 0, 25, 0, 0, 255), 41, 0), ((0, 0, 25, 1, 0, 255), 42, 0), ((0, 1, 25, 1, 0, 255), 42, 0), ((0, 0, 44, 0, 128, 255), 18, 0),
         ((0, 0, 44, 0, 0, 255), 18, 0), ((0, 0, 94, 7, 1, 255), 7, 1), ((0, 0, 96, 4, 3, 255), 1, 0), ((0, 0, 128, 100, 0, 255), 1, 0), ((0, 0, 96, 51, 3, 255), 1, 0),
         ((0, 0, 96, 51, 4, 255), 1, 0), ((0, 0, 96, 51, 5, 255), 1, 0), ((0, 0, 96, 51, 6, 255), 1, 0), ((0, 0, 96, 51, 7, 255), 1, 0), ((0, 0, 97, 98, 1, 255), 1, 0),
         ((0, 0, 97, 98, 11, 255), 1, 0), ((1, 0, 98, 2, 0, 255), 7, 1), ((1, 0, 11, 134, 0, 255), 3, 0), ((1, 0, 12, 134, 0, 255), 3, 0), ((0, 0, 22, 0, 0, 255), 23, 1),
         ((0, 1, 22, 0, 0, 255), 23, 1), ((0, 2, 22, 0, 0, 255), 23, 1), ((0, 0, 96, 3, 10, 255), 70, 0), ((0, 0, 96, 3, 20, 255), 68, 0), ((0, 1, 96, 3, 20, 255), 68, 0),
         ((1, 0, 1, 8, 0, 255), 3, 0), ((1, 0, 41, 7, 0, 255), 3, 0), ((1, 0, 60, 7, 0, 255), 3, 0), ((1, 0, 61, 7, 0, 255), 3, 0), ((1, 0, 40, 7, 0, 255), 3, 0),
         ((0, 0, 43, 0, 0, 255), 64, 0), ((0, 0, 43, 0, 1, 255), 64, 1), ((0, 0, 25, 6, 0, 255), 47, 0), ((0, 1, 25, 6, 0, 255), 47, 1), ((0, 0, 2, 0, 0, 255), 27, 1), LDN and (LDN, 1, 0)]


def lib():
    cosem()
    return (mod("cosem_interface_classes.collection"), mod("types.common_data_types"), mod("types.cosem_service_types"), mod("types.useful_types"),
            mod("cosem_interface_classes.overview"), mod("version"))


def ver(v):
    return [] if v is None else [v.major, v.minor] + ([] if v.patch is None else [v.patch])


def histories(rec, tier, gens):
    col, cdt, cst, ut, ow, version = lib()
    co = mod("cosem_interface_classes.cosem_interface_class")
    structs = mod("types.implementations.structs")
    r = rng()

    def play(key, ops, country=7):
        c = col.Collection(ow.CountrySpecificIdentifiers(country))
        known = {}
        keep = []
        evs = []

        def oid(x):
            if x is None:
                return 0
            if id(x) not in known:
                known[id(x)] = len(known) + 1
                keep.append(x)
            return known[id(x)]

        def show(e="", **kw):
            return {"e": e, "objs": [[B(x.logical_name.contents), int(x.CLASS_ID), int(x.VERSION), oid(x)] for x in c], "vals": [oid(x) for x in c.values()], "len": len(c),
                    "desc": [[B(a.contents), int(b), int(v)] for a, b, v in c.get_objects_descriptions()], "dlms": c.dlms_ver, "man": B(c.manufacturer or b""), "country": int(c.country),
                    "cver": ver(c.country_ver), "stype": [] if c.server_type is None else B(c.server_type.encoding), "sver": [[k, ver(v)] for k, v in c.server_ver.items()],
                    "colver": ver(c.collection_ver), **kw}

        def form(n, f):
            ln = cst.LogicalName(bytearray(n))
            return {"ln": lambda: ln, "text": lambda: ".".join(map(str, n)), "octets": lambda: bytes(n), "attr": lambda: ut.CosemAttributeDescriptor((ut.CosemClassId(1), ut.CosemObjectInstanceId(bytes(n)) if hasattr(ut, "CosemObjectInstanceId") else bytes(n), ut.CosemObjectAttributeId(2))),
                    "capture": lambda: structs.CaptureObjectDefinition((1, ln, 2, 0)), "id": lambda: mod("types.cosemObjectInstanceId").CosemObjectInstanceId(bytes(n))}[f]()
        FORMS = ["ln", "text", "octets", "capture", "id"]
        evs.append({"ev": "new", "k": country, "o": show()})
        for o in ops:
            k = o["ev"]
            n = o.get("n")
            ln = cst.LogicalName(bytearray(n)) if n else None
            extra = {}
            if k in ("add", "addm"):
                e, x = outcome(lambda: (c.add if k == "add" else c.add_if_missing)(ut.CosemClassId(o["k"]), None if o["v"] < 0 else cdt.Unsigned(o["v"]), ln))
                extra["id"] = oid(x)
            elif k == "rm":
                e, x = outcome(lambda: c.try_remove(ln))
                extra["b"] = bool(x)
            elif k == "get":
                e, x = outcome(lambda: c.get(bytes(n)))
                extra["id"] = oid(x)
            elif k in ("object", "object2", "has"):
                f = form(n, r.choice(FORMS))
                e, x = outcome(lambda: {"object": c.get_object, "object2": c.get_object2, "has": c.is_in_collection}[k](f))
                extra = {"b": bool(x)} if k == "has" else {"id": oid(x)}
            elif k == "attr":
                e, x = outcome(lambda: c.get_attr(mod("types.cosemAttributeDescriptor").CosemAttributeDescriptor(ut.CosemClassId(1), mod("types.cosemObjectInstanceId").CosemObjectInstanceId(bytes(n)), ut.CosemObjectAttributeId(1))))
                # the name attribute belongs to exactly one object
                extra["id"] = next((oid(y) for y in c if y.logical_name is x), -1) if x is not None else 0
            elif k == "short":
                e, x = outcome(lambda: getattr(c, o["s"]))
                extra["id"] = oid(x)
            elif k == "shortof":
                e, x = outcome(lambda: getattr(c, o["s"])(o["k"]))
                extra["id"] = oid(x)
            elif k == "first":
                e, x = outcome(lambda: c.get_first([form(m, r.choice(FORMS)) for m in o["ns"]]))
                extra["id"] = oid(x)
            elif k == "version":
                e, x = outcome(lambda: c.find_version(ut.CosemClassId(o["k"])))
                extra["id"] = int(x) if x is not None else -1
            elif k == "class":
                e, x = outcome(lambda: c.get_objects_by_class_id(o["k"] if r.random() < .5 else ut.CosemClassId(o["k"])))
                extra["ids"] = [oid(y) for y in x or ()]
            elif k == "versions":
                e, x = outcome(c.get_class_version)
                extra["cv"] = [[int(a), int(b)] for a, b in (x or {}).items()]
            elif k == "phases":
                e, x = outcome(c.get_n_phases)
                extra["id"] = x or 0
            else:
                v = version.AppVersion(*o["x"]) if k in ("cver", "sver", "colver") else None
                e, _ = outcome({"dlms": lambda: c.set_dlms_ver(o["k"]), "country": lambda: c.set_country(ow.CountrySpecificIdentifiers(o["k"])), "man": lambda: c.set_manufacturer(bytes(o["x"])),
                                "cver": lambda: c.set_country_ver(v), "stype": lambda: c.set_server_type(cdt.get_instance_and_pdu_from_value(bytes(o["x"]))[0], o["force"]),
                                "sver": lambda: c.set_server_ver(o["k"], v, o["force"]), "clear": c.clear_server_ver, "colver": lambda: c.set_collection_ver(v), "spec": c.set_spec}[k])
                extra["id"] = 0
            evs.append({**o, "o": show(e, **extra)})
        rec.case(key, evs)

    def name():
        k = r.random()
        if k < .93:
            return list(r.choice(STOCK)[0])
        return [r.choice((0, 1, 1, 2)), r.choice((0, 0, 1, 128)), r.choice((1, 41, 60, 96, 99, 128, 200)), r.choice((0, 7, 8, 128)), r.choice((0, 1)), r.choice((255, 255, 0, 128))]

    def change():
        n, k, v = r.choice(STOCK)
        q = r.random()
        if q < .2:
            k, v = r.choice(CLASSES + ODD)
        if r.random() < .3:
            v = -1
        op = r.choice(("add", "add", "addm", "rm")) if q < .9 else "rm"
        return {"ev": "rm", "n": list(n)} if op == "rm" else {"ev": op, "k": k, "v": v, "n": list(n)}

    VERS = [(3, 0), (3, 0), (2, 0), (1, 3, 29), (1, 3, 30), (1, 3, 31), (1, 3), (1, 4, 0), (0, 9, 40)]

    def ident():
        k = r.choice(("dlms", "country", "man", "man", "cver", "cver", "stype", "sver", "sver", "sver", "clear", "colver", "spec", "spec"))
        return {"ev": k, **({"k": r.choice((6, 6, 6, 5, 0))} if k == "dlms" else {"k": r.choice((0, 7, 7, 7, 1))} if k == "country" else {"x": list(r.choice((b"KPZ", b"KPZ", b"ITE", b"kpz")))} if k == "man"
                            else {"x": list(r.choice(VERS))} if k in ("cver", "colver") else {"x": r.choice(([9, 2, 77, 49], [9, 2, 77, 50], [17, 3], [17, 0])), "force": r.random() < .2} if k == "stype"
                            else {"k": r.choice((0, 0, 0, 1)), "x": list(r.choice(VERS)), "force": r.random() < .2} if k == "sver" else {})}

    def ask():
        k = r.choice(("get", "object", "object", "object2", "has", "attr", "short", "short", "shortof", "first", "version", "class", "versions", "phases"))
        return {"ev": k, **({"n": name()} if k in ("get", "object", "object2", "has", "attr") else {"s": r.choice(SHORT)} if k == "short" else {"s": r.choice(SHORTOF), "k": r.choice((0, 0, 1, 2, 7))} if k == "shortof"
                            else {"ns": [name() for _ in range(r.randrange(4))]} if k == "first" else {"k": r.choice(CLASSES)[0]} if k in ("version", "class") else {})}

    for g in gens:
        for i, w in enumerate(json.load(open(g))):
            ops = []
            for o in w["hist"]:
                ops.append(o)
                if r.random() < .4:
                    ops.append(ask())
            play(f"spec{i}", ops)
    for s in SHORT:                                           # every shortcut with its object, without it and with it again
        play(f"short-{s}", [{"ev": "short", "s": s}] + [{"ev": "add", "k": k, "v": v, "n": list(n)} for n, k, v in STOCK] + [{"ev": "short", "s": s}]
             + [{"ev": "rm", "n": list(n)} for n, k, v in STOCK[::2]] + [{"ev": "short", "s": s}] + [{"ev": "add", "k": k, "v": v, "n": list(n)} for n, k, v in STOCK[:12]] + [{"ev": "short", "s": s}])
    for i in range(250 if tier == "quick" else 4000):
        ops = []
        p = r.choice((.1, .3))
        for _ in range(r.randrange(3, 30)):
            q = r.random()
            ops.append(ident() if q < p else change() if q < .6 else ask())
        play(f"random{i}", ops, r.choice((7, 7, 7, 7, 0, 1)))


def classes(rec, tier, gens):
    col, cdt, cst, ut, ow, version = lib()
    ev = mod("cosem_interface_classes.events")
    r = rng()
    LOGS = {"voltage": ev.voltage_events, "current": ev.current_events, "commutation": ev.commutation_events, "programming": ev.programming_events, "external": ev.external_impact_events,
            "communication": ev.communication_events, "access": ev.access_events, "selfdiag": ev.self_diagnostics_events, "reactive": ev.reactive_power_events,
            "quality1": ev.power_quality_status_1, "quality2": ev.power_quality_status_2}
    PROBES = (1, 2, 3, 4, 5, 8, 9, 16, 21)

    def log(t):
        if isinstance(t, ut.CHOICE) or t.TAG[0] not in (6, 18):
            return ""
        return next((k for k, d in LOGS.items() if all(outcome(lambda: t(p).get_report())[1] == d.get_report(p) for p in PROBES)), "other")

    def look(c, n, pairs):
        acc, errors = [], []
        for k, v in pairs:
            e, x = outcome(lambda: c.add(ut.CosemClassId(k), cdt.Unsigned(v), cst.LogicalName(bytearray(n))))
            if e:
                errors.append(e)
            else:
                el = x.get_attr_element(2)
                t = el.DATA_TYPE
                acc.append({"c": int(x.CLASS_ID), "v": int(x.VERSION), "cl": int(el.classifier), "tags": [] if k != 1 else sorted(t.ELEMENTS) if isinstance(t, ut.CHOICE) else [t.TAG[0]],
                            "log": log(t) if k == 1 else "", "scaler": B(getattr(x, "scaler_profile_key", None) or b"")})
        return {"ev": "name", "n": list(n), "tried": [list(p) for p in pairs], "o": acc, "errors": sorted(set(errors))}

    CFG = [dict(ru=True, man=[], cver=[], sver=[]), dict(ru=True, man=[], cver=[3, 0], sver=[]), dict(ru=True, man=[75, 80, 90], cver=[3, 0], sver=[1, 4, 0]),
           dict(ru=True, man=[75, 80, 90], cver=[], sver=[1, 3, 29]), dict(ru=True, man=[75, 80, 90], cver=[3, 0], sver=[]), dict(ru=False, man=[], cver=[3, 0], sver=[])]

    def run(key, cfg, names, pairs):
        c = col.Collection(ow.CountrySpecificIdentifiers(7 if cfg["ru"] else 1))
        if cfg["cver"]:
            c.set_country_ver(version.AppVersion(*cfg["cver"]))
        if cfg["man"]:
            c.set_manufacturer(bytes(cfg["man"]))
        if cfg["sver"]:
            c.set_server_ver(0, version.AppVersion(*cfg["sver"]))
        c.set_spec()
        names = list(names)
        for i in range(0, len(names), 60):
            rec.case(f"{key}-{i}", [{"ev": "config", "cfg": cfg}] + [look(c, n, pairs(n)) for n in names[i:i + 60]])

    ALL = CLASSES + ODD
    USUAL = [(1, 0), (3, 0), (4, 0), (5, 0), (7, 1), (8, 0), (9, 0), (15, 1), (18, 0), (21, 0), (27, 1), (64, 0), (68, 0), (70, 0), (100, 0)]
    some = lambda n: [p for p in USUAL]
    every = lambda n: ALL
    quick = tier == "quick"
    GROUPS = {0: (0, 1, 2, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19, 21, 22, 23, 24, 25, 40, 42, 43, 44, 94, 96, 97, 98, 99), 1: (0, 1, 2, 12, 20, 31, 81, 93, 94, 96, 97, 98, 99)}
    for j, cfg in enumerate(CFG):
        deep = not quick or j in (0, 3)
        for a in (0, 1):
            names = []
            for g in GROUPS[a]:
                for d in range(62 if deep else 22):
                    names.append((a, 0, g, d, r.choice((0, 0, 0, 1, 5)), 255))
                    if d < 26 and deep and a == 0:
                        names.append((a, r.choice((0, 0, 1, 64)), g, d, r.choice((0, 1, 2, 4, 6, 7, 8, 9, 10, 20, 22, 29, 30, 100, 127, 255)), 255))
                names += [(a, 0, g, d, e, 255) for d in (0, 1) for e in r.sample(range(256), 6)]
            run(f"grid{j}-{a}", cfg, names, some)
        run(f"c{j}", cfg, [(1, r.choice((0, 1)), c, r.choice((0, 1, 3, 7, 8, 29, 31, 35, 40, 46, 58, 134)), 0, 255) for c in range(256)], some)
        rows = [(0, 96, d, e) for d, top in ((1, 12), (2, 14), (3, 30), (4, 6), (5, 7), (11, 12), (12, 8), (13, 3), (50, 2)) for e in range(top)] + [(0, 10, 0, e) for e in (0, 1, 2, 99, 100, 111, 112, 125, 127)] + \
            [(0, 15, 0, e) for e in range(9)] + [(0, 23, 3, e) for e in (0, 9, 10, 11, 127, 255)] + [(0, 16, 1, e) for e in range(11)] + [(1, 99, d, e) for d in (1, 2, 3, 10, 11, 12, 13, 14, 97, 98, 99) for e in range(5)] + \
            [(1, 0, d, e) for d in (0, 2, 8, 11) for e in range(11)] + [(1, 94, 7, e) for e in range(8)] + [(0, 40, 0, e) for e in range(10)] + [(0, 96, d, e) for d, e in
            ((6, 6), (6, 7), (7, 21), (7, 22), (8, 63), (8, 64), (9, 2), (9, 3), (10, 0), (10, 1), (10, 9), (10, 10), (11, 99), (11, 100), (14, 15), (14, 16), (15, 99), (15, 100), (16, 9), (16, 10), (17, 127), (20, 5))] + \
            [(0, 97, d, e) for d in (97, 98) for e in (0, 9, 10, 11, 29, 30, 255)] + [(0, 96, 51, e) for e in range(11)] + [(0, 43, 0, 255), (0, 44, 0, 127), (0, 44, 0, 128), (0, 44, 1, 0), (0, 42, 0, 1)]
        run(f"rows{j}", cfg, [(a, 0, c, d, e, 255) for a, c, d, e in rows] + [(1, 0, 131, 35, 0, 255), (1, 0, 132, 35, 0, 255), (1, 0, 133, 35, 0, 255), (1, 0, 147, 133, 0, 255), (1, 0, 148, 136, 0, 255),
                                                                         (1, 1, 131, 35, 0, 255), (0, 128, 96, 13, 1, 255), (0, 128, 154, 0, 0, 255), (0, 129, 154, 0, 0, 255), (0, 0, 0, 128, 100, 255)]
            + [(128, 0, c, 0, 0, 255) for c in (0, 1, 19, 20)] + [(0, 0, 128, d, 0, 255) for d in (99, 100, 103, 150, 170)], some)
        names = []
        for _ in range((150 if deep else 60) if quick else 3000):                           # any names, names around the limits of the manufacturer's ranges
            edge = lambda *s: r.choice(s + (r.randrange(256),))
            names.append((edge(0, 0, 0, 1, 1, 1, 7, 15), edge(0, 0, 0, 1, 64, 127, 128, 199, 200), edge(0, 1, 96, 98, 127, 128, 199, 200, 239, 240, 241), edge(0, 1, 2, 8, 127, 128, 254, 255),
                          edge(0, 0, 1, 8, 127, 128, 254, 255), edge(255, 255, 0, 127, 128, 254)))
        run(f"any{j}", cfg, names, every)
        run(f"stock{j}", cfg, [s[0] for s in STOCK], every)
        if not quick:
            run(f"all{j}", cfg, [(a, 0, c, d, 0, 255) for a in (0, 1) for c in range(256) for d in range(0 if c % 2 else 1, 256, 5)], some)
            run(f"e{j}", cfg, [(0, 0, c, d, e, 255) for c in GROUPS[0] for d in range(26) for e in r.sample(range(256), 25)], some)
