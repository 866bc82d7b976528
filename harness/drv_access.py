"""driver for access rights: associations, their object lists, questions about rights"""
import json
from load import mod, cosem, outcome, B, rng
from drv_collection import lib, STOCK

SAPS = (0, 1, 0x10, 0x20, 0x30, 0x40, 0x50, 0x60)
NAMES = [s for s in STOCK if s[1] not in (15, 1, 47)] + [((0, 0, 96, 1, 1, 255), 1, 0), ((0, 0, 42, 0, 0, 255), 1, 0), ((0, 0, 40, 0, 1, 255), 15, 1), ((0, 0, 40, 0, 2, 255), 15, 1)]


def octets(els, ver):
    """octets of an object list"""
    n = lambda k: bytes([k]) if k < 128 else b"\x81" + bytes([k])
    out = b"\1" + n(len(els))
    for x in els:
        out += b"\2\4\x12" + x["c"].to_bytes(2, "big") + b"\x11" + bytes([x["v"]]) + b"\x09\6" + bytes(x["n"]) + b"\2\2\1" + n(len(x["as"]))
        out += b"".join(b"\2\3\x0f" + bytes([i & 255]) + b"\x16" + bytes([m]) + b"\0" for i, m in x["as"])
        out += b"\1" + n(len(x["ms"])) + b"".join(b"\2\2\x0f" + bytes([i & 255]) + (b"\x03" if ver == 0 else b"\x16") + bytes([m]) for i, m in x["ms"])
    return out


def rights(rec, tier, gens):
    col, cdt, cst, ut, ow, version = lib()
    en = mod("types.implementations.enums")
    pdu = mod("pdu_enums")
    mid = mod("cosem_interface_classes.association_ln.mechanism_id")
    oid_t = mod("types.cosemObjectInstanceId").CosemObjectInstanceId
    r = rng()

    def play(key, ops):
        c = col.Collection()
        known, keep, evs = {}, [], []
        vers = {}

        def oid(x):
            if id(x) not in known:
                known[id(x)] = len(known) + 1
                keep.append(x)
            return known[id(x)]

        def show(e="", **kw):
            return {"e": e, "objs": [[B(x.logical_name.contents), int(x.CLASS_ID), int(x.VERSION), oid(x)] for x in c],
                    "lists": [{"e": x.logical_name.e, "n": -1 if x.object_list is None else len(x.object_list)} for x in c if int(x.CLASS_ID) == 15], **kw}
        evs.append({"ev": "new", "o": show()})
        pol = lambda p: (pdu.SecurityPolicyVer1 if p[0] else pdu.SecurityPolicyVer0)(p[1])
        for o in ops:
            o = dict(o)
            k = o["ev"]
            name = lambda: cst.LogicalName(bytearray(o["n"]))
            an = bytes((0, 0, 40, 0, o.get("e", 0), 255))
            ass = c.get(an)
            kw = {}
            if k == "assoc":
                e, x = outcome(lambda: c.add(ut.CosemClassId(15), cdt.Unsigned(o["v"]), cst.LogicalName(bytearray(an))))
                vers[o["e"]] = o["v"]
            elif k == "rm":
                e, x = outcome(lambda: c.try_remove(name()))
            elif ass is None and k in ("list", "sap", "mech", "all", "item"):
                continue
            elif k == "list":
                e, x = outcome(lambda: ass.set_attr(2, octets(o["list"], int(ass.VERSION))))
            elif k == "sap":
                e, x = outcome(lambda: ass.set_attr(3, (o["s"], 1)))
            elif k == "mech":
                raw = bytes.fromhex("0207110211101202f4110511081102") + b"\x11" + bytes([o["m"]]) if int(ass.VERSION) == 0 else bytes.fromhex("0907608574050802") + bytes([o["m"]])
                e, x = outcome(lambda: ass.set_attr(6, raw))
                kw["m"] = -1 if ass.authentication_mechanism_name is None else int(ass.authentication_mechanism_name.mechanism_id_element)
            elif k in ("rd", "wr"):
                own = r.random() < .4 and ass is not None
                f = {"rd": (ass if own else c).is_readable, "wr": (ass if own else c).is_writable}[k]
                a = dict(ln=name(), index=o["i"])
                if not own:
                    a["association_id"] = o["e"]
                if o["p"] != [0, 0] or r.random() < .5:
                    a["security_policy"] = pol(o["p"])
                e, x = outcome(lambda: f(**a))
                kw["r"] = int(x) if isinstance(x, bool) else -1
                if e:
                    kw["r"] = 0
            elif k == "ac":
                own = r.random() < .4 and ass is not None
                f = (ass if own else c).is_accessible
                a = dict(ln=name(), index=o["i"])
                if not own:
                    a["association_id"] = o["e"]
                if o["g"] >= 0:
                    a["m_id"] = (mid.MechanismIdElement(o["g"]) if r.random() < .5 else [mid.NONE, mid.LOW, mid.HIGH, mid.HIGH_MD5, mid.HIGH_SHA1, mid.HIGH_GMAC, mid.HIGH_SHA256, mid.HIGH_ECDSA][o["g"]])
                e, x = outcome(lambda: f(**a))
                kw["r"] = 0 if e else int(x) if isinstance(x, bool) else -1
            elif k in ("amode", "mmode"):
                if ass is None or ass.object_list is None:
                    continue
                e, x = outcome(lambda: (ass.object_list.get_attr_access if k == "amode" else ass.object_list.get_meth_access)(name(), o["i"]))
                kw["r"] = int(x) if x is not None else 0
            elif k == "item":
                if ass.object_list is None:
                    continue
                o["modes"], kw["rd"], kw["wr"] = [], [], []
                for el in ass.object_list:
                    for it in el.access_rights.attribute_access:
                        o["modes"].append(int(it.access_mode))
                        kw["rd"].append(int(it.access_mode.is_readable()))
                        kw["wr"].append(int(it.access_mode.is_writable()))
                e = ""
            elif k == "all":
                if ass.object_list is None:
                    continue
                e, x = outcome(lambda: ass.object_list.is_writable(name(), set(o["idx"])))
                kw["r"] = 0 if e else int(x)
            elif k == "writables":
                e, x = outcome(c.get_writable_attr)
                kw["r"] = [[B(n.contents), i] for n, s in (x or {}).items() for i in sorted(s)]
            elif k == "objects":
                e, x = outcome(lambda: c.filter_by_ass(o["e"]) if ass is None or r.random() < .5 else ass.get_objects())
                kw["r"] = [oid(y) for y in x or ()]
            elif k == "sapobjects":
                e, x = outcome(lambda: c.get_objects_list(en.ClientSAP(o["s"])))
                kw["r"] = [oid(y) for y in x or ()]
            elif k == "sapid":
                e, x = outcome(lambda: c.get_association_id(en.ClientSAP(o["s"])))
                kw["r"] = 0 if e else x
            else:
                e, x = outcome(lambda: c.getAssociationBySAP(en.ClientSAP(o["s"])))
                kw["r"] = 0 if e else oid(x)
            evs.append({**o, "o": show(e, **kw)})
            if k == "list" and e:
                if ass.object_list is not None and any(c.get(bytes(x["n"])) is None for x in o["list"]):
                    break
        rec.case(key, evs)

    def element(ver):
        n, k, v = r.choice(NAMES)
        top = 3 if ver == 0 else 6
        many = r.randrange(1, 10)
        ids = list(range(1, many + 1)) if r.random() < .8 else [r.choice((1, 2, 3, 4, 127, -1, 0)) for _ in range(many)]
        return {"n": list(n), "c": k, "v": v, "as": [[i, r.randrange(top + 1)] for i in ids],
                "ms": [[i, r.randrange(2 if ver == 0 else 3)] for i in range(1, r.randrange(6))]}

    def lst(ver):
        els = [element(ver) for _ in range(r.choice((0, 1, 2, 3, 5, 8)))]
        if r.random() < .08 and els and els[-1]["as"]:
            els[-1]["as"][-1][1] = 4 if ver == 0 else 7
        if r.random() < .04 and els:
            els[-1].update(n=[1, 0, 1, 8, 0, 255], c=8, v=0)
        return els

    def policy():
        return [0, r.randrange(4)] if r.random() < .5 else [1, r.choice((0, 1, 2, 4, 8, 16, 32, 64, 128, 36, r.randrange(256)))]

    for g in gens:
        for i, w in enumerate(json.load(open(g))):
            play(f"spec{i}", w["hist"])
    # every mode under every policy
    for ver in (0, 1, 2):
        top = 4 if ver == 0 else 7
        meths = 2 if ver == 0 else 3
        e1 = {"n": [0, 0, 1, 0, 0, 255], "c": 8, "v": 0, "as": [[i + 1, i] for i in range(top)], "ms": [[i + 1, i] for i in range(meths)]}
        for pols in ([[0, p] for p in range(4)], *([[1, p] for p in range(s, s + 32)] for s in range(0, 256, 32))):
            ops = [{"ev": "assoc", "e": 1, "v": ver}, {"ev": "list", "e": 1, "list": [e1]}, {"ev": "item", "e": 1}]
            for p in pols:
                for i in range(1, top + 1):
                    ops += [{"ev": k, "e": 1, "n": e1["n"], "i": i, "p": p} for k in ("rd", "wr")]
            play(f"modes{ver}-{pols[0]}", ops)
        for m in range(-1, 3):
            ops = [{"ev": "assoc", "e": 1, "v": ver}, {"ev": "list", "e": 1, "list": [e1]}] + ([{"ev": "mech", "e": 1, "m": m}] if m >= 0 else [])
            play(f"methods{ver}-{m}", ops + [{"ev": "ac", "e": 1, "n": e1["n"], "i": i, "g": g} for i in range(0, meths + 2) for g in range(-1, 8)])
    for i in range(200 if tier == "quick" else 3500):
        ids = r.sample(range(7), r.choice((1, 2, 3)))
        av = {e: r.randrange(3) for e in ids}
        ops = [{"ev": "assoc", "e": e, "v": av[e]} for e in ids]
        if r.random() < .3:
            ops.insert(r.randrange(len(ops) + 1), {"ev": "objects", "e": r.choice(ids)})
        seen = [[0, 0, 1, 0, 0, 255], [0, 0, 42, 0, 0, 255]]
        for _ in range(r.randrange(5, 40)):
            e = r.choice(ids) if r.random() < .95 else r.randrange(8)
            n = r.choice(seen) if r.random() < .92 else list(r.choice(STOCK)[0])
            k = r.choice(("list", "list", "sap", "mech", "rm", "rd", "rd", "rd", "wr", "wr", "ac", "ac", "amode", "mmode", "item", "all", "all", "writables", "objects", "sapobjects", "sapid", "sapass"))
            op = {"ev": k, "e": e}
            if k == "list":
                op["list"] = lst(av.get(e, 0))
                seen += [x["n"] for x in op["list"]]
            elif k == "sap":
                op["s"] = r.choice(SAPS)
            elif k == "mech":
                op["m"] = r.randrange(3)
            elif k == "rm":
                op["n"] = n
                if n[2] == 40 or r.random() < .5:
                    continue
            elif k in ("rd", "wr"):
                op.update(n=n, i=r.choice((1, 2, 3, 4, 5, 9, -1)), p=policy())
            elif k == "ac":
                op.update(n=n, i=r.choice((1, 2, 3, 4)), g=r.choice((-1, -1, 0, 1, 2, 5)))
            elif k in ("amode", "mmode"):
                op.update(n=n, i=r.choice((0, 1, 2, 3, 4, 5, 127, -1)))
            elif k == "all":
                op.update(n=n, idx=sorted(set(r.choice((1, 2, 3, 4, 5)) for _ in range(r.randrange(4)))))
            elif k in ("sapobjects", "sapid", "sapass"):
                op["s"] = r.choice(SAPS[:6])
            ops.append(op)
        play(f"random{i}", ops)
