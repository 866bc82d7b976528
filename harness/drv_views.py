"""driver for views of a collection: groups, name patterns, selection, sorting, trees"""
from load import mod, cosem, outcome, B, rng
from drv_collection import lib, STOCK
from drv_access import octets

MEDIA = {"Abstract": "ABSTRACT", "Electricity": "ELECTRICITY", "Hca": "HCA", "Thermal": "THERMAL", "Gas": "GAS", "Water": "WATER"}
# value groups C that have rules, by medium
RULES = {0: [0, 1, 2, *range(10, 35), 40, 41, 42, 43, 44, 65, 66, 94, 96, 97, 98, 99, 127, 128, 3, 9, 35, 39, 45, 64, 67, 95, 100, 126],
         1: [*range(0, 110), 127, 128, 199, 255], 4: [*range(0, 9), 96, 97, 98, 99, 100], 5: [*range(0, 15), 96, 97, 98, 99, 100], 6: [*range(0, 15), 97, 98, 99],
         7: [*range(0, 72), 96, 97, 98, 99], 8: [0, 1, 2, 3, 4, 96, 97, 98, 99], 9: [0, 1, 2, 3, 4, 97, 98, 99], 15: [0, 1, 96], 2: [0, 1, 96]}
EDGE_E = [*range(0, 32), 34, 35, 63, 64, 99, 100, 101, 110, 111, 112, 120, 121, 123, 124, 125, 126, 127, 128, 254, 255]
EDGE_F = [0, 1, 99, 100, 101, 124, 125, 126, 127, 254, 255, 255, 255, 255]


def views(rec, tier, gens):
    col, cdt, cst, ut, ow, version = lib()
    mid = mod("obis.media_id")
    r = rng()
    deep = tier != "quick"
    text = lambda s: [ord(c) for c in s]

    # ---- groups of names
    def groups(names, key):
        evs = []
        for n in names:
            e, x = outcome(lambda: (type(col.get_media_id(cst.LogicalName(bytearray(n)))).__name__, type(col.get_relation_group(cst.LogicalName(bytearray(n)))).__name__))
            evs.append({"ev": "group", "n": list(n), "o": {"e": e, "m": x[0] if not e else "", "g": x[1] if not e else ""}})
        rec.case(key, evs)

    b0 = lambda: r.choice((0, 0, 0, 1, 2, 64))
    for a, cs in RULES.items():
        for c in cs if not deep else range(256):
            many = [*range(0, 101), 127, 128, 255] if a in (0, 7) or c == 0 or c > 90 else [*range(0, 40), 45, 46, 50, 60, 97, 99, 255]
            ns = []
            for d in many:
                for _ in range((3 if a != 0 else 4) * (6 if deep else 1)):
                    ns.append((a, b0(), c, d, r.choice(EDGE_E), r.choice(EDGE_F)))
            groups(ns, f"groups{a}-{c}")
    # every E under the groups C and D that look at it
    for a, c, ds in ((0, 96, range(0, 22)), (0, 97, (97, 98)), (0, 10, (0,)), (0, 15, (0,)), (0, 16, (0, 1, 2)), (0, 19, (0, 9, 10, 49, 50, 59, 60)), (0, 65, (0, 63, 64)), (1, 96, (1, 5, 10)), (1, 0, (0, 11)),
                     (5, 0, range(10)), (4, 0, range(10)), (8, 0, range(10)), (7, 96, (5,)), (1, 82, (31, 35, 40, 45, 46, 4)), (1, 92, (31, 45, 4, 5)), (1, 105, (4, 31))):
        for d in ds:
            groups([(a, 0, c, d, e, f) for e in EDGE_E + list(range(32, 64)) for f in ((255, 99, 100) if a == 1 and c > 80 else (255,))], f"each-e{a}-{c}-{d}")
    # every F of the measured values
    for a, c, ds in ((4, 1, (0, 1, 5, 6)), (5, 1, (0, 3, 8, 12, 6)), (5, 9, (1, 5)), (5, 12, (0, 4, 15, 7, 21)), (7, 3, (24, 6, 33)), (7, 43, (0, 31, 54)), (7, 41, (15, 91)), (7, 53, (0, 12)), (7, 70, (8, 10, 84)), (8, 1, (0, 1, 5)), (9, 3, (6, 2)), (5, 99, (1, 3, 99)), (1, 82, (31, 4))):
        for d in ds:
            groups([(a, 0, c, d, e, f) for e in (0, 1) for f in range(95, 129)] + [(a, 0, c, d, 0, 255), (a, 0, c, d, 255, 255)], f"each-f{a}-{c}-{d}")

    # ---- name patterns
    def part(i):
        k = r.random()
        if k < .35:
            return "abcdef"[i]
        if k < .55:
            return str(r.choice((0, 1, 2, 8, 25, 96, 255)))
        if k < .93:
            one = lambda: str(r.choice((0, 1, 2, 5, 8, 96, 255)))
            return "(" + r.choice((",", ", ")).join(one() if r.random() < .5 else one() + r.choice(("-", " - ")) + one() for _ in range(r.randrange(1, 4))) + ")"
        return r.choice(("", "x", "256", "-1", "()", "(1", "1)", "(1-2-3)", "(256)", "abcdef"[(i + 1) % 6], "007", "(1,)", "1 ", "((1-2),3)", "(a)", "999999999999", "(1-256)", "aa"))
    pool = [list(s[0]) for s in STOCK] + [[r.choice((0, 1, 2, 5, 8, 25, 96, 255)) for _ in range(6)] for _ in range(40)]
    for i in range(120 if not deep else 1500):
        evs = []
        for _ in range(8):
            p = ".".join(part(j) for j in range(6 if r.random() < .8 else r.randrange(1, 9) if r.random() < .9 else 1) if j < 6) if r.random() < .97 else r.choice(("", ".", "a.b.c.d.e.f.g", "......", "1.2.3.4.5.6 x"))
            ns = r.sample(pool, 12) + [[r.choice((0, 1, 2, 8)) for _ in range(6)]]
            e, x = outcome(lambda: col.LNPattern(p))
            m = [] if e else [int(x == cst.LogicalName(bytearray(n))) for n in ns]
            evs.append({"ev": "pattern", "p": text(p), "ns": ns, "o": {"e": e, "m": m}})
        rec.case(f"patterns{i}", evs)

    # ---- views of a list of objects
    def key():
        k = r.choice(("class", "class", "medium", "group", "pattern", "pattern"))
        d = {"k": k, "v": 0, "g": "", "p": []}
        if k == "class":
            d["v"] = r.choice((1, 3, 7, 8, 15, 41, 99))
            return d, ut.CosemClassId(d["v"])
        if k == "medium":
            d["g"] = r.choice(list(MEDIA))
            return d, getattr(mid, MEDIA[d["g"]])
        if k == "group":
            n = r.choice(STOCK)[0] if r.random() < .9 else (2, 0, 0, 0, 0, 0)
            g = col.get_relation_group(cst.LogicalName(bytearray(n)))
            if type(g).__name__ in MEDIA:
                g = mid.OTHER_MEDIA
            d["g"] = type(g).__name__
            return d, g
        while True:
            p = ".".join(part(j) for j in range(r.randrange(1, 7)))
            e, x = outcome(lambda: col.LNPattern(p))
            if not e:
                d["p"] = text(p)
                return d, x

    def keys(top):
        ks = [key() for _ in range(r.randrange(top))]
        return [a for a, _ in ks], tuple(b for _, b in ks)

    def label(k):
        if isinstance(k, mid.Reserved):
            return f"Reserved{k._value}"
        return type(k).__name__ if isinstance(k, mid.MediaId) else str(int(k))

    MODES = ["m", "g", "c", "mg", "mc", "gm", "gc", "cm", "cg", "cgm", "mgc", "gmc", "gcm", "cmg"]
    SORTS = ["", "l", "n", "c", "cl", "cn", "nc", "ln", "nl", "lc", "cnl"]
    for i in range(140 if not deep else 2500):
        c = col.Collection()
        chosen = r.sample(STOCK, r.choice((1, 2, 3, 5, 8, 12, 20)))
        extra = [((r.choice((1, 1, 7, 8, 4, 5, 6, 2, 3, 15)), 0, r.choice((0, 1, 2, 21, 82, 90, 97, 98, 99, 128)), r.choice((0, 1, 4, 8, 97)), r.choice((0, 1, 2)), 255), r.choice((1, 3)), 0) for _ in range(r.randrange(6))]
        objs, els = [], []
        e1 = (0, 0, 40, 0, 1, 255)
        for n, k, v in [(e1, 15, 1)] + [x for x in chosen if x[0] != e1] + extra:
            e, x = outcome(lambda: c.add(ut.CosemClassId(k), cdt.Unsigned(v), cst.LogicalName(bytearray(n))))
            if not e and all(o is not x for o in objs):
                old = [o for o in objs if o.logical_name == x.logical_name]
                for o in old:
                    objs.remove(o)
                objs.append(x)
        r.shuffle(objs)
        full = []
        for j, x in enumerate(objs):
            idx = [q for q, _ in x.get_index_with_attributes()]
            miss = r.choice(idx) if r.random() < .04 else None
            acc = {q: r.choice((0, 1, 2, 3)) for q in idx if q != miss}
            els.append({"n": B(x.logical_name.contents), "c": int(x.CLASS_ID), "v": int(x.VERSION), "as": [[q, m] for q, m in acc.items()], "ms": []})
            full.append({"id": j + 1, "n": B(x.logical_name.contents), "c": int(x.CLASS_ID), "t": text(col.get_name(x.logical_name)),
                         "at": [{"i": q, "r": int(acc[q] in (1, 3)) if q in acc else -1, "w": int(acc[q] in (2, 3)) if q in acc else -1} for q in idx]})
        ids = {id(x): j + 1 for j, x in enumerate(objs)}
        evs = [{"ev": "objs", "v": full}]
        ass = c.getASSOCIATION(1)
        e, x = outcome(lambda: ass.set_attr(2, octets(els, 1)))
        listed = not e
        objs = [c.get(bytes(x["n"])) for x in els]
        if any(id(x) not in ids for x in objs):
            raise RuntimeError("objects changed")

        def leaves(t, path):
            if isinstance(t, list):
                return [{"path": path, "id": ids[id(x)]} for x in t]
            return [y for k, v in t.items() for y in leaves(v, path + [label(k)])]

        def attrs(t, path):
            out = []
            for k, v in t.items():
                if isinstance(v, dict):
                    out += attrs(v, path + [label(k)])
                    if not v:
                        out.append({"path": path + [label(k)], "id": 0, "at": []})
                else:
                    out.append({"path": path, "id": ids[id(k)], "at": list(v)})
            return out
        for _ in range(r.randrange(4, 10)):
            k = r.choice(("filter", "filter", "sort", "tree", "attrs", "attrs"))
            if k == "filter":
                ks, real = keys(4)
                e, x = outcome(lambda: col.get_filtered(list(objs), real))
                evs.append({"ev": k, "keys": ks, "o": {"e": e, "r": [] if e else [ids[id(y)] for y in x]}})
            elif k == "sort":
                m = r.choice(SORTS)
                e, x = outcome(lambda: col.get_sorted(list(objs), m))
                evs.append({"ev": k, "mode": list(m), "o": {"e": e, "r": [] if e else [ids[id(y)] for y in x]}})
            elif k == "tree":
                m = r.choice(MODES)
                e, x = outcome(lambda: col.get_object_tree(list(objs), m))
                evs.append({"ev": k, "mode": list(m), "o": {"e": e, "r": [] if e else leaves(x, [])}})
            elif listed:
                ks, real = keys(3)
                m, s = r.choice(MODES), r.choice(SORTS)
                af = r.choice(("l", "r", "w", "lr", "lw", "wr", "lrw"))
                e, x = outcome(lambda: c.get_attr_tree(1, obj_mode=m, obj_filter=real, sort_mode=s, af_mode=af))
                evs.append({"ev": k, "keys": ks, "mode": list(m), "sort": list(s), "af": list(af), "o": {"e": e, "r": [] if e else attrs(x, [])}})
        rec.case(f"views{i}", evs)
