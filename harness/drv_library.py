"""driver for the library of types: trees of files, files loaded, collections saved and copied"""
import json
import os
import shutil
import tempfile
import xml.etree.ElementTree as ET
from load import mod, outcome, B, rng
from drv_collection import lib, STOCK
from drv_access import octets
from drv_typed import Make

LDN, CURRENT = [0, 0, 42, 0, 0, 255], [0, 0, 40, 0, 0, 255]
# names of the classes the usual names leave out
RARE = [([1, 0, 1, 6, 0, 255], 4, 0), ([1, 0, 1, 4, 0, 255], 5, 0), ([0, 0, 14, 0, 0, 255], 6, 0), ([0, 0, 12, 0, 0, 255], 10, 0), ([0, 0, 10, 0, 106, 255], 9, 0),
        ([0, 0, 16, 1, 1, 255], 21, 0), ([0, 0, 15, 0, 0, 255], 22, 0), ([0, 0, 25, 4, 0, 255], 45, 0), ([0, 0, 17, 0, 0, 255], 71, 0), ([0, 0, 25, 10, 0, 255], 100, 0),
        ([0, 7, 25, 9, 0, 255], 40, 2), ([0, 0, 2, 0, 0, 255], 27, 0), ([0, 0, 2, 0, 0, 255], 27, 1), ([1, 0, 0, 8, 4, 255], 1, 0), ([0, 0, 96, 2, 0, 255], 1, 0),
        ([0, 0, 96, 2, 1, 255], 1, 0), ([0, 128, 96, 13, 1, 255], 1, 0), ([0, 128, 154, 0, 0, 255], 1, 0), ([0, 0, 0, 2, 1, 255], 1, 0), ([0, 0, 96, 5, 1, 255], 1, 0),
        ([0, 0, 96, 5, 4, 255], 1, 0), ([0, 0, 96, 12, 4, 255], 1, 0), ([1, 0, 94, 7, 0, 255], 7, 1), ([1, 0, 98, 1, 0, 255], 7, 1), ([1, 0, 98, 2, 0, 255], 7, 1),
        ([1, 0, 99, 1, 0, 255], 7, 1), ([0, 0, 21, 0, 1, 255], 7, 1)] + [([0, 0, 96, 11, e, 255], 1, 0) for e in range(9)]
ODDNAMES = ["1.2.3.x", "a.b.c.d.e.f", "1.0.1.8.0.256", "1.0.1.8.0.0.255"]


def P(s):
    return [ord(x) for x in s]


def dotted(v):
    return ".".join(map(str, v))


def library(rec, tier, gens, part="library"):
    col, cdt, cst, ut, ow, version = lib()
    r = rng()
    mk = Make(r)
    schema, walks = {}, []
    for g in gens:
        for h in json.load(open(g)):
            if "schema" in h:
                schema = {s["key"]: s for s in h["schema"]}
            elif "uses" not in h:
                walks.append(h)
    root = tempfile.mkdtemp(prefix="types")

    # ---------------------------------------------------------------- files
    def esc(s):
        return s.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")

    def attr_text(a):
        if a["w"] == "junk":
            return "".join(map(chr, a["s"])) or "zz00"
        if a["w"] == "tag":
            return str(a["s"][0])
        return bytes(a["s"]).hex()

    def write(doc, path):
        h, v4 = doc["h"], doc["fmt"][0] == 4
        nl = r.choice(["", "\n  "])
        out = [f'<?xml version="1.0" encoding="{r.choice(["cp1251", "utf-8"])}"?>', f'<{doc["root"]} version="{dotted(doc["fmt"])}{r.choice(["", ".0", ".1"])}">']
        out += [f'<dlms_ver>{h["dlms"]}</dlms_ver>', f'<country>{h["country"]}</country>']
        if h["cver"]:
            out.append(f'<country_ver>{dotted(h["cver"])}</country_ver>')
        if h["man"]:
            out.append(f'<manufacturer>{bytes(h["man"]).decode()}</manufacturer>')
        if h["stype"]:
            out.append(f'<server_type>{bytes(h["stype"]).hex()}</server_type>')
        for i, v in h["sver"]:
            out.append(f'<server_ver instance="{i}">{dotted(v)}</server_ver>')
        for nd in doc["nodes"]:
            ln = dotted(nd["n"]) if nd["n"] else nd.get("x", "1.2.3")
            if v4:
                out.append(f'<obj ln="{esc(ln)}">')
                if nd["v"] >= 0:
                    out.append(f'<ver>{nd["v"]}</ver>')
                out += [f'<attr i="{a["i"]}">{attr_text(a)}</attr>' for a in nd["attrs"]]
                out.append("</obj>")
            else:
                out.append(f'<object name="{esc(r.choice(["x", "Имя", "a&b"]))}" ln="{esc(ln)}">')
                if nd["c"] >= 0:
                    out.append(f'<class_id>{nd["c"]}</class_id>')
                if nd["v"] >= 0:
                    out.append(f'<version>{nd["v"]}</version>')
                for a in nd["attrs"]:
                    if r.random() < .1:
                        out.append("<!--комментарий-->")
                    out.append(f'<attribute index="{a["i"]}">{attr_text(a)}</attribute>')
                out.append("</object>")
        out.append(f'</{doc["root"]}>')
        enc = "cp1251" if "cp1251" in out[0] else "utf-8"
        with open(path, "wb") as f:
            f.write(nl.join(out).encode(enc))

    def nums(s):
        return [int(x) for x in s.split(".")]

    def parse(path):
        """a saved file"""
        t = ET.parse(path).getroot()
        txt = lambda n: t.findtext(n)
        doc = {"root": t.tag, "fmt": nums(t.attrib["version"])[:2],
               "h": {"dlms": int(txt("dlms_ver") or -1), "country": int(txt("country") or -1), "cver": nums(txt("country_ver") or "") if txt("country_ver") else [],
                     "man": B((txt("manufacturer") or "").encode()), "stype": B(bytes.fromhex(txt("server_type") or "")),
                     "sver": [[int(x.attrib["instance"]), nums(x.text)] for x in t.findall("server_ver")]}, "nodes": []}
        for o in t.findall("obj"):
            attrs = []
            for a in o.findall("attr"):
                x = a.text or ""
                attrs.append({"i": int(a.attrib["i"]), **({"w": "tag", "s": [int(x)]} if len(x) <= 2 else {"w": "hex", "s": B(bytes.fromhex(x))})})
            doc["nodes"].append({"n": nums(o.attrib["ln"]), "c": -1, "v": -1 if o.find("ver") is None else int(o.findtext("ver")), "attrs": attrs})
        return doc

    # ---------------------------------------------------------------- collections
    def key(o):
        return type(o).__module__.split("cosem_interface_classes.")[-1] + ":" + type(o).__name__

    def enc(x):
        return [] if x is None else B(x.encoding)

    def held_by(o):
        return [enc(x) for _, x in sorted(o.get_index_with_attributes(), key=lambda x: x[0])]

    def vv(v):
        return [] if v is None else [v.major, v.minor] + ([] if v.patch is None else [v.patch])
    EMPTY = {"objs": [], "dlms": 0, "man": [], "country": 0, "cver": [], "stype": [], "colver": []}

    def show(c, e=""):
        if c is None:
            return dict(EMPTY, e=e)
        return {"e": e, "objs": [{"n": B(o.logical_name.contents), "c": int(o.CLASS_ID), "v": int(o.VERSION), "key": key(o), "a": held_by(o)} for o in c],
                "dlms": c.dlms_ver, "man": B(c.manufacturer or b""), "country": c.country.value, "cver": vv(c.country_ver), "stype": enc(c.server_type), "colver": vv(c.collection_ver)}
    known = lambda o: all(x["key"] in schema for x in o["objs"])

    def header(rich=False):
        man = r.choice(["KPZ", "101", "102", "XYZ"] + ([""] if not rich else []))
        return {"dlms": 6, "country": 7, "cver": r.choice([[3, 0], [3, 0], [], [2, 1]]), "man": P(man), "stype": r.choice([[9, 5] + P("M2M_1"), [9, 6] + P("M2M_3T"), [17, 3]] + ([[]] if not rich else [])),
                "sver": r.choice([[], [[0, [1, 4, 15]]], [[0, [0, 0, 45]], [1, [1, 0, 0]]], [[0, [1, 2]]]])}

    def world(h):
        """a collection of the specification the header speaks of, to learn what objects are made of"""
        c = col.Collection()
        if h["cver"]:
            c.set_country_ver(version.AppVersion(*h["cver"]))
        if h["man"]:
            c.set_manufacturer(bytes(h["man"]))
        outcome(c.set_spec)
        return c

    def members(h, n):
        c, out = world(h), []
        av = r.choice([0, 1, 1, 2])
        pool = {bytes(it[0]): it for it in r.sample(STOCK, min(len(STOCK), n - n // 3)) + r.sample(RARE, n // 3)}
        if part == "template" and r.random() < .7:
            pool.update({bytes(it[0]): it for it in STOCK + RARE if it[1] == 20})
        for it in pool.values():
            if it[1] == 15 or list(it[0]) == LDN:
                continue
            e, o = outcome(lambda: c.add(ut.CosemClassId(it[1]), cdt.Unsigned(it[2]), cst.LogicalName(bytearray(it[0]))))
            if e == "" and key(o) in schema and "ScalesProfile" not in key(o):
                out.append({"n": list(it[0]), "c": it[1], "v": it[2], "key": key(o), "m": len(o.M_ELEMENTS)})
        assoc = []
        for k in sorted(r.sample([1, 2, 3, 4], r.choice([1, 1, 2, 3]))):
            n1 = [0, 0, 40, 0, k, 255]
            e, o = outcome(lambda: c.add(ut.CosemClassId(15), cdt.Unsigned(av), cst.LogicalName(bytearray(n1))))
            if e == "":
                assoc.append({"n": n1, "c": 15, "v": av, "key": key(o), "m": len(o.M_ELEMENTS)})
        return out, assoc

    def element(x, ver):
        top = 3 if ver == 0 else 6
        na = len(schema[x["key"]]["attrs"])
        bias = r.random()
        return {"n": x["n"], "c": x["c"], "v": x["v"], "as": [[1, 1]] + [[i, 1 if r.random() < bias else r.randrange(top + 1)] for i in range(2, na + 1)],
                "ms": [[i, r.randrange(2)] for i in range(1, x["m"] + 1)]}

    def listing(objs, assoc, me, ver, own=True):
        s = [x for x in objs if r.random() < .7]
        s += [x for x in assoc if r.random() < .8 and x is not me] + ([me] if own else [])
        if r.random() < .5:
            s.append({"n": LDN, "c": 1, "v": 0, "key": "implementations.data:LDN", "m": 0})
        if r.random() < .4:
            s.append(dict(me, n=CURRENT))
        r.shuffle(s)
        els = [element(x, ver) for x in s]
        for x in els:
            if x["n"][:3] == [0, 0, 40] and r.random() < .9:
                x["as"][1][1] = 1
        return B(octets(els, ver))

    def values(x, wrong=.15):
        s, out = schema[x["key"]], []
        for i in range(2, len(s["attrs"]) + 1):
            T = s["attrs"][i - 1]["t"]
            if s["skip"][i - 1] or r.random() < .25:
                continue
            p = r.random()
            if p < wrong:
                v = mk.wrong(T)
                a = {"i": i, "w": "hex", "s": v}
            elif p < .35 and T["k"] == "choice":
                tags = [t["t"] for t in T["sub"] if t["k"] in ("leaf", "anyarray")]
                a = {"i": i, "w": "tag", "s": [r.choice(tags)]} if tags else {"i": i, "w": "hex", "s": mk.of(T)}
            elif p < .38:
                a = {"i": i, "w": "junk", "s": P(r.choice(["zz00", "0g12", "12345", "-100"]))}
            else:
                a = {"i": i, "w": "hex", "s": mk.of(T)}
            if a["w"] == "hex" and len(a["s"]) < 2:       # as text it is the number of a type
                if len(a["s"]) == 0 or T["k"] != "choice" or a["s"] != [0]:
                    continue
                a = {"i": i, "w": "tag", "s": [0]}
            out.append(a)
        if r.random() < .1:
            out.insert(r.randrange(len(out) + 1), {"i": len(s["attrs"]) + r.choice([1, 2, 50]), "w": "hex", "s": [17, 1]})
        return out

    def doc3(h=None, n=12):
        h = h or header()
        objs, assoc = members(h, r.randrange(3, n))
        nodes = []
        for a in assoc:
            nd = {"n": a["n"], "c": 15, "v": a["v"], "attrs": values(a)}
            if r.random() < .85:
                nd["attrs"].insert(0 if r.random() < .8 else len(nd["attrs"]), {"i": 2, "w": "hex", "s": listing(objs, assoc, a, a["v"], r.random() < .8)})
            nodes.append(nd)
        rest = [{"n": x["n"], "c": x["c"], "v": x["v"], "attrs": values(x)} for x in objs if r.random() < .8]
        if assoc and r.random() < .3:
            rest.append({"n": CURRENT, "c": 15, "v": assoc[0]["v"], "attrs": values(assoc[0])})
        r.shuffle(rest)
        nodes = nodes + rest if r.random() < .6 else rest + nodes
        for nd in list(nodes):
            p = r.random()
            if p < .04 and nd["c"] != 15:
                nd["c"] = -1
            elif p < .08 and nd["c"] != 15:
                nd["v"] = -1
            elif p < .12:
                nodes.insert(r.randrange(len(nodes)), {"n": [], "x": r.choice(ODDNAMES), "c": nd["c"], "v": nd["v"], "attrs": []})
            elif p < .16 and nd["c"] != 15:
                nodes.insert(r.randrange(len(nodes)), {"n": nd["n"], "c": r.choice([8, 3, 70]), "v": r.choice([0, 3]), "attrs": []})
        if any(nd["n"] and not any(nd["n"] == x["n"] for x in objs + assoc) and nd["n"] != CURRENT for nd in nodes):
            return doc3(h, n)
        return {"root": "Objects", "fmt": [3, r.choice([0, 1, 2])], "h": h, "nodes": nodes}

    def doc4(h=None, n=12, tidy=False):
        h = h or header()
        objs, assoc = members(h, r.randrange(3, n))
        nodes, seen = [], []
        for a in assoc:
            here = [x for x in objs if r.random() < .6]
            nodes.append({"n": a["n"], "c": -1, "v": a["v"], "attrs": [{"i": 2, "w": "hex", "s": listing(here, assoc, a, a["v"])}] + ([] if tidy else values(a, .05))})
            seen.append((a, here))
        # what the lists brought
        names = {bytes(nd["attrs"][0]["s"]).find(bytes([9, 6]) + bytes(x["n"])) >= 0 and tuple(x["n"]) for nd in nodes for x in objs}
        rest = [{"n": x["n"], "c": -1, "v": -1, "attrs": values(x, 0 if tidy else .1)} for x in objs if tuple(x["n"]) in names]
        r.shuffle(rest)
        nodes += rest
        return {"root": "Objects", "fmt": [4, 0], "h": h, "nodes": nodes}

    count = [0]

    def fresh():
        count[0] += 1
        return os.path.join(root, f"{count[0]}.typ")

    def load(doc, path, evs):
        e, c = outcome(lambda: col.Collection.from_xml(path))
        o = show(c, e)
        if not known(o):
            return None
        evs.append({"ev": "load", "doc": clean(doc), "o": o})
        return c if e == "" and known(o) else None

    def clean(doc):
        return dict(doc, nodes=[{k: nd[k] for k in ("n", "c", "v", "attrs")} for nd in doc["nodes"]])

    def touch(c, k, evs):
        """change the copy"""
        os_ = [o for o in k if key(o) in schema]
        for it in r.sample(STOCK + RARE, 2):
            n, v = list(it[0]), r.choice([0, it[2], it[2]])
            if k.get(bytes(n)) is not None:
                continue
            e, o = outcome(lambda: k.add(ut.CosemClassId(it[1]), cdt.Unsigned(v), cst.LogicalName(bytearray(n))))
            evs.append({"ev": "grow", "n": n, "c": it[1], "v": v, "o": {"e": e, "key": "" if e else key(o), "a": [] if e else held_by(o), "size": len(list(c))}})
        for _ in range(4):
            o = r.choice(os_)
            s = schema[key(o)]
            free = [i for i in range(2, len(s["attrs"]) + 1) if not s["skip"][i - 1]]
            if not free:
                continue
            i = r.choice(free)
            x = mk.of(s["attrs"][i - 1]["t"])
            e, _ = outcome(lambda: o.set_attr(i, bytes(x)))
            src = c.get_object(o.logical_name)
            evs.append({"ev": "touch", "n": B(o.logical_name.contents), "i": i, "s": x,
                        "o": {"e": e, "copy": held_by(o), "src": held_by(src)}})

    def savable(c):
        try:
            return all(o.object_list is not None and all(c.get(el.logical_name.contents) is not None for el in o.object_list)
                       for o in c if int(o.CLASS_ID) == 15 and o.logical_name.e != 0)
        except Exception:
            return False

    def copyable(c):
        best = [o for o in c if int(o.CLASS_ID) == 15 and o.object_list is not None]
        if not best:
            return False
        best = max(best, key=lambda o: len(o.object_list))
        return all(c.get(el.logical_name.contents) is not None for el in best.object_list)

    def story(name, doc):
        evs, path = [], fresh()
        write(doc, path)
        c = load(doc, path, evs)
        if c is not None:
            if r.random() < .4:
                for i, v in [(0, [1, 4, 15])] + ([(1, [0, 0, 45])] if r.random() < .4 else []):
                    e, _ = outcome(lambda: c.set_server_ver(i, version.AppVersion(*v)))
                    evs.append({"ev": "identify", "i": i, "v": v, "o": {"e": e}})
            back = None
            if savable(c):
                path2 = fresh()
                e, _ = outcome(lambda: c.save_type(path2))
                e2, d = outcome(lambda: parse(path2)) if e == "" else ("", None)
                evs.append({"ev": "save", "o": {"e": e or e2, "doc": d or {"root": "", "fmt": [], "h": clean(doc)["h"], "nodes": []}}})
                back = (d, path2) if e == "" and e2 == "" else None
            if copyable(c):
                e, k = outcome(c.copy)
                evs.append({"ev": "copy", "o": show(k, e)})
                if e == "":
                    touch(c, k, evs)
            if back:
                have = {bytes(x.logical_name.contents) for x in c}
                lists = [nd for nd in back[0]["nodes"] if nd["v"] >= 0]
                if lists and all(any(a["i"] == 2 for a in nd["attrs"]) for nd in lists):
                    load(back[0], back[1], evs)
        rec.case(name, evs)

    def apart(fn):
        """run in a process of its own: what the library has read stays there"""
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rd)
                with os.fdopen(wr, "w") as f:
                    json.dump(fn(), f)
                code = 0
            except Exception:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wr)
        with os.fdopen(rd) as f:
            text = f.read()
        os.waitpid(pid, 0)
        try:
            return json.loads(text)
        except ValueError:
            return None

    def tree_case(n):
        count[0] += 1
        base = os.path.join(root, f"tree{count[0]}")
        lib_ = os.path.join(base, "Types")
        os.makedirs(lib_)
        mans = r.sample(["101", "KPZ", "XYZ", "abc"], r.choice([1, 2, 3])) + r.sample(["LONG", "X1", "1234"], r.choice([0, 1]))
        kinds = [P("M2M_1"), P("M2M_3T"), [1, 2, 3]]
        encs = [[9, len(k)] + k for k in kinds] + [[18, 1, 2]]
        tree, docs = {"mans": [P(m) for m in mans], "types": [], "files": []}, {}
        for m in mans:
            os.mkdir(os.path.join(lib_, m))
            for t in r.sample(encs, r.choice([0, 1, 2, 3])):
                name = bytes(t).hex() if r.random() < .8 else bytes(t).hex().upper()
                d = os.path.join(lib_, m, name)
                os.mkdir(d)
                tree["types"].append([P(m), P(name)])
                vs = {}
                for _ in range(r.randrange(0, 7)):
                    v = r.choice(["%d.%d.%d" % (r.randrange(2), r.randrange(3), r.randrange(12)), "%d.%d" % (r.randrange(2), r.randrange(3)), "0.0.%d" % r.randrange(30, 60), "1.3.30"])
                    vs[tuple(nums(v))] = v
                for v in vs.values():
                    doc = doc4(n=5, tidy=True) if r.random() < .5 else doc3(n=5)
                    doc["h"] = dict(doc["h"], man=r.choice([P(m), []]), stype=r.choice([t, []]))
                    f = v + ".typ"
                    write(doc, os.path.join(d, f))
                    tree["files"].append([P(m), P(name), P(f)])
                    docs[m, bytes(t), f] = doc
                for f in r.sample(["readme.txt", "1.0.7", "1.0.8.xml"], r.choice([0, 1])):
                    open(os.path.join(d, f), "w").write("<x/>")
                    tree["files"].append([P(m), P(name), P(f)])
                if r.random() < .2:
                    os.mkdir(os.path.join(d, "1.7.9.typ"))
            if r.random() < .3:
                open(os.path.join(lib_, m, "about.txt"), "w").write("x")
        if r.random() < .3:
            open(os.path.join(lib_, "abx"), "w").write("x")

        def place(entry):
            q = os.path.relpath(entry.path if hasattr(entry, "path") else str(entry), "./Types").split(os.sep)
            return q

        def child():
            os.chdir(base)
            evs = []
            e, h = outcome(col.get_manufactures_container)
            held = [] if e else [{"m": B(m), "t": B(t), "f": P(x.name)} for m, ts in h.items() for t, fs in ts.items() for x in fs.values()]
            evs.append({"ev": "tree", "tree": tree, "o": {"e": e, "held": held}})
            asked = []
            for _ in range(12):
                if docs and r.random() < .6:
                    m, t, f = r.choice(list(docs))
                    v = f[:-4]
                    p = r.random()
                    if p < .6:
                        q = nums(v)
                        v = dotted(q[:2] + [max(0, (q[2] if len(q) > 2 else 0) + r.choice([-1, 1, 1, 3]))])
                    elif p < .75:
                        v = dotted(nums(v)[:2])
                else:
                    m, t, v = r.choice(mans + ["QQQ"]), bytes(r.choice(encs)), r.choice(["1.0.5", "0.0.40", "2.0.0", "1.3"])
                asked.append((m, t, v))
            for m, t, v in asked + asked[:3]:
                tv, _ = cdt.get_instance_and_pdu_from_value(t)
                e, x = outcome(lambda: col.get_dir_entry(m.encode(), tv, version.AppVersion.from_str(v)))
                evs.append({"ev": "find", "m": P(m), "t": B(t), "v": P(v), "o": {"e": e, "f": P(x.name) if e == "" else []}})
                if e == "" and (place(x)[0] != m or bytes.fromhex(place(x)[1]) != t):
                    evs[-1]["o"]["f"] = P("/".join(place(x)))
                if e or r.random() < .4 or (m, t, x.name) not in docs:
                    continue
                doc = docs[m, t, x.name]
                e, c = outcome(lambda: col.Collection.from_xml(x.path))
                if e or not copyable(c) or not known(show(c)):
                    continue
                for _ in range(2):
                    e, k = outcome(lambda: col.get_collection(m.encode(), tv, version.AppVersion.from_str(v)))
                    evs.append({"ev": "take", "m": P(m), "t": B(t), "v": P(v), "doc": clean(doc), "o": dict(show(k, e), f=P(x.name))})
                    if e == "":
                        touch(c, k, evs)
            return evs
        evs = apart(child)
        rec.case("tree%d" % n, evs or [{"ev": "tree", "tree": tree, "o": {"e": "Died", "held": []}}])

    # ---------------------------------------------------------------- parameter files
    def write2(doc, path):
        """a parameter file"""
        h, v = doc["h"], doc["fmt"]
        out = [f'<?xml version="1.0" encoding="utf-8"?>', f'<{doc["root"]} version="{dotted(v)}{r.choice(["", ".0", ".1"])}">']
        for tag, x in [("dlms_ver", h["dlms"]), ("country", h["country"])]:
            if x != -1:
                out.append(f"<{tag}>{x}</{tag}>")
        if h["cver"]:
            out.append(f'<country_ver>{dotted(h["cver"])}</country_ver>')
        if h["man"]:
            out.append(f'<manufacturer>{bytes(h["man"]).decode()}</manufacturer>')
        if h["stype"]:
            out.append(f'<server_type>{bytes(h["stype"]).hex()}</server_type>')
        for i, x in h["sver"]:
            out.append(f'<server_ver instance="{i}">{dotted(x)}</server_ver>')
        for nd in doc["nodes"]:
            out.append(f'<object name="{r.choice(["x", "Имя"])}" ln="{dotted(nd["n"]) if nd["n"] else nd["x"]}">')
            if v[0] == 2 and nd["c"] >= 0:
                out.append(f'<class_id>{nd["c"]}</class_id>')
            if v[0] == 2 and nd["v"] >= 0:
                out.append(f'<version>{nd["v"]}</version>')
            tag = "attr" if v[0] == 4 else "attribute"
            out += [f'<{tag} index="{a["i"] if a["i"] >= 0 else r.choice(["x", "2a"])}">{attr_text(a)}</{tag}>' for a in nd["attrs"]]
            out.append("</object>")
        out.append(f'</{doc["root"]}>')
        with open(path, "wb") as f:
            f.write(r.choice(["", "\n  "]).join(out).encode("utf-8"))

    def parse2(path):
        t = ET.parse(path).getroot()
        txt = t.findtext
        return {"root": t.tag, "fmt": nums(t.attrib["version"])[:2],
                "h": {"dlms": int(txt("dlms_ver") or -1), "country": int(txt("country") or -1), "cver": nums(txt("country_ver")) if txt("country_ver") else [],
                      "man": B((txt("manufacturer") or "").encode()), "stype": B(bytes.fromhex(txt("server_type") or "")),
                      "sver": [[int(x.attrib["instance"]), nums(x.text)] for x in t.findall("server_ver")]},
                "nodes": [{"n": nums(o.attrib["ln"]), "c": -1, "v": -1,
                           "attrs": [{"i": int(a.attrib["index"]), "w": "hex", "s": B(bytes.fromhex(a.text or ""))} for a in o.findall("attr")]} for o in t.findall("object")]}
    NOFILE = {"root": "", "fmt": [], "h": {"dlms": -1, "country": -1, "cver": [], "man": [], "stype": [], "sver": []}, "nodes": []}

    def look(c, e=""):
        o = show(c, e)
        o["sver"] = [] if c is None else [[i, vv(v)] for i, v in sorted(c.server_ver.items())]
        return o

    def meter_case(n, doc, writes, ids):
        """a type in a library of its own, meters of it"""
        man, t = bytes(doc["h"]["man"]).decode(), bytes(doc["h"]["stype"])
        file_v = r.choice([[1, 0, 5], [1, 0, 5], [1, 0, 3], [1, 0]])
        doc["h"]["sver"] = []
        base = os.path.join(root, "m%s" % n)
        os.makedirs(os.path.join(base, "Types", man, t.hex()))
        path = os.path.join(base, "Types", man, t.hex(), dotted(file_v) + ".typ")
        write(doc, path)

        def child():
            os.chdir(base)
            evs, ver, tv = [], version.AppVersion(1, 0, 5), cdt.get_instance_and_pdu_from_value(t)[0]
            e, lib_ = outcome(lambda: col.Collection.from_xml(path))
            if e or not known(show(lib_)) or not copyable(lib_):
                return evs
            evs.append({"ev": "type", "doc": clean(doc), "o": {"e": e}})

            def meter():
                e, m = outcome(lambda: col.get_collection(man.encode(), tv, ver))
                if e == "":
                    e, _ = outcome(lambda: m.set_server_ver(0, ver))
                evs.append({"ev": "meter", "t": B(t), "v": [1, 0, 5], "o": look(m if e == "" else None, e)})
                return m if e == "" else None

            def put(m, n, i, s):
                o = m.get(bytes(n))
                e, _ = outcome(lambda: o.set_attr(i, bytes(s)))
                evs.append({"ev": "write", "n": n, "i": i, "s": s, "o": {"e": e, "a": held_by(o)}})

            def some(m, many):
                out = []
                for o in r.sample(list(m), min(many, len(list(m)))):
                    if int(o.CLASS_ID) == 15 or key(o) not in schema:
                        continue
                    s = schema[key(o)]
                    for i in range(2, len(s["attrs"]) + 1):
                        if not s["skip"][i - 1] and r.random() < .6:
                            T = s["attrs"][i - 1]["t"]
                            held = enc(o.get_attr(i))
                            if len(held) > 11 and held[0] == 9 and r.random() < .5:      # a date, but for its status
                                x = held[:-1] + [r.choice([0, 1, 128, 255])]
                            else:
                                x = mk.wrong(T) if r.random() < .05 else mk.of(T)
                            out.append((B(o.logical_name.contents), i, x))
                return [x for x in out if x[2]]

            def save(m, k):
                f = os.path.join(base, "%d.par" % len(evs))
                e, done = outcome(lambda: m.to_xml2(f, association_id=k) if k != 3 or r.random() < .5 else m.to_xml2(f))
                e2, d = outcome(lambda: parse2(f)) if os.path.exists(f) else ("", NOFILE)
                evs.append({"ev": "save", "id": k, "o": {"e": e or e2, "saved": bool(done), "file": os.path.exists(f), "doc": d or NOFILE}})
                return (d, f) if e == e2 == "" and done and os.path.exists(f) else None

            def put_back(m, d, f):
                e, _ = outcome(lambda: m.from_xml2(f))
                evs.append({"ev": "restore", "doc": clean(d), "o": look(m, e)})

            m = meter()
            if m is None:
                return evs
            for k in ids:
                save(m, k)
            for w in writes:
                if m.get(bytes(w["n"])) is None:
                    continue
                if w["s"]:
                    put(m, w["n"], w["i"], w["s"])
                else:
                    m.get(bytes(w["n"])).clear_attr(w["i"])
                    evs.append({"ev": "forget", "n": w["n"], "i": w["i"], "o": {"e": ""}})
            if not writes:
                for x in some(m, 12):
                    put(m, *x)
            files = [f for f in [save(m, k) for k in ids] if f]
            for d, f in files:
                m2 = meter()
                if m2 is None:
                    return evs
                if r.random() < .3:
                    for x in some(m2, 4):
                        put(m2, *x)
                put_back(m2, d, f)
                save(m2, r.choice(ids))
            # files by hand
            for _ in range(2):
                m2 = meter()
                objs = [o for o in m2 if key(o) in schema and int(o.CLASS_ID) != 15]
                fmt = r.choice([[2, 0], [2, 1], [2, 2], [3, 1], [3, 2], [4, 0], [4, 0]]) if r.random() < .92 else r.choice([[3, 0], [2, 3], [4, 1], [5, 0], [1, 0]])
                h = {"dlms": r.choice([-1, 6, 6]), "country": r.choice([-1, 7, 7]), "cver": r.choice([[], vv(m2.country_ver)]), "man": r.choice([[], P(man)]), "stype": r.choice([[], B(t)]),
                     "sver": r.choice([[], [[0, [1, 0, 5]]], [[0, [1, 0, 2]]], [[1, [2, 4, 4]]], [[0, [1, 0, 4]], [1, [2, 0]]]])}
                if r.random() < .25:
                    h.update(r.choice([{"dlms": 5}, {"man": P("QQQ")}, {"stype": [9, 2, 1, 2]}, {"cver": [9, 1]}, {"sver": [[0, [1, 0, 6]]]}, {"sver": [[0, [1, 1, 0]]]}, {"sver": [[0, [2, 0, 0]]]}, {"sver": [[0, [0, 0, 9]]]}]))
                nodes = []
                for n, i, s in some(m2, 6):
                    if nodes and nodes[-1]["n"] == n:
                        nodes[-1]["attrs"].append({"i": i, "w": "hex", "s": s})
                    else:
                        o = m2.get(bytes(n))
                        nodes.append({"n": n, "c": int(o.CLASS_ID), "v": int(o.VERSION), "attrs": [{"i": i, "w": "hex", "s": s}]})
                for nd in nodes:
                    if fmt[0] == 2:
                        nd["attrs"] = [a for a in nd["attrs"] if len(a["s"]) > 1]
                    nd["attrs"] += r.choice([[]] * 6 + [[{"i": 2, "w": "junk", "s": P("zz00")}], [{"i": 90, "w": "hex", "s": [17, 1]}]])
                    if r.random() < .04 and fmt[0] != 2:
                        nd["attrs"].insert(r.randrange(len(nd["attrs"]) + 1), {"i": -1, "w": "hex", "s": [17, 1]})
                if r.random() < .3:
                    n = list(r.choice(STOCK + RARE)[0])
                    if m2.get(bytes(n)) is None and n[:3] != [0, 0, 40]:
                        it = next(x for x in STOCK + RARE if list(x[0]) == n)
                        at = 0
                        if fmt[0] == 2:
                            e, o = outcome(lambda: m2.copy().add(ut.CosemClassId(it[1]), cdt.Unsigned(it[2]), cst.LogicalName(bytearray(n))))
                            at = [] if e or key(o) not in schema or "ScalesProfile" in key(o) else [a for a in values({"key": key(o)}) if len(a["s"]) > 1]
                        if at != []:
                            nodes.insert(r.randrange(len(nodes) + 1), {"n": n, "c": it[1], "v": it[2], "attrs": at or [{"i": 2, "w": "hex", "s": [17, 1]}]})
                if r.random() < .1:
                    nodes.insert(r.randrange(len(nodes) + 1), {"n": [], "x": r.choice(ODDNAMES), "c": 1, "v": 0, "attrs": []})
                d = {"root": "Objects" if r.random() < .96 else "Template", "fmt": fmt, "h": h, "nodes": nodes}
                f = os.path.join(base, "%d.par" % len(evs))
                write2(d, f)
                put_back(m2, d, f)
                save(m2, r.choice(ids))
            return evs
        evs = apart(child)
        if evs is None:
            rec.case("meter%s" % n, [{"ev": "type", "doc": clean(doc), "o": {"e": "Died"}}])
        elif evs:
            rec.case("meter%s" % n, evs)

    def params_cases():
        for i, d in enumerate(walks):
            meter_case("w%d" % i, d["doc"], d["writes"], [1, 3])
        for i in range(90 if tier == "quick" else 700):
            h = dict(header(rich=True), stype=[9, 5] + P("M2M_1"))
            doc = doc4(h, n=9, tidy=True) if r.random() < .5 else doc3(h, n=9)
            ks = [nd["n"][4] for nd in doc["nodes"] if nd["n"][:3] == [0, 0, 40] and nd["n"][4]]
            if ks:
                meter_case("r%d" % i, doc, [], sorted(set(ks)))

    # ---------------------------------------------------------------- templates
    def scalars(v):
        return [y for x in v for y in scalars(x)] if isinstance(v, (cdt.Array, cdt.Structure)) else [v]

    def tree_of(el):
        """text of an attribute as it stands in a file"""
        if el.tag == "simple" or (el.tag == "attr" and el.attrib.get("type", "simple") == "simple"):
            return {"leaf": True, "s": P(el.text or ""), "l": []}
        return {"leaf": False, "s": [], "l": [tree_of(x) for x in el]}

    def tree_text(v):
        if isinstance(v, (cdt.Array, cdt.Structure)):
            return {"leaf": False, "s": [], "l": [tree_text(x) for x in v]}
        return {"leaf": True, "s": P(str(v)), "l": []}

    def tree_xml(parent, tag, attrib, t, v):
        el = ET.SubElement(parent, tag, attrib)
        if t["leaf"]:
            el.text = "".join(map(chr, t["s"]))
            return
        if tag == "attr":
            el.attrib["type"] = "array" if isinstance(v, cdt.Array) else "struct"
        for x, y in zip(t["l"], v):
            tree_xml(el, "simple" if x["leaf"] else "array" if isinstance(y, cdt.Array) else "struct", {"name": "x"} if r.random() < .5 else {}, x, y)

    def read_back(o, i, v, t):
        """octets of the scalars of v read from the texts of the tree at attribute i of o"""
        have = o.get_attr(i) if o is not None else None
        texts = [x for x in leaves_of(t)]
        out = []
        sc = scalars(v)
        for x, txt in zip(sc, texts):
            val = "".join(map(chr, txt)) or None
            if len(sc) == 1 and x is v and val is None and o is not None:
                val = o.get_attr_element(i).default

            def back():
                if not isinstance(v, (cdt.Array, cdt.Structure)) and have is not None:
                    have.set(val)       # the scaler of the object counts
                    return have
                if len(sc) == 1 and x is v and val is None and o is not None:
                    return o.get_attr_element(i).DATA_TYPE(None)
                return type(x)(val)
            e, y = outcome(back)
            out.append([] if e else B(y.encoding))
        return out

    def nested(t):
        return "".join(map(chr, t["s"])) or None if t["leaf"] else [nested(x) for x in t["l"]]

    def leaves_of(t):
        return [t["s"]] if t["leaf"] else [y for x in t["l"] for y in leaves_of(x)]

    def plain(T, first=True):
        """types whose parts are known without their values"""
        if T["k"] in ("choice", "anyarray", "oid", "switch") and not first or T["k"] in ("anyarray", "oid", "switch"):
            return False
        subs = [x for x in T["sub"] if x["k"] in ("leaf",)] if T["k"] == "choice" else T["sub"]
        return all(plain(x, False) for x in subs)

    def write_template(doc, path, three=False, decode=True):
        root_ = ET.Element(doc["root"], {"version": dotted(doc["fmt"]) + r.choice(["", ".0"])})
        if decode:
            root_.attrib["decode"] = "1"
        elif r.random() < .5:
            root_.attrib["decode"] = "0"
        if doc["verified"]:
            root_.attrib["verified"] = "1"
        elif r.random() < .5:
            root_.attrib["verified"] = "0"
        ET.SubElement(root_, "dlms_ver").text = "6"
        if three:
            h = doc["cols"][0]
            ET.SubElement(root_, "manufacturer").text = bytes(h["man"]).decode()
            ET.SubElement(root_, "server_type").text = bytes(h["stype"]).hex()
            ET.SubElement(root_, "server_ver").text = dotted(h["sver"])
        else:
            was = None
            for h in doc["cols"]:
                if was is None or was["man"] != h["man"] or r.random() < .5:
                    m = ET.SubElement(root_, "manufacturer")
                    m.text = bytes(h["man"]).decode()
                    was = None
                if was is None or was["stype"] != h["stype"] or r.random() < .5:
                    st = ET.SubElement(m, "server_type")
                    st.text = bytes(h["stype"]).hex()
                was = h
                ET.SubElement(st, "server_ver", {"instance": "0"}).text = dotted(h["sver"])
        for x in doc["objs"]:
            on = ET.SubElement(root_, "object", {"ln": dotted(x["n"]) if x["n"] else x["x"]})
            for a in x["attrs"]:
                if decode:
                    tree_xml(on, "attr", {"index": str(a["i"])}, a["tree"], a["v"])
                else:
                    ET.SubElement(on, "attr", {"index": str(a["i"])}).text = a["v"].encoding.hex()
        with open(path, "wb") as f:
            f.write(ET.tostring(root_, encoding="utf-8", xml_declaration=True))

    def parse_template(path):
        t = ET.parse(path).getroot()
        cols = [{"man": P(m.text), "stype": B(bytes.fromhex(s.text)), "sver": nums(v.text)} for m in t.findall("manufacturer") for s in m.findall("server_type") for v in s.findall("server_ver")]
        return {"root": t.tag, "fmt": nums(t.attrib["version"])[:2], "verified": t.attrib.get("verified", "0") == "1", "cols": cols,
                "objs": [{"n": nums(o.attrib["ln"]), "attrs": [{"i": int(a.attrib["index"]), "tree": tree_of(a)} for a in o.findall("attr")]} for o in t.findall("object")]}
    NOTEMPLATE = {"root": "", "fmt": [], "verified": False, "cols": [], "objs": []}

    def template_case(n, docs, vers, writes, uses):
        """types in a library of their own, meters of them, templates"""
        base = os.path.join(root, "t%s" % n)
        os.makedirs(base)
        types = []
        for d, v in zip(docs, vers):
            man, t = bytes(d["h"]["man"]).decode(), bytes(d["h"]["stype"])
            d["h"]["sver"] = []
            os.makedirs(os.path.join(base, "Types", man, t.hex()), exist_ok=True)
            path = os.path.join(base, "Types", man, t.hex(), dotted(v) + ".typ")
            write(d, path)
            types.append({"man": d["h"]["man"], "t": d["h"]["stype"], "v": v, "doc": clean(d), "path": path})

        def child():
            os.chdir(base)
            evs = []
            for t in types:
                e, lib_ = outcome(lambda: col.Collection.from_xml(t["path"]))
                if e or not known(show(lib_)) or not copyable(lib_):
                    return evs
            evs.append({"ev": "types", "types": [{k: t[k] for k in ("man", "t", "v", "doc")} for t in types], "o": {"e": ""}})

            def one(t):
                m = col.get_collection(bytes(t["man"]), cdt.get_instance_and_pdu_from_value(bytes(t["t"]))[0], version.AppVersion(*t["v"]))
                m.set_server_ver(0, version.AppVersion(*t["v"]))
                return m
            hs = [{"man": t["man"], "stype": t["t"], "sver": t["v"]} for t in types]
            for _ in range(2 if uses is None else 1):
                e, ms = outcome(lambda: [one(t) for t in types])
                evs.append({"ev": "meters", "hs": hs, "o": {"e": e}})
                if e:
                    return evs
                dirty = set()

                def put(k, n, i, s):
                    o = ms[k].get(bytes(n))
                    e, _ = outcome(lambda: o.set_attr(i, bytes(s)))
                    evs.append({"ev": "write", "k": k + 1, "n": n, "i": i, "s": s, "o": {"e": e, "a": held_by(o)}})

                def clear(k, n, i):
                    ms[k].get(bytes(n)).clear_attr(i)
                    evs.append({"ev": "clear", "k": k + 1, "n": n, "i": i, "o": {"e": ""}})
                can = lambda o, i: not schema[key(o)]["skip"][i - 1] and plain(schema[key(o)]["attrs"][i - 1]["t"])
                if writes is not None:
                    for w in writes:
                        put(w["k"] - 1, w["n"], w["i"], w["s"]) if w["s"] else clear(w["k"] - 1, w["n"], w["i"])
                else:
                    for k, m in enumerate(ms):
                        for o in m:
                            if key(o) not in schema or int(o.CLASS_ID) == 15:
                                continue
                            for i in range(2, len(schema[key(o)]["attrs"]) + 1):
                                if can(o, i) and r.random() < .5:
                                    x = mk.of(schema[key(o)]["attrs"][i - 1]["t"])
                                    if x:
                                        put(k, B(o.logical_name.contents), i, x)
                                elif can(o, i) and r.random() < .15 and schema[key(o)]["attrs"][i - 1]["t"]["k"] != "choice":
                                    clear(k, B(o.logical_name.contents), i)

                def simple(v):
                    return v is not None and not (isinstance(v, (cdt.Array, cdt.Structure)) and type(v) in (cdt.Array, cdt.Structure)) and \
                        all(len(str(x)) < 400 and all(c >= " " and c not in "\x7f\x85\ufffe\uffff" for c in str(x)) for x in scalars(v))

                def value(n, i):
                    for k, m in enumerate(ms):
                        o = m.get(bytes(n))
                        if o is not None and i <= len(schema[key(o)]["attrs"]) and o.get_attr(i) is not None:
                            return o.get_attr(i)

                def vals_for(objs, cols_, decode=True):
                    out = []
                    for x in objs:
                        for a in x["attrs"]:
                            out.append({"n": x["n"], "i": a["i"], "x": B(a["v"].encoding), "empty": a["tree"]["leaf"] and not a["tree"]["s"], "back": [read_back(c.get(bytes(x["n"])), a["i"], a["v"], a["tree"]) for c in cols_]})
                            for c in cols_:     # a scaler read before the value of its register
                                o = c.get(bytes(x["n"]))
                                if o is not None and int(o.CLASS_ID) in (3, 4, 5) and isinstance(a["v"], cdt.ScalUnitType):
                                    outcome(lambda: o.set_attr(a["i"], nested(a["tree"]) if decode else bytes(a["v"].encoding)))
                    return out

                def judge_read(f, d, three=False):
                    e, got = outcome(lambda: col.Collection.from_xml3(f) if three else col.from_xml4(f))
                    if e == "":
                        cs, used, ver = ([got[0]], got[1], d["verified"]) if three else got
                        o = {"e": "", "used": [{"n": B(k.contents), "s": sorted(v)} for k, v in used.items()], "verified": bool(ver), "cols": [show(c) for c in cs]}
                    else:
                        o = {"e": e, "used": [], "verified": False, "cols": []}
                    return o
                strip = lambda d: dict(d, objs=[{"n": x["n"], "attrs": [{"i": a["i"]} for a in x["attrs"]]} for x in d["objs"]])

                # a choice of attributes
                for u in (uses or [None] * 3):
                    if u is None:
                        pool = {}
                        for m in ms:
                            for o in m:
                                if key(o) in schema and int(o.CLASS_ID) != 15:
                                    for i in range(2, len(schema[key(o)]["attrs"]) + 1):
                                        v = value(B(o.logical_name.contents), i)
                                        if can(o, i) and (v is None or simple(v)):
                                            pool.setdefault(tuple(o.logical_name.contents), set()).add(i)
                        u, some_ = [], list(pool)
                        for nm in r.sample(some_, min(len(some_), r.randrange(1, 6))):
                            s = [i for i in pool[nm] if value(list(nm), i) is not None or r.random() < .08]
                            u.append({"n": list(nm), "s": r.sample(s, r.randrange(0 if r.random() < .1 else min(1, len(s)), len(s) + 1))})
                        if r.random() < .08:
                            u.append({"n": [0, 0, 1, 0, 9, 255], "s": [2]})
                    want = {cst.LogicalName(bytearray(x["n"])): set(x["s"]) for x in u}
                    texts = [{"n": x["n"], "i": i, "ls": [P(str(y)) for y in scalars(v)]} for x in u for i in x["s"] for v in [value(x["n"], i)] if v is not None]
                    if any(v is not None and not simple(v) for x in u for i in x["s"] for v in [value(x["n"], i)]):
                        continue
                    f = os.path.join(base, "%d.tpl" % len(evs))
                    ver = r.random() < .5
                    e, _ = outcome(lambda: col.to_xml4(ms, f, want, ver))
                    e2, d = outcome(lambda: parse_template(f)) if os.path.exists(f) else ("", None)
                    evs.append({"ev": "save", "hs": hs, "used": u, "verified": ver, "texts": texts, "o": {"e": e or e2, "file": os.path.exists(f), "doc": json.loads(json.dumps(d or NOTEMPLATE))}})
                    if {tuple(k.contents): v for k, v in want.items()} != {tuple(x["n"]): set(x["s"]) for x in u}:
                        evs[-1]["o"]["e"] = "used-changed"
                    if e or not d:
                        continue
                    for x in d["objs"]:
                        for a in x["attrs"]:
                            a["v"] = value(x["n"], a["i"])
                    if any(a["v"] is None for x in d["objs"] for a in x["attrs"]):
                        continue
                    fresh_ = [one(t) for t in types]
                    evs.append({"ev": "read", "doc": strip(d), "decode": True, "vals": vals_for(d["objs"], fresh_), "o": judge_read(f, d)})
                if uses is not None:
                    continue
                # by hand
                for three in (False, True):
                    hs2 = [r.choice(hs)] if three else r.sample(hs, r.randrange(1, len(hs) + 1))
                    fresh_ = [one(next(t for t in types if t["man"] == h["man"] and t["t"] == h["stype"] and t["v"] == h["sver"])) for h in hs2]
                    decode = not three or r.random() < .6
                    objs, again = [], one(next(t for t in types if t["man"] == hs2[0]["man"] and t["t"] == hs2[0]["stype"] and t["v"] == hs2[0]["sver"]))
                    for o in sorted(r.sample(list(fresh_[0]), len(list(fresh_[0]))), key=lambda o: int(o.CLASS_ID) != 20)[:6]:
                        if key(o) not in schema or int(o.CLASS_ID) == 15:
                            continue
                        x = {"n": B(o.logical_name.contents), "attrs": []}
                        for i in range(2, len(schema[key(o)]["attrs"]) + 1):
                            if can(o, i) and r.random() < .6:
                                scratch = again.get(bytes(x["n"]))
                                e, _ = outcome(lambda: scratch.set_attr(i, bytes(mk.of(schema[key(o)]["attrs"][i - 1]["t"]))))
                                v = scratch.get_attr(i)
                                if e == "" and simple(v):
                                    t = tree_text(v)
                                    if t["leaf"] and r.random() < .1 and decode:
                                        t["s"] = P(r.choice(["", "?", "99999999999", "-1", "x1"]))
                                    x["attrs"].append({"i": i, "tree": t, "v": v})
                        cut = r.randrange(len(x["attrs"]) + 1)
                        objs.append(x if r.random() < .7 else dict(x, attrs=x["attrs"][:cut]))
                        if objs[-1] is not x:
                            objs.append(dict(x, attrs=x["attrs"][cut:]))
                    if r.random() < .15:
                        objs.insert(r.randrange(len(objs) + 1), {"n": [0, 0, 1, 0, 9, 255], "attrs": []})
                    if r.random() < .06:
                        objs.insert(r.randrange(len(objs) + 1), {"n": [], "x": r.choice(ODDNAMES), "attrs": []})
                    d = {"root": "template.objects" if r.random() < .95 else "Objects", "fmt": r.choice([[4, 0]] * 8 + ([[4, 1]] if three else [[4, 1]] * 8) + [[3, 0], [5, 0]]), "verified": r.random() < .5, "cols": hs2, "objs": objs}
                    if r.random() < .05:
                        d["cols"] = [dict(d["cols"][0], stype=[9, 2, 1, 2])] + d["cols"][1:]
                    f = os.path.join(base, "%d.tpl" % len(evs))
                    write_template(d, f, three, decode)
                    vals = vals_for(objs, fresh_, decode)
                    evs.append({"ev": "read3" if three else "read", "doc": strip(d), "decode": decode, "vals": vals, "o": judge_read(f, d, three)})
            return evs
        evs = apart(child)
        if evs is None:
            rec.case("template%s" % n, [{"ev": "types", "types": [], "o": {"e": "Died"}}])
        elif evs:
            rec.case("template%s" % n, evs)

    def template_cases():
        uses = next(g_["uses"] for f in gens for g_ in json.load(open(f)) if "uses" in g_)
        for i, d in enumerate(walks):
            template_case("w%d" % i, json.loads(json.dumps(d["docs"])), [[1, 0, 5], [1, 1, 0]], d["writes"], uses)
        for i in range(40 if tier == "quick" else 500):
            h = dict(header(rich=True), stype=[9, 5] + P("M2M_1"))
            docs = []
            for _ in range(r.choice([1, 2, 2, 3])):
                d = doc4(dict(h), n=9, tidy=True) if r.random() < .5 else doc3(dict(h), n=9)
                docs.append(d)
            if len(docs) > 1 and r.random() < .6:      # objects in common
                docs[1] = json.loads(json.dumps(docs[0]))
                for nd in docs[1]["nodes"]:
                    nd["attrs"] = [a for a in nd["attrs"] if a["i"] == 2 and nd["n"][:3] == [0, 0, 40] or r.random() < .6]
            template_case("r%d" % i, docs, [[1, 0, 5], [1, 1, 0], [1, 2, 3]][:len(docs)], None, None)

    try:
        if part == "template":
            return template_cases()
        if part == "params":
            return params_cases()
        for i, d in enumerate(walks):
            story("walk%d" % i, d["doc"])
        many = 60 if tier == "quick" else 700
        for i in range(many):
            story("three%d" % i, doc3())
            story("four%d" % i, doc4())
        # heads
        for k, bad in enumerate([{"root": "Template"}, {"fmt": [2, 0]}, {"fmt": [5, 0]}, {"fmt": [3, 3]}, {"fmt": [4, 1]}, {"h": {"dlms": 5}}, {"h": {"dlms": 7}}, {"h": {"country": 8}}]):
            d = doc3(n=4)
            d.update({a: b for a, b in bad.items() if a != "h"})
            d["h"] = dict(d["h"], **bad.get("h", {}))
            story("head%d" % k, d)
        for i in range(10 if tier == "quick" else 80):
            tree_case(i)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def params(rec, tier, gens):
    library(rec, tier, gens, "params")


def template(rec, tier, gens):
    library(rec, tier, gens, "template")
