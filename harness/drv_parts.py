"""driver for types put together from parts: cosem_pdu and useful_types"""
import dataclasses
import json
from load import mod, outcome, B, rng

LEAVES = ("int", "bool", "null", "dont", "oct", "var")
DATA = [0, 1, 2, 3, 5, 6, 9, 13, 15, 16, 17, 18, 20, 21, 22, 23, 24, 25, 26, 27, 255]


def T(k, w=-1, sg=False, tags=(), sub=()):
    return {"k": k, "w": w, "sg": sg, "tags": list(tags), "sub": list(sub)}


def leaf(c=b""):
    return {"c": B(c), "n": -1, "v": []}


def node(v):
    return {"c": [], "n": -1, "v": list(v)}


def pick(n, x):
    return {"c": [], "n": n, "v": [x]}


def big(n):
    return {"neg": n < 0, "m": B(abs(n).to_bytes(9, "big").lstrip(b"\0"))}


OF = lambda t: T("of", sub=[t])
DATAT = T("data")
DATATYPES = {0: T("null", 0), 1: OF(DATAT), 2: OF(DATAT), 3: T("bool", 1), 5: T("int", 4, True), 6: T("int", 4), 9: T("var"), 13: T("int", 1, True), 15: T("int", 1, True), 16: T("int", 2, True), 17: T("int", 1),
             18: T("int", 2), 20: T("int", 8, True), 21: T("int", 8), 22: T("int", 1), 23: T("oct", 4), 24: T("oct", 8), 25: T("oct", 12), 26: T("oct", 5), 27: T("oct", 4), 255: T("dont", 0)}


def subs(t):
    return (DATA, [DATATYPES[n] for n in DATA]) if t["k"] == "data" else (t["tags"], t["sub"])


class Flavour:
    def __init__(self, f, r):
        self.f, self.r = f, r
        self.m = mod("types.cosem_pdu" if f == "pdu" else "types.useful_types")
        self.cache = {}

    def cls(self, t):
        k = json.dumps(t)
        if k not in self.cache:
            self.cache[k] = self.build(t)
        return self.cache[k]

    def build(self, t):
        m, k, f = self.m, t["k"], self.f
        if k == "int":
            return getattr(m, ("Integer" if t["sg"] else "Unsigned") + str(8 * t["w"]))
        if k == "bool":
            return m.BOOLEAN
        if k == "null":
            return m.NULL if f == "pdu" else m.Null
        if k == "dont":
            return m.DontCare
        if k == "oct":
            return getattr(m, f"OctetString{t['w']}")
        if k == "var":
            return m.OctetString
        if k == "data":
            return m.Data
        if k == "opt":
            return m.OPTIONAL(self.cls(t["sub"][0]))
        if k == "of":
            return m.SEQUENCE_OF(self.cls(t["sub"][0]))
        if k == "seq":
            els = {f"f{i}": self.cls(x) for i, x in enumerate(t["sub"])}
            if f == "pdu":
                return type("Seq", (m.Sequence,), {"__annotations__": els})
            return dataclasses.make_dataclass("Seq", list(els.items()), bases=(m.Sequence,))
        if k == "choice":
            used, els = set(), []
            for n, x in zip(t["tags"], t["sub"]):
                c = self.cls(x)
                if c in used:
                    c = type(c.__name__, (c,), {})
                used.add(c)
                els.append(m.ChoiceElement(f"e{n}", n, c))
            self.r.shuffle(els)
            return type("Choose", (m.Choice,), {"ELEMENTS": tuple(els)})

    # ------------------------------------------------- real values from trees and back
    def value(self, t, x, c=None):
        m, k, f = self.m, t["k"], self.f
        c = c or self.cls(t)
        if k == "int":
            n = int.from_bytes(bytes(x["c"]), "big", signed=t["sg"])
            return c.from_int(n) if f == "pdu" else c(n)
        if k == "bool":
            return c(memoryview(bytes(x["c"]))) if f == "pdu" else c(bool(x["c"][0]))
        if k in ("null", "dont"):
            return (m.NULL_ if c is m.NULL else c.default()) if f == "pdu" else (m.NULL if c is m.Null else c())
        if k in ("oct", "var"):
            return c(memoryview(bytes(x["c"]))) if f == "pdu" else c(bytes(x["c"]))
        if k == "opt":
            if not x["v"]:
                return c(m.NULL_) if f == "pdu" else c()
            return c(self.value(t["sub"][0], x["v"][0]))
        if k == "of":
            return c([self.value(t["sub"][0], y) for y in x["v"]])
        if k == "seq":
            vs = [self.value(s, y) for s, y in zip(t["sub"], x["v"])]
            return c(tuple(vs)) if f == "pdu" else c(*vs)
        tags, types = subs(t)
        el = next(e for e in c.ELEMENTS if e.tag == x["n"])
        return c(self.value(types[tags.index(x["n"])], x["v"][0], el.type))

    def tree(self, t, v):
        m, k, f = self.m, t["k"], self.f
        if k in ("var",) and f == "ut":
            return leaf(v.value)
        if k in LEAVES:
            return leaf(bytes(v) if f == "pdu" else v.contents)
        if k == "opt":
            return node([] if v.value is (m.NULL_ if f == "pdu" else m.NULL) and t["sub"][0]["k"] != "null" else [self.tree(t["sub"][0], v.value)])
        if k == "of":
            return node(self.tree(t["sub"][0], y) for y in v.values)
        if k == "seq":
            return node(self.tree(s, y) for s, y in zip(t["sub"], v.values if f == "pdu" else [getattr(v, q.name) for q in dataclasses.fields(v)], strict=True))
        el = next(e for e in v.ELEMENTS if e.type is type(v.value))
        tags, types = subs(t)
        return pick(el.tag, self.tree(types[tags.index(el.tag)], v.value))

    def see(self, t, v):
        o = {"x": self.tree(t, v), "len": -1, "wrote": -1, "enc": [], "text": [], "named": [], "items": [], "bytes": [], "again": leaf()}
        k = t["k"]
        if k in LEAVES or (k == "opt" and t["sub"][0]["k"] in LEAVES):
            o["text"] = [ord(c) for c in str(v)]
        if k == "seq":
            names = list(type(v).__annotations__) if self.f == "pdu" else [q.name for q in dataclasses.fields(v)]
            if self.f == "pdu":
                names = names[:10]
            o["named"] = [self.tree(s, getattr(v, n)) for s, n in zip(t["sub"], names)]
        if self.f == "ut":
            o["enc"] = B(v.contents)
            return o
        n = len(v)
        o["len"] = n
        at = self.r.choice((0, 1, 3))
        out = self.m.Buffer.allocate(n + at + self.r.choice((0, 0, 2)))
        out.set_pos(at)
        o["wrote"] = v.put(out)
        o["enc"] = B(bytes(out)[at:out.get_pos()])
        o["again"] = self.tree(t, type(v).get(self.m.create_buf(v)))
        if k in ("seq", "of"):
            o["items"] = [self.tree(s, v[i]) for i, s in enumerate(t["sub"] if k == "seq" else t["sub"] * len(v.values))]
        elif k in LEAVES:
            o["items"] = [leaf([v[i]]) for i in range(len(v.contents))]
        if k in LEAVES or k in ("choice", "data"):
            o["bytes"] = B(bytes(v))
        return o


NO = {"x": leaf(), "len": -1, "wrote": -1, "enc": [], "text": [], "named": [], "items": [], "bytes": [], "again": leaf()}


def lenenc(n, r=None):
    if r and r.random() < .12:
        w = max(1, (n.bit_length() + 7) // 8) + r.randrange(3)
        return bytes((0x80 + w,)) + n.to_bytes(w, "big")
    if n < 128:
        return bytes((n,))
    w = 1 if n < 256 else 2
    return bytes((0x80 + w,)) + n.to_bytes(w, "big")


def enc(t, x, r=None):
    """some octets for a value (with r: any admissible form)"""
    k = t["k"]
    if k == "var":
        return lenenc(len(x["c"]), r) + bytes(x["c"])
    if k == "opt":
        return b"\0" if not x["v"] else bytes((r.choice((1, 1, 2, 255)) if r else 1,)) + enc(t["sub"][0], x["v"][0], r)
    if k == "of":
        return lenenc(len(x["v"]), r) + b"".join(enc(t["sub"][0], y, r) for y in x["v"])
    if k == "seq":
        return b"".join(enc(s, y, r) for s, y in zip(t["sub"], x["v"]))
    if k in ("choice", "data"):
        tags, types = subs(t)
        return bytes((x["n"],)) + enc(types[tags.index(x["n"])], x["v"][0], r)
    return bytes(x["c"])


def parts(rec, tier, gens):
    r = rng()
    many = 1 if tier == "quick" else 6
    for f in ("pdu", "ut"):
        F = Flavour(f, r)
        m = F.m

        def anyleaf():
            k = r.choice(("int", "int", "int", "bool", "null", "oct", "var", "var"))
            if k == "int":
                return T("int", r.choice((1, 2, 4, 8)), r.random() < .5)
            if k == "oct":
                return T("oct", r.choice((4, 5, 6, 8, 12)))
            if k == "null":
                return T(r.choice(("null", "dont")), 0)
            return T(k, {"bool": 1, "var": -1}[k])

        def anytype(d):
            k = r.choice(("leaf", "seq", "opt", "choice", "of", "data")) if d else "leaf"
            if f == "ut" and k in ("of", "data"):
                k = "seq"
            if k == "leaf":
                return anyleaf()
            if k == "data":
                return DATAT
            if k == "opt":
                # an optional null cannot be told from a missing one by a reader of values
                while (s := anytype(d - 1))["k"] in ("null", "dont") and s["k"] == "null":
                    pass
                return T("opt", sub=[s])
            if k == "of":
                return OF(anytype(d - 1))
            if k == "seq":
                return T("seq", sub=[anytype(d - 1) for _ in range(r.choice((0, 1, 2, 2, 3, 4, 10 if f == "pdu" else 12)))])
            n = r.choice((1, 2, 3, 5))
            tags, sub = r.sample([0, 1, 2, 3, 5, 9, 127, 128, 254, 255], n), []
            while len(sub) < n:         # of booleans and nulls there is one class each, whose values are shared
                if (x := anytype(d - 1))["k"] not in ("bool", "null", "dont") or all(x["k"] != y["k"] for y in sub):
                    sub.append(x)
            return T("choice", tags=tags, sub=sub)

        def anyvalue(t, d=3):
            k = t["k"]
            if k == "bool":
                return leaf([r.choice((0, 1))] if f == "ut" or r.random() < .8 else [r.randrange(256)])
            if k in LEAVES:
                n = t["w"] if t["w"] >= 0 else r.choice((0, 1, 2, 3, 5, 127, 128, 255, 256, 300) if r.random() < .2 else range(6))
                return leaf(r.choice((r.randbytes(n), r.randbytes(n), bytes(n), b"\xff" * n, b"\x80" + bytes(n - 1) if n else b"", b"\x7f" + b"\xff" * (n - 1) if n else b"")))
            if k == "opt":
                return node([] if r.random() < .4 else [anyvalue(t["sub"][0], d)])
            if k == "of":
                n = r.choice((0, 1, 2, 3)) if d > 0 else 0
                if r.random() < .03 and t["sub"][0]["k"] in LEAVES:
                    n = r.choice((127, 128, 200, 256))
                return node(anyvalue(t["sub"][0], d - 1) for _ in range(n))
            if k == "seq":
                return node(anyvalue(s, d) for s in t["sub"])
            tags, types = subs(t)
            i = r.randrange(len(tags))
            if k == "data" and d <= 0:
                i = r.choice([j for j, n in enumerate(tags) if n not in (1, 2)])
            return pick(tags[i], anyvalue(types[i], d - 1))

        def run(label, t, evs):
            rec.case(label + ":" + json.dumps(t, separators=(",", ":"))[:300] + ":" + str(hash(json.dumps(evs)))[-8:], [{"ev": "type", "f": f, "t": t, "o": {}}] + evs)

        def did(t, fn):
            e, o = outcome(lambda: F.see(t, fn()))
            return dict(o or NO, e=e)

        def get(t, s):
            c = F.cls(t)
            s = bytes(s)
            if f == "ut":
                return {"ev": "get", "s": B(s), "at": 0, "o": dict(did(t, lambda: c.from_contents(s)), pos=-1)}
            at = r.choice((0, 0, 1, 5))
            buf = m.Buffer.wrap(bytes(at) + s) if r.random() < .5 else m.Buffer(memoryview(bytearray(at) + s))
            buf.set_pos(at)
            e, v = outcome(lambda: c.get(buf))
            pos = buf.get_pos()
            return {"ev": "get", "s": B(s), "at": at, "o": dict(did(t, lambda: v) if not e else dict(NO, e=e), pos=pos)}

        def damaged(s):
            s = bytearray(s)
            how = r.randrange(4)
            if how == 0 and s:
                return s[:r.randrange(len(s))]
            if how == 1 and s:
                s[r.randrange(min(len(s), 6))] = r.choice((0, 1, 2, 4, 7, 128, 129, 255, r.randrange(256)))
            elif how == 2:
                s.insert(r.randrange(len(s) + 1), r.randrange(256))
            elif s:
                del s[r.randrange(len(s))]
            return s

        def harmless(t):
            """counts of elements of no size may stand for millions"""
            return not any(q in json.dumps(t) for q in ('"k": "of", "w": -1, "sg": false, "tags": [], "sub": [{"k": "null"', '"k": "of", "w": -1, "sg": false, "tags": [], "sub": [{"k": "dont"', '"k": "of", "w": -1, "sg": false, "tags": [], "sub": [{"k": "seq"'))

        def longlen(t):
            return '"var"' in json.dumps(t)

        types = [T("int", w, sg) for w in (1, 2, 4, 8) for sg in (False, True)] + [T("bool", 1), T("null", 0), T("dont", 0), T("var")] + [T("oct", w) for w in (4, 5, 6, 8, 12)]
        if f == "pdu":
            types += [DATAT, OF(DATAT), OF(T("int", 1)), OF(OF(T("bool", 1))), T("opt", sub=[DATAT])]
        types += [T("opt", sub=[t]) for t in types[:14] if t["k"] != "null"]
        types += [anytype(d) for d in (1, 2, 2, 3) for _ in range(70 * many)]
        for t in types:
            evs = []
            for _ in range(6 if t["k"] != "data" else 60):
                x = anyvalue(t)
                try:
                    v = F.value(t, x)
                except Exception as ex:         # making a value of its own parts is no question of input
                    evs.append({"ev": "make", "x": x, "o": dict(NO, e=type(ex).__name__)})
                    continue
                evs.append({"ev": "make", "x": x, "o": did(t, lambda: v)})
                # useful_types reads the octets behind a longer length form askew (known finding of the codec), so only the short form there
                s = enc(t, x, r if f == "pdu" or not longlen(t) else None)
                evs.append(get(t, s + r.choice((b"", b"", b"\0", b"\1\2\3"))))
                if harmless(t):
                    d = damaged(s)
                    if f == "pdu" or not longlen(t) or 0x81 not in d and not any(0x80 < b for b in d):
                        evs.append(get(t, d))
                if t["k"] in ("choice", "data"):
                    y = r.choice((x, x, anyvalue(t)))
                    e, o = outcome(lambda: (bool(F.value(t, x) == F.value(t, y)), bool(F.value(t, x) != F.value(t, y))))
                    o = o or (False, False)
                    evs.append({"ev": "same", "x": x, "y": y, "o": {"e": e, "eq": o[0], "ne": o[1]}})
            if f == "pdu":
                evs.append({"ev": "default", "o": did(t, F.cls(t).default)})
            run(f, t, evs)

        # numbers
        for t in types[:8]:
            w, sg = t["w"], t["sg"]
            lo, hi = (-(1 << 8 * w - 1), (1 << 8 * w - 1) - 1) if sg else (0, (1 << 8 * w) - 1)
            c = F.cls(t)
            for n in sorted({lo - 1, lo, lo + 1, -1, 0, 1, 9, 10, 99, 100, 127, 128, 255, 256, hi - 1, hi, hi + 1, 2 * hi, -hi - 5, *(r.randrange(lo, hi + 1) for _ in range(6 * many))}):
                if abs(n) >> 68:
                    continue

                def go():
                    v = c.from_int(n) if f == "pdu" else c(n)
                    return dict(F.see(t, v), num=big(int(v)))
                e, o = outcome(go)
                texts = [str(n), f"{n:+d}", f" {n}", f"{n}\t", f"0{n}" if n >= 0 else f"-0{-n}"]
                run("num", t, [{"ev": "num", "b": big(n), "o": dict(o or dict(NO, num=big(0)), e=e)}]
                    + [{"ev": "text", "s": [ord(q) for q in s], "o": did(t, lambda: c.from_str(s))} for s in texts])
        # texts
        def text(t, d=0):
            k = t["k"]
            if k == "int":
                return r.choice((str(r.randrange(128)), str(r.randrange(-130, 260)), str(r.randrange(-1 << 63, 1 << 64)), "", "x", "1.5", "--1", "- 1", "0x10", "1a"))
            if k == "bool":
                return r.choice(("0", "1", "True", "False", "true", "", "2", " 1"))
            if k == "oct":
                return "".join(r.choice("abc019.") for _ in range(r.choice((t["w"], t["w"], t["w"], t["w"] - 1, t["w"] + 1, 0))))
            if k == "var":
                return "".join(r.choice("abc019.;:\u044f\u20ac\U0001f600") for _ in range(r.choice((0, 1, 2, 5, 130))))
            if k in ("null", "dont"):
                return r.choice(("", "NULL", "0"))
            if k == "opt":
                return "" if r.random() < .3 else text(t["sub"][0])
            if k == "of":
                return r.choice((";", "; ", " ;")).join(text(t["sub"][0]) for _ in range(r.choice((1, 1, 2, 3))))
            if k == "seq":
                n = len(t["sub"])
                return " ".join([text(s) for s in t["sub"]] + (["1"] if r.random() < .1 else []))[:None if r.random() < .9 else r.randrange(8)]
            tags, types = subs(t)
            i = r.randrange(len(tags))
            tag = str(tags[i]) if r.random() < .8 else r.choice(("", "4", "-1", "256", "x", "0" + str(tags[i]), "99999"))
            return r.choice((":",) * 8 + ("", " ", "::")).replace(":", ":" if f == "pdu" else " ").join((tag, text(types[i])))

        def readable(t):
            k = t["k"]
            return k not in ("of", "seq", "opt", "choice", "data") or (f == "pdu" or k == "choice") and all(x["k"] in LEAVES or (k == "opt" and x["k"] in ("choice", "data")) for x in t["sub"])

        for _ in range(260 * many):
            t = r.choice((anyleaf(), anytype(1), anytype(1), DATAT if f == "pdu" else anytype(1)))
            if not readable(t) or (t["k"] == "seq" and not t["sub"]):
                continue
            evs = []
            for _ in range(6):
                s = text(t)
                if t["k"] == "data" and s.partition(":")[0].strip("0") in ("1", "2"):
                    continue
                evs.append({"ev": "text", "s": [ord(c) for c in s], "o": did(t, lambda: F.cls(t).from_str(s))})
            run("text-" + f, t, evs)
        # truth values
        t = T("bool", 1)
        for n in (0, 1, 2, 255, -1, 256):
            def go():
                v = m.BOOLEAN.from_int(n)
                return dict(F.see(t, v), truth=bool(v), num=int(v))
            e, o = outcome(go)
            run("bool", t, [{"ev": "bool", "n": n, "o": dict(o or dict(NO, truth=False, num=-1), e=e)}])
        # sizes
        if f == "ut":
            for w in (4, 5, 6, 8, 12):
                t = T("oct", w)
                run("fixed", t, [{"ev": "fixed", "s": B(s), "o": did(t, lambda: F.cls(t)(s))} for s in (r.randbytes(n) for n in (0, 1, w - 1, w, w, w + 1, 2 * w, 255))])
        # order across the integer types
        ints = [T("int", w, sg) for w in (1, 2, 4, 8) for sg in (False, True)]
        for a in ints:
            for b in ints:
                for _ in range(5 * many):
                    x, y = anyvalue(a), anyvalue(b)
                    if r.random() < .3:
                        n = min(a["w"], b["w"])
                        k = bytes((r.randrange(128),)) + r.randbytes(n - 1)
                        x, y = leaf(bytes(a["w"] - n) + k), leaf(bytes(b["w"] - n) + k)

                    def go():
                        p, q = F.value(a, x), F.value(b, y)
                        return dict(gt=bool(p > q), lt=bool(p < q), eq=bool(p == q), hash=hash(p) == hash(q))
                    e, o = outcome(go)
                    rec.case(f"order-{f}:{a['w']}{a['sg']}{x['c']}:{b['w']}{b['sg']}{y['c']}", [{"ev": "type", "f": f, "t": a, "o": {}}, {"ev": "order", "a": a, "b": b, "x": x, "y": y, "o": dict(o or dict(gt=False, lt=False, eq=False, hash=False), e=e)}])
