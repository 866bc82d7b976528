"""driver for the interface classes: objects of every class, their attributes, methods and descriptors"""
import json
from load import mod, cosem, outcome, B, rng
from drv_collection import lib, STOCK

LN = [0, 0, 40, 0, 1, 255]
FIXED = {0: 0, 3: 1, 5: 4, 6: 4, 13: 1, 15: 1, 16: 2, 17: 1, 18: 2, 20: 8, 21: 8, 22: 1, 23: 4, 24: 8, 25: 12, 26: 5, 27: 4}
SIGNED = {5, 15, 16, 20}


def compact(n):
    return [n] if n < 128 else [129, n] if n < 256 else [130, n >> 8, n & 255]


def walk(t):
    yield t
    for s in t["sub"]:
        yield from walk(s)


class Make:
    """octets of random values of the types"""

    def __init__(self, r):
        self.r = r

    def datetime(self):
        r = self.r
        y = r.choice([2000, 2020, 2024, 2023, 65535, r.randrange(1, 9999)])
        mo = r.choice([r.randrange(1, 13), 255, 2, 12])
        d = r.choice([r.randrange(1, 29), 255, 1, 28])
        return [y >> 8, y & 255, mo, d, 255, r.choice([0, 23, 255, r.randrange(24)]), r.choice([0, 59, 255]), r.choice([0, 59, 255]), r.choice([0, 99, 255]),
                *r.choice([[128, 0], [0, 180], [255, 76], [0, 0]]), r.choice([0, 128, 255])]

    def num(self, t):
        w = FIXED[t]
        return self.r.choice([[0] * w, [255] * w, [0] * (w - 1) + [1] if w else [], [self.r.randrange(256) for _ in range(w)], [127] + [255] * (w - 1) if w else []])

    def text(self):
        r = self.r
        n = r.choice([0, 1, 2, 5, 6, 12, 40, 130])
        return [r.choice([r.randrange(32, 127), r.randrange(256) if n != 12 else 65]) for _ in range(n)]

    def leaf(self, t):
        r = self.r
        if t == 3:
            return [3, r.choice([0, 1])]
        if t == 4:
            n = r.choice([0, 1, 3, 8, 9, 24])
            k = (n + 7) // 8
            return [4, n] + [r.randrange(256) & (255 if i < k - 1 or n % 8 == 0 else 255 << (8 - n % 8) & 255) for i in range(k)]
        if t in (9, 10, 12):
            b = self.text() if t == 9 else [r.randrange(32, 127) for _ in range(r.choice([0, 1, 3, 17]))]
            return [t] + compact(len(b)) + b
        d = self.datetime()
        if t == 25:
            return [25] + d
        if t == 26:
            return [26] + d[:5]
        if t == 27:
            return [27] + d[5:9]
        return [t] + self.num(t)

    def size(self, t, n):
        if t == 4:
            k = (n + 7) // 8
            return [4] + compact(n) + [self.r.randrange(256) & (255 if i < k - 1 or n % 8 == 0 else 255 << (8 - n % 8) & 255) for i in range(k)]
        return [t] + compact(n) + [self.r.choice([self.r.randrange(32, 127), 0, 255]) if t == 9 else self.r.randrange(32, 127) for _ in range(n)]

    def of(self, T, deep=0):
        r = self.r
        k, t, sub = T["k"], T["t"], T["sub"]
        if k == "leaf":
            return self.leaf(t)
        if k == "ranged":
            lo, hi = r.choice(T["r"])
            n = r.choice([lo, hi, r.randint(lo, hi)])
            return [t] + list((n % 256 ** FIXED[t]).to_bytes(FIXED[t], "big"))
        if k == "size":
            lo, hi = r.choice(T["r"])
            return self.size(t, r.choice([lo, min(hi, lo + 40), r.randint(lo, min(hi, lo + 40))]))
        if k == "oneof":
            o = r.choice(T["o"])
            return [t] + compact(len(o)) + o
        if k == "dt":
            return [9, 12] + self.datetime()
        if k == "d":
            return [9, 5] + self.datetime()[:5]
        if k == "tm":
            return [9, 4] + self.datetime()[5:9]
        if k == "version":
            o = list(r.choice([b"1.0", b"0.1", b"3.12", b"10.20", b"2.0"]))
            return [9, len(o)] + o
        if k == "struct":
            return [2, len(sub)] + sum((self.of(s, deep + 1) for s in sub), [])
        if k == "anystruct":
            n = r.choice([0, 1, 3])
            return [2, n] + sum((self.leaf(r.choice([0, 3, 9, 15, 17, 18, 6, 22])) for _ in range(n)), [])
        if k == "array":
            n = r.choice([0, 1, 1, 2, 3] if deep == 0 and (T["r"] or sub[0]["k"] in ("leaf", "ranged", "size")) else [0, 1])
            return [1, n] + sum((self.of(sub[0], deep + 1) for _ in range(n)), [])
        if k == "anyarray":
            n = r.choice([0, 1, 3])
            e = r.choice([17, 18, 9])
            return [1, n] + sum((self.leaf(e) for _ in range(n)), [])
        if k == "choice":
            return self.of(r.choice(sub), deep)
        if k == "switch":
            i = r.randrange(len(T["r"]))
            w = FIXED[sub[0]["t"]]
            return [2, 2, sub[0]["t"]] + list((T["r"][i][0] % 256 ** w).to_bytes(w, "big")) + self.of(sub[i + 1], deep + 1)
        if k == "oid":
            last = r.choice([0, 1, 2, 7, 127])
            arcs = [2, 16, 756, 5, 8, r.choice([1, 2]), last]
            if r.random() < .4:
                arcs[:6] = [r.randrange(3), r.randrange(40), r.choice([0, 5, 127, 128, 300, 16383, 16384, 65535]), r.choice([0, 127, 128, 255]), r.randrange(256), r.choice([1, 130])]
            if r.random() < .5:
                c = [arcs[0] * 40 + arcs[1]]
                for n in arcs[2:]:
                    c += [n >> 14 | 128] * (n > 16383) + [n >> 7 & 127 | 128] * (n > 127) + [n & 127]
                return [9, len(c)] + c
            out = [2, len(sub)]
            for s, n in zip(sub, arcs):
                out += [s["t"]] + list(n.to_bytes(FIXED[s["t"]], "big"))
            return out
        raise AssertionError(k)

    def wrong(self, T):
        """octets which may not be a value of the type; compact arrays (tag 19) inside others are kept away, see P13"""
        while True:
            x = self.damaged(T)
            if 19 not in x or x[0] not in (1, 2, 19):
                return x

    def damaged(self, T):
        r = self.r
        x = self.of(T)
        if T["k"] == "version" and r.random() < .7:
            o = list(r.choice([b"abc", b"0.0", b"1.2.3", b"1", b"1.", b".1", b"3.0 ", b"", b"0.0.0", b"00.0", b"0.1", b"01.10", b"-1.0", b"3,0", b"\xff.1", b"1.0a", b"123.456"]))
            return [9, len(o)] + o
        k = r.randrange(9)
        if k == 0:
            return x[:r.randrange(len(x))] if len(x) > 1 else []
        if k == 1:
            return x + [r.randrange(256)]
        if k == 2:
            return self.leaf(r.choice([0, 3, 4, 5, 6, 9, 10, 12, 15, 16, 17, 18, 20, 21, 22, 23, 24, 25, 26, 27]))
        if k == 3:
            return [r.choice([0, 3, 5, 9, 15, 16, 17, 18, 22, 255, 99])] + x[1:]
        if k == 4 and x[0] in (1, 2, 9, 10, 12, 4):
            return [x[0], (x[1] + r.choice([1, 255])) % 128] + x[2:]
        if k == 5:
            i = r.randrange(len(x))
            if T["k"] in ("ranged", "oneof", "size"):
                return x[:i] + [r.randrange(256)] + x[i + 1:]
            return x
        if k == 6 and x[0] in (1, 2):
            e = self.leaf(r.choice([0, 17, 9]))
            return [x[0], x[1] + 1] + x[2:] + e
        if k == 7 and T["k"] == "ranged":
            w = FIXED[T["t"]]
            lo, hi = r.choice(T["r"])
            return [T["t"]] + list((r.choice([lo - 1, hi + 1]) % 256 ** w).to_bytes(w, "big"))
        if k == 8 and T["k"] == "size":
            lo, hi = r.choice(T["r"])
            return self.size(T["t"], r.choice([max(0, lo - 1), hi + 1 if hi < 200 else 0]))
        return [x[0]]


def typed(rec, tier, gens):
    col, cdt, cst, ut, ow, version = lib()
    r = rng()
    mk = Make(r)
    schema, walks = None, []
    for g in gens:
        for h in json.load(open(g)):
            if h["key"] == "":
                schema = h["schema"]
            else:
                walks.append(h)
    table = {s["key"]: s for s in schema}

    def cls(key):
        m, n = key.split(":")
        return getattr(mod("cosem_interface_classes." + m), n)

    def enc(x):
        return [] if x is None else B(x.encoding)

    def empty(m):
        return not isinstance(m, cdt.CommonDataType)

    def meths(o, s):
        return [enc(o.get_meth(i + 1)) for i in range(len(s["meths"]))]

    def attrs(o):
        return [enc(a) for a in o]

    def member(n, k, v):
        """an object of a collection"""
        c = col.Collection()
        return c, c.add(ut.CosemClassId(k), cdt.Unsigned(v), cst.LogicalName(bytearray(n)))
    stock = {}
    for n, k, v in STOCK:
        e, x = outcome(lambda: member(n, k, v))
        if e == "":
            t = type(x[1])
            stock.setdefault(t.__module__.split("cosem_interface_classes.")[-1] + ":" + t.__name__, []).append((n, k, v))

    class Obj:
        def __init__(self, key, ln=None, within=False):
            self.s = table[key]
            self.key = key
            self.ln = ln or LN
            self.n = len(self.s["attrs"])
            self.c = None
            if within and key in stock:
                it = r.choice([x for x in stock[key] if x[1] != 15 or x[0][4] == 1] or [None])
                if it:
                    self.ln = list(it[0])
                    e, (self.c, self.o) = outcome(lambda: member(*it))
            if self.c is None:
                e, self.o = outcome(lambda: cls(key)(cst.LogicalName(bytearray(self.ln))))
            C = cls(key)
            els = [C.get_attr_element(i) for i in range(1, self.n + 1)] if e == "" else []
            self.evs = [{"ev": "new", "ck": key, "ln": self.ln, "o": {"e": e, "id": int(C.CLASS_ID), "ver": int(C.VERSION), "names": [x.NAME for x in els],
                         "mnames": [C.get_meth_element(i + 1).NAME for i in range(len(C.M_ELEMENTS))], "cls": [int(getattr(x.classifier, "value", x.classifier)) for x in els],
                         "attrs": attrs(self.o) if e == "" else [], "meths": meths(self.o, self.s) if e == "" else []}}]

        def note(self, ev, o, **kw):
            self.evs.append({"ev": ev, **kw, "o": o})

        def set(self, i, s):
            e, _ = outcome(lambda: self.o.set_attr(i, bytes(s)))
            self.note("set", {"e": e, "attrs": attrs(self.o)}, i=i, s=s)

        def clear(self, i):
            e, _ = outcome(lambda: self.o.clear_attr(i))
            self.note("clear", {"e": e, "attrs": attrs(self.o)}, i=i)

        def reset(self, i):
            e, _ = outcome(lambda: self.o.reset_attribute(i))
            self.note("reset", {"e": e, "attrs": attrs(self.o)}, i=i)

        def kind(self, i):
            e, t = outcome(lambda: self.o.get_attr_data_type(i))
            tag = -1
            if e == "" and hasattr(t, "TAG"):
                tag = int.from_bytes(bytes(t.TAG)[:1], "big")
            self.note("kind", {"e": e, "t": tag}, i=i)

        def element(self, i):
            e, x = outcome(lambda: self.o.get_attr_element(i))
            self.note("element", {"e": e, "n": x.NAME if e == "" else ""}, i=i)

        def melement(self, i):
            e, x = outcome(lambda: self.o.get_meth_element(i))
            self.note("melement", {"e": e, "n": x.NAME if e == "" else ""}, i=i)

        def descriptor(self, i):
            e, d = outcome(lambda: B(self.o.get_attr_descriptor(i).contents))
            e2, d2 = outcome(lambda: B(self.o.get_attribute_descriptor(i)))
            e3, d3 = outcome(lambda: B(self.o.get_meth_descriptor(i).contents))
            self.note("descriptor", {"e": e if e == e2 == e3 else e + "/" + e2 + "/" + e3, "d": d or [], "d2": d2 or [], "d3": d3 or []}, i=i)

        def mset(self, i, s):
            e, _ = outcome(lambda: self.o.get_meth(i).set(bytes(s)))
            self.note("mset", {"e": e, "meths": meths(self.o, self.s)}, i=i, s=s)

        def time(self, i, s):
            e, _ = outcome(lambda: self.o.set_record_time(i, bytes(s)))
            self.note("time", {"e": e, "times": [enc(self.o.get_record_time(j)) for j in range(2, self.n + 1)]}, i=i, s=s)

        def encode(self, i, s):
            e, x = outcome(lambda: self.o.encode(i, bytes(s)))
            self.note("encode", {"e": e, "enc": enc(x), "attrs": attrs(self.o)}, i=i, s=s)

        def copy(self, src):
            if "ScalesProfile" in self.key:       # its buffer is not the meter's: copying needs a collection
                return
            e, _ = outcome(lambda: self.o.copy(src.o))
            self.note("copy", {"e": e, "attrs": attrs(self.o)}, ln=src.ln, src=[[]] + attrs(src.o)[1:])

        def values(self, src):
            if self.c is None or "profile_generic" in self.key:     # the buffer of a profile looks for the captured objects
                return
            src.o.get_attr(1).set(bytes([9, 6] + self.ln))
            src.ln = self.ln
            e, x = outcome(lambda: self.c.copy_obj_attr_values_from(src.o))
            self.note("values", {"e": e, "attrs": attrs(self.o), "r": bool(x)}, ln=src.ln, src=[[]] + attrs(src.o)[1:])

        def free(self):
            return [i for i in range(2, self.n + 1) if not self.s["skip"][i - 1]]

    # walks of the specification
    for w, h in enumerate(walks):
        o, src = Obj(h["key"], within=True), Obj(h["key"])
        for op in h["ops"]:
            k = op["op"]
            if k == "set":
                o.set(op["i"], op["s"])
            elif k == "other":
                outcome(lambda: src.o.set_attr(op["i"], bytes(op["s"])))
            elif k == "clear":
                o.clear(op["i"])
            elif k == "reset":
                o.reset(op["i"])
            elif k == "copy":
                o.copy(src)
            else:
                o.values(src)
        rec.case("walk" + str(w), o.evs)

    rounds = 4 if tier == "quick" else 40
    for key, s in table.items():
        # every class, every index
        o = Obj(key, [1, 0, 2, 3, 4, 5] if s["attrs"][1:] and not key.startswith("association_ln") else None)
        for i in [-129, -128, -1, 0, 1, 2, 3, o.n, o.n + 1, 127, 128, 200]:
            o.descriptor(i)
        for i in range(-1, o.n + 3):
            o.element(i)
            o.kind(i) if i >= 1 else None
        for i in range(-1, len(s["meths"]) + 3):
            o.melement(i)
        for i in [-1, 0, 1] + list(range(2, o.n + 1)) + [o.n + 1]:
            o.time(i, [25] + mk.datetime())
        o.time(2, [25] + mk.datetime()[:11])
        o.time(2, [9, 12] + mk.datetime())
        o.time(o.n, [25] + mk.datetime())
        for i in [-1, 0, 1, o.n + 1]:
            o.clear(i)
        o.set(o.n + 1, [0])
        rec.case("class:" + key, o.evs)
        for n in range(rounds):
            o, src = Obj(key, within=n % 2 == 1), Obj(key)
            free = o.free()
            for i in free:
                T = s["attrs"][i - 1]["t"]
                for _ in range(2):
                    o.encode(i, mk.of(T))
                    o.set(i, mk.of(T) if r.random() < .7 else mk.wrong(T))
                o.kind(i)
                if r.random() < .5:
                    o.encode(i, mk.wrong(T))
                if r.random() < .3:
                    o.clear(i)
                if r.random() < .3:
                    o.reset(i)
                if r.random() < .6:
                    outcome(lambda: src.o.set_attr(i, bytes(mk.of(T))))
            for i in range(1, len(s["meths"]) + 1):
                T = s["meths"][i - 1]["t"]
                if all(x["k"] != "switch" for x in walk(T)) and not key.startswith("special_days"):     # days in the table only
                    for _ in range(2):
                        o.mset(i, mk.of(T) if r.random() < .7 else mk.wrong(T))
            if o.c is None:
                o.copy(src)
            else:
                o.values(src)
            rec.case("object:%s:%d" % (key, n), o.evs)
        # the types by themselves
        for meth, what in ((False, s["attrs"]), (True, s["meths"])):
            for i, a in enumerate(what, 1):
                T = a["t"]
                top = T["k"] == "switch"
                for n in range(rounds * 2):
                    if T["k"] == "array" and T["sub"][0]["k"] == "choice":      # takes elements when linked to an attribute
                        continue
                    x = mk.of(T) if n % 2 == 0 else mk.wrong(T)
                    C = cls(key)
                    el = C.get_meth_element(i) if meth else C.get_attr_element(i)
                    given = bytes(x)
                    if T["k"] == "oid" and n % 2 == 0 and x[0] == 2 and n % 4 == 0:      # its numbers instead of its octets
                        given, at = [], 2
                        for q in T["sub"]:
                            w = FIXED[q["t"]]
                            given.append(int.from_bytes(bytes(x[at + 1:at + 1 + w]), "big"))
                            at += 1 + w
                        given = tuple(given)
                    e, v = outcome(lambda: [q := el.DATA_TYPE(given), enc(q)][0])
                    evs = [{"ev": "cell", "ck": key, "i": i, "meth": meth, "s": x, "o": {"e": e, "enc": enc(v)}}]
                    if e == "" and all(y["k"] != "switch" for y in walk(T)):
                        for _ in range(2):
                            x = mk.of(T) if r.random() < .6 else mk.wrong(T)
                            e, _v = outcome(lambda: v.set(bytes(x)))
                            evs.append({"ev": "cellset", "s": x, "o": {"e": e, "enc": enc(v)}})
                    rec.case("cell:%s:%s%d:%d" % (key, "m" if meth else "a", i, n), evs)
