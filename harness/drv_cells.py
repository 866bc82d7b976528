"""drivers for changeable values: simple cells with hooks, containers, bit strings"""
import json
from load import mod, outcome, B, rng
import drv_codec as dc


def simple(rec, tier, gens):
    cdt = mod("types.common_data_types")
    rnd = rng()
    tags = [t for t in dc.CDT]

    def good(t):
        v = dc.gen(rnd, "cdt", 0, t)
        return dc.octets(v, rnd)

    def bad(t):
        s = good(t)
        how = rnd.randrange(5)
        if how == 0:
            return good(rnd.choice([x for x in tags if x != t]))
        if how == 1 and t not in (0,):
            return s[:rnd.randrange(1, len(s))]
        if how == 2 and t in (25, 26, 27):
            s = bytearray(s)
            s[rnd.randrange(1, min(len(s), 9))] = rnd.choice((60, 100, 99, 24, 13, 32, 0, 254, 200))
            return bytes(s)
        if how == 3:
            return bytes((rnd.choice((7, 8, 14, 19, 28, 128, 255)),)) + s[1:]
        return b"\x82" + s

    for n in range(4000 if tier == "thorough" else 420):
        t = tags[n % len(tags)]
        T = cdt.get_common_data_type_from(bytes((t,)))
        named = True
        if t in (9,) and n % 2:
            T = type("Named", (T,), {})
        s = good(t)
        e, x = outcome(lambda: T(s))
        d = outcome(lambda: B(T().encoding))[1] or []
        ev = [{"ev": "new", "t": t, "s": B(s), "dflt": d, "named": named, "o": {"e": e, "enc": B(x.encoding) if x is not None else []}}]
        key = f"simple{t}-{n}"
        if x is None:
            rec.case(key, ev)
            continue
        log = []
        veto = [False]
        twin = outcome(x.copy)[1]

        def pre(new):
            log.append(["pre", B(new.encoding), B(x.encoding)])
            if veto[0]:
                raise ValueError("vetoed")

        def post():
            log.append(["post", B(x.encoding), B(x.encoding)])
        for _ in range(rnd.randrange(3, 10)):
            op = rnd.choice(("hook", "twin", "set", "set", "set", "set", "settwin", "getcopy", "clear", "poke"))
            log.clear()
            if op == "hook":
                a, b = rnd.random() < .6, rnd.random() < .6
                if a:
                    x.register_cb_preset(pre)
                if b:
                    x.register_cb_post_set(post)
                ev.append({"ev": "hook", "pre": a, "post": b, "o": {"enc": B(x.encoding)}})
            elif op == "twin":
                e, y = outcome(x.copy)
                twin = y
                ev.append({"ev": "twin", "o": {"e": e, "twin": B(y.encoding) if y is not None else [], "enc": B(x.encoding)}})
            elif op in ("set", "settwin", "getcopy"):
                veto[0] = rnd.random() < .3
                s = good(t) if rnd.random() < .65 else bad(t)
                arg = s
                if rnd.random() < .3:
                    a2 = outcome(lambda: T(s))
                    if a2[0] == "" :
                        arg = a2[1]
                if op == "set":
                    e, _ = outcome(lambda: x.set(arg))
                    ev.append({"ev": "set", "s": B(s), "veto": veto[0], "o": {"e": e, "enc": B(x.encoding), "log": [list(v) for v in log], "twin": B(twin.encoding)}})
                elif op == "settwin":
                    veto[0] = False
                    e, _ = outcome(lambda: twin.set(arg))
                    ev.append({"ev": "settwin", "s": B(s), "o": {"e": e, "enc": B(x.encoding), "log": [list(v) for v in log], "twin": B(twin.encoding)}})
                else:
                    veto[0] = False
                    e, y = outcome(lambda: x.get_copy(arg))
                    ev.append({"ev": "getcopy", "s": B(s), "o": {"e": e, "got": B(y.encoding) if y is not None else [], "enc": B(x.encoding), "log": [list(v) for v in log]}})
            elif op == "clear" and t not in (4, 22):
                e, _ = outcome(x.clear)
                ev.append({"ev": "clear", "o": {"e": e, "enc": B(x.encoding)}})
            elif op == "poke":
                if t != 0:
                    e, _ = outcome(lambda: setattr(x, rnd.choice(("contents", "TAG")), b"\x01"))
                    ev.append({"ev": "poke", "o": {"e": e, "enc": B(x.encoding)}})
        rec.case(key, ev)


def containers(rec, tier, gens):
    cdt = mod("types.common_data_types")
    rnd = rng()

    def T(t):
        return cdt.get_common_data_type_from(bytes((t,)))

    class Play:
        def __init__(self, kind, et=0, uniq=False, ts=(), els=(), how=0):
            self.kind, self.et, self.ts = kind, et, ts
            self.posts = 0
            if kind == "array":
                cls = type("A", (cdt.Array,), {"TYPE": T(et), "unique": uniq})
                if how == 0:
                    mk = lambda: cls([bytes(v) for v in els])
                elif how == 1:
                    mk = lambda: cls(b"\x01" + cdt.encode_length(len(els)) + b"".join(map(bytes, els)))
                else:
                    def mk():
                        a = cls()
                        for v in els:
                            a.append(T(et)(bytes(v)))
                        return a
            else:
                cls = type("S", (cdt.Structure,), {"__annotations__": {f"f{i}": T(t) for i, t in enumerate(ts)}})
                mk = (lambda: cls(tuple(bytes(v) for v in els))) if how == 0 else (lambda: cls(b"\x02" + cdt.encode_length(len(els)) + b"".join(map(bytes, els))))
            e, self.x = outcome(mk)
            self.ev = [{"ev": "newc", "kind": kind, "et": et, "uniq": uniq, "ts": list(ts), "els": [B(v) for v in els], "o": self.obs(e)}]
            if self.x is not None and kind == "array":
                self.x.register_cb_post_set(self.post)

        def post(self):
            self.posts += 1

        def obs(self, e, r=()):
            if self.x is None:
                return {"e": e, "els": [], "enc": [], "len": -1, "r": [], "post": 0}
            return {"e": e, "els": [B(v.encoding) for v in self.x.values], "enc": B(self.x.encoding), "len": len(self.x), "r": B(r), "post": self.posts}

        def do(self, o):
            x = self.x
            self.posts = 0
            op = o["op"]
            v = bytes(o.get("v", ()))

            def obj(v):
                return T(v[0])(v)

            def seq(vs):
                out = []
                # an object only where its type fits: some types take over the value of an object of another one
                for i, w in enumerate(vs):
                    w = bytes(w)
                    e, q = outcome(lambda: obj(w))
                    fits = w[:1] == bytes((self.et if self.kind == "array" else (self.ts[i] if i < len(self.ts) else 0),))
                    out.append(q if e == "" and fits and rnd.random() < .4 else w)
                return out if rnd.random() < .5 or self.kind == "array" else tuple(out)
            if op == "append":
                e, q = outcome(lambda: obj(v)) if v else ("x", None)
                arg = q if e == "" and v[0] == self.et and rnd.random() < .5 else v
                go = lambda: x.append(arg)
            elif op == "setlist":
                arg = seq(o["vs"])
                go = lambda: x.set(arg)
            elif op == "setel":
                go = lambda: x[o["i"]].set(v)
            elif op == "putel":
                arg = obj(v)
                go = lambda: x.__setitem__(o["i"], arg)
            else:
                go = {"insert": lambda: x.insert(o["i"], obj(v)), "remove": lambda: x.remove(obj(v)),
                      "pop": lambda: x.pop(o["i"]) if o["has"] else x.pop(), "clear": lambda: x.clear(), "setnone": lambda: x.set(None),
                      "setoctets": lambda: x.set(bytes(o["s"])), "get": lambda: x[o["i"]]}[op]
            e, r = outcome(go)
            self.ev.append({"ev": "op", "op": o, "o": self.obs(e, r.encoding if e == "" and op in ("pop", "get") else b"")})

    i = 0
    for g in gens:
        for w in json.load(open(g)):
            p = Play("array", 17, w["uniq"], how=i % 3) if w["kind"] == "array" else Play("struct", ts=(17, 9, 16), els=(b"\x11\0", b"\x09\0", b"\x10\0\0"), how=i % 2)
            if p.x is not None:
                for o in w["hist"]:
                    p.do(o)
            rec.case(f"spec{i}", p.ev)
            i += 1

    # large ones
    for n in (127, 128, 255, 256, 33000):
        one = b"\x09" + cdt.encode_length(n) + rnd.randbytes(n)
        p = Play("struct", ts=(9, 17), els=(one, b"\x11\x05"), how=1)
        if p.x is not None:
            p.do({"op": "setoctets", "s": B(b"\x02\x02" + one + b"\x11\x06")})
            p.do({"op": "setlist", "vs": [B(b"\x09\0"), B(b"\x11\x07")]})
            p.do({"op": "setlist", "vs": [B(one), B(b"\x11\x08")]})
        rec.case(f"large-struct{n}", p.ev)
        p = Play("array", 9, False, els=[one, one], how=1)
        if p.x is not None:
            p.do({"op": "append", "v": B(one)})
            p.do({"op": "setoctets", "s": B(b"\x01\x02" + one + one)})
        rec.case(f"large-array{n}", p.ev)
    for n in (126, 127, 128, 255, 256, 300):
        els = [bytes((18, i >> 8, i & 255)) for i in range(n)]
        p = Play("array", 18, n % 2 == 0, els=els, how=n % 3)
        if p.x is not None:
            p.do({"op": "append", "v": B(b"\x12\x0f\x0f")})
            p.do({"op": "pop", "has": True, "i": 0})
            p.do({"op": "setoctets", "s": B(b"\x01" + cdt.encode_length(n) + b"".join(els))})
        rec.case(f"many{n}", p.ev)

    def good(t):
        return dc.octets(dc.gen(rnd, "cdt", 0, t))
    leafs = [t for t in dc.CDT]
    for n in range(3000 if tier == "thorough" else 260):
        if n % 2:
            et = rnd.choice(leafs[1:])
            pool = list({good(et) for _ in range(4)})
            uniq = rnd.random() < .5
            p = Play("array", et, uniq, els=rnd.sample(pool, rnd.randrange(len(pool) + 1)), how=rnd.randrange(3))
            for _ in range(rnd.randrange(3, 14)):
                if p.x is None:
                    break
                v = rnd.choice(pool)
                w = good(rnd.choice([t for t in leafs if t != et]))
                vs = [rnd.choice(pool) for _ in range(rnd.randrange(4))]
                if rnd.random() < .2:
                    vs.insert(rnd.randrange(len(vs) + 1), w)
                enc = b"\x01" + cdt.encode_length(len(vs)) + b"".join(vs)
                if rnd.random() < .2:
                    enc = enc[:rnd.randrange(len(enc))]
                ln = len(p.x)
                i = rnd.choice((0, -1, 1, ln, ln - 1, -ln, -ln - 1, ln + 3))
                p.do(rnd.choice(({"op": "append", "v": B(v)}, {"op": "append", "v": B(w)}, {"op": "insert", "v": B(v), "i": i}, {"op": "insert", "v": B(w), "i": i},
                                 {"op": "remove", "v": B(v)}, {"op": "remove", "v": B(w)}, {"op": "pop", "has": rnd.random() < .7, "i": i}, {"op": "get", "i": i},
                                 {"op": "setlist", "vs": [B(q) for q in vs]}, {"op": "setoctets", "s": B(enc)}, {"op": "setel", "i": i, "v": B(rnd.choice((v, w)))},
                                 rnd.choice(({"op": "clear"}, {"op": "setnone"})))))
        else:
            ts = [rnd.choice(leafs) for _ in range(rnd.randrange(1, 11))]
            p = Play("struct", ts=ts, els=[good(t) for t in ts], how=rnd.randrange(2))
            for _ in range(rnd.randrange(3, 10)):
                if p.x is None:
                    break
                vs = [good(t) for t in ts]
                k = rnd.randrange(len(ts))
                if rnd.random() < .45:
                    vs[k] = rnd.choice((good(rnd.choice(leafs)), vs[k][:-1] or b"\x07"))
                if rnd.random() < .15:
                    vs = rnd.choice((vs[:-1], vs + [b"\x11\0"]))
                enc = b"\x02" + cdt.encode_length(len(vs)) + b"".join(vs)
                w = good(rnd.choice((ts[k], ts[k], rnd.choice(leafs))))
                p.do(rnd.choice(({"op": "setlist", "vs": [B(q) for q in vs]}, {"op": "setoctets", "s": B(enc)}, {"op": "setel", "i": k, "v": B(w)}, {"op": "putel", "i": k, "v": B(w)},
                                 {"op": "get", "i": rnd.choice((k, len(ts)))})))
        rec.case(f"rnd{n}", p.ev)


def bits(rec, tier, gens):
    cdt, ut = mod("types.common_data_types"), mod("types.useful_types")
    rnd = rng()

    class Cell:
        def __init__(self, lib):
            self.lib = lib
            self.x = cdt.BitString() if lib == "cdt" else ut.BitString([])
            self.ev = []

        def do(self, o):
            x, lib, op = self.x, self.lib, o["op"]
            s = o.get("s", [])
            if lib == "cdt":
                go = {"setbit": lambda: x.__setitem__(o["i"], o["v"] if rnd.random() < .5 else bool(o["v"])), "inverse": lambda: x.inverse(o["i"]),
                      "left": lambda: x << o["k"], "right": lambda: x >> o["k"], "clear": x.clear,
                      "text": lambda: x.set("".join(map(chr, s)) if rnd.random() < .6 else cdt.BitString("".join(map(chr, s)))),
                      "octets": lambda: x.set(bytes(s)), "contents": lambda: x.set(bytearray(s))}[op]
            else:
                def replace(y):
                    self.x = y
                go = {"setbit": lambda: x.__setitem__(o["i"], o["v"]), "inverse": lambda: x.inverse(o["i"]), "clear": x.clear,
                      "text": lambda: replace(ut.BitString.from_str("".join(map(chr, s)))), "octets": lambda: replace(ut.BitString.from_contents(bytes(s)))}[op]
            e, _ = outcome(go)
            x = self.x
            def look():
                if lib == "cdt":
                    if [x[i] for i in range(len(x))] != [bytes((b,)) for b in x.decode()] or x.copy() != x:
                        return [9], [], -1, []
                    return x.decode(), B(x.encoding), len(x), [ord(c) for c in str(x)]
                return [int(b) for b in x.value], B(x.contents), len(x), [ord(c) for c in str(x)]
            _, v = outcome(look)
            b, enc, n, t = v or ([], [], -1, [])
            self.ev.append({"ev": lib, "op": o, "o": {"e": e, "bits": b, "enc": enc, "len": n, "text": t}})

    i = 0
    for g in gens:
        for w in json.load(open(g)):
            c = Cell("cdt")
            for o in w["hist"]:
                c.do(o)
            rec.case(f"spec{i}", c.ev)
            i += 1
    for n in range(5000 if tier == "thorough" else 400):
        lib = "cdt" if n % 3 else "ut"
        c = Cell(lib)
        size = rnd.choice((0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 32, 40, 130, 260))
        c.do({"op": "text", "s": [rnd.choice((48, 49)) for _ in range(size)]})
        for _ in range(rnd.randrange(3, 12)):
            size = len(c.x)
            i = rnd.choice((0, -1, size - 1, size, -size, -size - 1, rnd.randrange(-size, size + 1)))
            m = rnd.choice((0, 1, 5, 8, 9, 16, 20, 127, 128, 200))
            body = rnd.randbytes((m + 7) // 8 + rnd.choice((0, 0, 0, 2, -1)) if m else 0)
            ops = [{"op": "setbit", "i": i, "v": rnd.randrange(2)}, {"op": "inverse", "i": i}, {"op": "clear"}, {"op": "inverse", "i": i}]
            if lib == "cdt":
                if size:
                    ops += [{"op": "left", "k": rnd.randrange(0, 20)}, {"op": "right", "k": rnd.randrange(0, 20)}]
                ops += [{"op": "octets", "s": B(rnd.choice((b"\x04", b"\x04", b"\x04", b"\x09")) + dc.lenenc(m, rnd) + body)}, {"op": "contents", "s": B(body)},
                        {"op": "text", "s": [ord(ch) for ch in rnd.choice(("", "1", "0101", "2", "10a", "111111111", " 1"))]}]
            else:
                ops += [{"op": "octets", "s": B(dc.lenenc(m, rnd) + body)}, {"op": "text", "s": [ord(ch) for ch in rnd.choice(("", "1", "0101", "111111111"))]}]
            c.do(rnd.choice(ops))
        rec.case(f"rnd{n}", c.ev)
