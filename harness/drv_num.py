"""driver for the integer types of common_data_types"""
from load import mod, outcome, B, rng

TAGS = {5: "DoubleLong", 6: "DoubleLongUnsigned", 15: "Integer", 16: "Long", 17: "Unsigned", 18: "LongUnsigned", 20: "Long64", 21: "Long64Unsigned"}


def big(n):
    m = abs(n)
    return {"neg": n < 0, "m": list(m.to_bytes((m.bit_length() + 7) // 8, "big"))}


def codes(s):
    return [ord(c) for c in s]


def numbers(rec, tier, gens):
    cdt = mod("types.common_data_types")
    rnd = rng()
    many = tier == "thorough"

    def make_type(t, lo=None, hi=None, val=None):
        base = getattr(cdt, TAGS[t])
        kw = {}
        if lo is not None:
            kw["min"] = lo
        if hi is not None:
            kw["max"] = hi
        if val is not None:
            kw["value"] = val
        cls = type(f"T{t}", (base,), {}, **kw) if kw else base
        if kw and rnd.random() < .3:
            cls = type("Sub", (cls,), {})          # limits are inherited
        z = big(0)
        return cls, {"t": t, "hasmin": lo is not None, "min": big(lo) if lo is not None else z, "hasmax": hi is not None, "max": big(hi) if hi is not None else z,
                     "hasval": val is not None, "val": big(val) if val is not None else z}

    def shows(x, e):
        def look():
            return {"c": B(x.contents), "enc": B(x.encoding), "dec": big(x.decode()), "int": big(int(x)), "text": codes(str(x)), "hash": hash(x) == hash(type(x)(x.encoding))}
        bad, v = outcome(look) if x is not None else ("", None)
        o = {"e": e}
        o.update(v or {"c": [], "enc": [], "dec": big(0), "int": big(0), "text": [], "hash": bad == ""})
        return o

    def offer(how, v, t):
        """-> (event fields, python value)"""
        if how == "int":
            return {"how": how, "x": big(v)}, v
        if how == "text":
            return {"how": how, "s": codes(v)}, v
        if how == "octets":
            return {"how": how, "s": B(v)}, bytes(v)
        if how == "contents":
            return {"how": how, "s": B(v)}, bytearray(v)
        return {"how": how}, None

    def new(cls, ty, how, v):
        f, p = offer(how, v, ty["t"])
        e, x = outcome(lambda: cls(p))
        return x, {"ev": "new", "ty": ty, **f, "o": shows(x, e)}

    def setev(x, how, v, t):
        f, p = offer(how, v, t)
        e, _ = outcome(lambda: x.set(p))
        return {"ev": "set", **f, "o": shows(x, e)}

    def edges(t, lo, hi, val):
        w = 8 * [4, 4, 1, 2, 1, 2, 8, 8][list(TAGS).index(t)]
        s = {0, 1, -1, 2, (1 << w) - 1, 1 << w, (1 << w - 1) - 1, 1 << w - 1, -(1 << w - 1), -(1 << w - 1) - 1, -(1 << w), 127, 128, 255, 256, -128, -129, 10 ** 25}
        for b in (lo, hi, val):
            if b is not None:
                s |= {b - 1, b, b + 1}
        s |= {rnd.randrange(-(1 << w), 1 << w) for _ in range(4)} | {rnd.randrange(1 << w - 1) for _ in range(4)}
        return sorted(s)

    bad_texts = ("", "abc", "0x10", "--1", "+", "1-", "1 2", "٣x", "1,5", "nan", "inf", "-inf")
    kinds = []
    for t in TAGS:
        w = 8 * [4, 4, 1, 2, 1, 2, 8, 8][list(TAGS).index(t)]
        signed = t in (5, 15, 16, 20)
        kinds += [(t, None, None, None), (t, 1, None, None), (t, 3, 100, None), (t, None, 99, None), (t, 5, 5, None), (t, None, None, 7), (t, None, None, 0), (t, 0, 0, None),
                  (t, None, (1 << w - 1) - 2, None)]
        if signed:
            kinds += [(t, -20, 20, None), (t, -100, -2, None), (t, None, None, -3), (t, -120, None, None)]
    kinds += [(15, -120, 120, None), (16, -900, 900, None), (18, 1, 9999, None), (6, 1, None, None)]
    def default(k):
        """value of a cell nobody set, where the type has one"""
        return k[3] in (None, 0) and (k[2] is None or k[2] >= max(0, k[1] or 0))
    for k in kinds:
        t = k[0]
        cls, ty = make_type(*k)
        ln = len(cls.__name__) and [4, 4, 1, 2, 1, 2, 8, 8][list(TAGS).index(t)]
        for n in edges(*k):
            x, ev = new(cls, ty, "int", n)
            evs = [ev]
            rec.case(f"int{k}{n}", evs)
            rec.case(f"text{k}{n}", [new(cls, ty, "text", str(n))[1]])
            rec.case(f"text{k}+{n}", [new(cls, ty, "text", rnd.choice(("+", "00", "+0")) + str(abs(n)))[1]])
            if x is not None:
                c = bytes(x.contents)
                rec.case(f"oct{k}{n}", [new(cls, ty, "octets", bytes((t,)) + c + rnd.choice((b"", b"\0", b"\x11\x22")))[1]])
                rec.case(f"con{k}{n}", [new(cls, ty, "contents", c)[1]])
        for c in {bytes(ln), b"\xff" * ln, b"\x80" + bytes(ln - 1), b"\x7f" + b"\xff" * (ln - 1), rnd.randbytes(ln), bytes(ln + 1), bytes(ln - 1), b"\xff" * (ln + 1)}:
            rec.case(f"con{k}{c.hex()}", [new(cls, ty, "contents", c)[1]])
            rec.case(f"oct{k}{c.hex()}", [new(cls, ty, "octets", bytes((t,)) + c)[1]])
            rec.case(f"octbad{k}{c.hex()}", [new(cls, ty, "octets", bytes((rnd.choice((0, 3, 9, 22, 23) + tuple(x for x in TAGS if x != t)),)) + c)[1]])
        rec.case(f"oct{k}empty", [new(cls, ty, "octets", b"")[1]])
        for s in bad_texts:
            rec.case(f"bad{k}{s}", [new(cls, ty, "text", s)[1]])
        if default(k):
            rec.case(f"none{k}", [new(cls, ty, "none", None)[1]])
        # histories of one cell
        for i in range(60 if many else 6):
            es = edges(*k)
            ok = [n for n in es if outcome(lambda: cls(n))[0] == ""]
            if not ok:
                continue
            x, ev = new(cls, ty, "int", rnd.choice(ok))
            evs = [ev]
            if x is None:
                continue
            for _ in range(rnd.randrange(4, 14)):
                op = rnd.randrange(9)
                if op < 3:
                    evs.append(setev(x, "int", rnd.choice(es), t))
                elif op == 3:
                    evs.append(setev(x, "text", rnd.choice((str(rnd.choice(es)), rnd.choice(bad_texts))), t))
                elif op == 4:
                    c = rnd.randbytes(rnd.choice((ln, ln, ln, ln + 1, ln - 1)))
                    evs.append(setev(x, rnd.choice(("octets", "contents")), c if rnd.random() < .1 else (bytes((t,)) + c if rnd.random() < .5 else c), t))
                elif op == 5:
                    if default(k):
                        e, _ = outcome(x.clear)
                        evs.append({"ev": "clear", "o": shows(x, e)})
                elif op == 6 and k[1:] == (None, None, None):
                    up, n = rnd.random() < .5, rnd.choice((0, 1, 2, 7, 8, 9, 63))
                    e, _ = outcome(lambda: x << n if up else x >> n)
                    evs.append({"ev": "shift", "up": up, "k": n, "o": shows(x, e)})
                elif op == 7:
                    e, y = outcome(x.copy)
                    evs.append({"ev": "copy", "o": shows(y, e)})
                    if y is not None and rnd.random() < .5:
                        outcome(lambda: y.set(rnd.choice(ok)))     # the original must not follow
                        evs.append({"ev": "copy", "o": shows(x, "")})
                else:
                    n = rnd.choice((*es, int(x), int(x) + 1, int(x) - 1))
                    base = getattr(cdt, TAGS[t])
                    other = outcome(lambda: base(n))[1]
                    e, g = outcome(lambda: x > (other if other is not None and rnd.random() < .5 else n))
                    e2, q = outcome(lambda: x == other if other is not None else False)
                    evs.append({"ev": "gt", "x": big(n), "o": {"e": e or e2, "gt": bool(g), "eq": bool(q)}})
            rec.case(f"cell{k}{i}", evs)
    # scaled numbers
    units = (30, 35, 33, 9, 1, 255, 27)
    for t in TAGS:
        cls = getattr(cdt, TAGS[t])
        ty = make_type(t)[1]
        w = 8 * cls.LENGTH
        for sc in (0, -1, -2, -3, -4, -5, -6, -8, 1, 2, 3):
            for _ in range(40 if many else 5):
                u = rnd.choice(units)
                su = cdt.ScalUnitType((sc, u))
                ps = su.unit.get_scaler()
                lim = 10 ** 15 - 1 if sc < ps else 1 << 64       # whole numbers of units are exact over the whole range
                hi = min((1 << w - 1) - 1 if cls.SIGNED else (1 << w) - 1, lim)
                lo = max(-(1 << w - 1), -lim) if cls.SIGNED else 0
                for raw in {0, 1, hi, lo, rnd.randrange(lo, hi + 1), rnd.randrange(min(hi, 10 ** rnd.randrange(1, 16))), 29, 57, 115}:
                    if not lo <= raw <= hi:
                        continue
                    def go():
                        x = cls(raw)
                        x.SCALER_UNIT = su
                        s = str(x)
                        y = cls(0, su)
                        y.set(x.decode())
                        z = x.report == s + " " + str(su.unit)
                        return codes(s) if z else [], B(cls(x.decode(), su).contents), B(cls(s, su).contents), B(y.contents)
                    c = raw.to_bytes(cls.LENGTH, "big", signed=cls.SIGNED)
                    e, v = outcome(go)
                    a = v or ([], [], [], [])
                    rec.case(f"scaled{t},{sc},{u},{raw}", [{"ev": "scaled", "ty": ty, "sc": sc, "ps": ps, "c": B(c), "o": {"e": e, "text": a[0], "byvalue": a[1], "bytext": a[2], "byset": a[3]}}])
                    n = rnd.choice((0, 1, -1, raw, -raw, 100, raw * 10 ** max(sc - ps, 0) // 10 ** max(ps - sc, 0), raw * 10 ** max(sc - ps, 0) // 10 ** max(ps - sc, 0) + 1))
                    if cls.SIGNED and rnd.random() < .3:
                        n = -n
                    x2 = outcome(lambda: cls(bytearray(c), su))[1]
                    e, g = outcome(lambda: x2 > n)
                    rec.case(f"scgt{t},{sc},{u},{raw},{n}", [{"ev": "scgt", "ty": ty, "sc": sc, "ps": ps, "c": B(c), "x": big(n), "o": {"e": e, "gt": bool(g)}}])
                if sc < ps:
                    for _ in range(6):
                        n = rnd.randrange(-2 * cls.SIGNED, max(1, hi // 10 ** (ps - sc)) + 1)
                        raw = n * 10 ** (ps - sc) + rnd.choice((0, 0, 0, -1, 1))
                        if not lo <= raw <= hi:
                            continue
                        c = raw.to_bytes(cls.LENGTH, "big", signed=cls.SIGNED)
                        x3 = outcome(lambda: cls(bytearray(c), su))[1]
                        e, g = outcome(lambda: x3 > n)
                        rec.case(f"scgt{t},{sc},{u},{raw},{n}", [{"ev": "scgt", "ty": ty, "sc": sc, "ps": ps, "c": B(c), "x": big(n), "o": {"e": e, "gt": bool(g)}}])
                k = sc - ps
                whole = rnd.choice((0, 1, 7, 25, 128, 255, 32768, 65535, 70000, 4294967, rnd.randrange(10 ** 5)))
                frac = "" if k >= 0 else "".join(rnd.choice("0123456789") for _ in range(rnd.randrange(0, -k + 1)))
                s = rnd.choice(("", "", "-")) + (str(whole) + "0" * max(k, 0)) + ("." + frac if frac else "")
                if len(s) > 14:
                    continue
                e, x = outcome(lambda: cls(s, su))
                rec.case(f"sctext{t},{sc},{u},{s}", [{"ev": "sctext", "ty": ty, "sc": sc, "ps": ps, "s": codes(s), "o": {"e": e, "c": B(x.contents) if x is not None else []}}])
