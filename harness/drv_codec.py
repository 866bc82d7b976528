"""drivers for the codecs of the COSEM data types: common_data_types (cdt), useful_types (ut), cosem_pdu (pdu)"""
import json
from load import mod, outcome, B, rng

HUGE = 1 << 24


def libs():
    return mod("types.common_data_types"), mod("types.useful_types"), mod("types.cosem_pdu")


def mag(n):
    return list(n.to_bytes((n.bit_length() + 7) // 8, "big"))


# ------------------------------------------------------------------ length octets
def lengths(rec, tier, gens):
    cdt, ut, pdu = libs()
    rnd = rng()

    def enc(i, f, n):
        if f == "pdu.put":
            def go():
                b = pdu.Buffer.allocate(20)
                b.set_pos(3)
                k = b.put_len(n)
                if b.get_pos() != 3 + k or bytes(b)[:3] != bytes(3) or any(bytes(b)[3 + k:]):
                    return [-1], k
                return B(bytes(b)[3:3 + k]), k
            e, v = outcome(go)
        elif f == "pdu.decide":
            e, v = outcome(lambda: (B(pdu.encode_length(n)), pdu.decide_len(n)))
        else:
            lib = {"cdt": cdt, "ut": ut}[f]
            e, v = outcome(lambda: B(lib.encode_length(n)))
            v = v and (v, len(v))
        b, k = v or ([], -1)
        rec.case(f"enc-{f}-{n}", [{"ev": "lenenc", "f": f, "mag": mag(n), "o": {"e": e, "b": b, "n": k}}])

    def dec(f, s):
        if f == "pdu":
            def go():
                b = pdu.Buffer.wrap(bytes(s))
                n = b.get_length()
                return n, bytes(b)[b.get_pos():]
        else:
            lib = {"cdt": cdt, "ut": ut}[f]
            def go():
                return lib.get_length_and_pdu(bytes(s))
        e, v = outcome(go)
        n, rest = v or (0, b"")
        rec.case(f"dec-{f}-{bytes(s).hex()}", [{"ev": "lendec", "f": f, "s": B(s), "o": {"e": e, "mag": mag(n), "rest": B(rest)}}])

    ns = set(range(0, 600)) | {65534, 65535, 65536, 65537, (1 << 24) - 1, 1 << 24, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 40) - 1, 1 << 40}
    for k in range(9, 66):
        ns |= {(1 << k) - 1, 1 << k, (1 << k) + rnd.randrange(1 << k)}
    if tier == "thorough":
        ns |= set(range(0, 70000))
        ns |= {rnd.randrange(1 << rnd.randrange(1, 100)) for _ in range(30000)}
    for n in sorted(ns):
        for f in ("cdt", "ut", "pdu.put", "pdu.decide"):
            enc(0, f, n)
    ss = [b""] + [bytes((a,)) for a in range(256)]
    for a in range(0x80, 0x8b):
        for k in range(0, 12):
            for _ in range(4):
                ss.append(bytes((a,)) + rnd.randbytes(k))
            ss.append(bytes((a,)) + bytes(k))
            if k:
                ss.append(bytes((a,)) + bytes(k - 1) + b"\x05")
    for n in (0, 1, 127, 128, 200, 255, 256, 65535, 65536, 1 << 32):
        for w in range(1, 9):
            if n < 1 << 8 * w:
                for t in (b"", b"\0", b"\x81\x01"):
                    ss.append(bytes((0x80 + w,)) + n.to_bytes(w, "big") + t)
    for a in (0xff, 0xfe, 0x90):
        ss += [bytes((a,)) + rnd.randbytes((a & 0x7f) + d) for d in (-1, 0, 1)]
    for _ in range(3000 if tier == "thorough" else 150):
        ss.append(rnd.randbytes(rnd.randrange(1, 12)))
    for s in dict.fromkeys(ss):
        for f in ("cdt", "ut", "pdu"):
            dec(f, s)


# ------------------------------------------------------------------ value trees
def leaf(t, c, n=-1):
    return {"t": t, "c": B(c), "n": n, "v": []}


def comp(t, v):
    return {"t": t, "c": [], "n": -1, "v": v}


def tree_cdt(cdt, x):
    t = x.TAG[0]
    if t in (1, 2):
        return comp(t, [tree_cdt(cdt, el) for el in x.values])
    return leaf(t, x.contents, len(x) if t == 4 else -1)


def tree_ut(ut, x):
    v = x.value
    t = x._get_element_by_type(v.__class__).tag
    if t == 4:
        c = bytes(int("".join(map(str, v.value[i:i + 8])).ljust(8, "0"), 2) for i in range(0, len(v.value), 8))
        return leaf(t, c, len(v.value))
    if t == 9:
        return leaf(t, v.value)
    if t == 10:
        return leaf(t, v.value.encode("latin-1"))
    if t == 12:
        return leaf(t, v.value.encode("utf-8"))
    return leaf(t, v.contents)


def tree_pdu(pdu, x):
    v = x.value
    t = x._get_element_by_type(v.__class__).tag
    if t in (1, 2):
        return comp(t, [tree_pdu(pdu, el) for el in v.values])
    return leaf(t, bytes(v))


def nest(v):
    return 1 + max([nest(x) for x in v["v"]], default=0)


class Codec:
    def __init__(self, rec):
        self.rec = rec
        self.cdt, self.ut, self.pdu = libs()
        self.seen = set()

    def read(self, f, s):
        """-> outcome of reading one value: (e, {val, rest, enc, n, copy, eq})"""
        cdt, ut, pdu = self.cdt, self.ut, self.pdu
        s = bytes(s)

        def go_cdt():
            x, rest = cdt.get_instance_and_pdu_from_value(s)
            y = cdt.get_common_data_type_from(s[:1])(x.encoding)
            c = y.copy() if y.TAG[0] != 1 else y
            return dict(val=tree_cdt(cdt, x), rest=B(rest), enc=B(x.encoding), n=len(x.encoding), copy=B(c.encoding),
                        eq=bool(x == y and x == x.encoding and not x == x.encoding + b"\0" and hash(x) == hash(y)))

        def go_ut():
            x, rest = ut.get_instance_and_context(ut.Data, s)
            y = ut.Data.from_contents(x.contents)
            # get_instance_and_context cuts by the length of what it encodes; Sequences are exercised apart
            return dict(val=tree_ut(ut, x), rest=B(rest), enc=B(x.contents), n=len(x.contents), copy=B(y.contents), eq=bool(x == y))

        def go_pdu():
            buf = pdu.Buffer.wrap(s)
            x = pdu.Data.get(buf)
            rest = s[buf.get_pos():]
            out = pdu.Buffer.allocate(len(x) + 2)
            out.set_pos(1)
            k = x.put(out)
            enc = bytes(out)[1:out.get_pos()]
            y = pdu.Data.get(pdu.Buffer.wrap(enc))
            z = bytes(pdu.create_buf(y))
            return dict(val=tree_pdu(pdu, x), rest=B(rest), enc=B(enc), n=k if k == len(x) == len(enc) else -1, copy=B(z), eq=bytes(x) == z)

        e, v = outcome({"cdt": go_cdt, "ut": go_ut, "pdu": go_pdu}[f])
        return e, v or dict(val=leaf(-1, b""), rest=[], enc=[], n=-1, copy=[], eq=False)

    def dec(self, s, fs=("cdt", "ut", "pdu"), tag=""):
        s = bytes(s)
        for f in fs:
            if (f, s) in self.seen:
                continue
            self.seen.add((f, s))
            e, v = self.read(f, s)
            v["e"] = e
            self.rec.case(f"{f}:{s.hex() if len(s) < 60 else s[:50].hex() + '..' + str(len(s)) + '-' + str(hash(s))}", [{"ev": "dec", "f": f, "s": B(s), "o": v}])

    # -------------------------------------------------------------- from parts
    def make_cdt(self, v):
        cdt = self.cdt
        t, c = v["t"], bytes(v["c"])
        if t == 1:
            els = [self.make_cdt(x) for x in v["v"]]
            a = cdt.Array(type_=(cdt.Structure if els[0].TAG[0] == 2 else type(els[0])) if els else None)
            for x in els:
                a.append(x)
            return a
        if t == 2:
            els = [self.make_cdt(x) for x in v["v"]]
            if any(isinstance(x, cdt.Array) and x.values or x.TAG[0] == 2 for x in els):
                return cdt.Structure(b"\x02" + cdt.encode_length(len(els)) + b"".join(x.encoding for x in els))
            cls = type("S", (cdt.Structure,), {"ELEMENTS": tuple(cdt.StructElement(f"e{i}", type(x)) for i, x in enumerate(els))})
            return cls(tuple(els)) if els else cls(b"\x02\0")
        T = cdt.get_common_data_type_from(bytes((t,)))
        if t == 4:
            return T("".join(f"{b:08b}" for b in c)[:v["n"]])
        if t == 0:
            return T()
        return T(bytearray(c))

    def make_ut(self, v):
        ut = self.ut
        t, c = v["t"], bytes(v["c"])
        T = next(el for el in ut.Data.ELEMENTS if el.tag == t).type
        if t in (0, 255):
            x = T()
        elif t == 3:
            x = T(bool(c[0]))
        elif t == 4:
            x = T([int(b) for b in "".join(f"{b:08b}" for b in c)[:v["n"]]])
        elif t == 9:
            x = T(c)
        elif t == 10:
            x = T(c.decode("ascii"))
        elif t == 12:
            x = T(c.decode("utf-8"))
        else:
            x = T(int.from_bytes(c, "big", signed=T.SIGNED))
        return ut.Data(x)

    def make_pdu(self, v):
        pdu = self.pdu
        t, c = v["t"], bytes(v["c"])
        T = next(el for el in pdu.Data.ELEMENTS if el.tag == t).type
        if t in (1, 2):
            return pdu.Data(T([self.make_pdu(x) for x in v["v"]]))
        if issubclass(T, pdu.INTEGER):
            return pdu.Data(T.from_int(int.from_bytes(c, "big", signed=T.SIGNED())))
        return pdu.Data(T(memoryview(c)))

    def put(self, f, v):
        def go():
            if f == "cdt":
                x = self.make_cdt(v)
                return x.encoding, len(x.encoding)
            if f == "ut":
                x = self.make_ut(v)
                return x.contents, len(x.contents)
            x = self.make_pdu(v)
            return bytes(self.pdu.create_buf(x)), len(x)
        e, r = outcome(go)
        enc, n = r or (b"", -1)
        k = json.dumps(v, separators=(",", ":"))
        self.rec.case(f"put-{f}:{k[:120]}{hash(k) if len(k) > 120 else ''}", [{"ev": "put", "f": f, "val": v, "o": {"e": e, "enc": B(enc), "n": n}}])


CDT = [0, 3, 4, 5, 6, 9, 10, 12, 13, 15, 16, 17, 18, 20, 21, 22, 23, 24, 25, 26, 27]
UT = [0, 3, 4, 5, 6, 9, 10, 12, 13, 15, 16, 17, 18, 20, 21, 22, 255]
PDU = [0, 3, 5, 6, 9, 13, 15, 16, 17, 18, 20, 21, 22, 23, 24, 25, 26, 27, 255]
SIZE = {0: 0, 255: 0, 3: 1, 13: 1, 15: 1, 17: 1, 22: 1, 16: 2, 18: 2, 5: 4, 6: 4, 23: 4, 27: 4, 26: 5, 20: 8, 21: 8, 24: 8, 25: 12}


def lenenc(n, rnd=None):
    """length octets; with rnd sometimes more of them than needed (readers must cope)"""
    need = max(1, (n.bit_length() + 7) // 8)
    if rnd and rnd.random() < .15:
        w = rnd.choice([k for k in (1, 2, 3, 4, 5, 8) if k >= need])
        return bytes((0x80 + w,)) + n.to_bytes(w, "big")
    if n < 128:
        return bytes((n,))
    w = 4 if need == 3 else need
    return bytes((0x80 + w,)) + n.to_bytes(w, "big")


def contents(rnd, t, flavour):
    if flavour == "cdt" and t == 25:
        return contents(rnd, 26, flavour) + contents(rnd, 27, flavour) + rnd.choice((b"\x80\0", b"\0\0", b"\xff\x88", b"\0\xb4")) + rnd.choice((b"\0", b"\xff", b"\x80"))
    if flavour == "cdt" and t == 26:
        y = rnd.choice((0xffff, rnd.randrange(1, 10000)))
        return y.to_bytes(2, "big") + bytes((rnd.choice((*range(1, 13), 253, 254, 255)), rnd.choice((*range(1, 29), 253, 254, 255)), 255))
    if flavour == "cdt" and t == 27:
        return bytes((rnd.choice((*range(24), 255)), rnd.choice((*range(60), 255)), rnd.choice((*range(60), 255)), rnd.choice((*range(100), 255))))
    if t == 3 and flavour != "pdu":
        return bytes((rnd.choice((0, 1)),))
    k = SIZE[t]
    return rnd.choice((rnd.randbytes(k), rnd.randbytes(k), bytes(k), b"\xff" * k, b"\x80" + bytes(k - 1) if k else b"", b"\x7f" + b"\xff" * (k - 1) if k else b""))


STR = (0, 1, 2, 3, 5, 8, 16, 31, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300)


def gen(rnd, f, depth, t=None):
    """a random value of flavour f"""
    tags = {"cdt": CDT, "ut": UT, "pdu": PDU}[f]
    if t is None:
        t = rnd.choice((1, 2)) if f != "ut" and depth > 0 and rnd.random() < .5 else rnd.choice(tags)
    if t in (1, 2):
        n = rnd.choice((0, 1, 1, 2, 2, 3, 4, 7))
        if depth == 1 and rnd.random() < .06:
            n = rnd.choice((127, 128, 129, 255, 256, 260))
        if t == 1 and f == "cdt":
            et = rnd.choice((1, 2, *CDT)) if depth > 1 else rnd.choice(CDT)
            v = [gen(rnd, f, depth - 1, et) for _ in range(n)]
        else:
            v = [gen(rnd, f, depth - 1 if n < 20 else 0) for _ in range(n)]
        return comp(t, v)
    if t == 4:
        n = rnd.choice((0, 1, 7, 8, 9, 15, 16, 17, 24, 127, 128, 129, rnd.randrange(300)))
        c = bytearray(rnd.randbytes((n + 7) // 8))
        if n % 8:
            c[-1] &= 0xff << (8 - n % 8) & 0xff
        return leaf(4, c, n)
    if t in (9, 10, 12):
        n = rnd.choice(STR) if rnd.random() < .3 else rnd.randrange(6)
        if t == 9:
            return leaf(t, rnd.randbytes(n))
        if t == 10:
            return leaf(t, bytes(rnd.randrange(128) for _ in range(n)))
        return leaf(t, "".join(chr(rnd.choice((rnd.randrange(128), rnd.randrange(0x80, 0x800), rnd.randrange(0x800, 0xd800), rnd.randrange(0xe000, 0x110000)))) for _ in range(n // 2)).encode())
    return leaf(t, contents(rnd, t, f))


def octets(v, rnd=None):
    b = bytes((v["t"],))
    c = bytes(v["c"])
    if v["t"] in (1, 2):
        return b + lenenc(len(v["v"]), rnd) + b"".join(octets(x, rnd) for x in v["v"])
    if v["t"] == 4:
        return b + lenenc(v["n"], rnd) + c
    if v["t"] in (9, 10, 12):
        return b + lenenc(len(c), rnd) + c
    return b + c


def systematic(f):
    """every type with every boundary size and edge contents"""
    tags = {"cdt": CDT, "ut": UT, "pdu": PDU}[f]
    for t in tags:
        if t in SIZE:
            k = SIZE[t]
            if f == "cdt" and t in (25, 26, 27):
                continue
            for c in {bytes(k), b"\xff" * k, *(bytes([a] + [0] * (k - 1)) for a in (1, 2, 127, 128, 255) if k), *(bytes([255] * (k - 1) + [a]) for a in (0, 1, 127, 128, 254) if k), bytes(range(1, k + 1))}:
                if t == 3 and f != "pdu" and c[0] > 1:
                    continue
                yield leaf(t, c)
        elif t == 4:
            for n in (*range(0, 34), 63, 64, 65, 119, 120, 121, 127, 128, 129, 136, 255, 256, 257, 1000, 1023, 1024, 2047, 2048, 2049):
                c = bytearray(b"\xa5\xff\x81" * 100)[:(n + 7) // 8]
                if n % 8:
                    c[-1] &= 0xff << (8 - n % 8) & 0xff
                yield leaf(4, c, n)
        else:
            for n in STR + (1000, 65535 if t == 9 else 999, 65536 if t == 9 else 998):
                yield leaf(t, bytes(65 + i % 26 for i in range(n)))
    yield from ()
    if f != "ut":
        for t in (1, 2):
            for n in (0, 1, 2, 126, 127, 128, 129, 255, 256, 257):
                yield comp(t, [leaf(17, (i & 255,)) for i in range(n)])
                if n < 4:
                    yield comp(t, [comp(3 - t, [leaf(17, (i,))] * n) for i in range(n)])
                    yield comp(t, [comp(t, [leaf(9, bytes(n))] * i) for i in range(n)])
        for n in (16383, 32767, 32768, 36864) if f == "cdt" else (32768,):
            yield comp(2, [leaf(9, bytes(n)), leaf(17, (7,))])
        v = leaf(22, b"\x05")
        for i in range(15):
            v = comp(1 + i % 2, [v])
            yield v


def roundtrip(rec, tier, gens, fs=("cdt",)):
    c = Codec(rec)
    rnd = rng()
    big = tier == "thorough"
    for g in gens:
        vals = json.load(open(g))
        rnd.shuffle(vals)
        for v in vals[:20000 if big else 700]:
            c.dec(v["val"], fs)
    for f in fs:
        for v in systematic(f):
            c.put(f, v)
            c.dec(octets(v), (f,))
            c.dec(octets(v) + b"\x11\x07", (f,))
        if f != "pdu":
            for b in range(256):                       # every true boolean, alone and nested
                c.dec(bytes((3, b)), (f,))
                if f == "cdt":
                    c.dec(bytes((2, 2, 3, b, 17, b)), (f,))
        for i in range(12000 if big else 900):
            v = gen(rnd, f, rnd.choice((0, 0, 1, 2, 3)))
            if i % 2 == 0:
                c.put(f, v)
            c.dec(octets(v, rnd) + rnd.choice((b"", b"", b"\0", rnd.randbytes(rnd.randrange(9)))), (f,))


def cdt(rec, tier, gens):
    roundtrip(rec, tier, gens, ("cdt",))


def pdu(rec, tier, gens):
    roundtrip(rec, tier, gens, ("pdu",))


def ut(rec, tier, gens):
    roundtrip(rec, tier, gens, ("ut",))


def malformed(rec, tier, gens):
    c = Codec(rec)
    rnd = rng()
    big = tier == "thorough"
    c.dec(b"")
    for a in range(256):
        c.dec(bytes((a,)))
        for b in (0, 1, 2, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x88, 0xff):
            c.dec(bytes((a, b)))
    for g in gens:
        vals = json.load(open(g))
        rnd.shuffle(vals)
        for v in vals[:20000 if big else 600]:
            c.dec(v["raw"])
    for f in ("cdt", "ut", "pdu"):
        for v in systematic(f):
            s = octets(v)
            if len(s) < 300:
                for k in {0, 1, 2, 3, len(s) // 2, len(s) - 2, len(s) - 1}:
                    if 0 <= k < len(s):
                        c.dec(s[:k], (f,))
        for _ in range(9000 if big else 700):
            v = gen(rnd, f, rnd.choice((0, 1, 1, 2, 3)))
            s = bytearray(octets(v, rnd))
            if len(s) > 120:
                continue
            how = rnd.randrange(6)
            if how == 0:
                s = s[:rnd.randrange(len(s))]
            elif how == 1:
                for _ in range(rnd.randrange(1, 4)):
                    s[rnd.randrange(len(s))] = rnd.choice((0, 1, 2, 4, 9, 0x80, 0x81, 0xff, rnd.randrange(256)))
            elif how == 2:
                del s[rnd.randrange(len(s))]
            elif how == 3:
                s.insert(rnd.randrange(len(s) + 1), rnd.randrange(256))
            elif how == 4 and len(s) > 1:
                s[1] = (s[1] + rnd.choice((-1, 1, 2, 100))) & 255
            else:
                s = bytearray(rnd.choice((1, 2, 4, 9, 10, 12, 25, 26, 27)) for _ in range(1)) + rnd.randbytes(rnd.randrange(16))
            c.dec(s, (f,))
        # announced sizes far beyond what is there
        for t in (1, 2, 4, 9, 10, 12):
            for w in (1, 2, 3, 4, 5, 8):
                c.dec(bytes((t, 0x80 + w)) + b"\xff" * w + rnd.randbytes(5), (f,))
                c.dec(bytes((t, 0x80 + w)) + b"\xff" * (w - 1), (f,))
        for depth in (5, 10, 20):
            c.dec(b"\x02\x01" * depth, (f,))
            c.dec(b"\x02\x01" * depth + b"\x11", (f,))
            c.dec(b"\x02\x02" * depth + b"\x11\x01", (f,))
    for a in range(0, 256, 1 if big else 7):      # dates and times, octet by octet
        for base in (b"\x1a\x07\xe7\x02\x1c\x02", b"\x1b\x17\x3b\x3b\x63", b"\x19\x07\xe7\x02\x1c\x02\x17\x3b\x3b\x63\x80\0\0"):
            for i in range(1, len(base)):
                s = bytearray(base)
                s[i] = a
                c.dec(s, ("cdt", "pdu"))
    for y, m in ((2000, 2), (1900, 2), (2024, 2), (2023, 2), (0xffff, 2), (2023, 4), (2023, 255), (0xffff, 12)):
        for d in (0, 28, 29, 30, 31, 32, 252, 253, 255):
            for w in (0, 1, 2, 3, 4, 5, 6, 7, 8, 255):
                c.dec(b"\x1a" + y.to_bytes(2, "big") + bytes((m, d, w)), ("cdt",))
