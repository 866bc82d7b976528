"""driver for float cells"""
import math
import struct
from load import mod, outcome, B, rng


def d8(v):
    return list(struct.pack(">d", v))


def run(rec, tier, gens):
    rnd = rng()
    cdt = mod("types.common_data_types")
    classes = {4: cdt.Float32, 8: cdt.Float64}

    def double():
        k = rnd.random()
        s, m = rnd.randrange(2) << 63, rnd.choice((0, 1, (1 << 52) - 1, rnd.getrandbits(52), rnd.getrandbits(52)))
        if k < .35:      # a tie or nearly
            m = (rnd.getrandbits(23) << 29) + rnd.choice((0, 1, (1 << 28) - 1, 1 << 28, (1 << 28) + 1, (1 << 29) - 1))
        if k < .75:
            e = rnd.choice((0, 1, 2046, 1023, 896, 897, 872, 873, 874, 1150, 1151, rnd.randrange(870, 900), rnd.randrange(1140, 1154), rnd.randrange(860, 1160), rnd.randrange(2047)))
        elif k < .8:
            return struct.unpack(">f", struct.pack(">I", rnd.getrandbits(32)))[0]
        elif k < .9:
            return float(rnd.choice((0, 1, -1, 10 ** rnd.randrange(20), rnd.randrange(-1 << 53, 1 << 53), 16777217, 33554433, 1e-3, .1, .3, 3.4028234663852886e38, 3.4028235677973366e38, 1e-45, 7e-46)))
        elif k < .92:
            return rnd.choice((math.inf, -math.inf, math.nan, -0.0, 5e-324))
        else:
            e = rnd.randrange(2047)
        return struct.unpack(">d", struct.pack(">Q", s | e << 52 | m))[0]

    def shown(e, x, cls):
        o = {"e": e, "c": [], "enc": [], "dec": [0], "back": []}
        bad, _ = outcome(lambda: (B(x.contents), B(x.encoding), str(x)))
        if x is not None and bad:
            o["e"] = "Shows" + bad
        elif x is not None:
            o["c"], o["enc"] = B(x.contents), B(x.encoding)
            e, v = outcome(x.decode)
            o["dec"] = d8(v) if v is not None else [0]
            t = str(x)
            e, y = outcome(lambda: cls(t))
            o["back"] = B(y.contents) if y is not None else [-1]
        return o

    n = 30000 if tier == "thorough" else 2500
    for i in range(n):
        w = rnd.choice((4, 4, 8))
        cls = classes[w]
        how = rnd.choice(("number", "number", "text", "hextext", "integer", "other", "contents", "octets", "badtext", "none"))
        ev = {"ev": "float", "w": w, "how": how, "d": [0] * 8, "s": []}
        if how in ("number", "text", "hextext", "integer", "other"):
            v = double()
            if how == "integer":
                if not math.isfinite(v) or abs(v) > 1e300:
                    v = 7.0
                v = float(int(v))
                val = int(v)
            elif how == "other":
                src = cdt.Float64(bytearray(d8(v)))
                if w == 8:
                    src = cdt.Float32(bytearray(rnd.randrange(256) for _ in range(4)))
                    v = struct.unpack(">f", src.contents)[0]
                val = src
            elif how == "number":
                val = v
            elif how == "text":
                val = rnd.choice((repr(v), "%.17g" % v, repr(v).upper() if math.isfinite(v) else repr(v)))
                if v != v:
                    continue
            else:
                if not math.isfinite(v):
                    continue
                val = v.hex()
            ev["d"] = d8(v)
        elif how in ("contents", "octets"):
            if rnd.random() < .5:
                s = d8(double()) if w == 8 else list(rnd.choice((struct.pack(">I", rnd.getrandbits(32)), struct.pack(">I", rnd.choice((0, 1, 0x7fffff, 0x800000, 0x7f7fffff, 0x7f800000, 0xff800000, 0x80000000, 0x807fffff, 0x3f800000))))))
            else:
                s = [rnd.randrange(256) for _ in range(rnd.choice((w, w, w - 1, w + 1, 0, 8, 4)))]
            if how == "octets":
                s = [rnd.choice((cls.TAG[0], cls.TAG[0], cls.TAG[0], 23, 24, 9))] + s
            ev["s"] = s
            val = bytearray(s) if how == "contents" else bytes(s)
        elif how == "badtext":
            val = rnd.choice(("", "x", "1,5", "1.5q", "0x", "1.2.3", "p5", "--1", "1e400", "-1e400", "0x1p2000", "inf" if rnd.random() < .3 else "z"))
        else:
            val = None
        e, x = outcome(lambda: cls(val))
        ev["o"] = shown(e, x, cls)
        rec.case(f"float{i}", [ev])
