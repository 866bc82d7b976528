"""driver for attributes that follow one another: registers, limits, permissions, secrets"""
import json
import os
import tomllib
from load import REPO, outcome, rng
import drv_collection as dc

WIDTH = {15: 1, 17: 1, 16: 2, 18: 2, 5: 4, 6: 4, 20: 8, 21: 8}
SIGNED = (5, 15, 16, 20)
LN = {1: (0, 0, 96, 5, 0, 255), 3: (1, 0, 1, 8, 0, 255), 4: (1, 0, 1, 6, 0, 255), 5: (1, 0, 1, 4, 0, 255)}
LIM, MON, ARB, ASS = (0, 0, 17, 0, 0, 255), (0, 0, 16, 1, 0, 255), (0, 0, 96, 3, 20, 255), (0, 0, 40, 0, 3, 255)


def pts(s):
    return [ord(c) for c in s]


def shown(n, p):
    """n * 10**p as it is written"""
    d = str(abs(n))
    if p >= 0:
        d = d + "0" * p if n else "0"
    else:
        d = d.zfill(1 - p)
        d = d[:p] + "." + d[p:]
    return ("-" if n < 0 else "") + d


def linked(rec, tier, gens):
    col, cdt, cst, ut = dc.lib()[:4]
    r = rng()
    with open("config.toml", "rb") as f:
        units = [0] * 255
        for it in tomllib.load(f)["DLMS"]["Unit"]:
            units[it["e"] - 1] = it.get("scaler", 0)

    class Play:
        """one collection with a register of class k and what follows it"""
        def __init__(self, k):
            c = self.c = col.Collection()
            add = lambda i, v, n: c.add(class_id=ut.CosemClassId(i), version=cdt.Unsigned(v), logical_name=cst.LogicalName(bytearray(n)))
            self.k, self.reg = k, add(k, 0, LN[k])
            self.lim, self.mon, self.arb = add(71, 0, LIM), add(21, 0, MON), add(68, 0, ARB)
            self.ass = add(15, 1, ASS)
            self.idx = (2, 3) if k == 5 else (2,)
            self.si = 4 if k == 5 else 3
            self.u = None
            self.evs = []
            self.limits = False

        def look(self, e):
            def f():
                g = [self.reg.get_attr(i) for i in self.idx]
                su = self.reg.get_attr(self.si) if self.k != 1 else None
                enc = lambda v: [] if v is None else list(v.encoding)
                number = lambda v: v is not None and v.encoding[0] in WIDTH
                lim = [self.lim.get_attr(i) for i in (3, 4, 5)]
                return {"reg": {"vs": [enc(v) for v in g], "su": enc(su), "ts": [pts(str(v)) if number(v) else [] for v in g],
                                "rs": [pts(v.report) if number(v) else [] for v in g], "u": pts(str(cdt.Unit(self.u))) if self.u else [],
                                "lim": [enc(v) for v in lim], "lts": [pts(str(v)) if number(v) else [] for v in lim]},
                        "mon": [list(v.encoding) for v in self.mon.thresholds],
                        "rows": [[int(b) for b in str(v)] for v in self.arb.permissions_table],
                        "secret": [] if self.ass.LLS_secret is None else [list(self.ass.LLS_secret.contents)]}
            x, v = outcome(f)
            return dict(v or {}, e=e) if not x else {"e": "Look" + x}

        def do(self, ev, fn, **kw):
            e, v = outcome(fn)
            o = self.look(e)
            self.evs.append({"ev": ev, **kw, "o": o})
            if o["e"].startswith("Look"):
                o.update(e=o["e"], reg={"vs": [], "su": [], "ts": [], "rs": [], "u": [], "lim": [], "lts": []}, mon=[], rows=[], secret=[])
            return e, v

        def step(self, op):
            k = op["ev"]
            reg, i = self.reg, op.get("a", 1)
            if k == "new":
                self.do("new", lambda: None, k=self.k, us=units)
            elif k == "value":
                self.do(k, lambda: reg.set_attr(self.idx[i - 1], bytes(op["s"])), a=i, s=op["s"])
            elif k == "scaler":
                self.u = op["u"]
                v = bytes((2, 2, 15, op["p"] % 256, 22, op["u"]))
                self.do(k, lambda: reg.set_attr(self.si, v), p=op["p"], u=op["u"])
            elif k == "text":
                self.do(k, lambda: reg.set_attr(self.idx[i - 1], "".join(map(chr, op["t"]))), a=i, t=op["t"])
            elif k in ("encode", "copy"):
                s = "".join(map(chr, op.get("t", [])))
                e, v = self.do(k, {"encode": lambda: reg.encode(self.idx[i - 1], s) if op.get("how") else reg.get_attr(self.idx[i - 1]).get_copy(s),
                                  "copy": lambda: reg.get_attr(self.idx[i - 1]).copy()}[k],
                               a=i, **({"t": op["t"]} if k == "encode" else {}))
                x, got = outcome(lambda: (list(v.encoding), pts(str(v)))) if not e else ("", None)
                self.evs[-1]["o"].update(enc=got[0] if got else [], text=got[1] if got else pts(x))
            elif k == "watch":
                self.do(k, lambda: self.lim.set_attr(2, self.definition()))
            elif k == "limit":
                self.do(k, lambda: self.lim.set_attr(2 + op["i"], bytes(op["s"])), i=op["i"], s=op["s"])
            elif k == "limittext":
                self.do(k, lambda: self.lim.set_attr(2 + op["i"], "".join(map(chr, op["t"]))), i=op["i"], t=op["t"])
            elif k == "monitor":
                self.do(k, lambda: self.mon.set_attr(3, self.definition()))
            elif k == "thresholds":
                self.do(k, lambda: self.mon.set_attr(2, bytes([1, len(op["ss"])]) + b"".join(map(bytes, op["ss"]))), ss=op["ss"])
            elif k == "rows":
                self.do(k, lambda: self.arb.set_attr(3, bytes([1, len(op["rows"])]) + b"".join(self.bits(x) for x in op["rows"])), rows=op["rows"])
            elif k == "acts":
                one = bytes([2, 2, 9, 6, 0, 0, 10, 0, 0, 255, 18, 0, 1])
                self.do(k, lambda: self.arb.set_attr(2, bytes([1, op["n"]]) + one * op["n"]), n=op["n"])
            elif k == "mech":
                self.do(k, lambda: self.ass.set_attr(6, bytes([9, 7, 0x60, 0x85, 0x74, 5, 8, 2, op["m"]])), m=op["m"])
            elif k == "secret":
                self.do(k, lambda: self.ass.set_attr(7, bytes([9, len(op["c"])]) + bytes(op["c"])), c=op["c"])

        def definition(self):
            return bytes([2, 3, 18, 0, self.k, 9, 6]) + bytes(LN[self.k]) + bytes([15, 2])

        @staticmethod
        def bits(x):
            n = (len(x) + 7) // 8
            return bytes([4, len(x)]) + (int("".join(map(str, x)).ljust(8 * n, "0"), 2).to_bytes(n, "big") if x else b"")

    def play(key, ops):
        p = Play(ops[0]["k"])
        for op in ops:
            p.step(op)
        rec.case(key, p.evs)

    for f in gens:
        for i, g in enumerate(json.load(open(f))):
            play("walk%d" % i, g["ops"])

    def number(t=None):
        t = t or r.choice(sorted(WIDTH))
        w = 8 * WIDTH[t]
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if t in SIGNED else (0, (1 << w) - 1)
        lo, hi = max(lo, -10 ** 8), min(hi, 10 ** 8)
        n = r.choice((0, 1, lo, hi, r.randrange(lo, hi + 1), min(hi, r.randrange(1000))))
        return [t] + list((n % (1 << w)).to_bytes(WIDTH[t], "big")), n

    others = ([9, 2, 65, 66], [0], [10, 1, 49], [22, 3], [4, 3, 160], [23, 63, 128, 0, 0], [1, 0], [2, 0], [3, 1], [12, 1, 65])
    for n in range(250 if tier == "quick" else 4000):
        k = r.choice((1, 3, 3, 4, 4, 5, 5))
        ops = [{"ev": "new", "k": k}]
        t = r.choice(sorted(WIDTH))
        held, power, watched, lt, lp = {}, 0, 0, 0, 0
        mon, mech, scaled = -1, -1, False
        for _ in range(r.randrange(3, 25)):
            a = r.choice((1, 2)) if k == 5 else 1
            what = r.choice(("value", "value", "value", "scaler", "text", "text", "encode", "copy", "watch", "limit", "limittext", "limittext", "monitor",
                             "thresholds", "rows", "acts", "mech", "secret"))
            op = {"ev": what}
            here = lambda q, e: pts(shown(number(q)[1] if r.random() < .8 else r.choice((-1, 1)) * r.randrange(10 ** 8), e))
            if what == "value":
                s = number(t if r.random() < .85 else None)[0] if r.random() < .9 else list(r.choice(others))
                cur, peer = held.get(a), held.get(3 - a) if k == 5 else None
                if s[0] in (1, 2, 3) and cur is None and k == 1:
                    continue                    # a Data object holds anything
                if s[0] == 3 and k == 1:
                    continue
                if (s[0] == cur if cur is not None else s[0] not in (1, 2, 3) and peer in (None, s[0])):
                    held[a] = s[0]
                op.update(a=a, s=s)
            elif what == "scaler":
                if k == 1 or watched and not scaled:
                    continue
                op.update(p=r.choice((-4, -3, -2, -1, 0, 0, 1, 2, 3)), u=r.choice((27, 30, 31, 33, 35, 255, 8, 1)))
                if abs(op["p"] - units[op["u"] - 1]) > 6:
                    continue
                power, scaled = op["p"] - units[op["u"] - 1], True
            elif what in ("text", "encode"):
                if held.get(a) not in WIDTH:
                    continue
                op.update(a=a, t=here(held[a], power), how=r.random() < .6)
            elif what == "copy":
                if held.get(a) not in WIDTH:
                    continue
                op.update(a=a)
            elif what == "watch":
                if watched or k == 5 or held.get(1) not in WIDTH:
                    continue
                watched, lt = True, held[1]
            elif what == "limit":
                op.update(i=r.choice((1, 2, 3)), s=number(lt if watched and r.random() < .8 else None)[0])
                if not watched and r.random() < .7:
                    continue
            elif what == "limittext":
                if not watched:
                    continue
                op.update(i=r.choice((1, 2, 3)), t=here(lt, power if k in (3, 4) else 0))
            elif what == "monitor":
                if mon >= 0 or held.get(1) not in WIDTH:
                    continue
                mon = held[1]
            elif what == "thresholds":
                if mon < 0:
                    continue
                op["ss"] = [number(mon)[0] for _ in range(r.randrange(4))]
                if r.random() < .25:
                    op["ss"].append(number()[0])
            elif what == "rows":
                op["rows"] = [[r.randrange(2) for _ in range(r.choice((0, 1, 2, 3, 8, 9)))] for _ in range(r.randrange(4))]
            elif what == "acts":
                op["n"] = r.choice((0, 1, 2, 3, 8, 9))
            elif what == "mech":
                if mech >= 0:
                    continue
                mech = op["m"] = r.choice((0, 1, 2))
            elif what == "secret":
                op["c"] = [r.randrange(256) for _ in range(r.choice((0, 1, 8, 15, 16, 16, 17)))]
            ops.append(op)
        play("random%d" % n, ops)
