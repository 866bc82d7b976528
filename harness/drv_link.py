"""drivers for link negotiation and the LLC header"""
import json
from load import mod, outcome, B, rng

F = {"it": "max_info_transmit", "ir": "max_info_receive", "wt": "window_transmit", "wr": "window_receive"}


def params(n):
    return {k: int(getattr(n, a)) for k, a in F.items()}


def negotiation(rec, tier, gens):
    ng = mod("hdlc.negotiation")
    rnd = rng()

    def obs(n, err):
        e, v = outcome(lambda: (B(n.info), B(n.content), len(n)))
        if v and v[0] != v[1]:
            v = ([], [], -1)
        return {"e": err, "p": params(n), "oe": e, "offer": v[0] if v else [], "len": v[2] if v else -1}

    def new(p=None):
        p = p or {"it": 128, "ir": 128, "wt": 1, "wr": 1}
        e, n = outcome(lambda: ng.Negotiation(**{F[k]: v for k, v in p.items()}))
        return n, {"ev": "new", "p": p, "o": obs(n, e)}

    def ua(n, c):
        e, _ = outcome(lambda: n.set_from_UA(bytes(c)))
        return {"ev": "ua", "c": B(c), "o": obs(n, e)}

    for g in gens:
        for i, b in enumerate(json.load(open(g))):
            n, e0 = new()
            ev = [e0]
            for s in b["h"]:
                if s["op"] == "set":
                    e, _ = outcome(lambda: setattr(n, F[s["f"]], s["v"]))
                    ev.append({"ev": "set", "f": s["f"], "v": s["v"], "o": obs(n, e)})
                elif s["op"] == "offer":
                    ev.append({"ev": "offer", "o": obs(n, "")})
                elif s["op"] in ("ua", "peerua"):
                    ev.append(ua(n, s["c"]))
            rec.case(f"spec{i}", ev)
    infos = (32, 33, 64, 127, 128, 129, 200, 254, 255, 256, 257, 511, 512, 1000, 1024, 2029, 2030)
    for it in infos:
        for ir in infos:
            p = {"it": it, "ir": ir, "wt": rnd.randrange(1, 8), "wr": rnd.randrange(1, 8)}
            n, ev = new(p)
            m, ev2 = new()
            e, c = outcome(lambda: bytes(n.info))
            rec.case(f"new{p}", [ev])
            rec.case(f"peer{p}", [ev2, ua(m, c or b"")])
    for wt in range(1, 8):
        for wr in range(1, 8):
            for it, ir in ((128, 128), (2030, 2030), (200, 128)):
                rec.case(f"win{wt}-{wr}-{it}", [new({"it": it, "ir": ir, "wt": wt, "wr": wr})[1]])

    def tlv(t, v, w=None):
        w = w or rnd.choice((1, 2, 4))
        return bytes((t, w)) + (v % 256 ** w).to_bytes(w, "big")
    for i in range(1200 if tier == "quick" else 30000):
        n, e0 = new({"it": rnd.choice(infos), "ir": rnd.choice(infos), "wt": rnd.randrange(1, 8), "wr": rnd.randrange(1, 8)})
        ev = [e0]
        for _ in range(rnd.randrange(1, 4)):
            body = b""
            for _ in range(rnd.choice((0, 1, 2, 2, 3, 4, 4, 5))):
                t = rnd.choice((5, 6, 7, 8))
                if rnd.random() < .05:
                    t = rnd.choice((0, 1, 4, 9, 128, 255))
                if t in (5, 6):
                    v, w = rnd.choice(infos), rnd.choice((2, 2, 4, 3))
                    if v < 256 and rnd.random() < .5:
                        w = 1
                else:
                    v, w = rnd.randrange(1, 8), rnd.choice((1, 4, 4, 2, 8))
                if rnd.random() < .08:
                    v = rnd.choice((0, 8, 31, 2031, 65535, 1))
                body += tlv(t, v, w)
            c = bytearray((0x81, 0x80, len(body) & 255)) + body if body or rnd.random() < .5 else bytearray()
            k = rnd.random()
            if k < .12 and c:
                c[rnd.randrange(len(c))] = rnd.randrange(256)
            elif k < .2 and c:
                del c[rnd.randrange(len(c)):]
            elif k < .28 and len(c) > 3:                       # truncated parameter with a matching group length
                del c[-rnd.randrange(1, len(c) - 2):]
                c[2] = len(c) - 3
            elif k < .3:
                c += bytes((rnd.randrange(256),))
            ev.append(ua(n, c))
        rec.case(f"rnd{i}", ev)


def llc(rec, tier, gens):
    sl = mod("hdlc.sub_layer")
    rnd = rng()

    def obs(f):
        def g():
            x = f()
            return {"bytes": B(x.content), "info": B(x.info), "len": len(x)}
        e, v = outcome(g)
        return dict({"bytes": [], "info": [], "len": -1}, **(v or {}), e=e)

    def rd(b):
        rec.case(f"rd{b.hex()}", [{"ev": "llcrd", "bytes": B(b), "o": obs(lambda: sl.LLC(content=bytearray(b)))}])
    for n in (0, 1, 2, 3, 10, 128, 2000):
        a = rnd.randbytes(n)
        rec.case(f"mk{n}", [{"ev": "llcmk", "apdu": B(a), "o": obs(lambda: sl.LLC(message=a))}])
    for i in range(3):
        for x in range(256):
            h = [0xe6, rnd.choice((0xe6, 0xe7)), 0]
            h[i] = x
            rd(bytes(h) + rnd.randbytes(rnd.choice((0, 1, 5))))
    for x in (0xe6, 0xff, 0xe7, 0):
        for y in (0xe6, 0xe7, 0xff, 0):
            for z in (0, 1, 0xe6):
                for n in (0, 1, 2, 3, 4, 60):
                    rd((bytes((x, y, z)) + rnd.randbytes(60))[:n])
    rd(b"")
    for i in range(300 if tier == "quick" else 5000):
        a = rnd.randbytes(rnd.choice((0, 1, 3, 4, 20, 300)))
        rd(bytes((rnd.choice((0xe6, 0xff)), rnd.choice((0xe6, 0xe7)), 0)) + a)
