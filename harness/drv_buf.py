"""driver for the positioned octet buffer (types/byte_buffer.py and its pdu extension)"""
import json
from load import mod, outcome, B, rng


def run(rec, tier, gens):
    pdu = mod("types.cosem_pdu")
    bb = mod("types.byte_buffer")
    rnd = rng()
    OPS = ("read", "readpos", "get", "getuint8", "getuint", "getuintpos", "write", "writepos", "putint", "putlen", "setpos", "slice", "frozen", "allocate", "wrap")

    class Heap:
        def __init__(self, cls):
            self.cls, self.bufs, self.views = cls, [], []

        def do(self, o):
            op = o["op"]
            b = self.bufs[o["b"] - 1] if "b" in o else None
            view = new = None
            r, k = [], -1
            v = bytes(o.get("v", ()))
            n = o.get("n", 0)
            at = o.get("at", 0)
            calls = {
                "allocate": lambda: self.cls.allocate(n),
                "wrap": lambda: self.cls.wrap(v if o["ro"] else bytearray(v)),
                "slice": lambda: b.slice(),
                "frozen": lambda: b.frozen(),
                "read": lambda: b.read(n) if n != 1 or rnd.random() < .5 else b.read(),
                "readpos": lambda: b.read_pos(at, n) if n != 1 or rnd.random() < .5 else b.read_pos(at),
                "get": lambda: b.get(),
                "getuint8": lambda: bytes((b.get_uint8(),)),
                "getuint": lambda: b.get_uint(n).to_bytes(n, "big"),
                "getuintpos": lambda: b.get_uint_pos(at, n).to_bytes(n, "big"),
                "write": lambda: b.write(v) if rnd.random() < .6 else b.write(memoryview(v), len(v)),
                "writepos": lambda: b.write_pos(v, at) if rnd.random() < .6 else b.write_pos(memoryview(v), at, len(v)),
                "putint": lambda: b.put_int(n),
                "putlen": lambda: b.put_len(n),
                "setpos": lambda: b.set_pos(at)}
            e, x = outcome(calls[op])
            if e == "":
                if op in ("allocate", "wrap", "slice", "frozen"):
                    self.bufs.append(x)
                elif op in ("read", "readpos"):
                    self.views.append(x)
                    r = B(x)
                elif op in ("get", "getuint8", "getuint", "getuintpos"):
                    r = B(x)
                elif op != "setpos":
                    k = x if isinstance(x, int) else -2
            return {"ev": "op", "op": o, "o": {"e": e, "r": r, "k": k,
                    "bufs": [{"d": B(bytes(q)), "pos": q.get_pos(), "left": q.remaining(), "len": len(q)} for q in self.bufs],
                    "views": [B(w) for w in self.views]}}

    def play(key, ops, cls):
        h = Heap(cls)
        ev = []
        for o in ops:
            if o.get("b", 0) > len(h.bufs):
                break       # an earlier call, recorded, made no buffer where the specification has one
            ev.append(h.do(o))
        rec.case(key, ev)

    i = 0
    for g in gens:
        for w in json.load(open(g)):
            play(f"spec{i}", w["hist"], pdu.Buffer)
            i += 1
    for i in range(6000 if tier == "thorough" else 500):
        cls = pdu.Buffer if i % 3 else bb.ByteBuffer
        h = Heap(cls)
        ev = [h.do(rnd.choice(({"op": "allocate", "n": rnd.choice((0, 1, 5, 12, 300))}, {"op": "wrap", "v": B(rnd.randbytes(rnd.randrange(12))), "ro": rnd.random() < .4})))]
        for _ in range(rnd.randrange(5, 40)):
            if not h.bufs:
                break
            op = rnd.choice(OPS)
            if op in ("allocate", "wrap", "slice", "frozen") and (len(h.bufs) > 5 or rnd.random() < .5):
                continue
            if op in ("read", "readpos") and len(h.views) > 6:
                op = "getuint"
            if op == "putlen" and cls is bb.ByteBuffer:
                op = "putint"
            b = rnd.randrange(len(h.bufs)) + 1
            q = h.bufs[b - 1]
            left, ln, pos = q.remaining(), len(q), q.get_pos()
            at = rnd.choice((0, pos, ln, max(0, ln - 1), ln + 1, rnd.randrange(ln + 1)))
            room = ln - at
            n = max(0, rnd.choice((0, 1, 2, left, left + 1, left - 1, room, room + 1, room - 1)))
            o = {"op": op}
            if op == "allocate":
                o["n"] = rnd.randrange(10)
            elif op == "wrap":
                o.update(v=B(rnd.randbytes(rnd.randrange(10))), ro=rnd.random() < .5)
            else:
                o["b"] = b
            if op in ("read", "getuint"):
                o["n"] = n
            elif op in ("readpos", "getuintpos"):
                o.update(at=at, n=n)
            elif op == "write":
                o["v"] = B(rnd.randbytes(n))
            elif op == "writepos":
                o.update(v=B(rnd.randbytes(n)), at=at)
            elif op == "putint":
                o["n"] = rnd.choice((0, 1, 127, 128, 255, 256, -1, 1000))
            elif op == "putlen":
                o["n"] = rnd.choice((0, 1, 127, 128, 255, 256, 65535, 65536, 70000))
            elif op == "setpos":
                o["at"] = rnd.choice((-1, 0, pos, ln, ln - 1, ln + 1, rnd.randrange(ln + 1)))
            ev.append(h.do(o))
        rec.case(f"rnd{i}", ev)
