"""drivers for the HDLC layer"""
import re
import json
import random
from load import mod, outcome, B, rng, Hang

FLAG = 0x7e


def frame_json(f):
    da, sa = f.get_header()
    return {"da": B(da.content), "sa": B(sa.content), "ctl": int(f.control), "info": B(f.info), "seg": bool(f.is_segmentation)}


def pump(fr, buf):
    """the consumer loop: recognise until there is no more progress"""
    out, steps = [], 0
    while True:
        before = len(buf)
        got = fr.Frame.try_from(buf)
        steps += 1
        if got is not None:
            out.append(frame_json(got))
            if len(buf) >= before:
                return out, -1
        elif len(buf) == before:
            return out, steps
        if steps > 20000:
            return out, -1


def feed_case(rec, fr, key, chunks):
    buf = bytearray()
    ev = []
    for c in chunks:
        buf.extend(c)
        err, r = outcome(lambda: pump(fr, buf))
        ev.append({"ev": "feed", "chunk": B(c), "o": {"e": err, "out": r[0] if r else [], "steps": r[1] if r else 0}})
        if err:
            break
    rec.case(key, ev)


def cut(rnd, data, mode):
    if mode == 0:
        return [data]
    if mode == 1:
        return [data[i:i + 1] for i in range(len(data))]
    out, i = [], 0
    while i < len(data):
        n = rnd.choice((1, 2, 3, 5, 8, 9, 10, 13, 40, 200))
        out.append(data[i:i + n])
        i += n
    return out


def rnd_addr(fr, rnd):
    k = rnd.random()
    if k < .4:
        return fr.Address(upper_address=rnd.choice((0, 1, 16, 63, 64, 127, rnd.randrange(128))))
    if k < .7:
        return fr.Address(upper_address=rnd.randrange(128), lower_address=rnd.randrange(1, 128))
    return fr.Address(upper_address=rnd.randrange(16384), lower_address=rnd.choice((0, 1, 127, 128, 16383, rnd.randrange(16384))),
                      length=fr.AddressLength(4))


def rnd_info(rnd, big):
    n = rnd.choice((0, 0, 1, 2, 3, 8, 17, 100, 128) + ((1000, 2030) if big else ()))
    k = rnd.random()
    if k < .2:
        return bytes(rnd.choice((0x7e, 0xa0, 0xa8, 0x7d, 0)) for _ in range(n))
    return rnd.randbytes(n)


def rnd_frame(fr, rnd, big=False):
    return fr.Frame(DA=rnd_addr(fr, rnd), SA=rnd_addr(fr, rnd), control=fr.Control(rnd.randrange(256)), info=rnd_info(rnd, big),
                    is_segmentation=rnd.random() < .3)


def good_frame(fr, rnd, big=False):
    """bytes of a frame built by the code; falls back to a fixed one should building fail"""
    e, f = outcome(lambda: bytes(rnd_frame(fr, rnd, big).content))
    return f if not e else bytes.fromhex("7ea0070321930f017e")


def damaged(fr, rnd):
    b = bytearray(good_frame(fr, rnd))
    k = rnd.randrange(7)
    if k == 0:
        i = rnd.randrange(1, len(b) - 1)
        b[i] ^= 1 << rnd.randrange(8)
    elif k == 1:
        del b[rnd.randrange(1, len(b)):]
    elif k == 2:
        del b[rnd.randrange(1, len(b) - 1)]
    elif k == 3:
        b.insert(rnd.randrange(1, len(b)), rnd.randrange(256))
    elif k == 4:
        b[-1] = rnd.randrange(256)
    elif k == 5:
        b[2] = rnd.randrange(0, 12)
    else:
        b[1] = rnd.randrange(256)
    return bytes(b)


def noise(rnd):
    k = rnd.randrange(6)
    if k == 0:
        return b"\x7e" * rnd.randrange(1, 12)
    if k == 1:
        return rnd.randbytes(rnd.randrange(1, 20))
    if k == 2:
        return bytes(rnd.choice((0x7e, 0xa0, 0xa8, 3, 33, 0, 2, 7, 8, 9)) for _ in range(rnd.randrange(1, 24)))
    if k == 3:   # header with an arbitrary small length field, then octets that are never an address end
        n = rnd.randrange(0, 12)
        body = bytes(rnd.choice((0, 2, 4, 3)) for _ in range(max(0, n - 2)))
        return bytes((0x7e, 0xa0 | rnd.choice((0, 8)), n)) + body + b"\x7e"
    if k == 4:   # correct FCS over a header-only body of odd shape
        return b"\x7e\xa0"
    return b"\x7e" + bytes((0xa0 + rnd.randrange(8), rnd.randrange(256)))


def stream(rec, tier, gens):
    fr = mod("hdlc.frame")
    rnd = rng()
    for g in gens:
        for b in json.load(open(g)):
            data, chunks, i = bytes(b["bytes"]), [], 0
            for n in b["cuts"]:
                chunks.append(data[i:i + n])
                i += n
            chunks.append(data[i:])
            feed_case(rec, fr, "spec:%s:%s" % ("-".join(map(str, b["toks"])), "-".join(map(str, b["cuts"]))), [c for c in chunks if c])
    # every short buffer shape: length field x address shapes x trailing octets (exhaustive over a small alphabet)
    for n in range(0, 12):
        for seg in (0xa0, 0xa8):
            for body in range(4 ** 4):
                bs = [(0, 2, 3, 0x7e)[(body >> (2 * i)) & 3] for i in range(4)]
                if tier == "quick" and (body * 7 + n) % 5:
                    continue
                data = bytes((0x7e, seg, n)) + bytes(bs) + b"\x7e" * 6 + bytes.fromhex("7ea0070321930f017e")
                feed_case(rec, fr, f"short:{data.hex()}", [data])
    n = 400 if tier == "quick" else 6000
    for i in range(n):
        parts = []
        for _ in range(rnd.randrange(1, 7)):
            k = rnd.random()
            parts.append(good_frame(fr, rnd, big=rnd.random() < .05) if k < .55 else damaged(fr, rnd) if k < .8 else noise(rnd))
            if rnd.random() < .3 and parts[-1][-1:] == b"\x7e" and len(parts[-1]) > 5:
                parts[-1] = parts[-1][:-1]          # closing flag doubles as next opening flag
        parts.append(bytes.fromhex("7ea0070321930f017e"))
        data = b"".join(parts)
        feed_case(rec, fr, f"rand{i}:{data.hex()}", cut(rnd, data, rnd.randrange(4)))


# ------------------------------------------------------------------ P02 frame layout
def fields(fr, f):
    return {"da": f["da"], "sa": f["sa"], "ctl": f["ctl"], "info": f["info"], "seg": f["seg"]}


def make_case(rec, fr, key, da, sa, ctl, info, seg):
    want = {"da": B(da.content), "sa": B(sa.content), "ctl": ctl, "info": B(info), "seg": seg}
    box = {}

    def build():
        f = fr.Frame(DA=da, SA=sa, control=fr.Control(ctl), info=info, is_segmentation=seg)
        box["b"] = bytes(f.content)
        box["len"] = len(f)
        box["own"] = frame_json(f)
        buf = bytearray(box["b"])
        box["back"], box["again"] = [], []
        g = fr.Frame.try_from(buf)
        if g is not None:
            box["back"] = [frame_json(g)]
            box["again"] = B(g.content)
        box["left"] = B(buf)

    err, _ = outcome(build)
    o = {"e": err, "bytes": B(box.get("b", b"")), "len": box.get("len", -1), "own": box.get("own", want),
         "back": box.get("back", []), "again": box.get("again", []), "left": box.get("left", [])}
    rec.case(key, [{"ev": "mk", "f": want, "o": o}])


def frames(rec, tier, gens):
    fr = mod("hdlc.frame")
    rnd = rng()

    def A(up, lo=None, n=-1):
        e, a = outcome(lambda: fr.Address(upper_address=up, lower_address=lo, length=fr.AddressLength(n)))
        return a if not e else fr.Address(content=bytes((2 * (up % 128) + 1,)))
    some = [A(0), A(1), A(16), A(127), A(1, 17), A(127, 127), A(0, 0, 2), A(1, 1, 4), A(128), A(16383, 16383), A(300, 0), A(63, 129)]
    for c in range(256):                                       # every control octet
        make_case(rec, fr, f"ctl{c}", rnd.choice(some), rnd.choice(some), c, rnd.choice((b"", b"\xe6\xe7\x00", b"~")), bool(c & 4))
    for da in some:                                            # every pair of address shapes
        for sa in some:
            make_case(rec, fr, f"adr{da}-{sa}", da, sa, 0x32, rnd.choice((b"", b"\x01", bytes(range(20)))), rnd.random() < .5)
    lens = list(range(0, 20)) + [126, 127, 128, 129, 245, 246, 247, 248, 249, 250, 255, 256, 257, 500, 511, 512, 1000, 1023, 1024, 2030] \
        + list(range(2028, 2052)) + [2500, 4090, 65540]
    for n in lens:                                             # every interesting length, both sides of the 11-bit limit
        for da, sa in ((some[0], some[1]), (some[4], some[9]), (some[9], some[9])):
            for seg in (False, True):
                make_case(rec, fr, f"len{n}-{da}-{sa}-{seg}", da, sa, 0x10, bytes((i * 7 + n) & 255 for i in range(n)), seg)
    for i in range(500 if tier == "quick" else 8000):
        info = rnd_info(rnd, rnd.random() < .05)
        make_case(rec, fr, f"rnd{i}", rnd_addr(fr, rnd), rnd_addr(fr, rnd), rnd.randrange(256), info, rnd.random() < .3)


# ------------------------------------------------------------------ P03 damaged frames
def damage(rec, tier, gens):
    fr = mod("hdlc.frame")
    rnd = rng()
    big = tier == "thorough"
    for i in range(256):                                       # the table, entry by entry, in both register bytes
        for m in (bytes((i,)), bytes((0, i)), bytes((i, 255 - i))):
            e, v = outcome(lambda: B(fr.CRC(message=m).content))
            rec.case(f"crc-{m.hex()}", [{"ev": "crc", "msg": B(m), "o": {"e": e, "fcs": v or []}}])
    for i in range(200 if not big else 3000):
        m = rnd.randbytes(rnd.choice((0, 1, 5, 8, 9, 30, 200, 2040)))
        e, v = outcome(lambda: B(fr.CRC(message=m).content))
        rec.case(f"crc-r{i}", [{"ev": "crc", "msg": B(m), "o": {"e": e, "fcs": v or []}}])
        val = bytearray(v or b"\0\0")
        k = rnd.random()
        if k < .4:
            val[rnd.randrange(2)] ^= 1 << rnd.randrange(8)
        elif k < .5:
            val.reverse()
        val += rnd.randbytes(rnd.choice((0, 1, 2, 3, 3, 4, 10)))
        e, _ = outcome(lambda: fr.CRC.from_frame(bytearray(val), message=m))
        rec.case(f"check-r{i}", [{"ev": "check", "value": B(val), "msg": B(m), "o": {"e": e}}])

    def line(key, data):
        buf = bytearray(data)
        err, r = outcome(lambda: pump(fr, buf))
        rec.case(key, [{"ev": "damage", "bytes": B(data), "o": {"e": err, "out": r[0] if r else []}}])

    base = [bytes.fromhex("7ea0070321930f017e")]
    base += [good_frame(fr, rnd) for _ in range(6 if not big else 40)]
    for j, b in enumerate(base):
        line(f"base{j}", b)
        n = 8 * len(b)
        for i in range(n):                                     # every single bit error
            if n > 400 and not big and (i * 13 + j) % 9:
                continue
            x = bytearray(b)
            x[i // 8] ^= 1 << (7 - i % 8)
            line(f"bit{j}:{i}", bytes(x))
        for i in range(len(b)):                                # every octet lost, every octet repeated, every truncation
            if len(b) > 60 and not big and i % 7:
                continue
            line(f"cut{j}:{i}", b[:i])
            line(f"del{j}:{i}", b[:i] + b[i + 1:])
            line(f"dup{j}:{i}", b[:i] + b[i:i + 1] + b[i:])
        for t in range(150 if not big else 2500):              # bursts and random double errors
            x = bytearray(b)
            if t % 2:
                s = rnd.randrange(8, n - 24) if n > 40 else 8
                pat = rnd.randrange(1, 65536)
                for k in range(16):
                    if pat >> k & 1:
                        x[(s + k) // 8] ^= 1 << (7 - (s + k) % 8)
            else:
                for k in rnd.sample(range(8, n - 8), 2):
                    x[k // 8] ^= 1 << (7 - k % 8)
            line(f"burst{j}:{t}", bytes(x))
    for t in range(600 if not big else 6000):                  # one of the two checks made right again after the damage
        f = fr.Frame(DA=rnd_addr(fr, rnd), SA=rnd_addr(fr, rnd), control=fr.Control(rnd.randrange(256)), info=rnd.randbytes(rnd.choice((0, 1, 1, 2, 3, 4, 9))),
                     is_segmentation=rnd.random() < .3)
        x = bytearray(f.content)
        h = 3 + len(f.get_header()[0]) + len(f.get_header()[1]) + 1
        k = rnd.randrange(6)
        if k < 2 and f.info:
            x[h + rnd.randrange(2)] ^= 1 << rnd.randrange(8)
            x[-3:-1] = fr.CRC(message=bytes(x[1:-3])).content
        elif k == 2:
            x[rnd.randrange(3, h)] ^= 2 << rnd.randrange(7)
            x[-3:-1] = fr.CRC(message=bytes(x[1:-3])).content
        elif k == 3 and f.info:
            x[rnd.randrange(3, h)] ^= 2 << rnd.randrange(7)
            x[h:h + 2] = fr.CRC(message=bytes(x[1:h])).content
        elif k == 4:
            x[-3:-1] = bytes((x[-2], x[-3]))
        else:
            x[-3:-1] = bytes(2)
        line(f"crafted{t}", bytes(x))
    for j, b in enumerate(base):
        # the damage must not take the following intact frame with it
        for t in range(20):
            x = bytearray(b)
            x[rnd.randrange(1, len(x))] ^= 1 << rnd.randrange(8)
            line(f"then{j}:{t}", bytes(x) + b + base[0] * 230)


# ------------------------------------------------------------------ P04 addresses
def addresses(rec, tier, gens):
    fr = mod("hdlc.frame")
    rnd = rng()
    AL = fr.AddressLength

    def mk(up, lo, n):
        def f():
            a = fr.Address(upper_address=up, lower_address=None if lo == -1 else lo, length=AL(n))
            return {"content": B(a.content), "up": a.upper, "lo": -1 if a.lower is None else a.lower, "len": len(a)}
        e, v = outcome(f)
        rec.case(f"addr{up}/{lo}/{n}", [{"ev": "addr", "up": up, "lo": lo, "len": n,
                                         "o": dict({"content": [], "up": 0, "lo": 0, "len": 0}, **(v or {}), e=e)}])
    edge = [0, 1, 2, 16, 63, 64, 65, 126, 127, 128, 129, 200, 255, 256, 257, 1000, 4095, 8191, 8192, 16382, 16383]
    out = [16384, 16385, 32767, 65535, 1 << 20]
    for up in edge + out + [-1]:
        if up == -1:
            continue
        for lo in [-1] + edge + out:
            for n in (-1, 1, 2, 4):
                mk(up, lo, n)
    for up in range(0, 16384, 1 if tier == "thorough" else 37):
        mk(up, -1, -1)
        mk(up, (up * 131 + 7) % 16384, -1)
        mk(rnd.randrange(128), up % 128, rnd.choice((-1, 2, 4)))
    for n in (0, 3, 5, -2, 8):                                  # lengths that do not exist
        e, _ = outcome(lambda: AL(n))
        rec.case(f"alen{n}", [{"ev": "alen", "n": n, "o": {"e": e}}])
    for n in (-1, 1, 2, 4):
        e, v = outcome(lambda: int(AL.from_str(str(AL(n)))))
        rec.case(f"alen{n}", [{"ev": "alen", "n": n, "o": {"e": e, "v": v if v is not None else 0}}])

    def scan(b):
        buf = bytearray(b)

        def f():
            a = fr.Address.from_frame(buf)
            return {"content": B(a.content), "rest": B(buf), "up": a.upper, "lo": -1 if a.lower is None else a.lower}
        e, v = outcome(f)
        rec.case(f"scan{b.hex()}", [{"ev": "scan", "bytes": B(b), "o": dict({"content": [], "rest": [], "up": 0, "lo": 0}, **(v or {}), e=e)}])
    for k in range(0, 1 << 10):                                 # every pattern of end bits over five octets x two fillings
        bits = [k >> i & 1 for i in range(5)]
        fill = rnd.randbytes(5) if k >> 5 & 1 else bytes((0, 2, 254, 126, 4))
        b = bytes((x & 254) | t for x, t in zip(fill, bits))
        scan(b[:rnd.randrange(0, 6)] if k >> 6 & 1 else b)
    for b in ([], [1], [0], [0, 0], [0, 1], [0, 0, 0], [0, 0, 1], [0, 0, 0, 0], [0, 0, 0, 1], [0, 0, 1, 1], [0, 0, 0, 0, 1], [254, 254, 254, 255]):
        scan(bytes(b))
    pool = [bytes(b) for b in ([3], [5], [33], [2, 3], [2, 35], [0, 1], [1], [0, 0, 0, 1], [0, 2, 0, 3], [0, 2, 0, 35], [2, 0, 0, 3], [254, 254, 254, 255])]
    for a in pool:
        for b in pool:
            def f():
                x, y = fr.Address(content=a), fr.Address(content=b)
                return x == y, hash(x) == hash(y)
            e, v = outcome(f)
            rec.case(f"same{a.hex()}-{b.hex()}", [{"ev": "same", "a": B(a), "b": B(b), "o": {"e": e, "eq": bool(v and v[0]), "hash": bool(v and v[1])}}])
    for i in range(300 if tier == "quick" else 3000):
        q = [rnd.choice(pool[:8]) for _ in range(4)]
        if rnd.random() < .4:
            q[2], q[3] = q[1], q[0]

        def f():
            ad = [fr.Address(content=x) for x in q]
            return bool(fr.Frame(DA=ad[0], SA=ad[1], control=fr.Control(0x10), info=b"", is_segmentation=False).is_for_me(ad[2], ad[3]))
        e, v = outcome(f)
        rec.case(f"forme{i}", [{"ev": "forme", "fda": B(q[0]), "fsa": B(q[1]), "da": B(q[2]), "sa": B(q[3]), "o": {"e": e, "v": bool(v)}}])


# ------------------------------------------------------------------ P05 control field
def control(rec, tier, gens):
    fr = mod("hdlc.frame")
    C = fr.Control
    a = fr.Address(content=b"\x03")

    def mkf(c):
        return fr.Frame(DA=a, SA=a, control=C(c), info=b"", is_segmentation=False)
    for c in range(256):
        def f():
            x = C(c)
            return {"info": bool(x.is_info()), "sup": bool(x.is_supervisory()), "unn": bool(x.is_unnumbered()),
                    "ui": bool(x.is_information()), "rr": bool(x.is_receive_ready()), "rnr": bool(x.is_receive_not_ready()),
                    "rej": bool(x.is_reject()), "srej": bool(x.is_selective_reject()), "poll": bool(x.is_poll), "octet": B(x.content)}
        e, v = outcome(f)
        rec.case(f"class{c}", [{"ev": "class", "c": c, "o": dict({k: False for k in ("info", "sup", "unn", "ui", "rr", "rnr", "rej", "srej", "poll")},
                                                                 octet=[], **{}) | (v or {}) | {"e": e}}])
    for n, v in sorted(getattr(C, "__members__", {}).items()):           # the named control fields
        q = re.fullmatch(r"S(\d)_R(\d)(_PF)?", n) or re.fullmatch(r"(RR|RNR|REJ|SREJ)_R(\d)(_PF)?", n) or re.fullmatch(r"([A-Z]+)()(_PF|_P|_F)?", n)
        if q:
            i = q[1].isdigit()
            rec.case("named" + n, [{"ev": "named", "f": "I" if i else q[1], "s": int(q[1]) if i else 0, "r": int(q[2] or 0), "p": bool(q[3]), "o": {"v": int(v)}}])
    cs = [c for c in range(256) if c % 2 == 0]
    for c in cs:                                                 # which information frames count as the next of which
        def f():
            me = mkf(c)
            fs = [mkf(d) for d in cs]
            return ([d for d, x in zip(cs, fs) if x.is_next(me)], [d for d, x in zip(cs, fs) if x.is_next_send(me)])
        e, v = outcome(f)
        rec.case(f"succ{c}", [{"ev": "succ", "c": c, "o": {"e": e, "next": v[0] if v else [], "nsend": v[1] if v else []}}])
    for g in gens:
        for i, b in enumerate(json.load(open(g))):
            ev, cur = [], C(b["h"][0]["c"])
            for s in b["h"]:
                if s["op"] == "start":
                    ev.append({"ev": "start", "c": s["c"], "o": {"e": "", "c": s["c"]}})
                    continue
                e, v = outcome(lambda: C.next_send_sequence(cur) if s["op"] == "send" else C.next_receiver_sequence(cur))
                ev.append({"ev": s["op"], "o": {"e": e, "c": int(v) if v is not None else -1}})
                if e:
                    break
                cur = v
            rec.case(f"chain{i}", ev)


# ------------------------------------------------------------------ P06 reassembly
def segments(rec, tier, gens):
    from collections import deque
    fr = mod("hdlc.frame")
    rnd = rng()
    a = fr.Address(content=b"\x03")

    def run(key, q):
        def f():
            d = deque(fr.Frame(DA=a, SA=a, control=fr.Control(x["ctl"]), info=bytes(x["info"]), is_segmentation=x["seg"]) for x in q)
            i = fr.Frame.join_info(d)
            return B(i), len(d)
        e, v = outcome(f)
        rec.case(key, [{"ev": "join", "q": q, "o": {"e": e, "info": v[0] if v else [], "left": v[1] if v else 0}}])
    for g in gens:
        for i, b in enumerate(json.load(open(g))):
            run(f"spec{i}", b["q"])
    nxt = lambda c: (c & 0xf0) | ((c + 2) & 0xe)
    for i in range(600 if tier == "quick" else 10000):
        q, c = [], rnd.randrange(0, 256, 2)
        n = rnd.choice((1, 2, 3, 5, 8, 9, 17, 30))
        for k in range(n):
            c = nxt(c)
            q.append({"ctl": c, "seg": k < n - 1, "info": B(rnd.randbytes(rnd.choice((0, 1, 2, 5, 40))))})
        for _ in range(rnd.choice((0, 0, 1, 2, 4))):
            k = rnd.random()
            p = rnd.randrange(len(q) + 1)
            if k < .3:
                q.insert(p, {"ctl": rnd.choice((1, 17, 33, 115, 3, 19, 5, 9)), "seg": rnd.random() < .3, "info": []})
            elif k < .5:
                q.insert(p, dict(rnd.choice(q)))
            elif k < .7 and len(q) > 1:
                q.pop(min(p, len(q) - 1))
            elif k < .85:
                q.insert(p, {"ctl": rnd.randrange(256), "seg": rnd.random() < .5, "info": B(rnd.randbytes(3))})
            else:
                x, y = rnd.randrange(len(q)), rnd.randrange(len(q))
                q[x], q[y] = q[y], q[x]
        run(f"rnd{i}", q)
