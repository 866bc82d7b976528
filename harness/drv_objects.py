"""drivers for single interface objects: image transfer, HDLC setup"""
import json
from load import mod, cosem, outcome, B, rng


def image(rec, tier, gens):
    cosem()
    it = mod("cosem_interface_classes.image_transfer.ver0")
    r = rng()

    def play(key, ops):
        x = it.ImageTransfer("0.0.44.0.0.255")
        ev = []

        def do(op, v=0, s=(), id=()):
            go = {"new": lambda: None, "bs": lambda: x.set_attr(2, v), "load": lambda: x.set_image_for_update(bytes(s), bytearray(id)), "next": x.set_next_block,
                  "select": lambda: x.set_block_for_transfer(v), "clear": x.clear_image}[op]
            e, _ = outcome(go, 2)
            if e == "AttributeError" and x.image_block_size is None:
                e = "ValueError"                       # the block size has not been read yet
            b = x.image_block_transfer
            ev.append({"ev": op, "op": op, "v": v, "s": list(s), "id": list(id), "o": {
                "e": e, "num": int(b.image_block_number), "cur": x.current_block_transfer, "val": B(b.image_block_value.contents), "size": int(x.image_transfer_initiate.image_size),
                "id": B(x.image_transfer_initiate.image_identifier.contents), "n": x.get_n_blocks(), "exists": x.is_image_exist, "part": round(x.sent_blocks_part * 10000)}})
        do("new")
        for o in ops:
            do(**o)
        rec.case(key, ev)

    for g in gens:
        for i, w in enumerate(json.load(open(g))):
            play(f"spec{i}", w["hist"])
    for i in range(400 if tier == "quick" else 6000):
        images = [bytes(r.randrange(256) for _ in range(r.choice((0, 1, 2, 3, 5, 8, 16, 17, r.randrange(200))))) for _ in range(3)]
        images.append(bytes((7, 7, 7, 9)) * r.choice((8, 30)))           # blocks that look alike
        ids = [b"a", b"image", b"", bytes((0, 255, 49)), b"default"]
        ops = [{"op": "bs", "v": r.choice((1, 2, 3, 4, 7, 16, 64, 200))}] if r.random() < .95 else []
        pair = {}
        for _ in range(r.randrange(1, 14)):
            k = r.random()
            if k < .3:
                a = r.choice(ids)
                ops.append({"op": "load", "s": list(pair.setdefault(a, r.choice(images)) if r.random() < .7 else r.choice(images)), "id": list(a)})
            elif k < .75:
                ops += [{"op": "next"}] * r.randrange(1, 5)
            elif k < .88:
                ops.append({"op": "select", "v": r.choice((0, 1, 2, 3, 4, r.randrange(20), -1, 1 << 20))})
            elif k < .94:
                ops.append({"op": "clear"})
            else:
                ops.append({"op": "bs", "v": r.choice((0, 1, 2, 3, 16, 64))})
        play(f"random{i}", ops)


def hdlcsetup(rec, tier, gens):
    cosem()
    hs = mod("cosem_interface_classes.iec_hdlc_setup.ver1")
    r = rng()
    A = {"wt": 3, "wr": 4, "it": 5, "ir": 6}

    def obs(x, e):
        sent = lambda v: [] if v is None else B(v)
        return {"e": e, "p": {k: int(x.get_attr(i)) for k, i in A.items()}, "rest": [int(x.get_attr(i)) for i in (2, 7, 8, 9)],
                "sent": {"it": sent(x.max_info_transmit), "ir": sent(x.max_info_receive), "wt": sent(x.window_transmit), "wr": sent(x.window_receive)},
                "addr": -1 if x.get_device_address() is None else x.get_device_address()}

    def field():
        if r.random() < .1:
            return b""
        body = b""
        for _ in range(r.choice((0, 1, 1, 2, 3, 4, 4, 5))):
            t = r.choice((5, 6, 7, 8)) if r.random() < .95 else r.choice((0, 1, 4, 9, 128, 255))
            v = r.choice((0, 1, 7, 32, 127, 128, 129, 255, 256, 2030, 65535, 65536, r.randrange(65536))) if t in (5, 6) or r.random() < .1 else r.choice((0, 1, 2, 7, 8, 255, 256, r.randrange(256)))
            w = r.choice([k for k in (0, 1, 2, 4) if v < 256 ** k or r.random() < .1] or [4])
            body += bytes((t, w)) + (v % 256 ** w).to_bytes(w, "big")
        c = bytearray(b"\x81\x80" + bytes((len(body),)) + body)
        k = r.random()
        if k < .08 and c:
            del c[r.randrange(len(c)):]
        elif k < .12:
            c[2] = (c[2] + r.choice((1, -1, 5))) % 256
        elif k < .2 and len(c) > 4:
            n = r.randrange(1, len(c) - 3)               # cut short, length corrected
            del c[len(c) - n:]
            c[2] = len(c) - 3
        elif k < .25:
            c[r.randrange(len(c))] = r.randrange(256)
        return bytes(c)

    for i in range(700 if tier == "quick" else 12000):
        x = hs.IECHDLCSetup("0.0.22.0.0.255")
        ev = [{"ev": "new", "o": obs(x, "")}]
        for _ in range(r.randrange(1, 6)):
            if r.random() < .25:
                k, v = r.choice(list(A)), r.choice((0, 1, 7, 8, 32, 128, 255, 256, 2030, 65535, 65536, -1))
                e, _ = outcome(lambda: x.set_attr(A[k], v))
                ev.append({"ev": "set", "f": k, "v": v, "o": obs(x, e)})
            elif r.random() < .15:
                v = r.choice((0, 1, 16, 0x3ffd, 65535))
                e, _ = outcome(lambda: x.set_attr(9, v))
                ev.append({"ev": "addr", "v": v, "o": obs(x, e)})
            else:
                c = field()
                e, _ = outcome(lambda: x.set_from_info(c))
                ev.append({"ev": "info", "c": B(c), "o": obs(x, e)})
        rec.case(f"setup{i}", ev)
