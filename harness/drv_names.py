"""driver for names and service octets: OBIS names, descriptors, invoke octet, conformance, code tables"""
import enum
import tomllib
from load import mod, outcome, B, rng

EDGE = (0, 1, 2, 9, 10, 19, 99, 100, 127, 128, 200, 255)


def pts(s):
    return [ord(c) for c in s]


def big(v):
    m = abs(v)
    return {"neg": v < 0, "m": list(m.to_bytes((m.bit_length() + 7) // 8, "big"))}


def strip(v):
    return list(v.to_bytes((v.bit_length() + 7) // 8, "big")) if v >= 0 else [-2]


def name_texts(rnd, n):
    fixed = ["", ".", ".....", "1", "1.2.3.4.5.6", "0.0.1.0.0.255", "1.2.3.4.5", "1.2.3.4.5.", "..3", "255.255.255.255.255.255", "256.0.0.0.0.0", "0.0.0.0.0.256",
             "0.0.0.0.256.0", "1.2.3.4.5.6.7", "1.2.3.4.5.6 remark", "1.2.3.4.5. remark", "1.2.3.4.5.6 7.8", "a.b.c.d.e.f", "1.x", "-1.0.0.0.0.0", "0.0.0.0.0.-1", "007.08.0.0.0.0255", ",1"]
    yield from fixed
    for _ in range(n):
        k = rnd.choice((6, 6, 6, 6, 5, 4, 3, 2, 1, 7))
        g = [rnd.choice(("", str(rnd.randrange(256)), str(rnd.randrange(256)), str(rnd.randrange(300)), "255", "256", "0", "0%d" % rnd.randrange(300), "1000")) for _ in range(k)]
        if rnd.random() < .1:
            g[rnd.randrange(k)] = rnd.choice(("x", "1a", "-3", "0x1"))
        yield ".".join(g) + (rnd.choice((" clock", " 1.2", " ", " a b")) if k == 6 and rnd.random() < .2 else "")


def names(rec, tier, gens):
    rnd = rng()
    N = 1500 if tier == "quick" else 15000
    cst = mod("types.cosem_service_types")
    ut = mod("types.useful_types")
    LN, ID = cst.LogicalName, ut.CosemObjectInstanceId
    with open("config.toml", "rb") as f:
        config = tomllib.load(f)["DLMS"]

    def observe(cls, e, x):
        o = {"e": e, "c": [], "text": [], "f": [], "hash": [-1]}
        if x is not None:
            o["c"], o["text"] = B(x.contents), pts(str(x))
            if cls is LN:
                o["f"] = [x.a, x.b, x.c, x.d, x.e, x.f]
                o["hash"] = strip(hash(x))
            else:
                o["f"] = list(x.value)
        return o

    for cls in (LN, ID):
        for t in name_texts(rnd, N):
            e, x = outcome(lambda: cls(t) if cls is LN else cls.from_str(t))
            rec.case(f"{cls.__name__}/text/{t}", [{"ev": "name", "how": "text", "s": pts(t), "o": observe(cls, e, x)}])
        for _ in range(N // 3):
            s = bytes(rnd.choice((0, 1, 9, 99, 100, 255, rnd.randrange(256))) for _ in range(rnd.choice((6, 6, 6, 6, 5, 7, 0, 3, 12))))
            e, x = outcome(lambda: cls(bytearray(s)) if cls is LN else cls(s))
            rec.case(f"{cls.__name__}/contents/{s.hex()}", [{"ev": "name", "how": "contents", "s": list(s), "o": observe(cls, e, x)}])
            if cls is LN:
                p = rnd.choice((b"\x09\x06", b"\x09\x06", b"\x09\x06", b"\x0a\x06", b"\x09\x07", b"\x09\x05", b"\x09\x81\x06"))
                if p == b"\x09\x81\x06":
                    continue
                w = p + s
                e, x = outcome(lambda: cls(w))
                rec.case(f"{cls.__name__}/octets/{w.hex()}", [{"ev": "name", "how": "octets", "s": list(w), "o": observe(cls, e, x)}])
    for i in range(N // 20):
        x = LN(bytearray(rnd.randbytes(6)))
        evs = []
        for t in list(name_texts(rnd, 6))[-6:]:
            e, _ = outcome(lambda: x.set(t))
            if e == "":
                evs.append({"ev": "name", "how": "text", "s": pts(t), "o": observe(LN, e, x)})
        rec.case(f"LogicalName/again/{i}", evs)
    e, x = outcome(LN)
    rec.case("LogicalName/none", [{"ev": "name", "how": "none", "s": [], "o": observe(LN, e, x)}])
    # order
    for _ in range(N // 2):
        a = [rnd.choice(EDGE) for _ in range(6)]
        b = list(a)
        if rnd.random() < .8:
            for i in sorted(rnd.sample(range(6), rnd.choice((1, 1, 2, 3)))):
                b[i] = rnd.choice(EDGE)
        x, y = LN(bytearray(a)), LN(bytearray(b))
        rec.case(f"order/{bytes(a).hex()}/{bytes(b).hex()}", [{"ev": "order", "a": a, "b": b, "o": {"lt": x < y, "eq": x == y, "same": hash(x) == hash(y)}}])
    for i in range(N // 20):
        l = [[rnd.choice(EDGE) for _ in range(6)] for _ in range(rnd.randrange(0, 12))]
        r = sorted(LN(bytearray(v)) for v in l)
        rec.case(f"sort/{i}", [{"ev": "sort", "l": l, "o": {"l": [B(v.contents) for v in r]}}])
    # constants
    ci, ca = mod("types.cosemObjectInstanceId"), mod("types.cosemAttributeDescriptor")
    for n, v in (("ASSOCIATION_LN0", ci.ASSOCIATION_LN0), ("LDN", ci.LDN), ("OBJECT_LIST", ca.OBJECT_LIST), ("LDN_VALUE", ca.LDN_VALUE)):
        rec.case("constant/" + n, [{"ev": "constant", "n": n, "o": {"c": B(v.contents)}}])
    # media
    M = mod("obis.media_id")
    top = {c.__name__ for c in (M.Abstract, M.Electricity, M.Hca, M.Thermal, M.Gas, M.Water, M.Other, M.Reserved)}
    for a in range(256):
        e, x = outcome(lambda: M.MediaId.from_int(a))
        o = {"e": e, "cls": "", "clsp": [], "text": [], "eq": []}
        nm = []
        if x is not None:
            cn = [c.__name__ for c in type(x).__mro__ if c.__name__ in top]
            o["cls"] = cn[0] if cn else ""
            o["clsp"], o["text"] = pts(type(x).__name__), pts(str(x))
            o["eq"] = [v for v in range(256) if x == v]
            nm = pts(config.get("media_id_name", {}).get(type(x).__name__, ""))
        rec.case(f"medium/{a}", [{"ev": "medium", "a": a, "name": nm, "o": o}])


def service(rec, tier, gens):
    rnd = rng()
    N = 400 if tier == "quick" else 6000
    ut = mod("types.useful_types")
    with open("config.toml", "rb") as f:
        config = tomllib.load(f)["DLMS"]
    IIP = ut.InvokeIdAndPriority
    for b in range(256):
        for tail in (b"", b"\x55") if tier == "quick" else (b"", b"\x55", b"\x00\xff"):
            s = bytes([b]) + tail
            e, x = outcome(lambda: IIP.from_contents(s))
            o = {"e": e, "i": -1, "s": False, "p": False, "c": []}
            if x is not None:
                o.update(i=x.invoke_id, s=x.service_class.value, p=x.priority.value, c=B(x.contents))
            rec.case(f"iip/{b >> 7}{b >> 6 & 1}/{b}{'+' if tail else ''}", [{"ev": "iip", "b": b, "o": o}])
    for i in range(16):
        for s in (False, True):
            for p in (False, True):
                e, x = outcome(lambda: IIP(i, ut.ServiceClass(s), ut.Priority(p)).contents)
                rec.case(f"iipmake/{i}{s}{p}", [{"ev": "iipmake", "i": i, "s": s, "p": p, "o": {"e": e, "c": B(x or b'')}}])
    e, x = outcome(lambda: IIP.from_contents(b""))
    rec.case("iipshort", [{"ev": "iipshort", "o": {"e": e}}])
    # descriptors
    for cls in (ut.CosemAttributeDescriptor, ut.CosemMethodDescriptor):
        third = ut.CosemObjectAttributeId if cls is ut.CosemAttributeDescriptor else ut.CosemObjectMethodId
        for _ in range(N):
            cid = rnd.choice((0, 1, 8, 255, 256, 65535, rnd.randrange(65536)))
            nm = [rnd.choice((0, 1, 255, rnd.randrange(256))) for _ in range(6)]
            i = rnd.choice((0, 1, 2, -1, 127, -128, rnd.randrange(-128, 128)))
            e, x = outcome(lambda: cls(ut.CosemClassId(cid), ut.CosemObjectInstanceId(bytes(nm)), third(i)).contents)
            rec.case(f"{cls.__name__}/{cid}/{bytes(nm).hex()}/{i}", [{"ev": "desc", "cid": cid, "name": nm, "i": i, "o": {"e": e, "c": B(x or b'')}}])
            s = bytes(rnd.randrange(256) for _ in range(rnd.choice((9, 9, 9, 10, 12, 8, 7, 3, 2, 1, 0))))
            e, x = outcome(lambda: cls.from_contents(s))
            o = {"e": e, "cid": -1, "name": [], "i": 0, "c": []}
            if x is not None:
                o.update(cid=int(x.class_id), name=list(x.instance_id.value), i=int(x.attribute_id if hasattr(x, "attribute_id") else x.method_id), c=B(x.contents))
            rec.case(f"{cls.__name__}/{s.hex()}", [{"ev": "descread", "s": list(s), "o": o}])
    names = config.get("class_name", {})
    for cid in list(range(0, 200)) + [256, 8192, 65535]:
        x = ut.CosemClassId(cid)
        rec.case(f"classname/{cid}", [{"ev": "classname", "name": pts(names.get(str(cid), "")), "o": {"text": pts(str(x)), "repr": pts(repr(x))}}])
    # conformance
    C = mod("types.implementations.bitstrings").Conformance

    def conf(key, how, s, x0, fn):
        e, x = outcome(fn)
        o = {"e": e, "c": [], "enc": [], "text": [], "bits": [], "named": []}
        if x is not None:
            o.update(c=B(x.contents), enc=B(x.encoding), text=pts(str(x)), bits=[int(v) for v in x.decode()],
                     named=[int(x.general_protection), int(x.general_block_transfer), int(x.selective_access)])
        rec.case(key, [{"ev": "conf", "how": how, "s": s, "x": x0, "o": o}])

    conf("conf/none", "none", [], big(0), lambda: C())
    for i in range(24):
        t = "".join("1" if k == i else "0" for k in range(24))
        conf("conf/text/" + t, "text", pts(t), big(0), lambda: C(t))
        conf(f"conf/int/{1 << i}", "int", [], big(1 << i), lambda: C(1 << i))
        c = int(t, 2).to_bytes(3, "big")
        conf("conf/contents/" + c.hex(), "contents", list(c), big(0), lambda: C(bytearray(c)))
    for _ in range(N):
        t = "".join(rnd.choice("01") for _ in range(rnd.choice((24, 24, 24, 23, 25, 0, 8, 32))))
        if t and rnd.random() < .1:
            k = rnd.randrange(len(t))
            t = t[:k] + rnd.choice("2x ") + t[k + 1:]
        conf("conf/text/" + t, "text", pts(t), big(0), lambda: C(t))
        n = rnd.choice((rnd.randrange(1 << 24), rnd.randrange(1 << 24), rnd.randrange(1 << 26), (1 << 24) - 1, 1 << 24, -1, 0, -rnd.randrange(1 << 24)))
        conf(f"conf/int/{n}", "int", [], big(n), lambda: C(n))
        c = bytes(rnd.randrange(256) for _ in range(rnd.choice((3, 3, 3, 2, 4, 0))))
        conf("conf/contents/" + c.hex(), "contents", list(c), big(0), lambda: C(bytearray(c)))
        w = rnd.choice((b"\x04\x18", b"\x04\x18", b"\x04\x18", b"\x04\x17", b"\x04\x19", b"\x09\x18", b"\x04")) + bytes(rnd.randrange(256) for _ in range(rnd.choice((3, 3, 3, 2, 4, 0))))
        conf("conf/octets/" + w.hex(), "octets", list(w), big(0), lambda: C(w))
    cn = config.get("Conformance")
    std = ["reserved-zero", "general-protection", "general-block-transfer", "read", "write", "unconfirmed-write", "reserved-six", "reserved-seven", "attribute0-supported-with-set",
           "priority-mgmt-supported", "attribute0-supported-with-get", "block-transfer-with-get-or-read", "block-transfer-with-set-or-write", "block-transfer-with-action", "multiple-references",
           "information-report", "data-notification", "access", "parameterized-access", "get", "set", "selective-access", "event-notification", "action"]
    rec.case("confnames", [{"ev": "confnames", "names": [pts(cn[k] if cn else k) for k in std], "o": {"names": [pts(v) for v in C.ELEMENTS]}}])
    # code tables
    for m, p in (("enums", "enums"), ("pdu_enums", "pdu_enums")):
        M = mod(m)
        for n in CODES[p]:
            c = getattr(M, n, None)
            v = [[a, int(b)] for a, b in c.__members__.items()] if isinstance(c, type) and issubclass(c, enum.Enum) else []
            rec.case(f"codes/{p}.{n}", [{"ev": "codes", "n": f"{p}.{n}", "o": {"codes": v}}])
    M = mod("types.cosemClassID")
    rec.case("codes/cosemClassID", [{"ev": "codes", "n": "cosemClassID", "o": {"codes": [[k, int(v)] for k, v in vars(M).items() if isinstance(v, ut.CosemClassId)]}}])


CODES = {"enums": "ContextId ACSEAPDU VariableAccessSpecification XDLMSAPDU Conformance ActionRequest ReadResponse ServiceError ConfirmedServiceError AARQapdu SetRequest AssociationResult AcseServiceUser Unit".split(),
         "pdu_enums": "DataAccessResult GetResponse SetResponse ActionResult ActionResponse AttributeAccess MethodAccess SecurityPolicyVer0 SecurityPolicyVer1".split()}
