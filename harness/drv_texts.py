"""driver for the text-like cells: booleans, strings, BCD, enumerations, flags"""
import tomllib
from load import mod, outcome, B, rng, cosem

# library enumerations: name in the specification -> module, attribute
LIB = {"CommSpeed": ("types.implementations.enums", "CommSpeed"), "RestrictionType": ("types.implementations.enums", "RestrictionType"),
       "KeyInfoType": ("types.implementations.enums", "KeyInfoType"), "ProtectionType": ("types.implementations.enums", "ProtectionType"),
       "ClientSAP": ("types.implementations.enums", "ClientSAP"), "Unit": ("types.common_data_types", "Unit"),
       "IdentifiedKeyInfoOptions": ("types.choices", "IdentifiedKeyInfoOptions"), "KEKId": ("types.choices", "KEKId"),
       "ClockBase": ("cosem_interface_classes.clock", "ClockBase"), "ImageTransferStatus": ("cosem_interface_classes.image_transfer.image_transfer_status", "ImageTransferStatus"),
       "AccessMode0": ("cosem_interface_classes.association_ln.ver0", "AccessMode"), "AssociationStatus": ("cosem_interface_classes.association_ln.ver0", "AssociationStatus"),
       "MechanismIdElement": ("cosem_interface_classes.association_ln.mechanism_id", "MechanismIdElement"),
       "AccessMode1": ("cosem_interface_classes.association_ln.ver1", "AccessMode"), "AccessModeMeth1": ("cosem_interface_classes.association_ln.ver1", "AccessModeMeth"),
       "AuthenticationMethod": ("cosem_interface_classes.ntp_setup.ver0", "AuthenticationMethod"), "Status": ("cosem_interface_classes.gsm_diagnostic.ver0", "Status"),
       "CSAttachment": ("cosem_interface_classes.gsm_diagnostic.ver0", "CSAttachment"), "PSStatus0": ("cosem_interface_classes.gsm_diagnostic.ver0", "PSStatus"),
       "PSStatus1": ("cosem_interface_classes.gsm_diagnostic.ver1", "PSStatus"), "TYPE": ("cosem_interface_classes.single_action_schedule", "TYPE"),
       "SecurityPolicy": ("cosem_interface_classes.security_setup.ver0", "SecurityPolicy"), "SecuritySuite0": ("cosem_interface_classes.security_setup.ver0", "SecuritySuite"),
       "KeyID0": ("cosem_interface_classes.security_setup.ver0", "KeyID"), "SecurityPolicyVer1": ("cosem_interface_classes.security_setup.ver1", "SecurityPolicyVer1"),
       "CertificateEntity": ("cosem_interface_classes.security_setup.ver1", "CertificateEntity"), "CertificateType": ("cosem_interface_classes.security_setup.ver1", "CertificateType"),
       "SecuritySuite1": ("cosem_interface_classes.security_setup.ver1", "SecuritySuite"), "KeyID1": ("cosem_interface_classes.security_setup.ver1", "KeyID"),
       "KeyPair": ("cosem_interface_classes.security_setup.ver1", "KeyPair"), "CertificateIdentificationType": ("cosem_interface_classes.security_setup.ver1", "CertificateIdentificationType"),
       "SortMethod": ("cosem_interface_classes.profile_generic.ver1", "SortMethod"), "ControlState": ("cosem_interface_classes.disconnect_control", "ControlState"),
       "ControlMode": ("cosem_interface_classes.disconnect_control", "ControlMode"), "TransportServiceType": ("cosem_interface_classes.push_setup.ver2", "TransportServiceType"),
       "MessageType": ("cosem_interface_classes.push_setup.ver2", "MessageType"), "PushOperationMethod": ("cosem_interface_classes.push_setup.ver2", "PushOperationMethod"),
       "ServiceId": ("cosem_interface_classes.script_table", "ServiceId")}


def pts(s):
    return [ord(c) for c in s]


def big(v):
    m = abs(v)
    return {"neg": v < 0, "m": list(m.to_bytes((m.bit_length() + 7) // 8, "big"))}


def run(rec, tier, gens):
    rnd = rng()
    cosem()
    cdt = mod("types.common_data_types")
    with open("config.toml", "rb") as f:
        config = tomllib.load(f)["DLMS"]

    def elements(cls):
        return [k if isinstance(k, int) else k[0] for k in cls.ELEMENTS or ()]

    def describe(k, cls, lib="", els=(), sz=-1):
        cfg = [[p["e"], pts(p["v"])] for p in config.get(cls.__name__, ()) if isinstance(p, dict) and "e" in p] if k in ("enum", "speed") else []
        o = {"els": elements(cls), "names": [pts(x) for x in (cls.ELEMENTS or {}).values()]} if k in ("enum", "speed", "flags") else {"els": [], "names": []}
        scale = {p["value"]: p["name"] for p in config.get("scaler_prefix", ())}
        pre = [[p["e"], pts(scale[p["scaler"]])] for p in config["Unit"] if p.get("scaler", 0)] if lib == "Unit" else []
        return {"ev": "type", "pre": pre, "k": k, "cls": pts(cls.__name__), "tag": cls.TAG[0], "sz": sz, "els": list(els), "lib": lib, "cfg": cfg, "o": o}

    def make(k, cls, how, val):
        ev = {"ev": "make", "how": how, "s": [], "x": big(0)}
        if how == "text":
            ev["s"] = pts(val)
        elif how == "int":
            ev["x"] = big(val)
        elif how == "contents":
            ev["s"] = list(val)
        e, x = outcome(lambda: cls(bytearray(val) if how == "contents" else None if how == "none" else val))
        o = {"e": e, "c": [], "enc": [], "text": [], "num": -1, "bits": [], "dec": [], "speed": -1, "back": [], "te": ""}
        if x is not None:
            o["c"], o["enc"] = B(x.contents), B(x.encoding)
            e, t = outcome(lambda: str(x))
            o["te"] = e
            if t is not None:
                o["text"] = pts(t)
                e, y = outcome(lambda: cls(t))
                o["back"] = B(y.contents) if y is not None else [-1]
            else:
                o["text"] = [-1]
            if k in ("bool", "enum", "speed"):
                o["num"] = int(x)
                if k == "speed":
                    o["speed"] = x.decode()
                elif k == "enum" and x.decode() != int(x):
                    o["num"] = -2
            elif k == "flags":
                o["bits"] = list(x.decode())
            elif k in ("octets", "visible", "utf8"):
                o["num"] = len(x)
                e, d = outcome(lambda: x.decode() if k == "visible" else x.to_str() if k == "octets" else "")
                o["dec"] = [-1] if d is None else pts(d)
        ev["o"] = o
        return ev

    ALPHA = {"bool": "0123 tTrRuUeEfFaAlLsSyYnNoOлЛоОжЖьЬнНеЕтТпПрРаАвВдД",
             "octets": "0123456789abcdefABCDEF  \t\ng.", "visible": "aZ0 \t\x7f\x80АбяЁё№€…–«»\x98ҐґéΩ€", "utf8": "aя€𝄞\x00\ud800\x7f ",
             "bcd": "0123456789", "enum": "0123456789a", "flags": "01111000012", "speed": "0123456789"}

    def texts(k, cls, n):
        al = ALPHA[k]
        for _ in range(n):
            if k == "bool":
                w = rnd.choice(("true", "false", "yes", "no", "правда", "ложь", "да", "нет", "10", "01", "nein", "trues"))
                w = w[:rnd.randrange(1, len(w) + 1)]
                yield "".join(rnd.choice((c, c, c.upper())) for c in w)
                yield "".join(rnd.choice(al) for _ in range(rnd.randrange(1, 4)))
            elif k == "flags":
                yield "".join(rnd.choice("01") for _ in range(rnd.choice((8, 8, 8, 7, 9, 0, 16))))
                yield "".join(rnd.choice(al) for _ in range(8))
            elif k in ("enum", "speed"):
                names = list((cls.ELEMENTS or {0: "q"}).values())
                x = rnd.choice(names)
                yield x
                yield rnd.choice((x[:-1], x + "x", x.lower(), x[1:], " " + x)) or "q"
                yield str(rnd.randrange(0, 300))
            elif k == "bcd":
                yield rnd.choice((str(rnd.randrange(0, 300)), "0" + str(rnd.randrange(256)), "-1", "a", "", "1.0", "255", "256", "12a"))
            else:
                yield "".join(rnd.choice(al) for _ in range(rnd.choice((0, 1, 2, 2, 3, 4, 6, rnd.randrange(40)))))
                if k == "octets":
                    yield rnd.choice(("", " ", ":")).join("%02x" % rnd.randrange(256) for _ in range(rnd.randrange(8)))

    def numbers(k, n):
        yield from (0, 1, 2, 5, 7, 255, 256, -1, 9600, 115200, 300)
        for _ in range(n):
            yield rnd.choice((rnd.randrange(256), rnd.randrange(1 << 16), rnd.randrange(1 << rnd.choice((64, 255, 256, 257))), -rnd.randrange(1 << 20)))

    def contents(k, n):
        for _ in range(n):
            if k in ("octets", "visible"):
                yield bytes(rnd.randrange(256) for _ in range(rnd.choice((0, 1, 2, 2, 5, rnd.randrange(60)))))
            elif k == "utf8":
                yield "".join(rnd.choice("aя€𝄞\x00") for _ in range(rnd.randrange(8))).encode()
            else:
                yield bytes(rnd.randrange(256) if rnd.random() < .6 else rnd.randrange(8) for _ in range(rnd.choice((1, 1, 1, 1, 0, 2))))

    def sub(base, name, **kw):
        return type(base)(name, (base,) if isinstance(base, type) else base, {}, **kw)

    big_n = 60 if tier == "thorough" else 5

    def case(key, k, cls, lib="", els=(), sz=-1, n=40, every=False):
        for j in range(max(1, big_n // 5) if tier == "thorough" else 1):
            evs = [describe(k, cls, lib, els, sz), make(k, cls, "none", None)]
            evs += [make(k, cls, "text", t) for t in texts(k, cls, n)]
            evs += [make(k, cls, "int", v) for v in numbers(k, n // 3)]
            if every and j == 0:
                evs += [make(k, cls, "contents", bytes((v,))) for v in range(256)]
                if k in ("enum", "speed"):
                    evs += [make(k, cls, "text", t) for t in dict.fromkeys((cls.ELEMENTS or {}).values())]
            evs += [make(k, cls, "contents", c) for c in contents(k, n // 2)]
            # every event on its own, under the type described first
            for i in range(1, len(evs), 8):
                rec.case(f"{key}/{j}.{i}", [evs[0], *evs[i:i + 8]])

    for i in range(2):
        case(f"bool{i}", "bool", cdt.Boolean, n=80, every=True)
        case(f"octets{i}", "octets", cdt.OctetString, n=120)
        case(f"visible{i}", "visible", cdt.VisibleString, n=120)
        case(f"utf8{i}", "utf8", cdt.Utf8String, n=80)
        case(f"bcd{i}", "bcd", cdt.Bcd, n=80, every=True)
    chars = [bytes((v,)) for v in range(256)]
    for k, cls in (("visible", cdt.VisibleString), ("octets", cdt.OctetString)):
        evs = [make(k, cls, "contents", c) for c in chars] + [make(k, cls, "text", chr(v)) for v in [*range(0x20, 0x180), *range(0x400, 0x460), *range(0x2010, 0x2040), 0x20ac, 0x2116, 0x2122] if k == "visible"]
        for i in range(0, len(evs), 8):
            rec.case(f"char/{k}{i}", [describe(k, cls), *evs[i:i + 8]])
    for base, k in ((cdt.OctetString, "octets"), (cdt.VisibleString, "visible"), (cdt.Utf8String, "utf8")):
        for sz in (1, 2, 6):
            case(f"{k}[{sz}]", k, sub(base, f"Sized{sz}", size=sz), sz=sz, n=30)
    # enumerations: own ones (some with names of the configuration), flags, those of the library
    for i in range(12 if tier == "thorough" else 5):
        els = tuple(rnd.sample(range(256), rnd.randrange(1, 12)))
        case(f"own{i}", "enum", sub(cdt.Enum, "Unnamed", elements=els), els=els, n=20, every=True)
    for els in ((0, 2, 7), tuple(range(8)), (7, 1, 0)):
        case(f"flags{els}", "flags", type(cdt.Enum)("OwnFlags", (cdt.FlagMixin, cdt.Enum), {}, elements=els), els=els, n=40, every=True)
    for lib, (m, a) in LIB.items():
        cls = getattr(mod(m), a)
        k = "speed" if lib == "CommSpeed" else "flags" if lib == "SecurityPolicyVer1" else "enum"
        case(lib, k, cls, lib=lib, n=24 if len(cls.ELEMENTS or ()) < 30 else 6, every=len(cls.ELEMENTS or ()) < 30)
        if len(cls.ELEMENTS or ()) >= 30:
            rec.case(f"{lib}/all", [describe(k, cls, lib), *(make(k, cls, "contents", bytes((v,))) for v in range(256))])
