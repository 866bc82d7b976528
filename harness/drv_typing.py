"""driver for values typed letter by letter, and for secrets shown and hidden"""
import importlib
import json
from load import outcome, rng
import drv_collection as dc

TAGS = {5: ("DoubleLong", 4), 6: ("DoubleLongUnsigned", 4), 15: ("Integer", 1), 16: ("Long", 2), 17: ("Unsigned", 1), 18: ("LongUnsigned", 2),
        20: ("Long64", 8), 21: ("Long64Unsigned", 8)}
SIGNED = (5, 15, 16, 20)


ODD = {"int": ".e_+", "scaled": "e_+", "float": "_"}


def pts(s):
    return [ord(c) for c in s]


def txt(p):
    return "".join(map(chr, p))


def typing(rec, tier, gens):
    col, cdt, cst, ut = dc.lib()[:4]
    aln = importlib.import_module("src.DLMS_SPODES.cosem_interface_classes.association_ln.ver0")
    r = rng()

    def make(k):
        n = k["k"]
        if n == "int":
            return getattr(cdt, TAGS[k["t"]][0])(0)
        if n == "scaled":
            x = getattr(cdt, TAGS[k["t"]][0])(0)
            x.SCALER_UNIT = cdt.ScalUnitType((-k["p"], 255))
            return x
        if n == "enum":
            return cdt.Unit(27)
        return {"float": lambda: r.choice((cdt.Float32, cdt.Float64))(0.0), "bits": lambda: cdt.BitString("01"), "text": lambda: r.choice((cdt.VisibleString, cdt.Utf8String))("q"),
                "octets": lambda: cdt.OctetString("01 02"), "t": lambda: cdt.Time("1:2"), "d": lambda: cdt.Date("3.4.2025"),
                "dt": lambda: cdt.DateTime("3.4.2025 5:6"), "ln": lambda: cst.LogicalName("1.0.1.8.0.255")}[n]()

    def play(key, k, ops, begin=None):
        """begin: the text of the value that is edited; else the line is empty"""
        n = k["k"]
        x = make(k)
        if begin is not None and outcome(lambda: x.set(begin))[0]:
            return
        was = bytes(x.encoding)
        s = str(x) if begin is not None else ""
        c = len(s)
        evs = [{"ev": "start", "k": k, "s": pts(s), "o": {}}]
        for op in ops:
            if op[0] == "press":
                t = s[:c] + chr(op[1]) + s[c:]
                if n in ODD and (chr(op[1]) in ODD[n] or n == "float" and any(len(q.strip("+-")) > 1 for q in t.lower().split("e")[1:])):
                    continue            # roundings, exponents and the other spellings of numbers are not this check's
                e, v = outcome(lambda: x.validate_from(t, c + 1))
                ok = not e and isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and isinstance(v[1], int)
                evs.append({"ev": "press", "x": op[1], "o": dict({"e": e, "kept": bytes(x.encoding) == was}, **({"s": pts(v[0]) if ok else [-1], "c": v[1] if ok else -1} if not e else {}))})
                if ok:
                    s, c = v
                    c = min(max(c, 0), len(s))
                elif not e:
                    break
            elif op[0] == "move":
                c = op[1] % (len(s) + 1)
                evs.append({"ev": "move", "c": c, "o": {}})
            elif op[0] == "set" and s:
                e, _ = outcome(lambda: x.set(s))
                evs.append({"ev": "set", "o": {"e": e, "kept": bytes(x.encoding) == was, "v": list(x.contents)}})
                break
        rec.case(key, evs)

    seen = set()
    for f in gens:
        for i, g in enumerate(json.load(open(f))):
            if g["k"]["k"] == "enum":
                continue
            play("walk%d" % i, g["k"], [("press", x) for x in g["typed"]] + [("set",)])
    many = tier != "quick"
    names = [n for n in dict.fromkeys(cdt.Unit.get_values()) if n and not any(x.isdigit() for x in n)]
    enum = {"k": "enum", "names": [pts(n) for n in names]}
    samples = {
        "t": ("123456", "12:34:56", "9:3", "995959", "235959.99", "23595999", "0:0:0.5", "_:30", "::7", "24", "60:1", "12.34", "7::5", "__:__:15", "1:_5"),
        "d": ("1.2.2024", "122024", "31122024", "113", "1.1.24-3", "_.2.2025", "__.12", "5.13.2000", "9919", "1.2.2024.5", "311299991", "_._.2020", "___1"),
        "dt": ("1.2.2024 12:34:56", "3112202423595999", "1.2.2024 1:2:3.45 -180", "_.5 12", "112024-1 9", "1.1.24-3 5:6:7.8 60", "1.2.2024 12:34:56  ", "9999"),
        "ln": ("1.0.1.8.0.255", "101800255", "255255255255255255", "1001", "0.0.999", "1..1.8", "300", "256", "1.0.1.8.0.2556"),
        "octets": ("0102ff", "01 02 ff", "a", "abc", "g0", "AbCd", "0 1", "  1234"),
        "float": ("-1.5", "1e5", "1.5e-3", "+2.", ".5", "-.5e+1", "1e", "1..2", "--1", "1e5e", "ff", "1.f", "0.001", "-0", "12.34.5", "1-2"),
        "bits": ("0101", "012", "11110000111", "1 0"),
        "text": ("abc", "Привет", " x ", "_"),
        "int": ("12", "-12", "300", "-129", "65535", "99999999999999999999", "1-", "--", "a1", "0007", "-0"),
        "scaled": ("1.5", "-1.5", "0.001", ".5", "-.5", "-", "1.", "99999", "655.35", "655.36", "1.2.3", "12a", "-0.01", "327.67", "327.68")}
    letters = {"t": "0123456789:._5", "d": "0123456789.-_1", "dt": "0123456789.-: _1", "ln": "0123456789.25", "octets": "0123456789abcdefABF gz ", "float": "0123456789.-+eEa", "bits": "01012",
               "text": "azЯ 0_", "int": "0123456789-a", "scaled": "0123456789.-a"}

    def kind(n):
        if n in ("int", "scaled"):
            t = r.choice(sorted(TAGS))
            k = {"k": n, "t": t, "w": TAGS[t][1]}
            return dict(k, p=r.choice((0, 1, 2, 3))) if n == "scaled" else k
        return enum if n == "enum" else {"k": n}

    for n, ts in sorted(samples.items()):
        for t in ts:
            for i in range(8 if n in ("int", "scaled") else 1):
                k = dict({"k": n, "t": sorted(TAGS)[i], "w": TAGS[sorted(TAGS)[i]][1]}, **({"p": i % 4} if n == "scaled" else {})) if n in ("int", "scaled") else {"k": n}
                play(f"{n}:{t}:{i}", k, [("press", ord(x)) for x in t] + [("set",)])
    for n in names:
        play("enum:" + n, enum, [("press", ord(x)) for x in n] + [("set",)])
    for i in range(700 if not many else 12000):
        n = r.choice(sorted(letters) + ["enum"])
        k = kind(n)
        ops = []
        pool = letters.get(n) or "".join(sorted(set("".join(names))))
        base = r.choice(names if n == "enum" else samples[n])
        for j in range(r.randrange(1, 12 if n in ("int", "scaled", "float", "enum") else 18)):
            if r.random() < (.12 if n not in ("enum",) else .03):
                ops.append(("move", r.randrange(20)))
            ops.append(("press", ord(base[j] if j < len(base) and r.random() < .5 else r.choice(pool))))
        begins = {"t": ("_:30", "12", ":5:7", "_:_:_.5", "1:2:3.4", ""), "d": ("_.2.2025", "5._.2024", ".6", "31.12.2024", "1.2.2024-4", "_._.2030"),
                  "dt": ("_.2.2025 _:30", "5.6.2024 1:2:3.45 60", "1.1.2020 _:_:9"), "ln": ("1.0.1.8.0.255",), "octets": ("0102ff", ""), "int": ("7", "0"), "scaled": ("0",),
                  "float": ("0.0", "1.5"), "bits": ("0101",), "text": ("ab c",)}
        if n in begins and r.random() < .45:
            play("edit%d" % i, k, [("move", r.randrange(20))] + ops + [("set",)], r.choice(begins[n]))
        else:
            play("random%d" % i, k, ops + [("set",)])
    # secrets
    reps = [aln.Representation(i) for i in range(4)]
    for i in range(60 if not many else 1500):
        start = r.randrange(4)
        cs = [bytes(r.randrange(32, 127) if r.random() < .85 else 32 for _ in range(r.choice((0, 1, 3, 8, 16)))) for _ in range(3)]
        xs = []

        def f():
            xs.extend(aln.LLCSecret(bytearray(c)) for c in cs)
            xs[0].representation = reps[start]

        def look(e):
            e2, v = outcome(lambda: ([list(x.contents) for x in xs], [pts(str(x)) for x in xs]))
            return {"e": e or e2, "cs": v[0] if v else [], "ts": v[1] if v else []}
        evs = [{"ev": "secrets", "rep": start, "cs": [list(c) for c in cs], "o": look(outcome(f)[0])}]
        for _ in range(r.randrange(1, 9)):
            if r.random() < .5:
                q, j = r.randrange(4), r.randrange(3)
                e, _v = outcome(lambda: setattr(xs[j], "representation", reps[q]))
                evs.append({"ev": "rep", "r": q, "o": look(e)})
            else:
                j = r.randrange(3)
                t = r.choice(("3132", "31 32 ff"[:5], "secret", "7a", "4", "A b", "41 20 42", "7e7E"))
                e, _v = outcome(lambda: xs[j].set(t))
                evs.append({"ev": "secret", "i": j + 1, "t": pts(t), "o": look(e)})
        rec.case("secrets%d" % i, evs)
    outcome(lambda: setattr(aln.LLCSecret(), "representation", reps[0]))
