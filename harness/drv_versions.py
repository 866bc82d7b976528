"""driver for versions: texts, order, the nearest of a list"""
from load import mod, outcome, rng


def P(s):
    return [ord(x) for x in s]


def versions(rec, tier, gens):
    V = mod("version").AppVersion
    r = rng()

    def see(v):
        return {"a": v.major, "b": v.minor, "p": -1 if v.patch is None else v.patch, "t": P(v.additional)}

    NO = {"a": -9, "b": -9, "p": -9, "t": []}

    def make(q):
        t = "".join(map(chr, q["t"]))
        args = [q["a"], q["b"]] + ([q["p"]] if q["p"] >= 0 else [])
        if r.random() < .5:
            kw = dict(zip(("major", "minor", "patch"), args))
            if t or r.random() < .5:
                kw["additional"] = t
            return V(**kw)
        if t and q["p"] < 0:
            return V(q["a"], q["b"], None, t)
        return V(*args, t) if t or (q["p"] >= 0 and r.random() < .5) else V(*args)

    def read(s):
        def go():
            v = V.from_str(s)
            return dict(v=see(v), text=P(str(v)), report=P(v.report()), back=see(V.from_str(str(v))))
        e, o = outcome(go)
        rec.case(f"read:{s!r}", [{"ev": "read", "s": P(s), "o": dict(o or dict(v=NO, text=[], report=[], back=NO), e=e)}])

    def made(q):
        v = make(q)
        rec.case(f"made:{q}", [{"ev": "made", "v": q, "o": {"v": see(v), "text": P(str(v)), "report": P(v.report())}}])

    def two(q, w):
        def go():
            a, b = make(q), make(w)
            return dict(gt=bool(a > b), ge=bool(a >= b), lt=bool(a < b), le=bool(a <= b), eq=bool(a == b), ne=bool(a != b), hash=hash(a) == hash(b), set=len({a, b}))
        e, o = outcome(go)
        rec.case(f"two:{q}:{w}", [{"ev": "two", "v": q, "w": w, "o": dict(o or dict(gt=False, ge=False, lt=False, le=False, eq=False, ne=False, hash=False, set=0), e=e)}])

    def nearest(q, ws):
        vs = [make(w) for w in ws]
        a = make(q)

        def go():
            x = a.select_nearest(vs)
            return 0 if x is None else next((i for i, v in enumerate(vs, 1) if v is x), -1)
        e, k = outcome(go)
        rec.case(f"near:{q}:{ws}", [{"ev": "nearest", "v": q, "ws": ws, "o": {"e": e, "k": -1 if k is None else k, "ws": [see(v) for v in vs]}}])

    # texts: all short ones over the letters that matter, then longer ones
    letters = "01.a "
    todo = [""]
    for _ in range(5 if tier == "quick" else 6):
        for s in todo:
            read(s)
        todo = [s + x for s in todo if len(s) < 6 for x in letters]
    parts = ["", "0", "1", "9", "10", "007", "255", "65535", "999999999", "a", "1a", "a1", " 1", "1 ", "-1", "+1", "1_0", "0x1", "1e2", "beta", "12beta3", "12 (тест)", "5-rc.1", "3.4", ".", "..", "Ω", "4\u00b2", "\u00b2", "1\n", "\t7", "0000000012", "2.", "\U0001f600", "1\0"]
    for a in parts:
        read(a)
        for b in parts:
            read(f"{a}.{b}")
            if tier != "quick" or r.random() < .2 or not a.isdecimal() or not b.isdecimal():
                for c in r.sample(parts, 12 if tier == "quick" else 24):
                    read(f"{a}.{b}.{c}")
            else:
                for c in parts:
                    read(f"{a}.{b}.{c}")
    # order and choice
    small = [{"a": a, "b": b, "p": p, "t": []} for a in (0, 1, 2) for b in (0, 1, 10) for p in (-1, 0, 1, 2)]
    odd = [{"a": 1, "b": 1, "p": 1, "t": P("beta")}, {"a": 1, "b": 1, "p": 1, "t": P("a")}, {"a": 1, "b": 1, "p": -1, "t": P("a")}, {"a": 10, "b": 0, "p": 9, "t": []}, {"a": 10, "b": 0, "p": 10, "t": []},
           {"a": 1, "b": 65536, "p": 3, "t": []}, {"a": 65537, "b": 0, "p": 3, "t": []}, {"a": 1, "b": 0, "p": 999999999, "t": []}, {"a": 1, "b": 2, "p": 0x10000, "t": []}, {"a": 1, "b": 3, "p": 0, "t": []}]
    all_ = small + odd
    for q in all_:
        made(q)
        for w in all_:
            two(q, w)
    for _ in range(2500 if tier == "quick" else 20000):
        q = r.choice(all_)
        near = [w for w in all_ if w["a"] == q["a"]]
        nearest(q, [r.choice(near if r.random() < .8 else all_) for _ in range(r.choice((0, 1, 2, 2, 3, 3, 4, 5)))])
    for _ in range(300):
        b = r.randrange(3)
        nearest({"a": 1, "b": b, "p": r.randrange(6), "t": []}, [{"a": 1, "b": b, "p": p, "t": P("x") if r.random() < .1 else []} for p in r.sample(range(12), r.randrange(1, 9))])
