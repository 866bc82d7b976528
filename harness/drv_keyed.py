"""driver for tables with keys: activity calendar, special days, schedule"""
import json
from load import mod, cosem, outcome, B, rng
from drv_collection import lib
from drv_typed import Make

LNS = {"activity_calendar:ActivityCalendar": [0, 0, 13, 0, 0, 255], "special_days_table:SpecialDaysTable": [0, 0, 11, 0, 0, 255], "schedule:Schedule": [0, 0, 12, 0, 0, 255]}


def keyed(rec, tier, gens):
    col, cdt, cst, ut, ow, version = lib()
    r = rng()
    mk = Make(r)
    schema, walks = None, []
    for g in gens:
        for h in json.load(open(g)):
            if h["key"] == "":
                schema = h["schema"]
            else:
                walks.append(h)

    class Play:
        def __init__(self, ck):
            m, n = ck.split(":")
            self.o = getattr(mod("cosem_interface_classes." + m), n)(cst.LogicalName(bytearray(LNS[ck])))
            self.tabs = [i for i, a in enumerate(schema[ck], 1) if a["keyed"]]
            self.types = {i: schema[ck][i - 1]["t"]["sub"][0] for i in self.tabs}
            self.n = len(schema[ck])
            self.evs = [{"ev": "new", "ck": ck, "o": {"tabs": self.seen()}}]

        def seen(self):
            return [B(self.o.get_attr(i).encoding) if i in self.tabs else [] for i in range(1, self.n + 1)]

        def do(self, p):
            t = self.o.get_attr(p["i"])
            s = bytes(p["s"])
            op = p["op"]
            if op == "append":
                e, _ = outcome(lambda: t.append(t.TYPE(s)))
            elif op == "new":
                e, _ = outcome(lambda: t.append())
            elif op == "insert":
                e, _ = outcome(lambda: t.insert(p["k"], t.TYPE(s)))
            elif op == "set":
                e, _ = outcome(lambda: t.set(s))
            elif op == "remove":
                e, _ = outcome(lambda: t.remove(t.TYPE(s)))
            elif op == "pop":
                e, _ = outcome(lambda: t.pop(p["k"]))
            elif op == "clear":
                e, _ = outcome(lambda: t.clear())
            elif op == "field":
                e, _ = outcome(lambda: t[p["k"]][p["f"] - 1].set(s))
            else:
                e, _ = outcome(lambda: t[p["k"]].set(s))
            self.evs.append({"ev": "do", "p": p, "o": {"e": e, "tabs": self.seen()}})

        def random(self):
            i = r.choice(self.tabs)
            t = self.o.get_attr(i)
            T = self.types[i]
            n = len(t)
            op = r.choice(["append"] * 3 + ["new"] * 3 + ["insert", "set", "remove", "pop", "field", "field", "element"] + (["clear"] if r.random() < .3 else []))
            p = {"op": op, "i": i, "k": 0, "f": 0, "s": []}

            def elem():
                if n and r.random() < .35:          # one which is there, or its key with other fields
                    x = B(r.choice(t.values).encoding)
                    return x if r.random() < .5 else rekey(x)
                return mk.of(T, 1) if r.random() < .85 else mk.wrong(T)

            def rekey(x):
                y = mk.of(T, 1)
                return x[:2] + key(x) + y[2 + len(key(y)):]

            def key(x):
                return x[2:4 + x[3]] if x[2] == 9 else x[2:4] if x[2] == 17 else x[2:5]
            if op in ("append", "insert", "remove", "element"):
                p["s"] = elem()
            if op == "remove" and n and r.random() < .8:
                p["s"] = B(r.choice(t.values).encoding)
            if op in ("insert", "pop"):
                p["k"] = r.choice([-1, 0, 1, n, n - 1, n + 1, -n])
            if op in ("field", "element"):
                if n == 0:
                    return
                p["k"] = r.randrange(n)
            if op == "field":
                p["f"] = r.choice([1, 1, r.randint(1, len(T["sub"]))])
                F = T["sub"][p["f"] - 1]
                p["s"] = mk.of(F, 2) if r.random() < .6 else B(r.choice(t.values)[p["f"] - 1].encoding) if r.random() < .7 else mk.wrong(F)
            if op == "set":
                m = r.choice([0, 1, 2, 3, 5])
                p["s"] = [1, m] + sum((elem() for _ in range(m)), [])
            self.do(p)

    for w, h in enumerate(walks[::5]):      # neighbours differ in the last step only
        x = Play(h["key"])
        for p in h["ops"]:
            x.do(p)
        rec.case("walk%d" % w, x.evs)
    for n in range(180 if tier == "quick" else 3000):
        x = Play(r.choice([*schema, "activity_calendar:ActivityCalendar"]))
        for _ in range(r.choice([6, 15, 30])):
            x.random()
        rec.case("random%d" % n, x.evs)
    # tables filled until no key is left
    for ck in schema:
        x = Play(ck)
        if ck.startswith("schedule"):
            continue
        full = [5, 4, 3] if ck.startswith("act") else [2]
        for i in full:
            for _ in range(258 if i == 5 and tier == "thorough" else 12):
                x.do({"op": "new", "i": i, "k": 0, "f": 0, "s": []})
        rec.case("full:" + ck, x.evs)
