"""driver for activity calendar and special days"""
import datetime as D
import json
from types import SimpleNamespace as NS
from load import mod, cosem, outcome, rng


def when(p):
    return D.datetime(*p[:6], p[6] * 10000, tzinfo=D.timezone(D.timedelta(minutes=p[7])))


def array(els):
    return bytes((1, len(els))) + b"".join(els)


def name(n):
    return bytes((9, len(n))) + bytes(n)


def octets(cal):
    """the three tables as a meter sends them; identifiers are numbers of place, so all are different"""
    days = array([b"\x02\x02\x11" + bytes((i,)) + array([b"\x02\x03\x09\x04" + bytes(a["t"]) + b"\x09\x06\x00\x00\x0a\x00\x64\xff\x12" + a["sel"].to_bytes(2, "big") for a in d["acts"]]) for i, d in enumerate(cal["days"])])
    weeks = array([b"\x02\x08" + name([i]) + b"".join(bytes((17, x)) for x in w["d"]) for i, w in enumerate(cal["weeks"])])
    seasons = array([b"\x02\x03" + name([i]) + b"\x09\x0c" + bytes(s["s"]) + name(s["w"]) for i, s in enumerate(cal["seasons"])])
    return days, weeks, seasons


def fill(obj, cal, base):
    for i, x in zip((base, base - 1, base - 2), octets(cal)):
        obj.set_attr(i, x)
    for el, d in zip(obj.get_attr(base), cal["days"]):
        el.day_id.set(d["id"])
    for el, w in zip(obj.get_attr(base - 1), cal["weeks"]):
        el.week_profile_name.set(bytearray(w["n"]))
    for el, s in zip(obj.get_attr(base - 2), cal["seasons"]):
        el.season_profile_name.set(bytearray(s["n"]))


def place(res, table):
    e, v = res
    if e:
        return {"e": e, "i": 0}
    for i, x in enumerate(table, 1):
        if x is v:
            return {"e": "", "i": i}
    return {"e": "", "i": -1}


def gen_cal(r, tidy):
    days = [{"id": i if tidy else r.randrange(4), "acts": [{"t": [r.choice((0, 0, 6, 7, 23, r.randrange(24), 255)), r.choice((0, 0, 30, 59, r.randrange(60), 255)), r.choice((0, 0, 0, 59, 255)), r.choice((0, 0, 99, 255))],
                                                               "sel": r.choice((1, 2, 3, 4, r.randrange(65536)))} for _ in range(r.choice((0, 1, 2, 3, 4, 6)))]} for i in range(r.choice((1, 2, 3, 3, 4) if tidy else (0, 1, 2, 3)))]
    ids = [d["id"] for d in days] or [0]
    some = lambda: r.choice(ids) if tidy or r.random() < .93 else r.randrange(6)
    nm = lambda i: [i] if tidy else r.choice(([i], [i], [1], [], [0, i], [48 + i]))
    weeks = [{"n": nm(i), "d": [some() for _ in range(7)]} for i in range(r.choice((1, 2, 3) if tidy else (0, 1, 2, 3)))]
    names = [w["n"] for w in weeks] or [[0]]
    seasons = []
    for i in range(r.choice((1, 2, 2, 3, 4) if tidy else (0, 1, 2, 3))):
        y, m, d = r.choice((65535, 65535, 65535, r.choice((2023, 2024, 2025)))), r.choice((255, *range(1, 13), 3, 10)), r.choice((255, 1, 1, 15, r.randrange(1, 29), 28))
        w = 255
        if r.random() < .15:
            w, y, d = r.randrange(1, 8), 65535, 255
        z = r.choice((0x8000, 0x8000, 0, 60, 180, 0x10000 - 120, 0x10000 - 720, 720, 330))
        t = r.choice(((0, 0, 0, 0), (0, 0, 0, 0), (255, 255, 255, 255), (r.randrange(24), r.randrange(60), 0, 0), (2, 0, 0, 255), (255, 30, 0, 0), (23, 59, 59, 99)))
        seasons.append({"n": nm(i), "s": [y >> 8, y & 255, m, d, w, *t, z >> 8, z & 255, r.choice((255, 0))], "w": r.choice(names) if tidy or r.random() < .9 else [9]})
    spec = []
    for i in range(r.choice((0, 0, 1, 2, 4))):
        y, m, d, w = r.choice((65535, 65535, 2023, 2024)), r.choice((255, 1, 2, 5, 12, r.randrange(1, 13), 253, 254)), r.choice((255, 1, 9, 28, 254, 253, r.randrange(1, 29))), 255
        if r.random() < .3:
            w, y, d = r.randrange(1, 8), 65535, r.choice((255, r.randrange(1, 8)))
        spec.append({"d": [y >> 8, y & 255, m, d, w], "id": some()})
    return {"seasons": seasons, "weeks": weeks, "days": days, "spec": spec}


def gen_now(r, cal):
    base = D.datetime(r.choice((2022, 2023, 2024, 2024, 2025)), r.randrange(1, 13), 1, tzinfo=D.timezone.utc) + D.timedelta(days=r.randrange(31), seconds=r.randrange(86400))
    k = r.random()
    off = r.choice((0, 0, 180, -300, 60, 330, 720, -720))
    if k < .45 and cal["seasons"]:
        s = r.choice(cal["seasons"])["s"]
        z = int.from_bytes(bytes(s[9:11]), "big", signed=True)
        pick = lambda v, other: other if v == 255 else v
        y = s[0] * 256 + s[1]
        base = D.datetime(base.year if y == 65535 else y, pick(s[2], base.month), min(28, pick(s[3], base.day)), pick(s[5], base.hour), pick(s[6], base.minute), pick(s[7], base.second), pick(s[8], 0) * 10000,
                          tzinfo=D.timezone(D.timedelta(minutes=0 if z == -0x8000 else z)))
    elif k < .8 and any(d["acts"] for d in cal["days"]):
        t = r.choice(r.choice([d["acts"] for d in cal["days"] if d["acts"]]))["t"]
        base = base.replace(**{f: v * (10000 if f == "microsecond" else 1) for f, v in zip(("hour", "minute", "second", "microsecond"), t) if v != 255}).replace(tzinfo=D.timezone(D.timedelta(minutes=off)))
    elif k < .9 and cal["spec"]:
        d = r.choice(cal["spec"])["d"]
        m = base.month if d[2] > 12 else d[2]
        first = D.datetime(base.year if d[0] == 255 else d[0] * 256 + d[1], m, 1, tzinfo=D.timezone(D.timedelta(minutes=off)))
        base = (first.replace(day=28) + D.timedelta(days=4)).replace(day=1) - D.timedelta(days=255 - d[3]) if d[3] in (254, 253) else first + D.timedelta(days=d[3] - 1 if d[3] < 32 else r.randrange(31))
    base += r.choice((D.timedelta(0), D.timedelta(0), D.timedelta(milliseconds=10), -D.timedelta(milliseconds=10), -D.timedelta(minutes=1), D.timedelta(days=1), D.timedelta(hours=3), -D.timedelta(hours=1)))
    n = base.astimezone(D.timezone(D.timedelta(minutes=off)))
    return [n.year, n.month, n.day, n.hour, n.minute, n.second, n.microsecond // 10000, off]


def run(rec, tier, gens):
    cosem()
    ac, sd = mod("cosem_interface_classes.activity_calendar"), mod("cosem_interface_classes.special_days_table")
    ic = mod("cosem_interface_classes.cosem_interface_class")
    r = rng()

    def make(cal, pas=None):
        obj, sdt = ac.ActivityCalendar("0.0.13.0.0.255"), sd.SpecialDaysTable("0.0.11.0.0.255")
        fill(obj, cal, 5)
        if pas:
            fill(obj, pas, 9)
        sdt.set_attr(2, array([b"\x02\x03\x12\x00" + bytes((i,)) + b"\x09\x05" + bytes(s["d"]) + bytes((17, s["id"])) for i, s in enumerate(cal["spec"])]))
        obj.collection = sdt.collection = NS(current_time=None, special_day_table=sdt)
        return obj, sdt

    def look(obj, sdt, cal, now):
        obj.collection.current_time = when(now)
        arg = () if r.random() < .5 else (when(now),)
        if arg and r.random() < .5:
            obj.collection.current_time = when([2001, 9, 9, 9, 9, 9, 9, 0])       # the given moment counts, not the clock
        o = {"season": place(outcome(lambda: obj.get_current_season(*arg)), obj.get_attr(3)), "week": place(outcome(lambda: obj.get_current_week(*arg)), obj.get_attr(4)),
             "day": place(outcome(lambda: obj.get_current_day(*arg)), obj.get_attr(5))}
        e, v = outcome(lambda: sdt.get_day_id_of_current_special_day(*arg))
        o["spec"] = {"e": e, "v": -1 if v is None else int(v)}
        obj.collection.current_time = when(now)
        d = o["day"]["i"]
        o["action"] = place(outcome(obj.get_current_action), obj.get_attr(5)[d - 1].day_schedule if d > 0 else ())
        e, v = outcome(obj.get_current_rate)
        o["rate"] = {"e": e, "v": -1 if e else v}
        return {"ev": "look", "cal": cal, "now": now, "o": o}

    def validate(obj, cal, pas):
        e, i = "", 0
        try:
            obj.validate()
        except ic.ObjectValidationError as x:
            e, i = "invalid", x.i
        except Exception as x:
            e = type(x).__name__
        return {"ev": "validate", "cal": cal, "pas": pas, "o": {"e": e, "i": i}}

    for i in range(900 if tier == "quick" else 12000):
        cal = gen_cal(r, i % 4 > 0)
        obj, sdt = make(cal)
        rec.case(f"look/{i}", [look(obj, sdt, cal, gen_now(r, cal)) for _ in range(5)])
    for i in range(600 if tier == "quick" else 8000):
        tidy = r.random() < .5
        cal, pas = gen_cal(r, tidy or r.random() < .5), gen_cal(r, r.random() < .5)
        for c in (cal, pas):                      # one wrong reference or repeated name in an otherwise tidy calendar
            if r.random() < .5:
                k = r.randrange(4)
                if k == 0 and c["weeks"]:
                    r.choice(c["weeks"])["d"][r.randrange(7)] = 77
                elif k == 1 and c["seasons"]:
                    r.choice(c["seasons"])["w"] = [77]
                elif k == 2 and len(c["weeks"]) > 1:
                    c["weeks"][-1]["n"] = c["weeks"][0]["n"]
                elif k == 3 and len(c["seasons"]) > 1:
                    c["seasons"][-1]["n"] = c["seasons"][0]["n"]
        obj, _ = make(cal, pas)
        rec.case(f"validate/{i}", [validate(obj, cal, pas)])
    for g in gens:
        with open(g) as f:
            for i, x in enumerate(json.load(f)):
                obj, sdt = make(x["cal"])
                rec.case(f"model/{i}", [look(obj, sdt, x["cal"], x["now"])])
