"""driver for date, time and date-time cells"""
import datetime as D
from load import mod, outcome, B, rng

OPEN = 99999


def codes(s):
    return [ord(c) for c in s]


def zone(off):
    return D.timezone.utc if off == 0 else D.timezone(D.timedelta(minutes=off))


def pyobj(kind, p):
    if kind == "datetime":
        return D.datetime(*p[:7], tzinfo=None if p[7] == OPEN else zone(p[7]))
    return (D.date if kind == "date" else D.time)(*p)


def fields(v):
    """a Python date/time as numbers, hundredths instead of microseconds"""
    if v is None:
        return []
    if isinstance(v, D.datetime):
        off = v.utcoffset()
        return [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond // 10000, OPEN if off is None else int(off.total_seconds() // 60)]
    if isinstance(v, D.date):
        return [v.year, v.month, v.day]
    return [v.hour, v.minute, v.second, v.microsecond // 10000]


def classes():
    cdt, cst = mod("types.common_data_types"), mod("types.cosem_service_types")
    return [("dt", cdt.DateTime, b"\x19"), ("d", cdt.Date, b"\x1a"), ("t", cdt.Time, b"\x1b"),
            ("dt", cst.OctetStringDateTime, b"\x09\x0c"), ("d", cst.OctetStringDate, b"\x09\x05"), ("t", cst.OctetStringTime, b"\x09\x04")]


SIZE = {"dt": 12, "d": 5, "t": 4}


def gen_date(r):
    y = r.choice((1, 1900, 2000, 2023, 2024, 2100, 9999, r.randrange(1, 10000), 0xffff, 0xffff))
    m = r.choice((255, 254, 253, 2, 2, r.randrange(1, 13), r.randrange(1, 13)))
    d = r.choice((255, 254, 253, 28, 29, 30, 31, r.randrange(1, 29), r.randrange(1, 29)))
    try:
        w = D.date(y, m, d).isoweekday()
    except ValueError:
        w = r.choice((255, r.randrange(1, 8)))
    w = r.choice((255, w, w, w % 7 + 1))
    return bytes((y >> 8, y & 255, m, d, w))


def gen_time(r):
    return bytes((r.choice((255, 0, 23, r.randrange(24))), r.choice((255, 0, 59, r.randrange(60))), r.choice((255, 0, 59, r.randrange(60))), r.choice((255, 255, 0, 99, r.randrange(100)))))


def gen_dev(r):
    d = r.choice((OPEN, 0, 720, -720, -1, 180, r.randrange(-720, 721), r.choice((721, -721, 1439, -1439, 5000))))
    return b"\x80\x00" if d == OPEN else d.to_bytes(2, "big", signed=True)


def gen(r, k):
    if k == "t":
        return gen_time(r)
    if k == "d":
        return gen_date(r)
    return gen_date(r) + gen_time(r) + gen_dev(r) + bytes((r.choice((255, 0, r.randrange(256))),))


def damage(r, c):
    c = bytearray(c)
    if r.random() < .8:
        c[r.randrange(len(c))] = r.choice((0, 13, 24, 32, 60, 100, 252, 253, 254, 255, r.randrange(256)))
    elif r.random() < .5:
        del c[r.randrange(len(c))]
    else:
        c.insert(r.randrange(len(c) + 1), r.randrange(256))
    return bytes(c)


WORDS = "begin end last penult по пон вто ср чет суб вс mo tue we thu fr sat sun xyz -- 0 00 8 7 1 31 32 12 13 23 24 59 60 99 100 2024 24 0000 99999 _ __ ____ _____ -720 720 721 -721 -".split() + [""]


def gen_text(r, k):
    def num(lo, hi):
        return r.choice((str(r.randrange(lo, hi)), str(r.randrange(lo, hi)).zfill(2), "__", "_", "", r.choice(WORDS)) if r.random() < .5 else (str(r.randrange(lo, hi)),))

    def date():
        d, m, y = num(1, 32), num(1, 13), r.choice((num(1, 10000), num(2000, 2030), num(0, 100), "____"))
        w = r.choice(WORDS[4:18] + ["", "1", "7"])
        return r.choice((d, w, f"{d}.{m}", f"{d}.{m}.{y}", f"{d}.{m}.{y}", f"{d}.{m}-{w}", f"{w}-{d}.{m}", f"{d}.{m}.{y}-{w}", f"{w}-{d}.{m}.{y}", f"{d}-{m}-{y}", f"{d}.{m}.{y}.{w}"))

    def time():
        h, m, s = num(0, 24), num(0, 60), num(0, 60)
        f = r.choice((str(r.randrange(100)).zfill(2), "00", "99", "__", "", "100"))
        return r.choice((h, f"{h}:{m}", f"{h}:{m}:{s}", f"{h}:{m}:{s}.{f}", f"{s}.{f}", f"{m}:{s}.{f}", f"{h}.{m}.{s}", f"{h}:{m}:{s}:{f}"))
    if k == "d":
        return date()
    if k == "t":
        return time()
    dev = r.choice(("", "0", "-", "180", "-180", "720", "-720", "721", "-721", "5 ", "x", str(r.randrange(-800, 800))))
    return r.choice((date(), f"{date()} {time()}", f"{date()} {time()} {dev}", f"{date()} {time()} {dev}", ""))


def odd(t):
    """one-digit hundredths and partly typed weekday names have no settled reading"""
    import re
    return bool(re.search(r"\.\d(\s|$)", t))


def gen_py(r, k):
    kind = r.choice(("datetime", "date", "time"))
    y, m = r.choice((1, 2000, 2024, 9999, r.randrange(1, 10000))), r.randrange(1, 13)
    d = r.choice((1, 28, r.randrange(1, 29)))
    if (m, r.random() < .3) == (2, True):
        y, d = 2024, 29
    t = [r.randrange(24), r.randrange(60), r.randrange(60), r.choice((0, 999999, 10000, 9999, r.randrange(10 ** 6)))]
    off = r.choice((OPEN, 0, 60, -60, 180, -210, 720, -720, 840, -721, r.randrange(-1439, 1440)))
    return kind, {"datetime": [y, m, d] + t + [off], "date": [y, m, d], "time": t}[kind]


def cells(rec, tier, gens):
    rnd = rng()

    def shows(k, x, e):
        def look():
            f = {}
            for n in {"dt": ("year", "month", "day", "weekday", "hour", "minute", "second", "hundredths"), "d": ("year", "month", "day", "weekday"), "t": ("hour", "minute", "second", "hundredths")}[k]:
                a, v = outcome(lambda: getattr(x, n))
                f[n] = -2 if a else -1 if v is None else v
            a, v = outcome(x.decode)
            tz = []
            if k == "dt":
                b, z = outcome(lambda: x.time_zone)
                tz = [OPEN] if b else [] if z is None else [int(z.utcoffset(None).total_seconds() // 60)]
            return {"c": B(x.contents), "enc": B(x.encoding), "text": codes(str(x)), "f": f, "py": fields(v), "tz": tz, "all": k == "dt" and x.is_default_value()}
        bad, v = outcome(look) if x is not None else ("", None)
        o = {"e": e or bad}
        o.update(v or {"c": [], "enc": [], "text": [], "f": {"year": 0}, "py": [], "tz": [], "all": False})
        return o

    def offer(k, pre):
        how = rnd.choice(("octets", "contents", "text", "text", "py"))
        c = gen(rnd, k)
        if how == "py":
            kind, p = gen_py(rnd, k)
            return {"how": how, "kind": kind, "p": p}, pyobj(kind, p)
        if how == "text":
            t = gen_text(rnd, k)
            while odd(t):
                t = gen_text(rnd, k)
            return {"how": how, "s": codes(t)}, t
        if rnd.random() < .3:
            c = damage(rnd, c)
        if how == "contents":
            return {"how": how, "s": B(c)}, bytearray(c)
        s = (rnd.choice((b"\x09", b"\x19", b"\x1a", b"\x1b", b"\x00")) if rnd.random() < .1 else pre) + c + rnd.randbytes(rnd.choice((0, 0, 3)))
        return {"how": how, "s": B(s)}, s

    for i in range(9000 if tier == "thorough" else 900):
        k, cls, pre = classes()[i % 6]
        x = None
        evs = []
        for _ in range(rnd.randrange(3, 11)):
            if x is None or rnd.random() < .1:
                if evs and x is not None:
                    break
                f, v = offer(k, pre)
                e, x = outcome(lambda: cls(v))
                rec.case(f"new{i}-{len(evs)}", evs) if evs else None
                evs = [{"ev": "new", "k": k, "pre": B(pre), **f, "o": shows(k, x, e)}]
                continue
            op = rnd.random()
            if op < .45:
                f, v = offer(k, pre)
                e, _ = outcome(lambda: x.set(v))
                evs.append({"ev": "set", **f, "o": shows(k, x, e)})
            elif op < .95 or k != "dt":
                fn = rnd.choice({"dt": ("year", "month", "day", "weekday", "hour", "minute", "hundredths"), "d": ("year", "month", "day", "weekday"), "t": ("hour", "minute", "hundredths")}[k])
                top = {"year": 9999, "month": 12, "day": 31, "weekday": 7, "hour": 23, "minute": 59, "hundredths": 99}[fn]
                v = rnd.choice((0, 1, top, top + 1, 65535 if fn == "year" else 255, rnd.randrange(top + 1), rnd.randrange(top + 1), -1, 2024 if fn == "year" else 30, 70000))
                e, _ = outcome(lambda: getattr(x, "set_" + fn)(v))
                evs.append({"ev": "field", "f": fn, "v": v, "o": shows(k, x, e)})
            else:
                v = rnd.randrange(256)
                e, _ = outcome(lambda: x.set_clock_status(rnd.choice((v, str(v)))))
                evs.append({"ev": "status", "v": v, "o": shows(k, x, e)})
        rec.case(f"cell{i}", evs)
    # all field values of a sample of dates: every month and day code
    for k, cls, pre in classes()[:2]:
        for y in (1, 2023, 2024, 1900, 2000, 0xffff, 0, 10000):
            for m in (*range(0, 14), 252, 253, 254, 255):
                for d in (0, 1, 28, 29, 30, 31, 32, 252, 253, 254, 255):
                    c = bytes((y >> 8, y & 255, m, d, rnd.choice((255, 255, 0, 1, 8)))) + (b"" if k == "d" else b"\x0c\x00\x00\xff\x80\x00\x00")
                    e, x = outcome(lambda: cls(bytearray(c)))
                    rec.case(f"all-{k}-{y}-{m}-{d}", [{"ev": "new", "k": k, "pre": B(pre), "how": "contents", "s": B(c), "o": shows(k, x, e)}])


def nearest(rec, tier, gens):
    cs = classes()
    rnd = rng()

    def pattern():
        y = rnd.choice((0xffff, 0xffff, 2024, 2023, rnd.randrange(1990, 2040)))
        m = rnd.choice((255, 255, 2, 12, 1, rnd.randrange(1, 13)))
        d = rnd.choice((255, 255, 29, 31, 30, 1, rnd.randrange(1, 32)))
        w = rnd.choice((255, 255, rnd.randrange(1, 8)))
        if rnd.random() < .5 and 255 not in (m, d) and y != 0xffff:
            try:
                w = D.date(y, m, d).isoweekday()
            except ValueError:
                pass
        dev = rnd.choice((OPEN, OPEN, 0, 180, -180, 720, -720, rnd.randrange(-720, 721)))
        t = gen_time(rnd)
        if rnd.random() < .4:
            t = rnd.choice((b"\xff\xff\xff\xff", b"\xff\x00\x00\x00", b"\x00\x00\x00\x00", b"\xff\xff\x00\xff", b"\x00\xff\xff\xff"))
        return bytes((y >> 8, y & 255, m, d, w)) + t + (b"\x80\x00" if dev == OPEN else dev.to_bytes(2, "big", signed=True)) + b"\xff"

    def near_time(a):
        """a time of day close to the octets a"""
        v = [x if x != 255 else rnd.randrange(n) for x, n in zip(a, (24, 60, 60, 100))]
        if rnd.random() < .6:
            i = rnd.randrange(4)
            v[i] = min((23, 59, 59, 99)[i], max(0, v[i] + rnd.choice((-1, 1))))
        return v
    n = 0
    while n < (15000 if tier == "thorough" else 1200):
        c = pattern()
        k, cls, pre = cs[rnd.choice((0, 3))]
        e, x = outcome(lambda: cls(bytearray(c)))
        if x is None:
            continue
        evs = []
        for _ in range(3):
            y = int.from_bytes(c[:2], "big")
            y = rnd.choice((2024, 2023, 2000, rnd.randrange(1995, 2035))) if y == 0xffff else y + rnd.choice((0, 0, 0, 1, -1))
            m = c[2] if c[2] != 255 and rnd.random() < .7 else rnd.choice((1, 3, 12, rnd.randrange(1, 13)))
            d = c[3] if c[3] != 255 and rnd.random() < .7 else rnd.choice((1, 28, rnd.randrange(1, 29)))
            t = near_time(c[5:9])
            off = rnd.choice((0, 0, 60, -720, 720, rnd.randrange(-720, 721)))
            try:
                p = D.datetime(y, m, d, *t[:3], t[3] * 10000 + rnd.choice((0, 0, 9999)), tzinfo=zone(off))
            except ValueError:
                continue
            de, day = outcome(lambda: x.get_left_nearest_date(p), 20)
            e, at = outcome(lambda: x.get_left_nearest_datetime(p), 20)
            evs.append({"ev": "near", "c": B(c), "p": [y, m, d, *t, off], "o": {"de": de, "day": fields(day), "e": e, "at": fields(at)}})
        rec.case(f"near{n}", evs)
        n += 1
    for n in range(8000 if tier == "thorough" else 1200):
        k, cls, pre = cs[rnd.choice((2, 5))]
        c = gen_time(rnd)
        x = cls(bytearray(c))
        evs = []
        for _ in range(3):
            t = near_time(c)
            e, at = outcome(lambda: x.get_left_nearest_time(D.time(*t[:3], t[3] * 10000 + rnd.choice((0, 0, 9999)))))
            evs.append({"ev": "neartime", "c": B(c), "p": t, "o": {"e": e, "at": fields(at)}})
        rec.case(f"neartime{n}", evs)
