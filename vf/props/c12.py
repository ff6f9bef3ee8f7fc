"""C12: system times convert faithfully (independent calendar as oracle)."""

import datetime as dt
import os
import time

from .. import gen, model as m
from ..gen import vb

PROP = "C12"
LEVEL = "exploration"
RULE = ("A case converts a date-time to a system time and back; every calendar field is compared, the weekday comes "
        "from Sakamoto's formula, milliseconds are bounded, neighbouring date-times are compared for order, and the "
        "record is encoded and decoded. Distinct = different date-times; non-trivial = not midnight of the epoch.")
ASSUMPTIONS = ["years 1 to 9999 as in Python's datetime"]
REQUIRED = {"converted": 20000, "days": 5000, "microseconds": 5000, "ordered_pairs": 5000, "now_conversions": 20, "zoned": 3000}


def weekday(y, mo, d):
    """Sakamoto: Sunday = 0."""
    t = (0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4)
    if mo < 3:
        y -= 1
    return (y + y // 4 - y // 100 + y // 400 + t[mo - 1] + d) % 7


def as_tuple(st):
    return (st.year, st.month, st.day_of_week, st.day, st.hour, st.minute, st.second, st.milliseconds)


def order_key(st):
    return (st.year, st.month, st.day, st.hour, st.minute, st.second, st.milliseconds)


def convert(ctx, d):
    ST = vb("general").SystemTime
    st = ST.from_datetime(d)
    t = as_tuple(st)
    exp = (d.year, d.month, weekday(d.year, d.month, d.day), d.day, d.hour, d.minute, d.second)
    if t[:7] != exp:
        ctx.fail(f"{d!r} converts to {t}, expected {exp + ('ms',)}")
    ms = t[7]
    if not (isinstance(ms, int) and 0 <= ms <= 999 and abs(ms * 1000 - d.microsecond) < 1000):
        ctx.fail(f"{d!r} converts to {ms} milliseconds")
    ctx.count("converted")
    return st


def record(ctx, d, st):
    ST = vb("general").SystemTime
    raw = st.pack()
    want = b"".join(m.enc("u16", x) for x in as_tuple(st))
    ctx.check(raw == want, f"{d!r}: system time {as_tuple(st)} encodes to {raw.hex()}")
    ctx.check(ST.unpack(raw) == st, f"{d!r}: system time does not survive encoding")


def back(ctx, d, st):
    b = st.to_datetime()
    got = (b.year, b.month, b.day, b.hour, b.minute, b.second, b.microsecond)
    want = (st.year, st.month, st.day, st.hour, st.minute, st.second, st.milliseconds * 1000)
    ctx.check(got == want, f"{as_tuple(st)} converts back to {b!r}")
    if d.microsecond % 1000 == 0:
        ctx.check(got == (d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond),
                  f"whole-millisecond {d!r} comes back as {b!r}")
        ctx.count("exact_round_trips")


def full(ctx, d):
    st = convert(ctx, d)
    record(ctx, d, st)
    back(ctx, d, st)
    ctx.eval(d.isoformat())
    return st


CHUNK = 400


def days(ctx, rng, index):
    """A run of consecutive days; every day of the years in question."""
    if ctx.thorough:
        start = 1 + index * CHUNK
    else:  # 1970..2100 completely, then samples of the rest
        start = dt.date(1970, 1, 1).toordinal() + index * CHUNK if index < 120 else rng.randint(1, dt.date.max.toordinal() - CHUNK)
    for o in range(start, min(start + CHUNK, dt.date.max.toordinal() + 1)):
        d0 = dt.date.fromordinal(o)
        us = rng.choice((0, 999999, 999499, 999500, 500, 499, 501, rng.randrange(10**6), rng.randrange(1000) * 1000))
        d = dt.datetime(d0.year, d0.month, d0.day, rng.randrange(24), rng.randrange(60), rng.randrange(60), us)
        st = convert(ctx, d)
        back(ctx, d, st)
        if o % 10 == 0:
            record(ctx, d, st)
        ctx.eval((o, us))
        ctx.count("days")


def micros(ctx, rng, index):
    """Runs of microseconds, in order: no step goes backwards."""
    n = 1000
    start = index * n if ctx.thorough else (index * 37 % 1000) * n
    base = dt.datetime(rng.choice((1, 1970, 2024, 9999)), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), rng.randrange(60), rng.randrange(60))
    prev = None
    for us in range(start, start + n):
        d = base.replace(microsecond=us)
        st = convert(ctx, d)
        k = order_key(st)
        if prev is not None and k < prev:
            ctx.fail(f"{d!r} converts to {k}, a microsecond earlier gave {prev}")
        prev = k
        ctx.count("ordered_pairs")
    back(ctx, d, st)
    ctx.count("microseconds", n)
    ctx.eval((base.isoformat(), start))


def ordered(ctx, rng, index):
    """Neighbouring date-times across second, minute, day, month, year and leap boundaries."""
    base = rng.choice([dt.datetime(2023, 12, 31, 23, 59, 59, 999000), dt.datetime(2024, 2, 28, 23, 59, 59, 990000),
                       dt.datetime(2100, 2, 28, 23, 59, 59, 999000), dt.datetime(2000, 2, 29, 23, 59, 59, 999400),
                       dt.datetime(rng.randint(2, 9998), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24),
                                   rng.randrange(60), 59, 999000)])
    d, prev = base, None
    for _ in range(60):
        st = full(ctx, d)
        k = order_key(st)
        if prev is not None:
            ctx.check(k >= prev, f"{d!r} converts to {k}, an earlier time gave {prev}")
            ctx.count("ordered_pairs")
        prev = k
        d += dt.timedelta(microseconds=rng.choice((1, 7, 49, 100, 499, 500, 501, 999, 1000, 1001, 250_000, 10**6, 3600 * 10**6)))
    ctx.sample(lambda: {"from": base.isoformat(), "to": d.isoformat()})


class Summer(dt.tzinfo):
    """A zone in daylight saving time."""

    def __init__(self, off, dst):
        self.off, self.saving = off, dst

    def utcoffset(self, d):
        return self.off

    def dst(self, d):
        return self.saving

    def tzname(self, d):
        return "TEST"


class Changing(Summer):
    """A zone that changes on a day of the year; the hour before is ambiguous (fold)."""

    def dst(self, d):
        if d is None:
            return None
        return self.saving if 90 <= d.timetuple_yday() < 300 else dt.timedelta(0)

    def utcoffset(self, d):
        return self.off if d is not None and d.fold else self.off + self.saving


class MyDateTime(dt.datetime):
    """A user's own date-time class."""

    def timetuple_yday(self):
        return dt.date(self.year, self.month, self.day).toordinal() - dt.date(self.year, 1, 1).toordinal() + 1


def zones(rng):
    out = [Summer(dt.timedelta(minutes=rng.randint(-900, 900)), dt.timedelta(minutes=rng.choice((60, 30, 120, -60)))),
           Summer(dt.timedelta(0), dt.timedelta(hours=1)),
           Summer(dt.timedelta(hours=rng.choice((-23, 23, 14, -12)), seconds=rng.choice((0, 59))), dt.timedelta(hours=1)),
           Summer(None, None), dt.timezone(dt.timedelta(hours=-23, minutes=-59)), dt.timezone(dt.timedelta(hours=23, minutes=59, microseconds=1)),
           Changing(dt.timedelta(hours=1), dt.timedelta(hours=1))]
    try:
        import zoneinfo
        out += [zoneinfo.ZoneInfo(n) for n in ("Europe/Berlin", "America/New_York", "Australia/Lord_Howe")]
    except Exception:  # no zone database here
        pass
    return out


def zoned(ctx, rng, index):
    """Zones with daylight saving time, odd offsets, no offset at all, and a user's own date-time class."""
    for tz in zones(rng):
        for cls in (dt.datetime, MyDateTime):
            if isinstance(tz, Changing) and cls is dt.datetime:
                continue
            y = rng.choice((1, 1970, 2024, 9999, rng.randint(1, 9999)))
            d = cls(y, rng.choice((1, 7, 12, rng.randint(1, 12))), rng.choice((1, 28, rng.randint(1, 28))), rng.choice((0, 2, 23, rng.randrange(24))),
                    rng.randrange(60), rng.randrange(60), rng.randrange(10**6), tzinfo=tz, fold=rng.randrange(2))
            a = full(ctx, d)
            b = full(ctx, dt.datetime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond))
            ctx.check(a == b, f"{d!r}: the zone changes the fields: {as_tuple(a)} / {as_tuple(b)}")
            ctx.count("zoned")


def aware(ctx, rng, index):
    """Aware date-times of any zone keep their own calendar fields; fold does not matter."""
    tz = dt.timezone(dt.timedelta(minutes=rng.randint(-23 * 60, 23 * 60), seconds=rng.choice((0, 0, 17))))
    old = os.environ.get("TZ")
    try:
        os.environ["TZ"] = rng.choice(("UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "XYZ+9:30", "EST5EDT,M3.2.0,M11.1.0"))
        time.tzset()
        for _ in range(10):
            d = dt.datetime(rng.randint(1, 9999), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), rng.randrange(60),
                            rng.randrange(60), rng.randrange(10**6), fold=rng.randrange(2))
            a = full(ctx, d)
            b = full(ctx, d.replace(tzinfo=tz))
            c = full(ctx, d.replace(tzinfo=dt.timezone.utc))
            ctx.check(a == b == c, f"{d!r}: zone {tz} changes the fields: {as_tuple(a)} / {as_tuple(b)} / {as_tuple(c)}")
        ctx.count("aware")
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()


def now(ctx, rng, index):
    """Without an argument the current UTC time is taken, whatever the local zone."""
    old = os.environ.get("TZ")
    try:
        os.environ["TZ"] = ("UTC0", "ABC-11", "ABC+9:30", "CET-1CEST,M3.5.0,M10.5.0/3")[index % 4]
        time.tzset()
        a = dt.datetime.now(dt.timezone.utc).replace(tzinfo=None)
        st = vb("general").SystemTime.from_datetime()
        b = dt.datetime.now(dt.timezone.utc).replace(tzinfo=None)
        t = dt.datetime(st.year, st.month, st.day, st.hour, st.minute, st.second, st.milliseconds * 1000)
        tol = dt.timedelta(milliseconds=1)
        ctx.check(a - tol <= t <= b + tol, f"from_datetime() gives {t}, UTC is between {a} and {b}")
        ctx.check(st.day_of_week == weekday(t.year, t.month, t.day), f"weekday of {t} given as {st.day_of_week}")
        ctx.count("now_conversions")
        ctx.eval(("now", index))
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()


def random(ctx, rng, index):
    for _ in range(20):
        o = rng.randint(1, dt.date.max.toordinal())
        d = dt.datetime.fromordinal(o) + dt.timedelta(microseconds=rng.randrange(86_400_000_000))
        full(ctx, d)
        full(ctx, d.replace(microsecond=d.microsecond // 1000 * 1000))


def families(tier):
    t = tier == "thorough"
    return [
        ("days", dt.date.max.toordinal() // CHUNK + 1 if t else 240, days),
        ("micros", 1000 if t else 120, micros),
        ("ordered", 20000 if t else 600, ordered),
        ("aware", 6000 if t else 600, aware),
        ("zoned", 6000 if t else 300, zoned),
        ("now", 400 if t else 40, now),
        ("random", 60000 if t else 1500, random),
    ]
