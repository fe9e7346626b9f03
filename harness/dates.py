"""Dates (C20)."""
import struct
from datetime import datetime, timedelta, timezone
from v8serialize import DecodeV8SerializeError, dumps, loads
from v8serialize.decode import TagReader
from hx import v8

EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
US = timedelta(microseconds=1)
DAY = 86400 * 10 ** 3
MIN, MAX = -62135596800000, 253402300799999      # ms of the years 1 to 9999


def zone(S, name, kinds):
    k = S.choice("zone." + name, kinds)
    if k == "utc":
        return timezone.utc
    if k == "india":
        return timezone(timedelta(hours=5, minutes=30))
    if k == "west":
        return timezone(timedelta(hours=-11, seconds=-7))
    if k == "any":
        return S.tz(S.int("off." + name, -86399, 86399) * 10 ** 6)
    if k == "dst":
        b, a = S.choice(name + " offsets", [(3600, 0), (0, 3600), (7230, -3600), (-39600, 46800)])
        return S.dst(S.int("change", 2 ** 40, 2 ** 41) * 1000, b * 10 ** 6, a * 10 ** 6)
    return None


def apart(a, b):
    """Microseconds from b to a; naive datetimes are local time."""
    if a.tzinfo is None:
        a = a.astimezone(timezone.utc)
    if b.tzinfo is None:
        b = b.astimezone(timezone.utc)
    return (a - b) // US


def instant(d):
    return apart(d, EPOCH)


def js_time(tree):
    """What V8 makes of the written double: TimeClip, which drops the fraction."""
    f = tree.value
    return int(f)


def span(S, lo, hi):
    """ms bounds (-1 / +1: the end of the range of datetime, in any zone)"""
    return max(lo, MIN + 2 * DAY), min(hi, MAX - 2 * DAY)


def write(S, lo, hi, zones=("utc", "west", "any"), frac=True, pos=("top", "list"), outs=("utc", "none", "india")):
    """Datetimes as V8 and loads read them."""
    lo, hi = span(S, lo, hi)
    ms = S.int("ms[%d,%d]" % (lo, hi), lo, hi)
    r = S.int("us", 0, 999) if frac else 0
    us = ms * 1000 + r
    tz = zone(S, "in", list(zones))
    d = S.datetime(us, tz)
    p = S.choice("pos", list(pos))
    data = dumps(d if p == "top" else [d, "x", d])
    tree = v8.parse(data)
    if p == "list":
        S.check(tree.items[0] is tree.items[2] and tree.items[1] == "x", "one object")
        tree = tree.items[0]
    S.check(tree.kind == "date", "written as a Date")
    t = js_time(tree)
    off = (t - ms) * 1000 - r
    S.check(off < 1000 and off > -1000 and (r != 0 or off == 0), "the instant in JavaScript")
    S.reached("written")
    out = zone(S, "out", list(outs))
    back = loads(data) if out is None else loads(data, decode_steps=[TagReader(default_timezone=out)])
    if p == "list":
        S.check(back[0] is back[2], "one datetime")
        back = back[0]
    S.check(isinstance(back, datetime), "read as a datetime")
    S.check(back.tzinfo is out, "zone")
    u = apart(back, d)
    S.check(u < 1000 and u > -1000 and (r != 0 or u == 0), "the instant in Python")
    again = v8.parse(dumps(back))
    S.check(js_time(again) == t or r != 0, "written again")


def naive(S, lo, hi, frac=True):
    """Naive datetimes are local time."""
    lo, hi = span(S, lo, hi)
    ms = S.int("ms[%d,%d]" % (lo, hi), lo, hi)
    r = S.int("us", 0, 999) if frac else 0
    d = S.datetime(ms * 1000 + r, None)
    S.check(d.tzinfo is None, "naive")
    data = dumps(d)
    t = js_time(v8.parse(data))
    S.reached("written")
    off = (t - ms) * 1000 - r
    S.check(off < 1000 and off > -1000 and (r != 0 or off == 0), "the instant in JavaScript")
    back = loads(data)
    S.check(back.tzinfo is None, "read as a naive datetime")
    u = apart(back, d)
    S.check(u < 1000 and u > -1000 and (r != 0 or u == 0), "the instant in Python")


def exact(S, lo, hi):
    """Microseconds survive while a double can hold them."""
    ms = S.int("ms[%d,%d]" % (lo, hi), lo, hi)
    us = ms * 1000 + S.int("us", 0, 999)
    d = S.datetime(us, timezone.utc)
    back = loads(dumps(d), decode_steps=[TagReader(default_timezone=timezone.utc)])
    S.check(apart(back, d) == 0, "microseconds")


def read(S, lo, hi, outs=("utc", "none", "any", "west")):
    """Dates V8 wrote: whole milliseconds."""
    ms = S.int("ms[%d,%d]" % (lo, hi), lo, hi)
    data = b"\xff\x0fA\x03D" + struct.pack("<d", ms) + b"^\x01I\x04$\x00\x03"
    out = zone(S, "out", list(outs))
    inside = S.all([ms >= MIN + DAY, ms <= MAX - DAY])
    try:
        back = loads(data) if out is None else loads(data, decode_steps=[TagReader(default_timezone=out)])
    except DecodeV8SerializeError:
        S.reached("rejected")
        S.check(S.not_(inside), "a date of the years 1 to 9999 is refused")
        return
    S.reached("read")
    S.check(S.all([ms >= MIN - DAY, ms <= MAX + DAY]), "a date outside the years 1 to 9999")
    S.check(back[1] is back[0] and back[2] == 2, "the values after a date")
    d = back[0]
    S.check(isinstance(d, datetime) and d.tzinfo is out, "zone")
    S.check(instant(d) == ms * 1000, "instant")


def odd(S, outs=("utc", "none")):
    """NaN, infinities and huge values end in a DecodeV8SerializeError."""
    f = S.double("f")
    S.assume(f != f or f > 8.64e15 or f < -8.64e15)
    out = zone(S, "out", list(outs))
    data = b"\xff\x0fD" + struct.pack("<d", f)
    try:
        loads(data) if out is None else loads(data, decode_steps=[TagReader(default_timezone=out)])
        S.fail("an invalid date is read")
    except DecodeV8SerializeError:
        S.reached("rejected")
