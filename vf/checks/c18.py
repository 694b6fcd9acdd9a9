"""C18: timestamps denote the same instant at the declared resolution."""
import datetime
import os
import time
import warnings
import zoneinfo

import binobj
from binobj import errors
from binobj import fields as bf

from ..core import Scenario
from ..streams import RecStream
from ..util import outcome, short

PROPERTY = "C18"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: timestamp fields of every resolution, width, sign and byte order are run on instants "
             "around the epoch, the limits and daylight-saving changes, under many settings of the machine's time zone, "
             "and judged by integer arithmetic and the IANA time zone database")
LEVEL_NOTE = "instants and zones are sampled; every zone of the database can be picked"
RULE = ("an evaluation is one field declaration and time zone with a handful of instants; distinct ones differ in the "
        "declaration, the zone and the part of the calendar (before or after the epoch, in a repeated or skipped hour)")
ASSUMPTIONS = ["UTC offsets are whole seconds", "the machine's local time is what the IANA database says about TZ",
               "local times closer than two days to the limits of the calendar aren't used (the language can't convert them)"]
FLOORS = {"aware times for zone-less fields": 3900, "before the epoch": 34000, "fraction lost": 34000,
          "instants dumped": 98000, "instants loaded": 61000, "limits": 45000, "local times": 20000,
          "refused": 50000, "repeated hours": 2900, "skipped hours": 200}

UTC = datetime.timezone.utc
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=UTC)
US = datetime.timedelta(microseconds=1)
UNITS = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}
MIN_US = (datetime.datetime.min.replace(tzinfo=UTC) - EPOCH) // US
MAX_US = (datetime.datetime.max.replace(tzinfo=UTC) - EPOCH) // US
DAY = 86400 * 10**6
ZONES = sorted(z for z in zoneinfo.available_timezones() if not z.startswith(("posix", "right", "Factory", "local")))
PICKED = [z for z in ("America/New_York", "Europe/London", "Europe/Dublin", "Australia/Lord_Howe", "Asia/Kathmandu",
                      "America/St_Johns", "Africa/Casablanca", "Pacific/Apia", "Asia/Tehran", "Antarctica/Troll",
                      "America/Sao_Paulo", "Europe/Moscow", "Pacific/Kiritimati", "Etc/GMT+12", "Asia/Tokyo") if z in ZONES]


class Decl:
    def __init__(self, rng, aware=None):
        self.res = rng.choice(list(UNITS))
        self.aware = rng.random() < 0.5 if aware is None else aware
        self.signed = rng.random() < 0.75
        self.endian = rng.choice(["big", "little"])
        kw = dict(resolution=self.res, tz_aware=self.aware, endian=self.endian)
        if not self.signed or rng.random() < 0.5:
            kw["signed"] = self.signed
        if self.res == "s" and rng.random() < 0.5:
            del kw["resolution"]
        if not self.aware and rng.random() < 0.5:
            del kw["tz_aware"]
        via = rng.choice(["Timestamp", "Timestamp", "Timestamp32", "Timestamp64"])
        self.size = {"Timestamp32": 4, "Timestamp64": 8}.get(via) or rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 12, 16])
        if via == "Timestamp":
            kw["size"] = self.size
        self.text = f"{via}({', '.join(f'{k}={v!r}' for k, v in kw.items())})"
        self.field = getattr(bf, via)(**kw)
        self.cls = type("T", (binobj.Struct,), {"a": bf.UInt8(), "t": self.field, "z": bf.UInt8()})
        self.lo = -(1 << 8 * self.size - 1) if self.signed else 0
        self.hi = (1 << 8 * self.size - (1 if self.signed else 0)) - 1

    def units(self, us):
        """Whole units in so many microseconds, towards the epoch."""
        n = abs(us) * UNITS[self.res] // 10**6
        return -n if us < 0 else n

    def raw(self, n):
        return n.to_bytes(self.size, self.endian, signed=self.signed)


def dump(rng, mon, d, dt, us, what):
    """The field has to store the instant dt, which is us microseconds after the epoch."""
    n = d.units(us)
    fits = d.lo <= n <= d.hi
    how = rng.randrange(3)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if how == 0:
            st = RecStream(b"")
            k, got = outcome(d.field.to_stream, st, dt)
            got = st.getvalue() if k == "ok" else got
            mon.check(k == "ok" or not st.getvalue(), f"{d.text}: refused {dt!r} but wrote {st.getvalue()!r}")
        elif how == 1:
            k, got = outcome(d.field.to_bytes, dt)
        else:
            k, got = outcome(d.cls(a=1, t=dt, z=2).to_bytes)
            if k == "ok":
                mon.check(got[:1] == b"\1" and got[-1:] == b"\2", f"{d.text}: {dt!r} dumped as {got!r}")
                got = got[1:-1]
    if not fits:
        mon.check(k == "err" and isinstance(got, errors.UnserializableValueError),
                  f"{d.text}: {what} {dt!r} ({n} units) doesn't fit but gave {short(got)}")
        mon.ev("refused")
        return None
    mon.check(k == "ok" and got == d.raw(n), f"{d.text}: {what} {dt!r} ({us} us, {n} units) gave {short(got)}, "
              f"want {d.raw(n)!r}", got and k == "ok" and int.from_bytes(got, d.endian, signed=d.signed))
    mon.ev("instants dumped")
    if us < 0:
        mon.ev("before the epoch")
    if abs(us) * UNITS[d.res] % 10**6:
        mon.ev("fraction lost")
    return n


def load(rng, mon, d, n, to_us, what):
    """Loading n units gives the instant they stand for; to_us turns a loaded value into microseconds."""
    raw = d.raw(n)
    how = rng.randrange(3)
    if how == 0:
        st = RecStream(raw + b"\xaa")
        k, got = outcome(d.field.from_stream, st)
        mon.check(k == "err" or st.at == d.size, f"{d.text}: loading {raw!r} left the stream at {st.at}")
    elif how == 1:
        k, got = outcome(d.field.from_bytes, raw)
    else:
        k, got = outcome(d.cls.from_bytes, b"\1" + raw + b"\2")
        got = got.t if k == "ok" else got
    u = UNITS[d.res]
    us = n * 10**6 // u
    if not MIN_US <= us <= MAX_US:
        mon.check(k == "err", f"{d.text}: {n} units are beyond the calendar but loaded as {short(got)}")
        mon.ev("refused")
        return None
    mon.check(k == "ok", f"{d.text}: {what}: loading {n} units failed with {short(got)}")
    if d.aware:
        mon.check(got.tzinfo is not None and got.utcoffset() == datetime.timedelta(0),
                  f"{d.text}: loaded {got!r}, which isn't in UTC")
    else:
        mon.check(got.tzinfo is None, f"{d.text}: loaded {got!r}, which isn't local time")
    have = to_us(got)
    if have is None:
        return got
    off = have * u - n * 10**6  # in millionths of a unit
    mon.check(off == 0 if u <= 10**6 else abs(off) < u, f"{d.text}: {what}: {n} units loaded as {got!r} ({have} us), "
              f"want {us} us")
    mon.ev("instants loaded")
    return got


def aware_us(dt):
    return (dt - EPOCH) // US


def instant(rng):
    x = rng.random()
    if x < 0.2:
        us = rng.randint(-3 * 10**6, 3 * 10**6)
    elif x < 0.4:
        us = rng.randint(-2**31 - 5, 2**32 + 5) * 10**6 + rng.choice([0, 1, 999999, 999000, 1000, rng.randrange(10**6)])
    elif x < 0.6:
        us = rng.randint(MIN_US, MAX_US)
    elif x < 0.8:
        us = (rng.choice([-1, 1]) * (1 << rng.randrange(20, 58))) + rng.randint(-2, 2)
    else:
        us = rng.choice([0, -1, 1, -10**6, 10**6, 999999, -999999, 1000, -1000, 999, -999, MIN_US, MAX_US])
    return min(max(us, MIN_US), MAX_US)


def fixed_zone(rng):
    x = rng.random()
    if x < 0.4:
        return UTC
    if x < 0.7:
        return datetime.timezone(datetime.timedelta(seconds=rng.choice([0, 3600, -3600, 19800, 45900, -34200, 86399, -86399,
                                                                      rng.randint(-86399, 86399)])))
    return zoneinfo.ZoneInfo(rng.choice(ZONES))


def aware(rng, mon, idx):
    """Zone-aware values into zone-aware fields."""
    d = Decl(rng, True)
    for _ in range(12):
        us = instant(rng)
        dt = EPOCH + us * US
        z = fixed_zone(rng)
        k, there = outcome(dt.astimezone, z)
        if k == "err":
            there = dt
        # some zones have repeated hours
        if aware_us(there.astimezone(UTC) if k == "ok" else there) != us:
            continue
        n = dump(rng, mon, d, there, us, "instant")
        if n is not None:
            load(rng, mon, d, n, aware_us, "loading back")
        mon.seen(d.text, str(z), us < 0, n is None)


def limits(rng, mon, idx):
    """Around the smallest and largest stored numbers, and numbers that stand for no date."""
    d = Decl(rng, True)
    u = UNITS[d.res]
    near = [d.lo, d.lo + 1, d.hi, d.hi - 1, 0, 1, -1, 2, -2, rng.randint(d.lo, d.hi), MAX_US * u // 10**6,
            MAX_US * u // 10**6 + 1, MIN_US * u // 10**6, MIN_US * u // 10**6 - 1, d.lo - 1, d.hi + 1, d.hi + 2]
    for n in near:
        if d.lo <= n <= d.hi:
            got = load(rng, mon, d, n, aware_us, "number")
            if got is not None:
                dump(rng, mon, d, got, aware_us(got), "number loaded")
        us = -(-n * 10**6 // u)  # first microsecond that is n units
        if MIN_US <= us <= MAX_US:
            for e in (0, 1, -1, 10**6 // u if u < 10**6 else 0):
                if MIN_US <= us + e <= MAX_US:
                    dump(rng, mon, d, EPOCH + (us + e) * US, us + e, "limit")
                    mon.ev("limits")
    mon.seen("limits", d.text)


CHANGES = {}


def changes(name):
    """Instants (in seconds) at which the zone's offset changes, roughly."""
    if name not in CHANGES:
        z = zoneinfo.ZoneInfo(name)
        out = []
        off = lambda t: (EPOCH + datetime.timedelta(seconds=t)).astimezone(z).utcoffset()  # noqa: E731
        t0 = -4 * 10**9
        step = 45 * 86400
        a = off(t0)
        for t in range(t0, 5 * 10**9, step):
            b = off(t + step)
            if a != b:
                lo, hi = t, t + step
                while hi - lo > 1:
                    mid = (lo + hi) // 2
                    if off(mid) == a:
                        lo = mid
                    else:
                        hi = mid
                out.append(hi)
            a = b
        CHANGES[name] = out
    return CHANGES[name]


def zone_changes(name, rng):
    if name in CHANGES or rng.random() < 0.02 or name in PICKED:
        return changes(name)
    return []


def local(rng, mon, idx):
    """Naive values and zone-less fields, under one setting of the machine's time zone."""
    # few zones per worker, so that their changes have to be found only once
    name = PICKED[(idx // 8) % len(PICKED)] if rng.random() < 0.7 else rng.choice(ZONES)
    z = zoneinfo.ZoneInfo(name)
    old = os.environ.get("TZ")
    os.environ["TZ"] = name
    time.tzset()
    try:
        run_local(rng, mon, name, z)
    finally:
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        time.tzset()


def run_local(rng, mon, name, z):
    ch = zone_changes(name, rng)

    def to_us(dt):
        """Microseconds of a naive local time."""
        a = dt.replace(tzinfo=z)
        us = (dt.replace(tzinfo=UTC) - EPOCH) // US - int(a.utcoffset().total_seconds()) * 10**6
        # The interpreter's notion of local time has to agree, or the machine doesn't follow the database.
        try:
            here = round(dt.replace(microsecond=0).timestamp()) * 10**6 + dt.microsecond
        except (ValueError, OverflowError):
            return None
        if here != us:
            mon.ev("platform disagrees with the database")
            return None
        return us

    d = Decl(rng, False)
    for _ in range(10):
        if ch and rng.random() < 0.6:
            us = rng.choice(ch) * 10**6 + rng.choice([0, -1, 1, -3600 * 10**6, 3599 * 10**6, 1800 * 10**6,
                                                     rng.randint(-7200, 7200) * 10**6 + rng.randrange(10**6)])
        else:
            us = instant(rng)
        us = min(max(us, MIN_US + 3 * DAY), MAX_US - 3 * DAY)
        x = rng.random()
        wall = (EPOCH + us * US).astimezone(z).replace(tzinfo=None)
        if x < 0.15:  # any local time, also one that doesn't exist
            wall = wall + datetime.timedelta(minutes=rng.choice([30, 60, -30, -60]))
            wall = wall.replace(fold=rng.randrange(2))
        elif x < 0.25:
            wall = wall.replace(fold=1 - wall.fold)
        us = to_us(wall)
        if us is None:
            continue
        there = wall.replace(tzinfo=z)
        if there.replace(fold=0).utcoffset() != there.replace(fold=1).utcoffset():
            back = (EPOCH + us * US).astimezone(z).replace(tzinfo=None)
            mon.ev("repeated hours" if back == wall else "skipped hours")
        n = dump(rng, mon, d, wall, us, f"local time in {name}, fold={wall.fold},")
        if n is not None:
            load(rng, mon, d, n, to_us, f"loading back in {name}")
        mon.ev("local times")
        mon.seen(name, d.text, us < 0, wall.fold)
        if rng.random() < 0.2:  # values of the other kind are the same instant
            dump(rng, mon, d, there, us, f"aware time in {name} for a zone-less field,")
            k, far = outcome((EPOCH + us * US).astimezone, fixed_zone(rng))
            if k == "ok" and aware_us(far.astimezone(UTC)) == us:  # also in zones that aren't the machine's
                dump(rng, mon, d, far, us, f"aware time for a zone-less field in {name},")
                mon.ev("aware times for zone-less fields")
            d2 = Decl(rng, True)
            n = dump(rng, mon, d2, wall, us, f"local time in {name}, fold={wall.fold}, for a zone-aware field,")
            if n is not None:
                load(rng, mon, d2, n, aware_us, f"loading back in {name}")


def sweep(rng, mon, idx):
    """Every microsecond and millisecond around the epoch, and every digit of the fraction."""
    d = Decl(rng, True)
    base = [0, -10**6, 10**6, 1_600_000_000 * 10**6, -1_600_000_000 * 10**6, 253_402_300_798 * 10**6, -62_000_000_000 * 10**6]
    b = base[idx % len(base)]
    for k in range(60):
        us = b + rng.choice([k, -k, k * 1000, -k * 1000, k * 16667, rng.randrange(10**6)])
        n = dump(rng, mon, d, EPOCH + us * US, us, "instant")
        if n is not None:
            load(rng, mon, d, n, aware_us, "loading back")
    mon.seen("sweep", d.text, b)


SCENARIOS = [
    Scenario("aware", aware, 5000),
    Scenario("limits", limits, 2500),
    Scenario("local", local, 5000),
    Scenario("sweep", sweep, 1500),
]
