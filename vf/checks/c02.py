"""C02: dumped bytes follow the declared layout exactly."""
import io
import math
import uuid

from .. import ref
from ..build import Builder
from ..core import Scenario
from ..gen import ALL_ENC, Gen
from ..spec import ABSENT, F
from ..streams import RecStream
from ..util import Case, outcome, plain, short

PROPERTY = "C02"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: recorded output streams judged by an independent reference encoder"
LEVEL_NOTE = ("every byte written is compared with an independently written encoder; declarations and values are "
              "generated, 16-bit floats and 1/2-byte integers are enumerated completely")
RULE = ("an evaluation is one generated declaration dumped with several sets of values (or one sweep of a field type); "
        "distinct ones differ in the structural signature of the declaration or the sweep parameters")
ASSUMPTIONS = [
    "IEEE-754 rounding of the host's struct.pack is trusted for values that are not exactly representable",
    "Python's codecs are trusted as the definition of each text encoding",
    "TZ is UTC for zone-less timestamps (other zones: C18)",
]
FLOORS = {"bytes compared": 630000, "field dumps": 6800, "stream writes recorded": 9600, "structure dumps": 18000,
          "sweep values": 570000}


def dump_all_ways(mon, c, as_struct):
    inst = c.inst(as_struct)
    st = RecStream()
    inst.to_stream(st, c.ctx)
    got = st.getvalue()
    if got != c.data:
        where = next((i for i, (a, b) in enumerate(zip(got, c.data)) if a != b), min(len(got), len(c.data)))
        name = next((n for n, a, b in c.spans if a <= where < b), "(the end)")
        mon.check(False, f"bytes differ from the declared layout at offset {where}, in {name}", f"got  {got.hex()}",
                  f"want {c.data.hex()}", c.describe())
    mon.check(True, "")
    mon.ev("stream writes recorded", len([1 for e in st.log if e[0] == "write"]))
    mon.eq(inst.to_bytes(c.ctx), c.data, "to_bytes() differs from the declared layout", c.describe())
    if c.ctx is None:
        mon.eq(bytes(inst), c.data, "bytes() differs from the declared layout", c.describe())
    mon.ev("structure dumps")
    mon.ev("bytes compared", len(got))


def structs(rng, mon, idx):
    c = Case(rng, mon)
    dump_all_ways(mon, c, None)
    for _ in range(2):
        c = c.more()
        dump_all_ways(mon, c, rng)


def deep(rng, mon, idx):
    c = Case(rng, mon, gen=Gen(rng, maxdepth=4, maxfields=9, inherit=0.5))
    dump_all_ways(mon, c, rng)


def fields(rng, mon, idx):
    """Stand-alone fields, elements and alternatives included."""
    c = Case(rng, mon, maxfields=4)
    for f in c.s.fields:
        one_field(mon, c, f, c.full[f.name], getattr(c.cls, f.name))
        v = c.full[f.name]
        if f.kind == "arr" and isinstance(v, list):
            for x in v[:2]:
                one_field(mon, c, f.p["comp"], x, getattr(c.cls, f.name).component)


def one_field(mon, c, f, v, fld):
    if v is ABSENT:
        return
    env = {k: x for k, x in c.full.items() if x is not None}
    try:
        want = ref.encode_field(f, v, c.full, c.ctx)
    except ref.Rej:
        return
    real_env = {k: c.b.value(c.s.get(k), x) for k, x in env.items()}
    k, got = outcome(fld.to_bytes, plain(v), c.ctx, real_env)
    mon.check(k == "ok" and got == want, f"stand-alone field {f!r} dumps {short(v)} as {short(got)}",
              f"want {want.hex()}", c.describe())
    st = io.BytesIO()
    fld.to_stream(st, plain(v), c.ctx, real_env)
    mon.eq(st.getvalue(), want, f"to_stream of stand-alone field {f!r} differs", c.describe())
    mon.ev("field dumps")


# ---------------------------------------------------------------- sweeps


def check_one(mon, fld, f, v):
    want = ref.enc_plain(f, v, {}, None)
    k, got = outcome(fld.to_bytes, v)
    mon.check(k == "ok" and got == want, f"{f!r} dumps {short(v)} as {short(got)}, want {want.hex()}")
    mon.ev("sweep values")


SIZES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 32]


def ints(rng, mon, idx):
    size = SIZES[idx % len(SIZES)]
    signed = bool(idx // len(SIZES) % 2)
    endian = ["big", "little"][idx // len(SIZES) // 2 % 2]
    from ..gen import INT_VIA

    vias = {"Integer", INT_VIA.get((size, signed), "Integer")} | (set() if signed else {"UnsignedInteger"})
    for via in sorted(vias):
        f = F("int", "x", {"size": size, "signed": signed, "endian": endian, "via": via})
        fld = Builder().field(f, {})
        lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << 8 * size) - 1)
        values = {lo, hi, lo + 1, hi - 1, 0}
        for k in range(8 * size + 1):
            values |= {v for v in (1 << k, (1 << k) - 1, -(1 << k), -(1 << k) - 1, 1 - (1 << k)) if lo <= v <= hi}
        if size <= 2 and idx < 64:
            values |= set(range(lo, hi + 1))
        values |= {rng.randint(lo, hi) for _ in range(100)}
        for v in sorted(values):
            check_one(mon, fld, f, v)
        mon.seen("int", size, signed, endian, via)


def floats(rng, mon, idx):
    size = [2, 4, 8][idx % 3]
    endian = ["big", "little"][idx // 3 % 2]
    f = F("float", "x", {"size": size, "endian": endian})
    fld = Builder().field(f, {})
    mon.seen("float", size, endian)

    def one(pattern):
        v = ref.bytes_float(pattern.to_bytes(size, "big"), "big")
        if math.isnan(v):
            return
        want = pattern.to_bytes(size, endian)
        k, got = outcome(fld.to_bytes, v)
        mon.check(k == "ok" and got == want, f"Float{8 * size} {endian} dumps {v!r} as {short(got)}, want {want.hex()}")
        mon.ev("sweep values")

    if size == 2:
        block = 65536 // 8
        for pattern in range((idx // 6 % 8) * block, (idx // 6 % 8 + 1) * block):
            one(pattern)
    else:
        e, m = ref._FL[size]
        for exp in range(0, 1 << e, 1 if size == 4 else 16):
            one((rng.getrandbits(1) << (e + m)) | (exp << m) | rng.choice([0, 1, (1 << m) - 1, rng.getrandbits(m)]))
        for _ in range(500):
            one(rng.getrandbits(8 * size))
    nan = fld.to_bytes(math.nan)
    mon.check(math.isnan(ref.bytes_float(nan, endian)), f"Float{8 * size} {endian} dumps NaN as {nan.hex()}")


def vlis(rng, mon, idx):
    enc = ["vlq", "leb128", "uleb128", "compact"][idx % 4]
    f = F("vli", "x", {"enc": enc})
    fld = Builder().field(f, {})
    g = Gen(rng)
    for _ in range(300):
        check_one(mon, fld, f, g.vli_value(enc))
    mon.seen("vli", enc)


def times(rng, mon, idx):
    g = Gen(rng)
    f = g.ts_field("x")
    fld = Builder().field(f, {})
    for _ in range(100):
        check_one(mon, fld, f, g.ts_value(f, sub=0.4))
    mon.seen("ts", tuple(sorted(f.p.items())))


def uuids(rng, mon, idx):
    for fmt in ("v1", "v2", "canon", "hex"):
        f = F("uuid", "x", {"fmt": fmt})
        fld = Builder().field(f, {})
        for k in range(60):
            v = uuid.UUID(int=rng.getrandbits(128) if k % 3 else 0xFF << (k * 2))
            check_one(mon, fld, f, v)
        mon.seen("uuid", fmt)


def texts(rng, mon, idx):
    g = Gen(rng)
    enc = sorted(ALL_ENC)[idx % len(ALL_ENC)]
    for kind in ("str", "strz"):
        for _ in range(15):
            t = g.text(enc, 12)
            n = len(ref.enc_text(t + ("\0" if kind == "strz" else ""), enc))
            pad = rng.choice([None, b"\0", b" ", b"\xfe"])
            f = F(kind, "x", {"enc": enc, "size": n + (rng.randint(0, 5) if pad is not None else 0), "pad": pad})
            check_one(mon, Builder().field(f, {}), f, t)
            if kind == "strz":
                f = F(kind, "x", {"enc": enc})
                check_one(mon, Builder().field(f, {}), f, t)
    mon.seen("text", enc)


SCENARIOS = [
    Scenario("structs", structs, 14000),
    Scenario("deep", deep, 3000),
    Scenario("fields", fields, 5000),
    Scenario("ints", ints, 112),
    Scenario("floats", floats, 96),
    Scenario("vlis", vlis, 400),
    Scenario("times", times, 800),
    Scenario("uuids", uuids, 80),
    Scenario("texts", texts, 300),
]
