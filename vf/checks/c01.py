"""C01: values survive a dump/load round trip."""
import io

from .. import ref
from ..core import Scenario
from ..gen import Gen
from ..spec import S, walk
from ..util import Case, outcome, plain, short, values_of

PROPERTY = "C01"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: value oracle over generated declarations and values"
LEVEL_NOTE = ("every observed round trip is judged exactly against an independent reference codec; reach is by "
              "generated declarations and values, not exhaustive")
RULE = ("an evaluation is one generated declaration with one or more sets of values dumped and loaded back; distinct "
        "ones differ in the structural signature of the declaration (kinds, parameters, options)")
ASSUMPTIONS = [
    "declarations come from the generator described in DESIGN.md; TZ is UTC for zone-less timestamps (other zones: C18)",
    "a set of values is required to survive only if the declared layout is uniquely decodable for it, as judged by the "
    "reference codec (a nullable field may be given a value that collides with its null representation)",
]
FLOORS = {"bytes in large values": 2800000, "field round trips": 9400, "round trips": 25000, "second dumps": 18000,
          "skipped: declaration ambiguous for these values": 1700}


def roundtrip(mon, c, how):
    if not c.unambiguous():
        mon.ev("skipped: declaration ambiguous for these values")
        return None
    want = ref.approx_struct(c.s, c.full, c.ctx)
    inst = c.inst(c.rng if how % 2 else None)
    if how % 3 == 0:
        data = inst.to_bytes(c.ctx)
    elif how % 3 == 1 and c.ctx is None:
        data = bytes(inst)
    else:
        st = io.BytesIO()
        inst.to_stream(st, c.ctx)
        data = st.getvalue()
    if how % 2:
        loaded = c.cls.from_bytes(data, c.ctx)
    else:
        loaded = c.cls.from_stream(io.BytesIO(data), c.ctx)
    diff = ref.same_struct(c.s, want, loaded)
    mon.check(diff is None, f"loaded value differs from the dumped one: {diff}", f"dumped {data.hex()}",
              f"loaded {short(loaded, 1500)}", c.describe())
    mon.ev("round trips")
    # dumping the loaded structure again
    try:
        full2 = ref.resolve(c.s, values_of(c.s, loaded), c.ctx)
        ref.encode_struct(c.s, full2, c.ctx)
        again_possible = True
    except ref.Rej:
        again_possible = False
    except Exception:  # noqa: BLE001  (discarded values that others depend on)
        again_possible = False
    if again_possible and canonical(c.s) and not computed_from_discarded(c.s):
        again = loaded.to_bytes(c.ctx)
        mon.check(again == data, "dumping the loaded structure gives other bytes", f"first  {data.hex()}",
                  f"second {again.hex()}", c.describe())
        mon.ev("second dumps")
        l2 = c.cls.from_bytes(again, c.ctx)
        diff = ref.same_struct(c.s, want, l2)
        mon.check(diff is None, f"second load differs: {diff}", c.describe())
    return data


def canonical(s):
    """Nothing is dropped on load, so the second dump has everything the first had."""
    for f in walk(s):
        if f.o.get("discard"):
            return False
        if f.o.get("null") and f.kind == "union":
            return False
    return True


def computed_from_discarded(s):
    return any("compute" in f.o for f in walk(s)) and any(f.o.get("discard") for f in walk(s))


def structs(rng, mon, idx):
    c = Case(rng, mon)
    roundtrip(mon, c, idx)
    for k in range(2):
        roundtrip(mon, c.more(), idx + k + 1)


def redump(rng, mon, idx):
    """No field is discarded and alternatives have no null, so everything can be dumped again."""
    c = Case(rng, mon, redumpable=True, own_null_choices=False, sub_res=0.4, odd_float=0.4)
    roundtrip(mon, c, idx)
    roundtrip(mon, c.more(), idx + 1)


def big(rng, mon, idx):
    """Long strings, long arrays, wide integers, deep nesting."""
    g = Gen(rng, maxdepth=4, maxfields=10, eof=True)
    if idx % 3 == 0:
        c = Case(rng, mon, gen=g)
        roundtrip(mon, c, idx)
        return
    from ..spec import F

    n = rng.choice([255, 256, 1000, 4096, 65535, 65536, 70001])
    enc = rng.choice(["utf-8", "ascii", "utf-16-le", "shift_jis"])
    text = "".join(rng.choice("abcdefgh" + ("日表" if enc != "ascii" else "")) for _ in range(rng.choice([300, 2000])))
    fields = [
        F("int", "n", {"size": 4, "signed": False, "endian": rng.choice(["big", "little"])},
          {"compute": ("len", "blob")}),
        F("bytes", "blob", {"size": ("ref", "n", "name")}),
        F("strz", "t", {"enc": enc}),
        F("int", "wide", {"size": rng.choice([17, 32, 64]), "signed": True, "endian": "little"}),
        F("vli", "cnt", {"enc": rng.choice(["vlq", "uleb128"])}, {"compute": ("len", "arr")}),
        F("arr", "arr", {"comp": F("int", None, {"size": 3, "signed": True, "endian": "big"}),
                         "count": ("ref", "cnt", "obj")}),
    ]
    s = S("Big", fields, None, rng.choice(["assign", "pep526"]))
    given = {"blob": rng.randbytes(n), "t": text, "wide": g.int_value(fields[3].p["size"], True),
             "arr": [g.int_value(3, True) for _ in range(rng.choice([127, 128, 1000]))]}
    c = object.__new__(Case)
    c.rng, c.gen, c.s, c.ctx, c.given, c.hooks = rng, g, s, None, given, None
    c.full = ref.resolve(s, given, None)
    c.data, c.spans = ref.encode_struct(s, c.full, None)
    from ..build import Builder

    c.b = Builder()
    c.cls = c.b.cls(s)
    inst = c.inst()
    data = inst.to_bytes()
    loaded = c.cls.from_bytes(data)
    diff = ref.same_struct(s, c.full, loaded)
    mon.check(diff is None, f"large values do not survive: {short(diff)}")
    mon.check(loaded.to_bytes() == data, "second dump of large values differs")
    mon.ev("round trips")
    mon.ev("second dumps")
    mon.ev("bytes in large values", len(data))
    mon.seen("big", n, enc, fields[3].p["size"])


def fields_alone(rng, mon, idx):
    """Fields used on their own, without a structure."""
    c = Case(rng, mon, maxfields=4)
    ctx = c.ctx
    for f in c.s.fields:
        v = c.full[f.name]
        if v is None or f.o.get("present"):
            continue
        env = {k: x for k, x in c.full.items() if x not in (None,)}
        try:
            data = ref.encode_field(f, v, c.full, ctx)
            back, end = ref.decode_field(f, data, 0, c.full, ctx)
        except ref.Rej:
            continue
        want = ref.approx(f, v, c.full, ctx)
        if end != len(data) or not ref.loaded_equal(back, want):
            continue
        fld = getattr(c.cls, f.name)
        real_env = {k: c.b.value(c.s.get(k), x) for k, x in env.items()}
        real_v = plain(v)
        k, out = outcome(fld.to_bytes, real_v, ctx, real_env)
        mon.check(k == "ok", f"field {f!r} refuses {short(v)}: {out!r}", c.describe())
        loaded = fld.from_bytes(out, ctx, True, real_env)
        diff = ref.same(f, want, loaded, f.name)
        mon.check(diff is None, f"stand-alone field does not round-trip: {diff}", f"field {f!r}", f"bytes {out.hex()}",
                  c.describe())
        mon.ev("field round trips")


SCENARIOS = [
    Scenario("structs", structs, 16000),
    Scenario("redump", redump, 10000),
    Scenario("big", big, 320),
    Scenario("fields", fields_alone, 9000),
]
