"""C11: null is carried exactly as declared."""
import io

from .. import bad, ref
from ..build import Builder
from ..core import Scenario
from ..gen import Gen, GiveUp
from ..spec import ABSENT, F, S, UNSET, walk
from ..streams import RecStream
from ..util import Case, budget, compare_load, mutate_bytes, outcome, plain, short, values_of

PROPERTY = "C11"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: dumps and loads of null-heavy structures, with representations next to the null ones, "
             "judged against a reference codec; all loaded values scanned for nulls that may not be there")
LEVEL_NOTE = "declarations, null representations, values and the bytes next to null representations are sampled"
RULE = ("an evaluation is one generated declaration with most fields nullable and values with many nulls, dumped, loaded, "
        "and loaded again with bytes inside the null representations changed; distinct ones differ in the kind of field, "
        "its null declaration and its place")
ASSUMPTIONS = ["bytes that read as the designated null value are null, whichever of several encodings of it they are",
               "where a stand-in for an absent field is declared to be null, that null is not meant"]
FLOORS = {"inputs accepted": 12000, "inputs refused": 9500, "loads scanned for nulls": 12000,
          "near-null inputs": 42000, "null refused": 6000, "nulls dumped": 8700, "nulls loaded": 9200}


def nullable_spots(s, full, path=()):
    """(path, field, value) for every present nullable field outside unions."""
    for f in s.fields:
        v = full[f.name]
        if v is ABSENT:
            continue
        yield from spots(f, v, (*path, f.name))


def spots(f, v, path):
    if "null" in f.o:
        yield path, f, v
    if v is None:
        return
    if f.kind == "nest":
        yield from nullable_spots(f.p["struct"], v, path)
    elif f.kind == "arr":
        for i, x in enumerate(v):
            yield from spots(f.p["comp"], x, (*path, i))


def scan(mon, s, vals, what, path=""):
    """No null where none may be."""
    for f in s.fields:
        if f.name in vals and vals[f.name] is not ABSENT:
            scan_field(mon, f, vals[f.name], what, f"{path}.{f.name}")


def scan_field(mon, f, v, what, path):
    if v is None:
        ok = "null" in f.o or ("present" in f.o and f.o.get("np", UNSET) is None)
        if f.kind == "union":
            ok = ok or any(isinstance(c, F) and "null" in c.o for c in f.p["choices"])
        mon.check(ok, f"{what}: {path} was loaded as null but isn't declared nullable", repr(f))
        return
    if f.kind == "nest" and isinstance(v, dict):
        scan(mon, f.p["struct"], v, what, path)
    elif f.kind == "arr" and isinstance(v, list):
        for i, x in enumerate(v):
            scan_field(mon, f.p["comp"], x, what, f"{path}[{i}]")


def load(mon, c, data, what):
    want = c.decoded(data)
    if budget(want):
        return None
    st = RecStream(data)
    got = outcome(c.cls.from_stream, st, c.ctx)
    compare_load(mon, c, want, got, what)
    if not isinstance(want, ref.Rej):
        mon.check(st.at == want[1], f"{what}: the stream was left at {st.at}, not {want[1]}", c.describe())
        scan(mon, c.s, values_of(c.s, got[1]), what)
        mon.ev("loads scanned for nulls")
        return want[0]
    return None


def structs(rng, mon, idx):
    c = Case(rng, mon, nan_nulls=rng.random() < 0.3, nulls=0.85, discards=0.05, consts=0.05, conds=0.15, maxfields=5)
    for c in (c, c.more()):
        k, got = outcome(lambda: c.inst(rng).to_bytes(c.ctx))
        mon.check(k == "ok" and got == c.data, f"dump gave {short(got)}, want {c.data.hex()}", c.describe())
        for path, f, v in nullable_spots(c.s, c.full):
            if v is None:
                mon.ev("nulls dumped")
                mon.seen(f.kind, f.o["null"][0], len(path), str(f.p)[:60])
        vals = load(mon, c, c.data, "load")
        if vals is not None:
            mon.ev("nulls loaded", sum(1 for _, f, v in nullable_spots(c.s, vals) if v is None))
        # change bytes within what represents null
        for name, a, b in c.spans:
            f = c.s.get(name)
            if b == a or ("null" not in f.o and f.kind not in ("arr", "nest", "union")):
                continue
            d = bytearray(c.data)
            i = rng.randrange(a, b)
            x = rng.random()
            if x < 0.6:
                d[i] ^= rng.choice([1, 0x80, 0xFF, 1 << rng.randrange(8)])
            elif x < 0.8:
                del d[i]
            else:
                d.insert(i, rng.choice([0, 0xFF, d[i]]))
            load(mon, c, bytes(d), f"load with {name} changed ({d.hex()})")
            mon.ev("near-null inputs")


def leaf(rng, g, kind=None):
    """A nullable field of any simple kind, or an array or nested structure."""
    kind = kind or rng.choice(["int", "int", "float", "ts", "vli", "bytes", "str", "strz", "strz", "uuid", "arr", "nest"])
    if kind == "int":
        f = g.int_field("x")
    elif kind == "float":
        f = g.float_field("x")
    elif kind == "ts":
        f = g.ts_field("x")
    elif kind == "vli":
        f = g.vli_field("x")
    elif kind == "bytes":
        f = g.bytes_field("x")
    elif kind in ("str", "strz"):
        f = g.str_field("x", kind)
    elif kind == "uuid":
        f = g.uuid_field("x")
    elif kind == "arr":
        f = F("arr", "x", {"comp": leaf(rng, g, rng.choice(["int", "bytes", "uuid"])), "count": rng.choice([0, 1, 2, 3])})
        f.p["comp"].name = None
        f.p["comp"].p.pop("short", None)
    else:
        f = F("nest", "x", {"struct": g.struct(1, allow_eof=False)})
    f.p.pop("short", None)
    size = ref.plain_size(f)
    nulls = [("raw", rng.randbytes(rng.randint(1, 5))), ("raw", b"\0"), ("raw", b"\xff\xff")]
    if size is not None:
        nulls += [("zero",), ("zero",)]
        if size:
            nulls += [("raw", bytes(size)), ("raw", b"\xff" * size), ("raw", rng.randbytes(size)),
                      ("raw", rng.randbytes(max(1, size - 1))), ("raw", rng.randbytes(size + 1))]
    if kind in ("int", "vli", "uuid", "float"):
        v = g.plain_value(f, {})
        nulls += [("val", v), ("val", v)]
        if kind in ("int", "vli"):
            nulls += [("val", 0), ("val", 1)]
    if kind == "ts":
        nulls.append(("val", g.ts_value(f, sub=0)))
    if kind in ("strz", "str"):
        v = g.plain_value(f, {})
        if v is not None:
            nulls += [("val", v), ("val", v)]
    f.o["null"] = rng.choice(nulls)
    return f


def alone(rng, mon, idx):
    """Fields used on their own, with every kind of null declaration, and everything that differs a little from null."""
    g = Gen(rng, sub_res=0, odd_float=0, ctx=False, eof=False)
    f = leaf(rng, g)
    try:
        r = ref.null_repr(f, {}, None)
    except ref.Rej:
        return
    fld = Builder().field(f, {})
    fld.name = "x"
    k, got = outcome(fld.to_bytes, None)
    mon.check(k == "ok" and got == r, f"null was dumped as {short(got)}, not {r.hex()}", repr(f))
    mon.ev("nulls dumped")
    mon.seen("alone", f.kind, f.o["null"], str(f.p)[:80])
    tail = rng.choice([b"", b"\0", b"tail", r])
    pre = rng.choice([b"", b"\0\1\2"])
    st = io.BytesIO(pre + r + tail)
    st.seek(len(pre))
    k, got = outcome(fld.from_stream, st)
    mon.check(k == "ok" and got is None, f"null representation {r.hex()} loaded as {short(got)}", repr(f))
    mon.eq(st.tell(), len(pre) + len(r), "stream position after loading null", repr(f))
    mon.ev("nulls loaded")
    for _ in range(6):
        try:
            v = g.any_value(f, {"__ctx__": None}, nulls=False)
            b = ref.encode_field(f, ref.normal(f, v, None, {}), {}, None)
        except (GiveUp, ref.Rej, TypeError):
            continue
        d = rng.choice([b, b + r, mutate_bytes(rng, r), mutate_bytes(rng, r) + b, r[:-1], r[:-1] + b])
        st = io.BytesIO(d)
        try:
            want = ref.decode_field(f, d, 0, {}, None)
        except ref.Rej as e:
            want = e
        if budget(want):
            continue
        k, got = outcome(fld.from_stream, st)
        if isinstance(want, ref.Rej):
            mon.check(k == "err", f"{d.hex()} was accepted as {short(got)}, want {want!r}", repr(f))
        else:
            mon.check(k == "ok", f"{d.hex()} was refused: {short(got)}, want {want[0]!r}", repr(f))
            diff = ref.same(f, want[0], got, "value")
            mon.check(diff is None, f"{d.hex()}: {diff}", repr(f))
            mon.eq(st.tell(), want[1], f"position after loading {d.hex()}", repr(f))
        mon.ev("near-null inputs")


def refused(rng, mon, idx):
    """Null where it isn't declared."""
    c = Case(rng, mon, nan_nulls=True, nulls=0.2, conds=0.1, discards=0.05)
    spots_ = [n for n, v in c.full.items() if v is not ABSENT]
    for _ in range(4):
        name = rng.choice(spots_)
        f = c.s.get(name)
        r = null_somewhere(rng, f, c.full[name], c.given.get(name, UNSET), c.full)
        if r is None:
            continue
        path, v = r
        given = {**c.given, name: v}
        try:
            inst = c.inst(given=given)
        except Exception:  # noqa: BLE001  (refused at once; just as good)
            mon.ev("null refused")
            continue
        k, got = outcome(inst.to_bytes, c.ctx)
        mon.check(k == "err", f"null in {name}{path} was dumped: {short(got)}", repr(given), c.describe())
        if not path:
            k, got = outcome(inst.partial_dump, io.BytesIO(), name, c.ctx)
            mon.check(k == "err", f"null in {name} was partially dumped", repr(given), c.describe())
        mon.ev("null refused")
        mon.seen("refused", f.kind, len(path), str(f.p)[:40])
    f = rng.choice([x for x in walk(c.s) if x.kind != "nest" and x.kind != "union" and "null" not in x.o])\
        if any(x.kind not in ("nest", "union") and "null" not in x.o for x in walk(c.s)) else None
    if f is not None and "present" not in f.o:
        fld = Builder().field(f, {})
        fld.name = f.name or "x"
        k, got = outcome(fld.to_bytes, None, c.ctx, {k: plain(v) for k, v in c.full.items()})
        mon.check(k == "err", f"a field that isn't nullable dumped null as {short(got)}", repr(f))
        mon.ev("null refused")
    # Nothing that such structures load from whatever bytes is null in the wrong place.
    for _ in range(4):
        load(mon, c, mutate_bytes(rng, c.data), "load of changed bytes")
    load(mon, c, bytes(len(c.data)), "load of zero bytes")
    load(mon, c, b"\xff" * len(c.data), "load of FF bytes")


def null_somewhere(rng, f, v, given_v, env):
    """(path, value with a null in a place that isn't nullable)."""
    if v is None or v is ABSENT:
        return None
    if f.kind == "arr" and v and rng.random() < 0.8 and f.p["comp"].kind != "union":
        i = rng.randrange(len(v))
        base = list(given_v) if isinstance(given_v, list) else list(v)
        r = null_somewhere(rng, f.p["comp"], v[i], base[i], env)
        if r is None:
            return None
        base[i] = r[1]
        return (i, *r[0]), base
    if f.kind == "nest" and rng.random() < 0.8:
        base = dict(given_v) if isinstance(given_v, dict) else {k: x for k, x in v.items() if x is not ABSENT}
        names = [n for n, x in v.items() if x is not ABSENT]
        if not names:
            return None
        n = rng.choice(names)
        r = null_somewhere(rng, f.p["struct"].get(n), v[n], base.get(n, UNSET), v)
        if r is None:
            return None
        return (n, *r[0]), {**base, n: r[1]}
    if "null" in f.o:
        return None
    if f.kind == "union":
        c = f.p["choices"][ref.union_index(f, env)]
        if isinstance(c, F) and "null" in c.o:
            return None
    return (), None


SCENARIOS = [
    Scenario("structs", structs, 5000),
    Scenario("alone", alone, 14000),
    Scenario("refused", refused, 3500),
]
_ = (bad, S)
