"""C03: loading arbitrary bytes gives the layout's values or an error."""
import io

import binobj
from binobj import fields as bf

from .. import ref
from ..core import Scenario
from ..gen import Gen
from ..spec import F
from ..streams import RecStream
from ..util import Case, budget, compare_load, mutate_bytes, outcome, short

PROPERTY = "C03"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: hostile inputs, loads judged by an independent reference decoder"
LEVEL_NOTE = ("every load of a hostile input is compared with an independently written decoder (same values, or both "
              "refuse); inputs are mutations of valid data, random bytes and structured garbage")
RULE = ("an evaluation is one generated declaration loaded from about a dozen hostile inputs; distinct ones differ in "
        "the structural signature of the declaration together with whether the input is refused, and why")
ASSUMPTIONS = [
    "inputs that announce more than 20000 elements that the data can't hold, or a null of more than 16 MB, are skipped",
    "any exception counts as refusing the input here; the kind of error is C05's and C25's business",
]
FLOORS = {"UUID texts accepted": 800, "UUID texts refused": 2000, "arrays of elements without size loaded": 2700,
          "arrays of elements without size refused": 2000, "constants violated": 8300, "float patterns": 130000,
          "inputs accepted": 70000, "inputs refused": 220000, "inputs skipped: absurd count or size": 7,
          "negative sizes refused": 2000, "refused: const": 8300, "refused: decode": 4800, "refused: eof": 52000,
          "refused: eof-or-decode": 970, "refused: range": 480, "refused: unterminated": 880,
          "stream reads recorded": 47000, "two-byte inputs": 52000}


def hostile(rng, c, other):
    x = rng.random()
    d = c.data
    if x < 0.62:
        d = mutate_bytes(rng, d)
        while rng.random() < 0.25:
            d = mutate_bytes(rng, d)
        return d
    if x < 0.68:
        return d + rng.randbytes(rng.randint(1, 6))
    if x < 0.76:
        return rng.randbytes(rng.choice([0, 1, 3, len(d), len(d) + 3, 60]))
    if x < 0.82:
        return bytes([rng.choice([0, 0xFF, 0x80, 0x7F, 0x20])]) * rng.choice([1, len(d), 2 * len(d) + 1])
    if x < 0.9:
        i, j = rng.randint(0, len(d)), rng.randint(0, len(other))
        return d[:i] + other[j:]
    if x < 0.97:
        # overwrite one field's bytes with those of another, or with random ones
        if c.spans:
            _, a, b = rng.choice(c.spans)
            _, a2, b2 = rng.choice(c.spans)
            return d[:a] + (d[a2:b2] if rng.random() < 0.5 else rng.randbytes(b - a)) + d[b:]
    return d


def load_and_judge(mon, c, data):
    trace = []
    want = c.decoded(data, 0, trace)
    if budget(want):
        mon.ev("inputs skipped: absurd count or size")
        return
    got = outcome(c.cls.from_bytes, data, c.ctx, False)
    compare_load(mon, c, want, got, f"from_bytes({data.hex()}, exact=False)")
    st = RecStream(data)
    got = outcome(c.cls.from_stream, st, c.ctx)
    compare_load(mon, c, want, got, f"from_stream of {data.hex()}")
    mon.ev("stream reads recorded", sum(1 for e in st.log if e[0] == "read"))
    full = want if isinstance(want, ref.Rej) or want[1] == len(data) else ref.Rej("leftover")
    got = outcome(c.cls.from_bytes, data, c.ctx)
    compare_load(mon, c, full, got, f"from_bytes({data.hex()})")
    if isinstance(want, ref.Rej):
        mon.ev("refused: " + want.kind)
        mon.seen(c.s.name, repr(c.s)[:200], "refused", want.kind)
        if want.kind == "const":
            mon.ev("constants violated")
    else:
        mon.seen(c.s.name, repr(c.s)[:200], "accepted")


def structs(rng, mon, idx, **prof):
    c = Case(rng, mon, **prof)
    other = c.more().data
    for _ in range(12):
        load_and_judge(mon, c, hostile(rng, c, other))
    data = c.longer(rng)  # variable-length integers in longer encodings
    if data != c.data:
        load_and_judge(mon, c, data)
        load_and_judge(mon, c, mutate_bytes(rng, data))


def consts(rng, mon, idx):
    """Declarations full of constants, so that most damage has to be noticed."""
    structs(rng, mon, idx, consts=0.8, nulls=0.1, conds=0.2)


def exhaustive(rng, mon, idx):
    """All inputs of up to two bytes, on small declarations."""
    c = Case(rng, mon, maxfields=2, nested=False, maxdepth=1)
    lead = bytes([idx % 256])
    load_and_judge(mon, c, b"")
    load_and_judge(mon, c, lead)
    for b in range(256):
        load_and_judge(mon, c, lead + bytes([b]))
    mon.ev("two-byte inputs", 256)


def lone_fields(rng, mon, idx):
    """Stand-alone scalar fields on hostile bytes."""
    g = Gen(rng, nulls=0.5)
    c = Case(rng, mon, maxfields=3, conds=0.0, refs=False, computed=0.0, peek=False, unions=False)
    for f in c.s.fields:
        if f.o.get("present"):
            continue
        fld = getattr(c.cls, f.name)
        span = c.span(f.name)
        base = c.data[span[0]:span[1]]
        for _ in range(6):
            d = mutate_bytes(rng, base)
            try:
                want, end = ref.decode_field(f, d, 0, {}, c.ctx)
            except ref.Rej as e:
                if e.kind == "budget":
                    continue
                k, v = outcome(fld.from_stream, io.BytesIO(d), c.ctx, {})
                mon.check(k == "err", f"stand-alone field {f!r} accepts {d.hex()} as {short(v)}", repr(e))
                mon.ev("inputs refused")
                continue
            st = io.BytesIO(d)
            k, v = outcome(fld.from_stream, st, c.ctx, {})
            mon.check(k == "ok", f"stand-alone field {f!r} refuses {d.hex()}: {short(v)}", f"want {short(want)}")
            diff = ref.same(f, want, v, f.name)
            mon.check(diff is None, f"stand-alone field {f!r} loads {d.hex()} wrongly: {diff}")
            mon.check(st.tell() == end, f"stand-alone field {f!r} consumed {st.tell()} bytes of {d.hex()}, not {end}")
            mon.ev("inputs accepted")
    del g


def floats(rng, mon, idx):
    """Every 16-bit float pattern, and random wide ones."""
    from ..build import Builder

    size = [2, 2, 4, 8][idx % 4]
    endian = ["big", "little"][idx // 4 % 2]
    f = F("float", "x", {"size": size, "endian": endian})
    fld = Builder().field(f, {})
    block = 65536 // 8
    pats = (range(idx // 8 % 8 * block, (idx // 8 % 8 + 1) * block) if size == 2
            else [rng.getrandbits(8 * size) for _ in range(2000)])
    for p in pats:
        d = p.to_bytes(size, "big")
        diff = ref.same_plain(ref.bytes_float(d, endian), fld.from_bytes(d))
        mon.check(diff is None, f"Float{8 * size} ({endian}) loads {d.hex()} wrongly: {diff}")
        mon.ev("float patterns")
    mon.seen("float", size, endian, idx)


DIGITS = [ord(x) for x in "\u0660\u06f0\u0966\uff10"] + [0x1D7CE]  # zeros of other scripts


def uuid_text(rng, mon, idx):
    """UUIDs stored as text, on text that almost is one."""
    import uuid

    fmt = ["canon", "hex"][idx % 2]
    f = F("uuid", "x", {"fmt": fmt})
    from ..build import Builder

    fld = Builder().field(f, {})
    size = ref.plain_size(f)
    for _ in range(12):
        u = uuid.UUID(int=rng.getrandbits(128))
        t = (str(u) if fmt == "canon" else u.hex).encode()
        x = rng.randrange(7)
        if x == 0:
            t = t.upper()
        elif x == 1:  # as long, but with digits that aren't ASCII
            h = list(u.hex)
            for i in rng.sample(range(32), rng.randint(1, 4)):
                h[i] = chr(rng.choice(DIGITS) + rng.randrange(10))
            t = "".join(h).encode()
            t = t[:size]
        elif x == 2:
            t = bytearray(t)
            for _ in range(rng.randint(1, 3)):
                t[rng.randrange(size)] = rng.choice(b"ghGxz-_ \0\x80\xff+\n")
            t = bytes(t)
        elif x == 3:
            t = (b"{" + u.hex.encode() + b"}--")[:size]
        elif x == 4:
            t = (b"urn:uuid:" + t)[:size]
        elif x == 5:
            t = t[:-1]
        try:
            want, end = ref.decode_field(f, t, 0, {}, None)
        except ref.Rej as e:
            k, v = outcome(fld.from_bytes, t, None, False)
            mon.check(k == "err", f"UUID stored as {fmt} accepts {t!r} as {v!r}", repr(e))
            mon.ev("UUID texts refused")
            continue
        k, v = outcome(fld.from_bytes, t, None, False)
        mon.check(k == "ok" and v == want, f"UUID stored as {fmt} loads {t!r} as {short(v)}, not {want!r}")
        mon.ev("UUID texts accepted")
    mon.seen("uuid text", fmt, idx % 97)


def negative(rng, mon, idx):
    """Sizes by reference to a signed field."""
    form = rng.choice(["field", "name"])
    n = rng.choice([bf.Int8, bf.Int16, bf.Int32])(endian="big")
    size = n if form == "field" else "n"
    cl, kw = rng.choice([(bf.Bytes, {}), (bf.String, {"encoding": "latin-1"}), (bf.String, {"pad_byte": b" "}),
                         (bf.StringZ, {}), (bf.Bytes, {"null_value": b"NULL"}), (bf.Bytes, {"null_value": bf.DEFAULT})])
    fields = {"n": n, "a": cl(size=size, **kw)}
    if rng.random() < 0.5:
        fields["z"] = bf.UInt8()
    S = type("S", (binobj.Struct,), fields)
    for _ in range(6):
        v = rng.choice([-1, -1, -2, -128, 0, 1, 3, rng.randint(-128, 127)])
        rest = rng.randbytes(rng.choice([0, 1, 3, 4, 9]))
        if cl is bf.StringZ and v > 0 and rng.random() < 0.7:
            rest = b"ab"[:v - 1] + b"\0" + rest
        d = v.to_bytes(n.size, "big", signed=True) + rest
        k, got = outcome(S.from_bytes, d, None, False)
        null = kw.get("null_value") == b"NULL" and rest.startswith(b"NULL")
        if null:
            continue
        if v < 0 or len(rest) < v + ("z" in fields):
            mon.check(k == "err", f"{cl.__name__}(size={v}): {d!r} loaded as {short(got)}")
            mon.ev("negative sizes refused" if v < 0 else "inputs refused")
        elif k == "ok":
            a = got.a
            if cl is bf.Bytes:
                mon.check(a == rest[:v] or a is None and not any(rest[:v]) and "null_value" in kw, f"size {v}: {d!r} loaded as {short(got)}")
            elif cl is bf.String:
                mon.check(a == rest[:v].decode("latin-1"), f"size {v}: {d!r} loaded as {short(got)}")
            else:
                mon.check(b"\0" in rest[:v] and a == rest[:rest.index(b"\0")].decode("latin-1"), f"size {v}: {d!r} loaded as {short(got)}")
            mon.check("z" not in fields or got.z == rest[v], f"size {v}: {d!r} loaded as {short(got)}")
            mon.ev("inputs accepted")
        else:
            mon.check(cl is bf.StringZ and b"\0" not in rest[:v], f"size {v}: {d!r} refused: {short(got)}")
        k, got = outcome(S(n=v, a=rng.choice([b"", b"x", b"abc"]) if cl is bf.Bytes else rng.choice(["", "a"]), **({"z": 1} if "z" in fields else {})).to_bytes)
        mon.check(k == "err" or v >= 0, f"{cl.__name__}(size={v}) dumped as {short(got)}")
    mon.seen("negative", cl.__name__, str(kw), form, type(n).__name__)


class Endless(BaseException):
    """Not even an error handler stops this."""


class Patient(RecStream):
    """A stream that loses its patience."""

    def _tick(self, kind):
        super()._tick(kind)
        if self.ncalls > 20000:
            raise Endless()


def no_size(rng, mon, idx):
    """Arrays of elements that may take up no space end all the same."""
    ctx = {"on": rng.random() < 0.4}
    form = rng.choice(["field", "name"])
    n = bf.UInt8()
    size = n if form == "field" else "n"

    def element(depth):
        x = rng.randrange(7)
        if x == 0:
            return bf.Bytes(size=size)
        if x == 1:
            return bf.String(size=size, encoding="latin-1")
        if x == 2:
            return bf.Bytes(size=0)
        if x == 3:
            return bf.Array(bf.UInt8(), count=size)
        if x == 4:
            return bf.Nested(type("E", (binobj.Struct,), {
                "x": bf.UInt8(present=lambda v, c, s: bool(c and c["on"]))}))
        if x == 5:
            e = bf.Bytes(size=size)
            return bf.Union(e, bf.UInt8(), load_decider=lambda s, cl, c, v: cl[bool(c and c["on"])], dump_decider=None)
        if depth:
            return bf.Array(element(depth - 1), count=rng.choice([0, 1, 2]))
        return bf.Bytes(size=0)

    e = element(2)
    count = rng.choice([None, None, None, 0, 1, 3, size])
    S = type("S", (binobj.Struct,), {"n": n, "a": bf.Array(e, count=count)})
    for d in (b"", b"\0", b"\0x", b"\1abc", b"\2abcd", b"\3ab", b"\0" * 5, rng.randbytes(rng.randint(1, 9))):
        st = Patient(d)
        try:
            k, got = outcome(S.from_stream, st, ctx)  # doesn't catch an Endless
        except Endless:
            mon.check(False, f"loading {d!r} with {count!r} elements like {e!r} doesn't end")
        if k == "ok":
            want = {None: None, size: got.n}.get(count, count)
            mon.check(want is None or len(got.a) == want, f"{d!r}: {got!r} with count {count!r}")
            mon.check(want is not None or st.at == len(d), f"{d!r}: {got!r} isn't everything")
            for x in got.a:
                if isinstance(x, (bytes, str, list)) and isinstance(e, (bf.Bytes, bf.String)):
                    mon.check(len(x) == (got.n if e.size is n or e.size == "n" else e.size), f"{d!r}: {got!r}")
        mon.ev("arrays of elements without size " + ("loaded" if k == "ok" else "refused"))
        mon.seen("no size", type(e).__name__, str(count), k, d[:1])


def probe_conditional():
    """Elements whose condition doesn't hold, and that have no stand-in, in an array."""
    calls = [0]

    def present(values, context, stream):
        calls[0] += 1
        if calls[0] > 2000:
            raise Endless()
        return False

    try:
        outcome(bf.Array(bf.UInt8(present=present), count=2).from_bytes, b"\1\2")
    except Endless:
        return False
    return True


KNOWN = {"conditional-elements": probe_conditional}
SCENARIOS = [
    Scenario("structs", structs, 6000),
    Scenario("consts", consts, 1500),
    Scenario("exhaustive", exhaustive, 512),
    Scenario("lone_fields", lone_fields, 3500),
    Scenario("uuid_text", uuid_text, 600),
    Scenario("negative", negative, 1500),
    Scenario("no_size", no_size, 1500),
    Scenario("floats", floats, 64),
]
