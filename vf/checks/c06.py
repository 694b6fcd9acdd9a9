"""C06: unrepresentable values are refused, never altered."""
import io

import binobj
from binobj import errors, varints
from binobj import fields as bf

from .. import ref
from ..bad import bad_leaf, corrupt
from ..build import Builder
from ..core import Scenario
from ..gen import Gen
from ..spec import ABSENT, F, S
from ..streams import RecStream
from ..util import Case, outcome, plain, short

PROPERTY = "C06"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: hostile values, refusal and recorded output judged against a reference encoder"
LEVEL_NOTE = ("one unrepresentable value is planted at a random place of a valid structure; the check requires an "
              "exception and that only bytes of earlier fields reached the output")
RULE = ("an evaluation is one generated declaration with about ten planted bad values; distinct ones differ in the kind "
        "of badness, the kind of the field and the nesting depth, together with the declaration's structure")
ASSUMPTIONS = ["a value counts as unrepresentable if the reference encoder refuses it or it is of a foreign type",
               "fields are dumped one after another; bytes of fields before the refused one may have been written"]
FLOORS = {"bad values refused": 57000, "bad: count": 340, "bad: encode": 590, "bad: missing": 4200, "bad: nul": 280,
          "bad: null": 13000, "bad: range": 7900, "bad: size": 1700, "bad: type": 17000,
          "candidate accepted by the layout": 98, "computed lengths out of range": 60, "one-shot iterables": 14000,
          "stand-alone refusals": 2800, "values for no field": 240, "values not of the size given": 2300,
          "values of the size given": 770}


def refusal(c, given):
    """Why the reference refuses the values: (kind, top-level field), or None."""
    try:
        full = ref.resolve(c.s, given, c.ctx)
    except ref.Rej as e:
        return e.kind, None
    except Exception:  # noqa: BLE001  (foreign types)
        return "type", None
    try:
        ref.encode_struct(c.s, full, c.ctx)
    except ref.Rej as e:
        return e.kind, e.path[0]
    except Exception:  # noqa: BLE001
        return "type", None
    return None


def allowed(c, given, top, deep):
    """Everything that the fields before the refused one contribute (with these values)."""
    out = b""
    try:
        full = ref.resolve(c.s, given, c.ctx)
    except Exception:  # noqa: BLE001
        # nothing can be resolved: what the good values give, up to where they could make a difference
        names = [f.name for f in c.s.fields]
        cut = min([names.index(top)] + [names.index(f.name) for f in c.s.fields
                                          if deep is False and "compute" in f.o and f.name not in given
                                          and top in ([x] if isinstance(x := f.o["compute"][1], str) else x)])
        return c.data[:start_of(c, names[cut])]
    for f in c.s.fields:
        if f.name == top:
            break
        if full[f.name] is ABSENT:
            continue
        try:
            out += ref.encode_field(f, full[f.name], full, c.ctx)
        except Exception:  # noqa: BLE001
            break
    return out


def start_of(c, top):
    pos = 0
    for f in c.s.fields:
        if f.name == top:
            return pos
        sp = c.span(f.name)
        if sp:
            pos = sp[1]
    raise KeyError(top)


def structs(rng, mon, idx, **prof):
    c = Case(rng, mon, **prof)
    for n in range(9):
        r = corrupt(rng, c.gen, c.s, c.given, c.full, c.ctx)
        if r is None:
            continue
        label, path, given = r
        why = refusal(c, given)
        if why is None:
            mon.ev("candidate accepted by the layout")
            continue
        top = path[0]
        if why[1] is not None and why[1] != top:
            # the bad value makes another field impossible (count, size): whichever comes first
            names = [f.name for f in c.s.fields]
            top = min(top, why[1], key=names.index)
        limit = allowed(c, given, top, len(path) > 1)
        b = c.b
        shot = rng.random() < 0.3
        b.wrap = (lambda x: iter(x)) if shot else None
        try:
            k, inst = outcome(lambda: c.cls(**b.kwargs(c.s, given, rng if n % 2 else None)))
            st = RecStream()
            if k == "ok":
                k, e = outcome(inst.to_stream, st, c.ctx)
            mon.check(k == "err", f"unrepresentable value accepted ({label} at {path}): {short(given)}",
                      f"written {st.getvalue().hex()}", c.describe())
            got = st.getvalue()
            mon.check(limit.startswith(got),
                      f"refused value ({label} at {path}) left bytes in the output: {got.hex()}",
                      f"allowed: a prefix of {limit.hex()}", f"values {short(given)}", c.describe())
            how = n % 3
            k2, inst = outcome(lambda: c.cls(**b.kwargs(c.s, given, None)))
            if k2 == "ok":
                if how == 0:
                    k2, out = outcome(inst.to_bytes, c.ctx)
                elif how == 1:
                    k2, out = outcome(inst.partial_dump, io.BytesIO(), c.s.fields[-1].name, c.ctx)
                elif c.ctx is None:
                    k2, out = outcome(bytes, inst)
                else:
                    k2 = "err"
                mon.check(k2 == "err", f"unrepresentable value accepted ({label} at {path}) the second way {how}: "
                          f"{short(given)}", c.describe())
        finally:
            b.wrap = None
        if shot:
            mon.ev("one-shot iterables")
        mon.ev("bad values refused")
        mon.ev("bad: " + label)
        mon.ev(f"depth {len(path)}")
        f = c.s.get(path[0])
        mon.seen(label, len(path), f.kind, repr(c.s)[:150])
    # the good values are still accepted
    mon.eq(c.inst().to_bytes(c.ctx), c.data, "valid values are not dumped correctly after refusals", c.describe())


def arrays(rng, mon, idx):
    structs(rng, mon, idx, maxfields=3, nulls=0.1, conds=0.0, strings=False, computed=0.1, halts=False, eof=False,
            consts=0.0, unions=False)


def lone(rng, mon, idx):
    c = Case(rng, mon, maxfields=4)
    for f in c.s.fields:
        v = c.full[f.name]
        if v is ABSENT:
            continue
        fld = getattr(c.cls, f.name)
        env = {k: c.b.value(c.s.get(k), x) for k, x in c.full.items() if x is not None}
        for label, bad in bad_leaf(rng, c.gen, f, v, c.full, c.ctx):
            try:
                ref.encode_field(f, ref.normal(f, bad, c.ctx, c.full), c.full, c.ctx)
                continue
            except ref.Rej:
                pass
            except Exception:  # noqa: BLE001
                label = "type"
            st = RecStream()
            k, e = outcome(fld.to_stream, st, plain(bad), c.ctx, env)
            mon.check(k == "err", f"stand-alone {f!r} accepts {short(bad)} ({label})", f"wrote {st.getvalue().hex()}")
            mon.check(st.getvalue() == b"", f"stand-alone {f!r} refuses {short(bad)} but writes {st.getvalue().hex()}")
            k, out = outcome(fld.to_bytes, plain(bad), c.ctx, env)
            mon.check(k == "err", f"to_bytes of stand-alone {f!r} accepts {short(bad)} ({label})")
            mon.ev("stand-alone refusals")


def int_limits(rng, mon, idx):
    """Every width, sign and order, just outside the range and far away."""
    size = 1 + idx % 20
    signed = bool(idx // 20 % 2)
    endian = ["big", "little"][idx // 40 % 2]
    f = F("int", "x", {"size": size, "signed": signed, "endian": endian, "via": "Integer"})
    lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << 8 * size) - 1)
    fld = Builder().field(f, {})
    for k in range(0, 8 * size + 80):
        for v in (hi + (1 << k), lo - (1 << k)):
            st = RecStream()
            kind, e = outcome(fld.to_stream, st, v)
            mon.check(kind == "err" and not st.getvalue(),
                      f"{size}-byte {'signed' if signed else 'unsigned'} integer accepts {v}: {st.getvalue().hex()}")
            mon.ev("bad values refused")
    mon.seen("limits", size, signed, endian)


def computed(rng, mon, idx):
    """A computed length that doesn't fit its field."""
    g = Gen(rng)
    size, n = rng.choice([(1, 256), (1, 300), (2, 65536), (1, 70000)])
    what = rng.choice(["bytes", "str", "arr"])
    fs = [g.uuid_field("u"), F("int", "n", {"size": size, "signed": False, "endian": "big"},
                              {"compute": ("len", "b")})]
    if what == "bytes":
        fs.append(F("bytes", "b", {"size": ("ref", "n", "obj")}))
        v = rng.randbytes(n)
    elif what == "str":
        fs.append(F("str", "b", {"enc": "ascii", "size": ("ref", "n", "name")}))
        v = "q" * n
    else:
        fs.append(F("arr", "b", {"comp": F("int", None, {"size": 1, "signed": False, "endian": "big"}),
                                 "count": ("ref", "n", "obj")}))
        v = list(rng.randbytes(n))
    s = S("Cmp", fs, None, rng.choice(["assign", "pep526"]))
    cls = Builder().cls(s)
    u = g.plain_value(fs[0], {})
    head = ref.plain_size(fs[0])
    st = RecStream()
    inst = cls(u=u, b=v)
    k, e = outcome(inst.to_stream, st)
    mon.check(k == "err", f"a length of {n} was dumped in {size} bytes")
    mon.check(len(st.getvalue()) <= head, f"bytes of a refused length were written: {len(st.getvalue())}")
    ok = v[:(1 << 8 * size) - 1]
    out = cls(u=u, b=ok).to_bytes()
    mon.check(len(out) == head + size + len(ok), "the longest possible value isn't accepted")
    mon.ev("computed lengths out of range")
    mon.seen("computed", size, n, what)


class Low:
    """Stand-in for a source of randomness: structures are given as dictionaries."""

    def random(self):
        return 0.3


def dicts(s, full, kw, path=()):
    """The dictionaries for nested structures inside constructor arguments that will be dumped, with where they are."""
    for f in s.fields:
        if f.name in kw and full[f.name] is not ABSENT:
            yield from dicts_in(f, full[f.name], kw[f.name], full, (*path, f.name))


def dicts_in(f, v, x, env, path):
    if v is None or x is None:
        return
    if f.kind == "arr":
        for i, (a, b) in enumerate(zip(v, x)):
            yield from dicts_in(f.p["comp"], a, b, env, (*path, i))
        return
    st = None
    if f.kind == "nest":
        st = f.p["struct"]
    elif f.kind == "union":
        c = f.p["choices"][ref.union_index(f, env)]
        if isinstance(c, F):
            yield from dicts_in(c, v, x, env, path)
            return
        st = c
    if st is not None and type(x) is dict:
        yield path, st, x
        yield from dicts(st, v, x, path)


def unknown(rng, mon, idx):
    """A dictionary for a nested structure has a value that no field can carry."""
    c = Case(rng, mon, maxfields=4, discards=0.0)
    kw = c.b.kwargs(c.s, c.given, Low())
    found = list(dicts(c.s, c.full, kw))
    if not found:
        return
    mon.eq(c.cls(**kw).to_bytes(c.ctx), c.data, "dictionaries are not dumped correctly", c.describe())
    for path, st, d in rng.sample(found, min(3, len(found))):
        known = [f.name for f in st.fields]
        extra = rng.choice(["zz", known[0] + "_", known[-1][:-1] or "q", *[f.name for f in c.s.fields], "", "Meta", "to_bytes"])
        if extra in known:
            continue
        v = rng.choice([None, 0, b"", "x"])
        d[extra] = v
        try:
            what = f"a value {extra!r} that {st.name} has no field for, at {path}"
            st_ = RecStream()
            k, e = outcome(lambda: c.cls(**kw).to_stream(st_, c.ctx))
            mon.check(k == "err", f"{what}, is dropped: {st_.getvalue().hex()}", c.describe())
            limit = c.data[:start_of(c, path[0])]
            mon.check(limit.startswith(st_.getvalue()), f"{what}, is refused but {st_.getvalue().hex()} written", c.describe())
            if type(kw[path[0]]) is dict and c.s.get(path[0]).kind == "nest":
                env = {n: c.b.value(c.s.get(n), x) for n, x in c.full.items() if x is not None}
                k, e = outcome(getattr(c.cls, path[0]).to_bytes, kw[path[0]], c.ctx, env)
                mon.check(k == "err", f"{what}, is dropped by the field alone: {e!r}", c.describe())
        finally:
            del d[extra]
        mon.ev("values for no field")
        mon.seen("unknown", len(path), repr(st)[:100])
    mon.eq(c.cls(**kw).to_bytes(c.ctx), c.data, "dictionaries are not dumped correctly after refusals", c.describe())


class Raw(bf.Field):
    """A field that writes whatever it is given."""

    def _do_dump(self, stream, data, context, all_fields):
        for i in range(len(data)):
            stream.write(data[i:i + 1])

    def _do_load(self, stream, context, loaded_fields):
        return self._read_exact_size(stream, loaded_fields)


class Filling(Raw):
    """One that may be filled up."""

    def _add_padding(self, serialized, to_size):
        return serialized + b"=" * (to_size - len(serialized))


def sized(rng, mon, idx):
    """Sizes given to fields that don't have one by themselves."""
    n = rng.choice([0, 1, 2, 3, 5, 8])
    inner = type("In", (binobj.Struct,), {"a": bf.StringZ(encoding="ascii")})
    what = ["union", "array", "raw", "filling", "union-struct", "counted"][idx % 6]
    how = rng.choice(["int", "name", "field"])
    num = bf.UInt16(endian="big")
    size = n if how == "int" else "n" if how == "name" else num
    null = {"null_value": b"\0N"} if rng.random() < 0.3 else {}
    dec = {"load_decider": lambda st, cl, c, lf: cl[0], "dump_decider": lambda d, cl, c, af: cl[0]}
    if what == "union":
        fld = bf.Union(rng.choice([bf.StringZ(encoding="ascii"), Raw()]), size=size, **dec, **null)
        wrap = (lambda b: b[:-1].decode()) if isinstance(fld.choices[0], bf.StringZ) else bytes
    elif what == "union-struct":
        fld = bf.Union(inner, size=size, **dec, **null)
        wrap = (lambda b: {"a": b[:-1].decode()}) if rng.random() < 0.5 else (lambda b: inner(a=b[:-1].decode()))
    elif what in ("array", "counted"):
        extra = {} if what == "array" else {"count": "k"}
        fld = bf.Array(rng.choice([bf.UInt8(), bf.VariableLengthInteger(vli_format=varints.VarIntEncoding.VLQ)]), size=size,
                       **extra, **null)
        if what == "counted" and rng.random() < 0.5:
            fld = bf.Array(bf.StringZ(encoding="ascii"), size=size, count="k", **null)
            wrap = lambda b: [b[:-1].decode()]  # noqa: E731
        else:
            wrap = list
    else:
        fld = {"raw": Raw, "filling": Filling}[what](size=size, **null)
        wrap = bytes
    ns = {"k": bf.UInt8(), "n": num, "x": fld, "end": bf.UInt8(default=0xEE)}
    cls = type("Sized", (binobj.Struct,), ns)
    terminated = what == "union-struct" or what == "union" and isinstance(fld.choices[0], bf.StringZ) or (
        what == "counted" and isinstance(fld.component, bf.StringZ))
    for m in sorted({n, 0, 1, max(0, n - 1), n + 1, n + rng.randint(2, 300), rng.randint(0, 9)}):
        if terminated and m == 0:
            continue
        b = bytes(rng.randint(65, 90) for _ in range(m))
        if terminated:
            b = b[:-1] + b"\0"
        v = wrap(b)
        kn = len(v) if isinstance(v, list) else 3
        if kn > 255:
            continue
        head = bytes([kn]) + n.to_bytes(2, "big")
        st = RecStream()
        inst = cls(k=kn, n=n, x=v)
        k, e = outcome(inst.to_stream, st)
        desc = f"{m} bytes for {what} of size {n} (by {how}; {fld!r})"
        want = b if m == n else b + b"=" * (n - m) if what == "filling" and m < n else None
        alone = outcome(fld.to_bytes, v, None, {"k": kn, "n": n, "x": v})
        if want is None:
            mon.check(k == "err", f"{desc} accepted: {st.getvalue().hex()}")
            mon.check(isinstance(e, errors.ValueSizeError), f"{desc} refused with {e!r}")
            mon.check(head.startswith(st.getvalue()), f"{desc} refused, but {st.getvalue().hex()} written")
            mon.check(alone[0] == "err", f"{desc} accepted by the field alone: {alone!r}")
            mon.ev("values not of the size given")
        else:
            mon.check(k == "ok" and st.getvalue() == head + want + b"\xee", f"{desc}: {e!r}, {st.getvalue().hex()} written")
            mon.check(alone == ("ok", want), f"{desc} alone: {alone!r}")
            mon.ev("values of the size given")
        mon.seen("sized", what, how, m < n, m == n, bool(null))
    if null:
        st = RecStream()
        k, e = outcome(cls(k=0, n=n, x=None).to_stream, st)
        mon.check(k == "ok" and st.getvalue() == b"\0" + n.to_bytes(2, "big") + b"\0N\xee", f"null for {what} of size {n}: {e!r}, "
                  f"{st.getvalue().hex()} written")


SCENARIOS = [
    Scenario("structs", structs, 6000),
    Scenario("arrays", arrays, 7000),
    Scenario("lone", lone, 3500),
    Scenario("int_limits", int_limits, 80),
    Scenario("computed", computed, 150),
    Scenario("unknown", unknown, 2500),
    Scenario("sized", sized, 1500),
]
