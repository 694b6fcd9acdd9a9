"""C26: what fields and structures report about themselves is true."""
import collections
import io
import itertools
import struct

import binobj
from binobj import errors
from binobj import fields as bf
from binobj.fields.containers import Array
from binobj.structures import StructMetadata

from .. import ref
from ..build import UUIDF, VLI, Builder
from ..core import Scenario
from ..gen import Gen, GiveUp, refs_of
from ..spec import ABSENT, F, S, UNSET, walk_field
from ..util import Case, budget, mutate_bytes, outcome, short, snapshot

PROPERTY = "C26"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: a second declaration is built from nothing but what the class and its fields report, and "
             "predicts the bytes of every dump and the values of every load; each flag a field reports is compared with what "
             "the structure accepts, refuses and requires, before and after a random history of use")
LEVEL_NOTE = "declarations, values and histories are sampled; conditions, stop checks and deciders can't be reported and are taken from the declaration"
RULE = ("an evaluation is one generated declaration with a set of values and a history of use; distinct ones differ in the "
        "structural signature of the declaration")
ASSUMPTIONS = [
    "`required` of computed fields isn't judged: the documentation leaves open whether a computed value counts",
    "the name of an array's element type isn't part of the declaration",
]
FLOORS = {"constant sizes": 320, "constants": 320, "dumps predicted": 6000, "fields": 9200, "final counts": 1100,
          "immutable": 530, "loaded values": 22000, "loads predicted": 5800, "metadata": 2600, "mutable": 7300,
          "not required": 1700, "null accepted": 1300, "null refused": 3700, "plain classes": 320, "reports": 3600,
          "required": 5500, "things": 64, "uses": 5900}

UNITS = {"s": 0, "ms": 3, "us": 6, "ns": 9}
KINDS = [("uuid", bf.UUID4), ("strz", bf.StringZ), ("str", bf.String), ("bytes", bf.Bytes), ("ts", bf.Timestamp),
         ("vli", bf.VariableLengthInteger), ("int", bf.Integer), ("float", bf.Float), ("arr", Array), ("nest", bf.Nested),
         ("union", bf.Union)]
VLI_NAMES = {v: k for k, v in VLI.items()}
UUID_NAMES = {v: k for k, v in UUIDF.items()}


# ---------------------------------------------------------------- a declaration made of reports

# byte order and sign that each format has
VLI_REPORTS = {"vlq": ("big", False), "leb128": ("little", True), "uleb128": ("little", False), "compact": ("big", True)}


def reflect_ref(r):
    if isinstance(r, bf.Field):
        return ("ref", r.name, "name")
    if isinstance(r, str):
        return ("ref", r, "name")
    return r


def unstruct(v):
    """Plain values of what a field reports (defaults may hold structures)."""
    if v is bf.NOT_PRESENT:
        return ABSENT
    if isinstance(v, binobj.Struct):
        return {n: unstruct(v[n]) for n in v}
    if isinstance(v, (list, tuple)):
        return [unstruct(x) for x in v]
    if isinstance(v, dict):
        return {n: unstruct(x) for n, x in v.items()}
    if isinstance(v, bytearray):
        return bytes(v)
    return v


def reflect_field(x, f):
    """Declaration of the field object x by what it reports; f only gives what can't be reported."""
    kind = next((k for k, c in KINDS if isinstance(x, c)), None)
    p = {}
    if kind in ("int", "ts"):
        p.update(size=x.size, signed=x.signed, endian=x.endian)
        if kind == "ts":
            p.update(res=x.resolution, aware=x.tz_aware)
    elif kind == "float":
        p.update(size=x.size, endian=x.endian)
    elif kind == "vli":
        p.update(enc=VLI_NAMES[x.vli_format])
        want = VLI_REPORTS[p["enc"]]
        assert (x.endian, x.signed) == want, f"{x!r} reports {(x.endian, x.signed)} for {p['enc']}, not {want}"
        if x.max_bytes is not None:
            p["max"] = x.max_bytes
    elif kind in ("bytes", "str", "strz"):
        if x.size is not None:
            p["size"] = reflect_ref(x.size)
        if kind != "bytes":
            p["enc"] = x.encoding
            if x.pad_byte is not None:
                p["pad"] = x.pad_byte
    elif kind == "uuid":
        p["fmt"] = UUID_NAMES[x.stored_as]
    elif kind == "arr":
        p["comp"] = reflect_field(x.component, f.p["comp"])
        p["count"] = f.p["count"] if x.halt_check is not Array.should_halt and x.count is None else reflect_ref(x.count)
    elif kind == "nest":
        p["struct"] = reflect(x.struct_class, f.p["struct"])
    elif kind == "union":
        p["tag"] = f.p["tag"]
        p["choices"] = [reflect(c, g) if isinstance(c, type) else reflect_field(c, g)
                        for c, g in itertools.zip_longest(x.choices, f.p["choices"])]
    o = {k: f.o[k] for k in ("present", "compute") if k in f.o}
    if x.const is not bf.UNDEFINED:
        o["const"] = unstruct(x.const)
    if x.discard:
        o["discard"] = True
    if x.allow_null:
        n = x.null_value
        o["null"] = ("zero",) if n is bf.DEFAULT else ("raw", n) if isinstance(n, bytes) else ("val", n)
    if x.not_present_value is not bf.NOT_PRESENT:
        o["np"] = x.not_present_value
    if (d := x.default) is not bf.UNDEFINED and "const" not in o:
        o["default"] = unstruct(d)
    return F(kind, f.name, p, o)


def reflect(cls, s):
    """Declaration of a class by what its fields report."""
    out = []
    for f in s.fields:
        x = getattr(cls, f.name)
        g = reflect_field(x, f)
        g.name = x.name
        out.append((x.index, g))
    out.sort(key=lambda t: t[0])
    assert [i for i, _ in out] == list(range(len(out))), f"indexes {out}"
    return S(s.name, [g for _, g in out])


def declared(f):
    """The declaration as written, in the form the reflected one has."""
    p, o = {}, {k: v for k, v in f.o.items() if k not in ("factory", "validators")}
    if f.kind in ("int", "ts", "float"):
        p = {k: f.p[k] for k in ("size", "signed", "endian", "res", "aware") if k in f.p}
        if f.kind == "float":
            p.pop("signed", None)
    elif f.kind == "vli":
        p = {"enc": f.p["enc"]}
        if f.p.get("max") is not None:
            p["max"] = f.p["max"]
    elif f.kind in ("bytes", "str", "strz"):
        if f.p.get("size") is not None:
            p["size"] = reflect_ref(f.p["size"]) if not isinstance(f.p["size"], tuple) else (*f.p["size"][:2], "name")
        if f.kind != "bytes":
            p["enc"] = f.p["enc"]
            if f.p.get("pad") is not None:
                p["pad"] = f.p["pad"]
    elif f.kind == "uuid":
        p = {"fmt": f.p["fmt"]}
    elif f.kind == "arr":
        c = f.p["count"]
        p = {"comp": declared(f.p["comp"]), "count": (*c[:2], "name") if isinstance(c, tuple) and c[0] == "ref" else c}
    elif f.kind == "nest":
        p = {"struct": S(f.p["struct"].name, [declared(g) for g in f.p["struct"].fields])}
    elif f.kind == "union":
        p = {"tag": f.p["tag"], "choices": [S(c.name, [declared(g) for g in c.fields]) if isinstance(c, S) else declared(c)
                                            for c in f.p["choices"]]}
    if "factory" in f.o:
        o["default"] = f.o["factory"]
    if o.get("discard") is False:
        o.pop("discard")
    if o.get("np", 0) is bf.NOT_PRESENT:
        o.pop("np")
    return F(f.kind, f.name, p, o)


def differs(a, b, path=""):
    """First difference between a reported and a written declaration."""
    if isinstance(a, S):
        if [f.name for f in a.fields] != [f.name for f in b.fields]:
            return f"{path}: fields {[f.name for f in a.fields]}, declared {[f.name for f in b.fields]}"
        return next((d for x, y in zip(a.fields, b.fields) if (d := differs(x, y, f"{path}.{x.name}"))), None)
    if isinstance(a, F):
        if a.kind != b.kind:
            return f"{path}: a {a.kind}, declared {b.kind}"
        for what, x, y in (("setting", a.p, b.p), ("option", a.o, b.o)):
            for k in sorted({*x, *y}):
                u, v = x.get(k, UNSET), y.get(k, UNSET)
                if k == "size" and v is UNSET and "const" in b.o:
                    continue  # judged by the dump
                if k in ("struct", "comp", "choices"):
                    d = differs(u, v, f"{path}.{k}")
                    if d:
                        return d
                elif k == "default":
                    if (u is UNSET) != (v is UNSET) or ref.normal(b, u, None, {}) != ref.normal(b, v, None, {}) and "nan" not in repr(v):
                        return f"{path}: {k} reported as {u!r}, declared {v!r}"
                elif k in ("present", "compute"):
                    continue
                elif u != v and "nan" not in repr(v):
                    return f"{path}: {what} {k} reported as {u!r}, declared {v!r}"
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} of {len(b)} reported"
        return next((d for i, (x, y) in enumerate(zip(a, b)) if (d := differs(x, y, f"{path}[{i}]"))), None)
    return None


# ---------------------------------------------------------------- flags

def flags(mon, c, rng, full_given, reflected):
    names = [f.name for f in c.s.fields]
    referred = collections.Counter(n for f in c.s.fields for g in walk_field(f) for _, n in refs_of(g))
    for f in c.s.fields:
        if "present" in f.o:
            referred.update([f.o["present"][1]])
        for g in walk_field(f):
            if g.kind == "union":
                referred.update([g.p["tag"]])
        if "compute" in f.o:
            referred.update(f.o["compute"][1] if f.o["compute"][0] == "sum" else [f.o["compute"][1]])
    for i, f in enumerate(c.s.fields):
        x = getattr(c.cls, f.name)
        d = f"field {f!r} reported by {x!r}"
        # Identity and position.
        mon.check(x.name == f.name and type(x.index) is int and x.index == i, f"{d}: name {x.name!r}, index {x.index!r}",
                  c.describe())
        mon.check(x is vars(x.__objclass__).get(f.name) and issubclass(c.cls, x.__objclass__),
                  f"{d}: belongs to {x.__objclass__}", c.describe())
        mon.check(str(x) == f"{type(x).__qualname__}(name={f.name!r})" and str(x) in repr(x), f"{d}: {x!s}, {x!r}")
        for at in ("allow_null", "required", "is_computed_field", "has_fixed_size", "discard"):
            mon.check(type(getattr(x, at)) is bool, f"{d}: {at} is {getattr(x, at)!r}", c.describe())
        mon.check(x.has_fixed_size == isinstance(x.size, int), f"{d}: fixed size {x.has_fixed_size}, size {x.size!r}")
        mon.ev("fields")
        there = c.full[f.name] is not ABSENT
        # Assignment.
        v = full_given.get(f.name, UNSET)
        if v is not UNSET:
            inst = c.cls()
            k, e = outcome(setattr, inst, f.name, c.b.value(f, v))
            immutable = x.is_computed_field or x.const is not bf.UNDEFINED
            mon.check((k == "err") == immutable and (k == "ok" or isinstance(e, errors.ImmutableFieldError)),
                      f"{d}: computed {x.is_computed_field}, constant {x.const!r}, but assignment gave {short(e)}", c.describe())
            mon.ev("immutable" if immutable else "mutable")
        mon.check(x.is_computed_field == ("compute" in f.o), f"{d}: computed {x.is_computed_field}", c.describe())
        if "compute" not in f.o:
            mon.check(x.required == (x.default is bf.UNDEFINED and x.const is bf.UNDEFINED), f"{d}: required {x.required}, "
                      f"default {x.default!r}", c.describe())
        # Leaving it out.
        if there and "compute" not in f.o and f.name in full_given:
            rest = {n: w for n, w in full_given.items() if n != f.name}
            inst = c.cls(**c.b.kwargs(c.s, rest))
            k, e = outcome(inst.to_bytes, c.ctx)
            missing = k == "err" and isinstance(e, errors.MissingRequiredValueError) and e.field in (x, f.name)
            if x.required:
                mon.check(k == "err" and (missing or referred[f.name]), f"{d}: required, but left out gave {short(e)}", c.describe())
                mon.check(isinstance(outcome(getattr, inst, f.name)[1], errors.MissingRequiredValueError) or "present" in f.o,
                          f"{d}: required, but reads as {short(outcome(getattr, inst, f.name))}", c.describe())
                mon.ev("required")
            else:
                mon.check(not missing, f"{d}: not required, but left out gave {short(e)}", c.describe())
                got, want = outcome(getattr, inst, f.name), x.default
                mon.check("present" in f.o or got[0] == "ok" and snapshot(unstruct(got[1])) == snapshot(unstruct(want)),
                          f"{d}: default reported as {short(want)}, but reads as {short(got)}", c.describe())
                mon.ev("not required")
        # Null.
        if there and f.name in full_given and not referred[f.name] and not {"const", "compute"} & set(f.o):
            inst = c.cls(**c.b.kwargs(c.s, {**full_given, f.name: None}))
            k, e = outcome(inst.to_bytes, c.ctx)
            if not x.allow_null:
                mon.check(k == "err" and isinstance(e, (errors.UnserializableValueError, errors.ValidationError)),
                          f"{d}: not nullable, but null gave {short(e)}", c.describe())
                mon.ev("null refused")
            elif x.null_value is not bf.DEFAULT or x.has_fixed_size:
                mon.check(k == "ok" or any(f.name in g.o.get("compute", ("", ""))[1] for g in c.s.fields if "compute" in g.o),
                          f"{d}: nullable, but null gave {short(e)}", c.describe())
                mon.ev("null accepted")
    mon.check(list(c.cls.__binobj_struct__.components) == names, "order of the fields", c.describe())


def loaded(mon, c, inst):
    """Types and values of what was loaded, against what the fields report."""
    for f in c.s.fields:
        x = getattr(c.cls, f.name)
        if x.discard:
            mon.check(f.name not in inst, f"{x!r} is discarded but is {short(inst[f.name]) if f.name in inst else ''}", c.describe())
            continue
        mon.check(f.name in inst, f"{x!r} isn't loaded", c.describe())
        v = inst[f.name]
        if c.full[f.name] is ABSENT:
            mon.check(v is x.not_present_value or v == x.not_present_value and type(v) is type(x.not_present_value),
                      f"{x!r}: stand-in reported as {x.not_present_value!r}, loaded {v!r}", c.describe())
        elif v is None:
            mon.check(x.allow_null, f"{x!r} isn't nullable, but loaded as null", c.describe())
        elif f.kind == "nest":
            mon.check(type(v) is x.struct_class, f"{x!r}: {type(v)}, reported {x.struct_class}", c.describe())
        elif f.kind == "union" and isinstance(v, binobj.Struct):
            mon.check(type(v) in x.choices or any(isinstance(k, bf.Nested) and k.struct_class is type(v) for k in x.choices),
                      f"{x!r}: {type(v)}, reported {x.choices}", c.describe())
        elif f.kind == "ts":
            mon.check((v.tzinfo is not None) == x.tz_aware, f"{x!r}: aware {x.tz_aware}, loaded {v!r}", c.describe())
        if x.const is not bf.UNDEFINED and c.full[f.name] is not ABSENT:
            mon.check(v == x.const, f"{x!r}: constant {x.const!r}, loaded {v!r}", c.describe())
        mon.ev("loaded values")


# ---------------------------------------------------------------- histories

def use(rng, c):
    """Something a program may do with the class; errors included."""
    data = c.data if rng.random() < 0.6 else mutate_bytes(rng, c.data)
    if budget(c.decoded(data)):
        data = c.data
    inst = outcome(c.inst)[1]
    f = rng.choice(c.s.fields)
    x = getattr(c.cls, f.name)
    op = rng.choice(["load", "dump", "len", "dict", "get", "partial", "part dump", "field", "field dump", "subclass", "null",
                     "bad", "set"])
    if op == "load":
        outcome(c.cls.from_bytes, data, c.ctx, rng.random() < 0.5)
    elif op == "dump":
        outcome(inst.to_bytes, c.ctx)
    elif op == "len":
        outcome(len, inst)
        c.cls.get_size()
    elif op == "dict":
        outcome(inst.to_dict, rng.random() < 0.5)
        repr(inst)
    elif op == "get":
        outcome(c.cls.get_field, io.BytesIO(data), f.name, c.ctx)
    elif op == "partial":
        outcome(c.cls.partial_load, io.BytesIO(data), rng.choice([None, f.name]), c.ctx)
    elif op == "part dump":
        outcome(inst.partial_dump, io.BytesIO(), rng.choice([None, f.name]), c.ctx)
    elif op == "field":
        outcome(x.from_bytes, c.data[slice(*c.span(f.name) or (0, 0))], c.ctx, rng.random() < 0.5, {n: v for n, v in c.full.items() if not isinstance(v, dict)})
    elif op == "field dump":
        outcome(x.to_bytes, c.full[f.name], c.ctx, dict(c.full))
    elif op == "subclass":
        outcome(lambda: type("Sub", (c.cls,), {"more": bf.UInt16(endian="big"), "Meta": type("Meta", (), {
            "argument_defaults": {"endian": "big", "encoding": "utf-16"}})}))
    elif op == "null":
        outcome(lambda: c.cls(**{**{n: None for n in c.full}}).to_bytes(c.ctx))
    elif op == "bad":
        outcome(lambda: c.cls(**{n: rng.choice([-1, "x", b"", [], 1 << 70, object()]) for n in c.full}).to_bytes(c.ctx))
    else:
        outcome(setattr, inst, f.name, None)
        outcome(lambda: inst.__delitem__(f.name))
    return op


def structs(rng, mon, idx):
    g = Gen(rng, maxfields=6, inherit=0.4, consts=0.2, defaults=0.35, nulls=0.3, discards=0.12, np=0.4)
    c = Case(rng, mon, gen=g)
    # A value for everything that can be given one.
    full_given = {n: v for n, v in c.given.items() if v is not UNSET}
    for f in c.s.fields:
        v = c.full[f.name]
        if f.name not in full_given and v is not ABSENT and not {"compute", "const"} & set(f.o):
            full_given[f.name] = v
    mon.check(binobj.is_struct(c.cls) and binobj.is_struct(c.inst()), "is_struct", c.describe())
    s1 = reflect(c.cls, c.s)
    d = differs(s1, S(c.s.name, [declared(f) for f in c.s.fields]))
    mon.check(d is None, f"reported declaration differs: {d}", f"{s1!r}", c.describe())
    for st in [c.s] + ([c.s.base] if c.s.base else []):
        metadata(mon, c, st, c.b.cls(st), st.style != "assign")
    sig = []
    hist = rng.randint(0, 6)
    for _ in range(hist):
        sig.append(use(rng, c))
    mon.ev("uses", hist)
    s2 = reflect(c.cls, c.s)
    mon.check(repr(s1) == repr(s2), f"after {sig} the class reports {s2!r}, before {s1!r}", c.describe())
    flags(mon, c, rng, full_given, s2)
    # The reported declaration predicts bytes and values.
    for k in [c] + [k for k in (more(c) for _ in range(2)) if k is not None]:
        want = outcome(ref.encode_struct, s2, k.full, k.ctx)
        got = outcome(k.inst().to_bytes, k.ctx)
        mon.check(got[0] == "ok" and want[0] == "ok" and got[1] == want[1][0],
                  f"dump is {short(got)}, by what the fields report it's {short(want)}", f"{s2!r}", k.describe())
        mon.ev("dumps predicted")
        dec = outcome(ref.decode_struct, s2, k.data, 0, k.ctx)
        if dec[0] == "ok" and dec[1][1] == len(k.data):
            inst = outcome(k.cls.from_bytes, k.data, k.ctx)
            diff = ref.same_struct(s2, dec[1][0], inst[1]) if inst[0] == "ok" else inst
            mon.check(diff is None, f"load by what the fields report: {short(diff)}", f"{s2!r}", k.describe())
            mon.ev("loads predicted")
            if k.unambiguous():
                loaded(mon, k, inst[1])
        counts(mon, k)
    mon.seen("use", tuple(sig))


def more(c):
    try:
        return c.more()
    except (GiveUp, ref.Rej):
        return None


def counts(mon, c):
    """Public helpers that answer for given values."""
    for f in c.s.fields:
        x, v = getattr(c.cls, f.name), c.full[f.name]
        if v is ABSENT or v is None or f.kind != "arr":
            continue
        n = outcome(x.get_final_element_count, dict(c.full))
        how = f.p["count"]
        if how is None or how[0] == "halt" if isinstance(how, tuple) else how is None:
            mon.check(n == ("ok", None), f"{x!r}: final count {short(n)}", c.describe())
        else:
            mon.check(n == ("ok", len(v)), f"{x!r}: final count {short(n)}, it has {len(v)}", c.describe())
            mon.ev("final counts")


def metadata(mon, c, s, cls, annotated):
    """What a class keeps about itself."""
    m = cls.__binobj_struct__
    what = f"metadata of {s.name}"
    mon.eq(m.name, s.name, f"{what}: name", c.describe())
    mon.eq(list(m.components), [f.name for f in s.fields], f"{what}: fields", c.describe())
    mon.eq(m.num_own_fields, len(s.own), f"{what}: number of own fields", c.describe())
    mon.eq(dict(m.argument_defaults), {**(s.base.meta if s.base and not s.meta else {}), **s.meta}, f"{what}: defaults", c.describe())
    for f in s.fields:
        x = m.components[f.name]
        mon.check(x is getattr(cls, f.name), f"{what}: {f.name} is another field", c.describe())
        mon.eq(list(m.field_validators[f.name]), [], f"{what}: validators of {f.name}", c.describe())
    mon.eq(list(m.struct_validators), [], f"{what}: validators", c.describe())
    if annotated:
        mon.eq(m.size_bytes, cls.get_size(), f"{what}: size", c.describe())
    mon.ev("metadata")


def plain(rng, mon, idx):
    """Metadata worked out for classes that aren't structures, but have fields."""
    g = Gen(rng, maxfields=5, inherit=0, styles=False, consts=0.2, defaults=0.2)
    s = g.struct(0)
    b = Builder()
    cls = b.cls(s)
    made, own = {}, Builder()
    for f in s.own:
        made[f.name] = own.field(f, made)
        if "compute" in f.o:
            made[f.name].computes(lambda field, values: 0)
    junk = {n: v for n, v in (("first", 1), ("other", lambda self: 1), ("prop", property(lambda self: 2))) if rng.random() < 0.5}
    ns = {**junk, **made, **({"Meta": type("Meta", (), {"argument_defaults": dict(s.meta)})} if s.meta else {})}
    if set(junk) & set(made):
        return
    want = cls.__binobj_struct__
    k = type("Plain", rng.choice([(), (object,), (dict,), (Exception,)]), ns)
    m = StructMetadata.from_class(k)
    what = f"metadata of a plain class with the fields of {s!r}"
    mon.check(not binobj.is_struct(k), f"{what}: it is a structure now")
    mon.eq((m.name, list(m.components), m.num_own_fields, m.get_size(), dict(m.argument_defaults)),
           ("Plain", list(want.components), want.num_own_fields, want.get_size(), dict(want.argument_defaults)), what)
    for n, x in m.components.items():
        y = want.components[n]
        mon.check(x is made[n], f"{what}: {n} is another field")
        mon.eq([getattr(x, a, None) for a in ("name", "index", "offset", "size", "endian", "encoding") if not isinstance(getattr(x, a, None), bf.Field)],
               [getattr(y, a, None) for a in ("name", "index", "offset", "size", "endian", "encoding") if not isinstance(getattr(y, a, None), bf.Field)],
               f"{what}: {n}")
    mon.ev("plain classes")
    mon.seen("plain", s.sig() if hasattr(s, "sig") else repr(s)[:200])


# ---------------------------------------------------------------- single fields

def singles(rng, mon, idx):
    """Fields declared directly: every argument is reported back, alone and bound."""
    size = rng.choice([1, 2, 3, 4, 8, 11])
    kinds = {
        "Integer": (bf.Integer, {"size": size, "signed": rng.random() < 0.5}),
        "UnsignedInteger": (bf.UnsignedInteger, {"size": size}),
        **{n: (getattr(bf, n), {}) for n in ("Int8", "Int16", "Int32", "Int64", "UInt8", "UInt16", "UInt32", "UInt64",
                                             "Float16", "Float32", "Float64")},
        "VariableLengthInteger": (bf.VariableLengthInteger, {"vli_format": rng.choice(list(VLI.values())),
                                                             "max_bytes": rng.choice([None, 1, 2, 7])}),
        "Timestamp": (bf.Timestamp, {"size": rng.choice([4, 6, 8, 12])}), "Timestamp32": (bf.Timestamp32, {}),
        "Timestamp64": (bf.Timestamp64, {}), "Bytes": (bf.Bytes, {"size": size}),
        "String": (bf.String, {"size": size, "encoding": rng.choice(["ascii", "utf-8", "cp1252"])}),
        "StringZ": (bf.StringZ, {"encoding": rng.choice(["ascii", "utf-16-le", "cp1252"])}),
        "UUID4": (bf.UUID4, {"stored_as": rng.choice(list(UUIDF.values()))}),
    }
    name = rng.choice(list(kinds))
    cls, kw = kinds[name]
    if "Time" in name:
        kw.update(resolution=rng.choice(list(UNITS)), tz_aware=rng.random() < 0.5, signed=rng.random() < 0.5)
    if any(w in name for w in ("Int", "Float", "Time")) and name != "VariableLengthInteger" and rng.random() < 0.6:
        kw["endian"] = rng.choice(["big", "little"])
    if name == "String" and rng.random() < 0.5:
        kw["pad_byte"] = rng.choice([b" ", b"\0"])
    fixed = {"Int8": 1, "UInt8": 1, "Int16": 2, "UInt16": 2, "Float16": 2, "Int32": 4, "UInt32": 4, "Float32": 4,
             "Timestamp32": 4, "Int64": 8, "UInt64": 8, "Float64": 8, "Timestamp64": 8, "UUID4": {
                 "v1": 16, "v2": 16, "canon": 36, "hex": 32}.get(UUID_NAMES.get(kw.get("stored_as")))}
    want = {"size": kw.get("size", fixed.get(name)), **kw}
    if name == "VariableLengthInteger":
        want["endian"], want["signed"] = VLI_REPORTS[VLI_NAMES[kw["vli_format"]]]
    elif "Int" in name and name != "Integer":
        want["signed"] = not name.startswith("U")
    common = {}
    if rng.random() < 0.3:
        common["discard"] = rng.random() < 0.5
    if rng.random() < 0.4:
        common["null_value"] = rng.choice([b"\xff", b"", b"\0\0"] + ([bf.DEFAULT] if want["size"] else []))
    if rng.random() < 0.3:
        common["not_present_value"] = rng.choice([None, bf.NOT_PRESENT, 5])
    calls = [0]
    if rng.random() < 0.4:
        val = rng.choice([0, 1, "", "a", b"", b"xyz", None])
        if rng.random() < 0.5:
            common["default"] = val
        else:
            def factory():
                calls[0] += 1
                return val

            common["factory"] = factory
    given_name = rng.random() < 0.2
    fld = cls(**kw, **common, **({"name": "f"} if given_name else {}))
    what = f"{name}({kw}, {common})"

    def look(when):
        for k, v in want.items():
            mon.check(getattr(fld, k) == v and type(getattr(fld, k)) is type(v), f"{what} {when}: {k} is {getattr(fld, k)!r}, want {v!r}")
        null = common.get("null_value", bf.UNDEFINED)
        mon.check(fld.allow_null is (null is not bf.UNDEFINED) and fld.null_value is null,
                  f"{what} {when}: nullable {fld.allow_null}, null {fld.null_value!r}")
        mon.check(fld.discard is common.get("discard", False), f"{what} {when}: discard {fld.discard}")
        mon.check(fld.not_present_value is common.get("not_present_value", bf.NOT_PRESENT), f"{what} {when}: stand-in {fld.not_present_value!r}")
        mon.check(fld.const is bf.UNDEFINED, f"{what} {when}: const {fld.const!r}")
        has = "default" in common or "factory" in common
        mon.check(fld.default is (val if has else bf.UNDEFINED), f"{what} {when}: default {fld.default!r}")
        mon.check(fld.required is not has, f"{what} {when}: required {fld.required}")
        mon.check(fld.has_fixed_size is (want["size"] is not None), f"{what} {when}: fixed {fld.has_fixed_size}, size {fld.size!r}")
        mon.check(fld.is_computed_field is False, f"{what} {when}: computed")
        if want["size"] is not None:
            mon.check(fld.get_expected_size({}) == want["size"], f"{what} {when}: expected size {fld.get_expected_size({})}")
        mon.check(not binobj.is_struct(fld), f"{what}: is_struct")
        mon.check(fld.name == ("f" if given_name or when != "alone" else None), f"{what} {when}: name {fld.name!r}")
        mon.ev("reports")

    look("alone")
    k = rng.randint(0, 3)
    ns = {f"x{i}": bf.UInt8() for i in range(k)}
    kls = type("K", (binobj.Struct,), {**ns, "f": fld})
    # What's not given in the field itself may come from the structure.
    import sys

    if hasattr(fld, "endian") and "endian" not in kw and "vli_format" not in kw:
        want["endian"] = sys.byteorder
    look("bound")
    mon.check(kls.f is fld and fld.index == k and fld.offset == k, f"{what}: index {fld.index}, offset {fld.offset}")
    kls(**{n: 1 for n in ns})
    for data in (b"", b"\xff" * 40, rng.randbytes(40)):
        outcome(kls.from_bytes, data, None, False)
        outcome(fld.from_bytes, data, None, False)
    for v in (None, 0, -1, 1 << 65, "a", "é" * 30, b"x", b"x" * 40, 1.5):
        outcome(fld.to_bytes, v)
        outcome(lambda: kls(**{n: 1 for n in ns}, f=v).to_bytes())
    look("used")

    @fld.computes
    def fn(field, values):
        return 0

    mon.check(fld.is_computed_field is True, f"{what}: not computed")
    mon.check(outcome(fld.computes, fn)[0] == "err", f"{what}: computed twice")
    mon.seen("single", name, tuple(sorted((k, str(v)[:9]) for k, v in common.items())))


def constants(rng, mon, idx):
    """The size reported for a constant is the size it takes up, and it's the default."""
    enc = rng.choice(["ascii", "utf-8", "utf-16-le", "utf-16-be", "cp500", "utf-32-le"])
    text = "".join(rng.choice("abz0 ") for _ in range(rng.randint(0, 5)))
    kind = rng.choice(["bytes", "str", "strz", "int", "vli", "float", "uuid"])
    fld, const = {
        "bytes": lambda v: (bf.Bytes(const=v), v),
        "str": lambda v: (bf.String(const=text, encoding=enc), text),
        "strz": lambda v: (bf.StringZ(const=text, encoding=enc), text),
        "int": lambda v: (bf.Integer(size=rng.choice([1, 3, 8]), endian="big", const=5), 5),
        "vli": lambda v: (bf.VariableLengthInteger(vli_format=rng.choice(list(VLI.values())), const=300), 300),
        "float": lambda v: (bf.Float32(const=1.5), 1.5),
        "uuid": lambda v: (bf.UUID4(const=(u := __import__("uuid").UUID(bytes=rng.randbytes(16), version=4)),
                                    stored_as=rng.choice(list(UUIDF.values()))), u)}[kind](rng.randbytes(rng.randint(0, 6)))
    cls = type("K", (binobj.Struct,), {"f": fld, "g": bf.UInt8(default=7)})
    data = cls().to_bytes()
    what = f"{kind} constant {const!r} ({enc})"
    mon.check(fld.const == const and fld.default == const and fld.required is False, f"{what}: const {fld.const!r}, default "
              f"{fld.default!r}, required {fld.required}")
    mon.check(cls().f == const and len(cls()) == len(data), f"{what}: {cls().f!r}, {len(cls())}, {data!r}")
    if fld.size is not None:
        # (variable-length integers may have other encodings on load)
        want = {(fld.size, len(data)), (None, None)} if kind == "vli" else {(fld.size, len(data))}
        mon.check(fld.size == len(data) - 1 and (cls.g.offset, cls.get_size()) in want,
                  f"{what}: size {fld.size}, offset behind {cls.g.offset}, total {cls.get_size()}, dumped {data!r}")
        mon.ev("constant sizes")
    elif kind in ("bytes", "str", "int", "float", "uuid"):
        mon.check(False, f"{what}: no size reported, dumped {data!r}")
    mon.check(fld.get_expected_size({}) == len(data) - 1, f"{what}: expected size {fld.get_expected_size({})}, dumped {data!r}")
    k, e = outcome(setattr, cls(), "f", const)
    mon.check(isinstance(e, errors.ImmutableFieldError), f"{what}: assignment gave {e!r}")
    mon.ev("constants")
    mon.seen("const", kind, const, enc)


def things(rng, mon, idx):
    """is_struct tells structures from everything else."""
    class P(binobj.Struct):
        x = bf.UInt8()

    class Q(P):
        pass

    @binobj.dataclass
    class R(binobj.Struct):
        y: bf.UInt8

    for yes in (P, Q, R, P(), P(x=1), R(y=2), Q.from_bytes(b"a")):
        mon.check(binobj.is_struct(yes) is True, f"is_struct({yes!r}) is {binobj.is_struct(yes)!r}")
    for no in (None, 1, "x", {}, [], object, object(), P.x, bf.UInt8, bf.Nested(P), binobj, type, P().to_bytes,
               binobj.StructMappingProxy(P(x=1)), struct.Struct("B")):
        mon.check(binobj.is_struct(no) is False, f"is_struct({no!r}) is {binobj.is_struct(no)!r}")
    mon.ev("things", 20)
    mon.seen("things")


SCENARIOS = [
    Scenario("structs", structs, 5000),
    Scenario("singles", singles, 3000),
    Scenario("constants", constants, 800),
    Scenario("plain", plain, 800),
    Scenario("things", things, 8, 8),
]
