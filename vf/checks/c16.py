"""C16: all declaration styles define the same structure."""
import copy
import datetime
import sys
import typing
import warnings
import zlib

import binobj
from binobj import decorators, errors
from binobj import fields as bf

from .. import ref
from ..build import Builder, Ctx
from ..core import Scenario
from ..spec import F, S
from ..util import Case, budget, compare_load, expect_error, mutate_bytes, outcome, short, snapshot

PROPERTY = "C16"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: the same fields are declared in every style, split over chains of subclasses and with "
             "defaults written out or inherited; all resulting classes are run side by side on the same values and bytes "
             "and compared with each other and with a reference codec; parents and siblings are compared before and after "
             "subclasses are declared and used")
LEVEL_NOTE = "declarations, splits, values and bytes are sampled"
RULE = ("an evaluation is one generated declaration built in several styles; distinct ones differ in its field kinds, in "
        "the styles used, and in where it is split")
ASSUMPTIONS = ["validators in generated declarations are deterministic functions of the field's name and value"]
FLOORS = {"factories in the class body": 400, "options given twice": 1500, "classes compared": 4800, "contradictions refused": 1600, "defaults for user-defined types": 800,
          "defaults written out": 2400, "dumps compared": 14000, "families": 800, "inputs accepted": 5800,
          "inputs refused": 5000, "layouts compared": 3600, "loads compared": 14000, "refused by validators": 370,
          "relatives unaffected": 8000}

STYLES = ["assign", "pep526", "annotated"]


# ---------------------------------------------------------------- variations of a declaration

def explicit_field(f):
    """The field with the structure's defaults written into it."""
    p = {k: v for k, v in f.p.items() if k not in ("endian_default", "enc_default", "short")}
    return F(f.kind, f.name, p, dict(f.o))


def variation(rng, s, mon):
    """The same structure declared in another way."""
    fs = list(s.fields)
    if s.base is None and rng.random() < 0.5:
        # Same fields with the same defaults, possibly split; the defaults are inherited or repeated.
        fs = [F(f.kind, f.name, {k: v for k, v in f.p.items() if k != "short" or rng.random() < 0.5}, dict(f.o)) for f in fs]
        meta = s.meta
    else:
        fs = [explicit_field(f) for f in fs]
        mon.ev("defaults written out")
        meta = {}
        if rng.random() < 0.6:  # defaults nobody is subject to
            meta["endian"] = rng.choice(["big", "little"])
            meta["encoding"] = rng.choice(["utf-16", "cp500", "ascii"])
            meta["UInt16__endian"] = rng.choice(["big", "little"])
    fs = [nested_variation(rng, f, mon) for f in fs]
    cuts = sorted(rng.sample(range(len(fs) + 1), min(len(fs) + 1, rng.choice([0, 0, 1, 1, 2]))))
    parts, at = [], 0
    for c in [*cuts, len(fs)]:
        parts.append(fs[at:c])
        at = c
    base = None
    for i, own in enumerate(parts):
        if not own and i < len(parts) - 1 and rng.random() < 0.5:
            continue
        style = rng.choice(STYLES) if own else "assign"
        m = dict(meta) if base is None or rng.random() < 0.5 else {}
        name = s.name if i == len(parts) - 1 else f"{s.name}P{i}"
        base = S(name, own, base, style, m)
    return base


def nested_variation(rng, f, mon):
    if f.kind == "nest" and rng.random() < 0.6:
        f.p = dict(f.p, struct=variation(rng, f.p["struct"], mon))
    elif f.kind == "arr":
        c = copy.copy(f.p["comp"])
        c.p, c.o = dict(c.p), dict(c.o)
        f.p = dict(f.p, comp=nested_variation(rng, c, mon))
    return f


def bad_value(name, value):
    return zlib.crc32(repr((name, value if not isinstance(value, (dict, list, binobj.Struct)) else None)).encode(
        "utf-8", "backslashreplace")) % 9 == 0


class Validate(Ctx):
    """Validators on fields chosen by name, attached to the field, to its class or to a subclass."""

    def __init__(self, rng, chosen):
        self.rng = rng
        self.chosen = chosen
        self.later = []

    def check(self, name, value):
        if bad_value(name, value):
            raise errors.ValidationError(f"{name} refused", field=name, value=value)

    def validators(self, f):
        if f.name not in self.chosen:
            return ()
        if self.rng.random() < 0.4:
            return (lambda field, value: self.check(f.name, value),)
        self.later.append(f.name)
        return ()

    def struct_ns(self, s, ns, fields):
        mine = [n for n in self.later if any(f.name == n for f in s.fields)]
        for n in mine:
            if self.rng.random() < 0.5 or s.name.find("P") < 0:
                self.later.remove(n)
                ns["check_" + n] = self.method(n)

    def method(self, n):
        @decorators.validates(n)
        def check(inst, field, value):
            self.check(n, value)

        return check


def styles(rng, mon, idx):
    chosen = set()
    c = Case(rng, mon, np=0.4, maxfields=6, meta=0.6, inherit=0.2, build=False, styles=rng.random() < 0.5)
    if rng.random() < 0.5:
        chosen = {f.name for f in c.s.fields if "np" not in f.o and "present" not in f.o and rng.random() < 0.4}
    variants = []
    for i in range(4):
        s = c.s if i == 0 else variation(rng, c.s, mon)
        b = Builder(Validate(rng, chosen))
        k, cls = outcome(b.cls, s)
        mon.check(k == "ok", f"declaring it as {s!r} failed: {short(cls)}", c.describe())
        if k == "ok" and b.hooks.later:  # validators that haven't found a place
            ns = {"check_" + n: b.hooks.method(n) for n in b.hooks.later}
            cls = type(cls.__name__, (cls,), ns)
        variants.append((s, b, cls))
        mon.ev("classes compared")
    for s, b, cls in variants[1:]:
        layout(mon, c, variants[0], (s, b, cls))
    # The same values and bytes through all of them.
    runs = [c]
    for _ in range(2):
        try:
            m = c.more()
        except Exception:  # noqa: BLE001 - the generator gave up
            break
        runs.append(m)
    for m in runs:
        for s, b, cls in variants:
            k, inst = outcome(lambda: cls(**b.kwargs(s, m.given)))
            mon.check(k == "ok", f"{s!r}: construction failed: {short(inst)}", m.describe())
            k, got = outcome(inst.to_bytes, m.ctx)
            if not chosen:
                mon.check(k == "ok" and got == m.data, f"{s!r}: dump gave {short(got)}, want {m.data.hex()}", m.describe())
            first = (k, got) if s is c.s else first
            mon.check((k, got) == first if k == "ok" else first[0] == "err" and same_error(chosen, got, first[1]),
                      f"{s!r}: dump gave {short(got)}, want {short(first[1])} as {variants[0][0]!r}", m.describe())
            if k == "err":
                mon.ev("refused by validators")
            mon.ev("dumps compared")
        data = m.data if rng.random() < 0.5 else mutate_bytes(rng, m.data)
        want = m.decoded(data)
        if budget(want):
            continue
        for s, b, cls in variants:
            k, got = outcome(cls.from_bytes, data, m.ctx, False)
            if not chosen:
                compare_load(mon, m, want, (k, got), f"{s!r}: load of {data.hex()}")
            if s is c.s:
                firstl = k, (snap(got) if k == "ok" else got), got
            elif k == "ok":
                mon.check(firstl[0] == "ok" and snap(got) == firstl[1],
                          f"{s!r}: load of {data.hex()} gave {short(got)}, want {short(firstl[2])}", m.describe())
            else:
                mon.check(firstl[0] == "err" and same_error(chosen, got, firstl[2]),
                          f"{s!r}: load of {data.hex()} failed with {short(got)}, want {short(firstl[2])}", m.describe())
                mon.ev("refused by validators" if chosen else "inputs refused")
            mon.ev("loads compared")
    mon.seen([f.kind for f in c.s.fields], [chain(v[0]) for v in variants], bool(chosen))


def chain(s):
    out = []
    while s:
        out.append((s.style, len(s.own)))
        s = s.base
    return out


def same_error(chosen, a, b):
    """Where validators are attached decides which of several causes comes first, so only one cause can be compared."""
    if chosen and (isinstance(a, errors.ValidationError) or isinstance(b, errors.ValidationError)):
        return True
    name = lambda e: getattr(getattr(e, "field", None), "name", getattr(e, "field", None))  # noqa: E731
    return type(a) is type(b) and name(a) == name(b)


def snap(inst):
    """What was loaded, without the class names, which differ."""
    def conv(v):
        if isinstance(v, binobj.Struct):
            return {k: conv(v[k]) for k in v}
        if isinstance(v, (list, tuple)):
            return [conv(x) for x in v]
        return snapshot(v)

    return conv(inst)


ATTRS = ["name", "index", "offset", "discard", "signed", "max_bytes", "vli_format", "pad_byte", "stored_as", "tz_aware",
         "has_fixed_size", "has_static_size"]


def layout(mon, c, a, b):
    """Order, offsets, sizes and options of the fields."""
    (s1, _, c1), (s2, _, c2) = a, b
    f1, f2 = c1.__binobj_struct__.components, c2.__binobj_struct__.components
    mon.eq(list(f1), [f.name for f in s1.fields], "field names", c.describe())
    mon.eq(list(f2), list(f1), f"field names as {s2!r}", c.describe())
    mon.eq(c2.get_size(), c1.get_size(), f"size of the structure as {s2!r}", c.describe())
    for x, y in zip(f1.values(), f2.values()):
        mon.check(type(x) is type(y), f"{y} as {s2!r} is a {type(y)}, want {type(x)}", c.describe())
        for at in ATTRS:
            mon.check(getattr(x, at, 0) == getattr(y, at, 0),
                      f"{at} of {x.name} is {getattr(y, at, 0)!r} as {s2!r}, want {getattr(x, at, 0)!r}", c.describe())
        if x.has_static_size:
            mon.eq(y.size, x.size, f"size of {x.name} as {s2!r}", c.describe())
        mon.check(getattr(c2, y.name) is y, f"{s2!r}: attribute {y.name} of the class isn't the field")
        for cls, z in ((c1, x), (c2, y)):
            mon.check(vars(getattr(z, "__objclass__", object)).get(z.name) is z and issubclass(cls, z.__objclass__),
                      f"{z.name} as {s2!r} is said to belong to {getattr(z, '__objclass__', None)}")
    mon.ev("layouts compared")


# ---------------------------------------------------------------- relatives

def picture(mon, cls, b, s, m, data):
    """Everything observable about a class."""
    def use(fn):
        k, v = outcome(fn)
        if k == "err":
            return k, type(v).__name__, getattr(getattr(v, "field", None), "name", getattr(v, "field", None))
        return k, snap(v) if isinstance(v, (binobj.Struct, list)) else snapshot(v)

    meta = cls.__binobj_struct__
    out = [
        [(n, id(f), f.name, f.index, f.offset, f.const is bf.UNDEFINED, getattr(f, "endian", None),
          getattr(f, "encoding", None), len(f.validators), id(f.__objclass__)) for n, f in meta.components.items()],
        {n: len(v) for n, v in meta.field_validators.items()}, len(meta.struct_validators), dict(meta.argument_defaults),
        meta.num_own_fields, cls.get_size(), meta.name,
        use(lambda: cls(**b.kwargs(s, m.given)).to_bytes(m.ctx)), use(lambda: cls.from_bytes(data, m.ctx, False)),
        use(lambda: cls.from_bytes(m.data, m.ctx)), use(lambda: len(cls(**b.kwargs(s, m.given)))),
        use(lambda: set(cls.__dict__) - {"__slotnames__", "__doc__"}),
    ]
    mon.ev("relatives unaffected")
    return out


def refuse(*names):
    def check(self, field, value):
        raise errors.ValidationError("subclass refuses everything", field=field, value=value)

    def whole(self, struct):
        raise errors.ValidationError("subclass refuses everything", field=None, value=None)

    return decorators.validates(*names)(check) if names else decorators.validates_struct(whole)


def family(rng, mon, idx):
    """A parent with several subclasses, each with its own defaults and validators."""
    c = Case(rng, mon, maxfields=4, meta=0.5, inherit=0.3, ctx=None)
    b, s = c.b, c.s
    data = mutate_bytes(rng, c.data)
    if budget(c.decoded(data)):
        data = c.data
    other = Case(rng, None, maxfields=3)
    cls = c.cls
    parent = picture(mon, cls, b, s, c, data)
    kids = []
    for i in range(3):
        x = rng.randrange(4)
        ns = {"__module__": __name__}
        if rng.random() < 0.6:
            ns["Meta"] = type("Meta", (), {"argument_defaults": {
                "endian": rng.choice(["big", "little"]), "encoding": rng.choice(["utf-16", "cp500"]), "discard": True}})
        own = [F(f.kind, f"k{i}{f.name}", dict(f.p), {k: v for k, v in f.o.items() if k == "const"})
               for f in other.s.fields if f.kind in ("int", "float", "uuid", "vli")]
        if x == 0:
            own = []
        names = [f.name for f in s.fields]
        if rng.random() < 0.5:
            ns["check_all"] = refuse(*rng.sample(names, rng.randint(1, len(names))))
            if rng.random() < 0.3:
                ns["check_whole"] = refuse()
        style = rng.choice(STYLES) if own else "assign"
        flds = {f.name: b.field(f, {}) for f in own}
        if style == "assign":
            ns.update(flds)
        else:
            ns["__annotations__"] = {n: v if style == "pep526" else typing.Annotated[int, v] for n, v in flds.items()}
        k, kid = outcome(lambda: type(f"Kid{i}", (cls,), ns))
        mon.check(k == "ok", f"declaring a subclass of {s!r} failed: {short(kid)}")
        if style != "assign":
            k, kid = outcome(binobj.dataclass, kid)
            mon.check(k == "ok", f"declaring a subclass of {s!r} failed: {short(kid)}")
        mon.eq(list(kid.__binobj_struct__.components), names + list(flds), f"fields of a subclass of {s!r}")
        # use it
        kv = {f.name: b.value(f, other.full[f.name[2:]]) for f in own if f.name[2:] in other.full
              and "const" not in f.o}
        outcome(lambda: kid(**b.kwargs(s, c.given), **kv).to_bytes(c.ctx))
        outcome(kid.from_bytes, c.data + b"\0" * 64, c.ctx, False)
        now = picture(mon, cls, b, s, c, data)
        mon.check(now == parent, f"declaring and using a subclass {ns!r} changed its parent {s!r}",
                  [(x, y) for x, y in zip(parent, now) if x != y])
        for n, (k2, p2) in kids:
            mon.check(picture(mon, k2, b, s, c, data) == p2, f"subclass {n} of {s!r} changed by declaring its sibling {ns!r}")
        kids.append((i, (kid, picture(mon, kid, b, s, c, data))))
    mon.ev("families")
    mon.seen([f.kind for f in s.fields], [f.kind for f in other.s.fields])


# ---------------------------------------------------------------- defaults for types of one's own

class Outer:
    class Big(bf.UInt16):
        pass

    class Deep:
        class Text(bf.StringZ):
            pass


def own_type(rng, base, name):
    """A field class of the user's, defined anywhere."""
    x = rng.randrange(4)
    if x == 0:
        return type(name, (base,), {})
    if x == 1:
        class Local(base):
            pass

        Local.__name__ = name
        return Local
    if x == 2:
        t = type(name, (base,), {"__qualname__": f"Some.Where.{name}"})
        return t
    mid = type("Mid" + name, (base,), {})
    return type(name, (mid,), {"__qualname__": f"f.<locals>.{name}"})


def typed(rng, mon, idx):
    """Defaults by type name for fields of user-defined types, next to written-out arguments."""
    ends, encs = ["big", "little"], ["utf-16-le", "utf-16-be", "cp500", "utf-8"]
    bases = [(bf.UInt16, "endian"), (bf.Int32, "endian"), (bf.Float32, "endian"), (bf.Timestamp32, "endian"),
             (bf.StringZ, "encoding"), (bf.Float64, "endian")]
    defaults, plain, written, values, kinds = {}, {}, {}, {}, {}
    if rng.random() < 0.5:
        defaults["endian"] = rng.choice(ends)
    if rng.random() < 0.5:
        defaults["encoding"] = rng.choice(encs)
    for i in range(rng.randint(1, 4)):
        base, arg = rng.choice(bases)
        if i and rng.random() < 0.3:
            T, arg = last
        else:
            T = rng.choice([Outer.Big, Outer.Deep.Text]) if rng.random() < 0.2 else own_type(rng, base, f"Mine{i}")
            arg = "encoding" if issubclass(T, bf.StringZ) else "endian"
        last = T, arg
        opts = ends if arg == "endian" else encs
        key = f"{T.__name__}__{arg}"
        if key not in defaults and rng.random() < 0.7:
            defaults[key] = rng.choice(opts)
        kw = {arg: rng.choice(opts)} if rng.random() < 0.25 else {}
        plain[f"f{i}"] = T(**kw)
        kinds[f"f{i}"] = T, arg, key, kw
        values[f"f{i}"] = ("ab\u00e9" if arg == "encoding" else 0.1 if issubclass(T, (bf.Float32, bf.Float64)) else
                           datetime.datetime(2001, 2, 3) if issubclass(T, bf.Timestamp32) else rng.getrandbits(15))
    if rng.random() < 0.3:  # a name that's nobody's
        defaults[rng.choice(["Mine9", "Big2", "Outer.Big"]) + "__endian"] = rng.choice(ends)
    for n, (T, arg, key, kw) in kinds.items():
        fallback = {"endian": sys.byteorder, "encoding": "iso-8859-1"}[arg]
        written[n] = T(**{arg: kw.get(arg) or defaults.get(key) or defaults.get(arg) or fallback})
    st1, st2 = rng.choice(STYLES), rng.choice(STYLES)
    meta = type("Meta", (), {"argument_defaults": dict(defaults)})
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if rng.random() < 0.4 and len(plain) > 1:  # split; the parent's defaults also hold for what's added
            first = next(iter(plain))
            A = declare(rng, st1, "A", (binobj.Struct,), {first: plain[first]}, Meta=meta)
            A = declare(rng, st1, "A2", (A,), {k: v for k, v in plain.items() if k != first})
        else:
            A = declare(rng, st1, "A", (binobj.Struct,), plain, Meta=meta)
        B = declare(rng, st2, "B", (binobj.Struct,), written)
    what = f"defaults {defaults!r} for {[(k, type(v).__qualname__, sorted(v.__explicit_init_args__)) for k, v in plain.items()]}"
    ka, a = outcome(A(**values).to_bytes)
    kb, b = outcome(B(**values).to_bytes)
    mon.check(ka == kb == "ok" and a == b, f"{what}: dumped {short(a)}, with the arguments written out {short(b)}")
    for d in (b, bytes(reversed(b)), mutate_bytes(rng, b)):
        (ka, x), (kb, y) = outcome(A.from_bytes, d, None, False), outcome(B.from_bytes, d, None, False)
        mon.check(ka == kb and (ka == "err" and type(x) is type(y) or ka == "ok" and snap(x) == snap(y)),
                  f"{what}: {d.hex()} loaded as {short(x)}, with the arguments written out {short(y)}")
    mon.ev("defaults for user-defined types")
    mon.seen("typed", what)


# ---------------------------------------------------------------- what is said twice

def doubled(rng, mon, idx):
    """Defaults and null given by the field, the class body, the annotation, or several of them."""
    kinds = {
        "u8": (bf.UInt8, {}, lambda: rng.randrange(256)), "i16": (bf.Int16, {"endian": "big"}, lambda: rng.randrange(-32768, 32768)),
        "u24": (bf.UnsignedInteger, {"size": 3, "endian": "little"}, lambda: rng.getrandbits(24)),
        "f32": (bf.Float32, {"endian": "big"}, lambda: rng.randrange(-99, 99) / 4),
        "str": (bf.String, {"size": 3, "encoding": "ascii"}, lambda: "".join(rng.choice("abc") for _ in range(3))),
        "strz": (bf.StringZ, {}, lambda: "x" * rng.randrange(4)), "bytes": (bf.Bytes, {"size": 2}, lambda: rng.randbytes(2)),
    }
    own, ann, body, written, values = {}, {}, {}, {}, {}
    style = rng.choice(["pep526", "annotated"])
    text = []
    for i in range(rng.randint(1, 4)):
        n = f"f{i}"
        k = rng.choice(sorted(kinds))
        T, args, value = kinds[k]
        opts = {}
        null = rng.choice(["no", "no", "raw", "value", "zero"])
        size = args.get("size") or {"u8": 1, "i16": 2, "f32": 4}.get(k, 1)
        if null != "no":
            opts["null_value"] = {"raw": rng.randbytes(rng.choice([size, size, 2])), "value": value(), "zero": bf.DEFAULT}[null]
        optional = rng.random() < 0.5
        if k == "strz" and (null == "zero" or null == "no" and optional):
            null, optional = "no", False
            opts.pop("null_value", None)
        x = rng.random()
        if x < 0.3:
            opts["default"] = value()
        elif x < 0.45:
            v = value()
            opts["factory"] = lambda v=v: v
        nullable = null != "no" or optional
        bare = not opts and not args and rng.random() < 0.7
        full = dict(args, **opts)
        if rng.random() < 0.5:
            body[n] = rng.choice([None, value()]) if nullable else value()
            full.pop("factory", None)
            full["default"] = body[n]
            if rng.random() < 0.2:  # functions in the class body still count as factories
                v = full.pop("default")
                body[n] = full["factory"] = lambda v=v: v
                full.pop("default", None)
                mon.ev("factories in the class body")
        if optional and null == "no":
            full["null_value"] = bf.DEFAULT
        a = T if bare else T(**args, **opts)
        if optional:
            a = rng.choice([lambda: typing.Optional[a], lambda: typing.Union[None, a]])()
        ann[n] = a if style == "pep526" else typing.Annotated[object, a]
        written[n] = T(**full)
        values[n] = value, nullable
        text.append(f"{n}: {'Optional ' * optional}{T.__name__}{'' if bare else opts}{' = ' + repr(body[n]) if n in body else ''}")
    what = f"{style}({'; '.join(text)})"
    k, A = outcome(lambda: binobj.dataclass(type("A", (binobj.Struct,), {"__annotations__": ann, "__module__": __name__, **body})))
    mon.check(k == "ok", f"declaring {what} failed: {short(A)}")
    B = type("B", (binobj.Struct,), dict(written, __module__=__name__))
    mon.eq(A.get_size(), B.get_size(), f"size of {what}")
    for n in ann:
        x, y = getattr(A, n), getattr(B, n)
        for at in ("default", "required", "allow_null", "null_value", "size", "offset", "index"):
            mon.check(snapshot(getattr(x, at)) == snapshot(getattr(y, at)),
                      f"{at} of {n} in {what} is {getattr(x, at)!r}, written out {getattr(y, at)!r}")
    for _ in range(5):
        kw = {}
        for n, (value, nullable) in values.items():
            x = rng.random()
            if x < 0.5:
                kw[n] = None if x < 0.2 else value()
        (ka, a), (kb, b) = outcome(lambda: A(**kw).to_bytes()), outcome(lambda: B(**kw).to_bytes())
        mon.check(ka == kb and (a == b if ka == "ok" else type(a) is type(b)),
                  f"{what}: dump of {kw!r} gave {short(a)}, with everything written out {short(b)}")
        data = mutate_bytes(rng, b) if kb == "ok" and rng.random() < 0.5 else b if kb == "ok" else rng.randbytes(8)
        (ka, x), (kb, y) = outcome(A.from_bytes, data, None, False), outcome(B.from_bytes, data, None, False)
        mon.check(ka == kb and (type(x) is type(y) if ka == "err" else snap(x) == snap(y)),
                  f"{what}: {data.hex()} loaded as {short(x)}, with everything written out {short(y)}")
    mon.ev("options given twice")
    mon.seen("doubled", what)


# ---------------------------------------------------------------- contradictions

def declare(rng, style, name, bases, fields, **more):
    ns = dict(more, __module__=__name__)
    if style == "assign":
        ns.update(fields)
        return type(name, bases, ns)
    ns["__annotations__"] = {
        n: v if style == "pep526" or isinstance(v, type) and issubclass(v, binobj.Struct) else typing.Annotated[int, v]
        for n, v in fields.items()}
    return binobj.dataclass(type(name, bases, ns))


LEAVES = [lambda: bf.UInt8(), lambda: bf.Int32(endian="big"), lambda: bf.StringZ(), lambda: bf.Bytes(size=3),
          lambda: bf.Array(bf.UInt8(), count=2), lambda: bf.Float32(), lambda: bf.UUID4()]


def contradiction(rng, mon, idx):
    """Declarations that can't be meant are refused, whatever else is in the class."""
    st, st2 = rng.choice(STYLES), rng.choice(STYLES)
    names = ["a", "b", "c", "d"]
    parent = declare(rng, st, "Parent", (binobj.Struct,), {n: rng.choice(LEAVES)() for n in names[:rng.randint(1, 3)]})
    pnames = list(parent.__binobj_struct__.components)
    before = [(n, id(f)) for n, f in parent.__binobj_struct__.components.items()]
    mk = rng.choice(LEAVES)
    kind = rng.choice(["redefined", "redefined", "deep", "two parents", "mixed", "two annotations", "union", "empty",
                       "default+factory", "const+compute", "two computes", "endian", "pad", "resolution", "count",
                       "field name", "choices", "validates"])
    conf = errors.ConfigurationError
    extra = {n: rng.choice(LEAVES)() for n in ("y", "z")[:rng.randrange(3)]}
    fld = lambda f: (lambda: declare(rng, st2, "X", (binobj.Struct,), {**extra, "x": f()}))  # noqa: E731
    if kind == "redefined":
        fields = {**extra, rng.choice(pnames): mk()}
        fn, err = lambda: declare(rng, st2, "Kid", (parent,), fields), errors.FieldRedefinedError
    elif kind == "deep":
        mid = declare(rng, st, "Mid", (parent,), {"m": mk()})
        fn = lambda: declare(rng, st2, "Kid", (mid,), {rng.choice([*pnames, "m"]): mk()})  # noqa: E731
        err = errors.FieldRedefinedError
    elif kind == "two parents":
        p2 = declare(rng, st2, "Parent2", (binobj.Struct,), {"q": mk()})
        fn, err = lambda: type("Kid", (parent, p2), {}), errors.MultipleInheritanceError
    elif kind == "mixed":
        def fn():
            return binobj.dataclass(type("Mixed", (rng.choice([parent, binobj.Struct]),), {
                "__annotations__": {"x": mk()}, "w": mk(), "__module__": __name__}))

        err = errors.MixedDeclarationsError
    elif kind == "two annotations":
        def fn():
            return binobj.dataclass(type("Two", (binobj.Struct,), {
                "__annotations__": {**extra, "x": typing.Annotated[int, mk(), bf.UInt8]}, "__module__": __name__}))

        err = conf
    elif kind == "union":
        def fn():
            return binobj.dataclass(type("Un", (binobj.Struct,), {
                "__annotations__": {**extra, "x": rng.choice([typing.Union[bf.UInt8, bf.UInt16], bf.UInt8 | bf.UInt16])}, "__module__": __name__}))

        err = errors.InvalidTypeAnnotationError
    elif kind == "empty":
        def fn():
            return binobj.dataclass(type("E", (binobj.Struct,), {
                "__annotations__": rng.choice([{}, {"x": int}, {"x": typing.ClassVar[int]}]), "__module__": __name__}))

        err = errors.NoDefinedFieldsError
    elif kind == "default+factory":
        fn, err = fld(lambda: bf.UInt8(default=1, factory=lambda: 2)), conf
    elif kind == "const+compute":
        fn, err = fld(lambda: computing(bf.UInt8(const=1))), conf
    elif kind == "two computes":
        fn, err = fld(lambda: computing(computing(bf.UInt8()))), conf
    elif kind == "endian":
        fn, err = fld(lambda: rng.choice([bf.Float16, bf.Float32, bf.Float64])(
            endian=rng.choice(["middle", "BIG", 1]))), conf
    elif kind == "pad":
        fn, err = fld(lambda: rng.choice([bf.String, bf.StringZ])(
            size=4, pad_byte=rng.choice([b"", b"xx", "x", 0]))), conf
    elif kind == "resolution":
        fn, err = fld(lambda: bf.Timestamp64(resolution=rng.choice(["", "h", "m", None, 3]))), conf
    elif kind == "count":
        fn, err = fld(lambda: bf.Array(mk(), count=rng.choice([1.5, b"n", [3], object()]))), TypeError
    elif kind == "field name":
        fn, err = fld(lambda: rng.choice([bf.UInt8, bf.StringZ, bf.UUID4])(name="other")), (conf, RuntimeError)
    elif kind == "choices":
        fn = fld(lambda: bf.Union(bf.UInt8(), rng.choice([bf.UInt16, bf.StringZ]), load_decider=None, dump_decider=None))
        err = conf
    else:
        bad = rng.choice([(), (lambda s, f, v: None,), (bf.UInt8(),), ("a", 3)])
        fn, err = lambda: decorators.validates(*bad), TypeError
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        expect_error(mon, fn, f"contradictory declaration ({kind}, {st}, {st2})", kind=err)
        mon.eq([(n, id(f)) for n, f in parent.__binobj_struct__.components.items()], before,
               f"a refused declaration ({kind}) changed the parent")
        ok = declare(rng, st2, "Fine", (parent,), {"x": mk(), "y": mk()})
    mon.eq(list(ok.__binobj_struct__.components), [*pnames, "x", "y"], "fields of a subclass declared afterwards")
    mon.ev("contradictions refused")
    mon.seen(kind, st, st2)


def computing(f):
    f.computes(lambda field, af: 1)
    return f


SCENARIOS = [
    Scenario("styles", styles, 3000),
    Scenario("family", family, 2000),
    Scenario("typed", typed, 2000),
    Scenario("doubled", doubled, 2500),
    Scenario("contradiction", contradiction, 4000),
]
_ = ref
