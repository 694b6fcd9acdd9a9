"""C25: failures are reported with the right kind of error about the right field."""
import io
import typing

import binobj
from binobj import errors
from binobj import fields as bf

from .. import ref
from ..bad import bad_leaf, corrupt
from ..core import Scenario
from ..gen import refs_of
from ..spec import ABSENT, S, walk
from ..streams import RecStream
from ..util import Case, budget, mutate_bytes, outcome, plain, short
from .c05 import cuts_of, text_null
from .c06 import refusal

PROPERTY = "C25"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring with single injected causes: one bad value, cut, extra byte, wrong name, failed validator or "
             "contradiction in the declaration at a time; the kind of the error and what it blames are judged by the cause")
LEVEL_NOTE = "all documented causes are enumerated; where they are planted, the declarations and the values are sampled"
RULE = ("an evaluation is one declaration with one or more separately injected causes; distinct ones differ in the cause, the "
        "kind of the blamed field, the nesting depth and the declaration")
ASSUMPTIONS = ["within an array or union, what is blamed may also be the nameless element or alternative",
               "on loading, the outermost field that contains the problem is the one to blame"]
FLOORS = {"assignments to immutable fields": 2600, "assignments to immutable fields with validators": 97,
          "bad values: count": 190, "bad values: count of an iterator": 100, "bad values: missing": 2100,
          "bad values: nul": 210, "bad values: null": 7100, "bad values: range": 3700, "bad values: size": 1000,
          "exact places of truncation": 16000, "failed validators": 900, "leftovers of fields": 1600,
          "leftovers of structures": 2200, "missing values": 6000, "other values for constants": 2000,
          "stand-alone values: nul": 450, "stand-alone values: null": 1600, "stand-alone values: range": 5300,
          "stand-alone values: size": 1100, "truncations reported": 36000, "unknown names given": 1100,
          "unknown names used": 3500, "unusable declarations": 1200,
          "unusable when used: count by a field that isn't there": 230,
          "unusable when used: load an unsized string": 230, "unusable when used: load unsized bytes": 230,
          "unusable when used: null of an unsized field": 230,
          "unusable when used: size by a field that isn't there": 250, "values that others depend on": 2100}


def name_of(x):
    return getattr(x, "name", x)


def blamed(mon, e, names, what, *detail, nameless=False):
    mon.check(hasattr(e, "field"), f"{what}: {e!r} names no field", *detail)
    got = name_of(e.field)
    mon.check(got in names or (nameless and got is None and e.field is not None),
              f"{what}: {short(e)} blames {e.field!r}, not {' or '.join(map(repr, names))}", *detail)


# ---------------------------------------------------------------- dumping

DUMP_KIND = {"null": errors.UnserializableValueError, "size": errors.ValueSizeError, "count": errors.ArraySizeError,
             "nul": errors.UnserializableValueError, "missing": errors.MissingRequiredValueError}


def kind_for(label, f):
    if label == "range":
        return errors.SerializationError if f is not None and f.kind == "float" else errors.UnserializableValueError
    return DUMP_KIND.get(label)


def leaf(s, path, full):
    """(the field at the path, its chain of names, whether an array or union is on the way)."""
    f, names, loose = None, [], False
    env = full
    for step in path:
        if isinstance(step, int):
            env = env[step] if isinstance(env, list) else env
            f, loose = f.p["comp"], True
            continue
        if f is not None:
            # into the structure held by the previous field
            s = f.p["struct"] if f.kind == "nest" else None
            if s is None:
                c = f.p["choices"][ref.union_index(f, outer)]
                loose = True
                s = c if isinstance(c, S) else None
            if s is None:
                return None
        outer = env
        f = s.get(step)
        env = env[step]
        names.append(step)
    while f.kind == "union":
        loose = True
        c = f.p["choices"][ref.union_index(f, outer)]
        if isinstance(c, S):
            break
        f = c
        return f, names, loose
    return f, names, loose


def bad_values(rng, mon, idx, **prof):
    c = Case(rng, mon, **prof)
    for n in range(9):
        r = corrupt(rng, c.gen, c.s, c.given, c.full, c.ctx)
        if r is None:
            continue
        label, path, given = r
        at = leaf(c.s, path, c.full)
        if at is None:
            continue
        f, names, loose = at
        want = kind_for(label, f)
        if want is None:
            continue
        why = refusal(c, given)
        if label == "missing":
            if why is None or why[0] != "missing":
                continue
        elif why is None or why[0] != label or why[1] != path[0]:
            continue  # another field is (also) to blame, or nobody
        if dependents(c.s, path):
            mon.ev("values that others depend on")
            continue
        kw = c.b.kwargs(c.s, given, rng if n % 2 else None)
        lazy = label == "count" and len(path) == 1 and rng.random() < 0.6
        if lazy:
            kw[path[0]] = iter(kw[path[0]])
        k, e = outcome(lambda: c.cls(**kw).to_bytes(c.ctx))
        what = f"{label} at {path}" + (" (iterator)" if lazy else "")
        detail = (f"values {short(given)}", c.describe())
        mon.check(k == "err", f"{what}: accepted", *detail)
        mon.check(isinstance(e, want), f"{what}: raised {short(e)}, not {want.__name__}", *detail)
        blamed(mon, e, [names[-1]], what, *detail, nameless=loose)
        if label == "count":
            exp, num = e.n_expected, e.n_given
            v = value_at(given, path)
            good = value_at(c.full, path)
            mon.check(exp == len(good), f"{what}: expected count reported as {exp}, not {len(good)}", *detail)
            mon.check(num is None or num == len(v) or (len(v) > exp and exp < num <= len(v)),
                      f"{what}: given count reported as {num}, not {len(v)}", *detail)
            if lazy:
                mon.ev("bad values: count of an iterator")
        mon.ev("bad values: " + label)
        mon.seen("dump", label, f.kind, len(path), repr(c.s)[:150])


def value_at(v, path):
    for p in path:
        v = v[p]
    return v


def dependents(s, path):
    """Whether fields take their value, size, count or presence from one on the path, at any level."""
    level = [s, *(x for x in all_structs(s))]
    for name in path:
        for t in level:
            if isinstance(name, str) and any(g.name == name for g in t.fields):
                for f in t.fields:
                    if f.name != name and (name in {x for _, x in refs_of(f)} or ("compute" in f.o and name in (
                            [x] if isinstance(x := f.o["compute"][1], str) else x))):
                        return True
    return False


def all_structs(s):
    for f in walk(s):
        if f.kind == "nest":
            yield f.p["struct"]
        elif f.kind == "union":
            yield from (c for c in f.p["choices"] if isinstance(c, S))


def arrays(rng, mon, idx):
    bad_values(rng, mon, idx, maxfields=3, nulls=0.1, conds=0.0, strings=False, computed=0.1, halts=False, eof=False,
               consts=0.0, unions=False)


def lone(rng, mon, idx):
    """A field on its own is refused a value."""
    c = Case(rng, mon, maxfields=4)
    for f in c.s.fields:
        v = c.full[f.name]
        if v is ABSENT or f.kind in ("nest", "union", "arr"):
            continue
        fld = getattr(c.cls, f.name)
        env = {k: c.b.value(c.s.get(k), x) for k, x in c.full.items() if x is not None}
        for label, bad in bad_leaf(rng, c.gen, f, v, c.full, c.ctx):
            want = kind_for(label, f)
            try:
                ref.encode_field(f, ref.normal(f, bad, c.ctx, c.full), c.full, c.ctx)
                continue
            except ref.Rej as e:
                if e.kind != label:
                    continue
            except Exception:  # noqa: BLE001
                continue
            if want is None:
                continue
            k, e = outcome(fld.to_stream, io.BytesIO(), plain(bad), c.ctx, env)
            what = f"stand-alone {f!r} with {short(bad)}"
            mon.check(k == "err" and isinstance(e, want), f"{what}: {short(e)}, not {want.__name__}")
            mon.check(e.field is fld, f"{what}: {short(e)} blames {e.field!r}")
            mon.ev("stand-alone values: " + label)
            mon.seen("lone", label, f.kind)


# ---------------------------------------------------------------- loading


def eof(rng, mon, idx):
    c = Case(rng, mon)
    if not c.unambiguous():
        return
    prefix = rng.choice([b"", b"", b"\x11\x22\x33"])
    p = len(prefix)
    for k in cuts_of(rng, len(c.data)):
        d = c.data[:k]
        want = c.decoded(d)
        if not isinstance(want, ref.Rej) or want.kind not in ("eof", "unterminated"):
            continue
        how = rng.choice(["stream", "stream", "bytes", "partial", "single"])
        what = f"{how} load of the first {k} of {len(c.data)} bytes ({d.hex()})"
        at = p
        st = RecStream(prefix + d, p)
        if how == "stream":
            got, e = outcome(c.cls.from_stream, st, c.ctx)
        elif how == "bytes":
            at = 0
            got, e = outcome(c.cls.from_bytes, d, c.ctx)
        elif how == "partial":
            got, e = outcome(c.cls.partial_load, st, c.s.fields[-1].name, c.ctx)
        else:
            got, e = outcome(c.cls.get_field, st, want.path[0], c.ctx)
        f = c.s.get(want.path[0])
        if got == "err" and isinstance(e, UnicodeError) and text_null(list(walk(c.s))):
            continue
        if got == "ok" and how == "single":
            continue  # the field may need fewer bytes when it is read directly
        mon.check(got == "err", f"{what}: accepted", c.describe())
        if want.kind == "unterminated" and not isinstance(e, errors.UnexpectedEOFError):
            # the terminator may be missing from a field whose size is known
            mon.check(isinstance(e, errors.DeserializationError), f"{what}: {short(e)}", c.describe())
            blamed(mon, e, [want.path[0]], what, c.describe())
            continue
        mon.check(isinstance(e, errors.UnexpectedEOFError), f"{what}: {short(e)}, not an UnexpectedEOFError", c.describe())
        blamed(mon, e, [want.path[0]], what, c.describe())
        off = e.offset - at
        mon.check(0 <= off <= k and e.size > 0 and off + e.size > k,
                  f"{what}: reports {e.size} bytes at offset {e.offset}, which would have been there", c.describe())
        start = start_at(c, d, want.path[0])
        mon.check(start is None or off >= start,
                  f"{what}: reports offset {e.offset}, but {want.path[0]!r} begins at {start and start + at}", c.describe())
        if f.kind in ("int", "float", "ts", "uuid", "bytes", "str") and how != "single":
            mon.check((off, e.size) == (want.pos, want.need),
                      f"{what}: reports {e.size} bytes at {e.offset}; {want.need} at {want.pos + at} failed", c.describe())
            mon.ev("exact places of truncation")
        mon.ev("truncations reported")
        mon.seen("eof", how, f.kind, len(want.path), repr(c.s)[:150])


def start_at(c, d, name):
    trace = []
    c.decoded(d, 0, trace)
    if not trace:
        return 0 if c.s.fields[0].name == name else None
    names = [f.name for f in c.s.fields]
    return trace[-1][2] if names.index(name) == len(trace) else None


def leftover(rng, mon, idx):
    c = Case(rng, mon, eof=False)
    if not c.unambiguous():
        return
    for _ in range(3):
        extra = rng.randbytes(rng.choice([1, 1, 2, 9]))
        d = c.data + extra
        want = c.decoded(d)
        if isinstance(want, ref.Rej) or want[1] == len(d):
            continue
        k, e = outcome(c.cls.from_bytes, d, c.ctx)
        what = f"{d.hex()}, of which {len(extra)} bytes are extra"
        mon.check(k == "err" and isinstance(e, errors.ExtraneousDataError), f"{what}: {short(e)}", c.describe())
        mon.check(e.offset is None or e.offset == want[1],
                  f"{what}: reported at {e.offset}, not {want[1]}", c.describe())
        mon.ev("leftovers of structures")
    for f in c.s.fields:
        sp = c.span(f.name)
        if sp is None or refs_of(f) or f.kind in ("union", "nest", "arr") or "present" in f.o or c.s.meta:
            continue
        piece = c.data[sp[0]:sp[1]]
        fld = getattr(c.cls, f.name)
        if outcome(fld.from_bytes, piece, c.ctx)[0] != "ok":
            continue
        k, e = outcome(fld.from_bytes, piece + b"\x01", c.ctx)
        if k == "err" and isinstance(e, errors.ExtraneousDataError):
            mon.ev("leftovers of fields")
        elif k == "err" and (f.kind in ("strz", "vli", "str") or "null" in f.o):
            continue
        else:
            mon.check(False, f"stand-alone {f!r} of {piece.hex()}01: {short(e)}, not an ExtraneousDataError")
        mon.seen("leftover", f.kind)


def constants(rng, mon, idx):
    """Other bytes where a constant is expected."""
    c = Case(rng, mon, consts=0.5, nulls=0.1, conds=0.1)
    if not c.unambiguous():
        return
    for _ in range(6):
        d = mutate_bytes(rng, c.data)
        want = c.decoded(d)
        if not isinstance(want, ref.Rej) or want.kind != "const":
            continue
        k, e = outcome(c.cls.from_bytes, d, c.ctx, False)
        what = f"{d.hex()} with another value for the constant {want.path}"
        mon.check(k == "err" and isinstance(e, errors.ValidationError), f"{what}: {short(e)}", c.describe())
        # (elements and alternatives have no names of their own)
        loose = any(f.name == want.path[-1] and f.kind in ("arr", "union") for f in walk(c.s))
        blamed(mon, e, [want.path[-1], want.field], what, c.describe(), nameless=loose or want.field is None)
        mon.check(hasattr(e, "value"), f"{what}: no value", c.describe())
        mon.ev("other values for constants")
        mon.seen("const", len(want.path), repr(c.s)[:150])


# ---------------------------------------------------------------- names and assignments


def names(rng, mon, idx):
    strict = Hooks(rng) if rng.random() < 0.5 else None
    c = Case(rng, mon, computed=0.6, consts=0.3, **({"hooks": strict} if strict else {}))
    known = {f.name for f in c.s.fields}
    strange = {rng.choice(["zz", "_x", "Fa", "name", "size", "values", "é", *(n + "_" for n in known), *(n[:-1] for n in known)])
               for _ in range(rng.randint(1, 3))} - known
    if strange:
        k, e = outcome(lambda: c.cls(**c.b.kwargs(c.s, c.given), **dict.fromkeys(strange, 1)))
        mon.check(k == "err" and isinstance(e, errors.UnexpectedValueError), f"unknown names {strange} given: {short(e)}", c.describe())
        mon.check(set(e.names) == strange, f"unknown names {strange} given: {set(e.names)} blamed", c.describe())
        mon.check(type(e.struct) is c.cls or e.struct is c.cls, f"unknown names given: structure {e.struct!r} blamed", c.describe())
        mon.ev("unknown names given")
        x = rng.choice(sorted(strange))
        inst = c.inst()
        for what, fn in [("get_field", lambda: c.cls.get_field(io.BytesIO(c.data), x, c.ctx)),
                         ("partial_load", lambda: c.cls.partial_load(io.BytesIO(c.data), x, c.ctx))]:
            k, e = outcome(fn)
            mon.check(k == "err" and isinstance(e, ValueError) and x in str(e), f"{what} of unknown {x!r}: {short(e)}", c.describe())
        for what, fn in [("reading", lambda: inst[x]), ("writing", lambda: inst.__setitem__(x, 1)),
                         ("deleting", lambda: inst.__delitem__(x))]:
            k, e = outcome(fn)
            mon.check(k == "err" and isinstance(e, KeyError) and x in str(e), f"{what} item {x!r}: {short(e)}", c.describe())
            mon.ev("unknown names used")
    inst = c.inst()
    for f in c.s.fields:
        fld = getattr(c.cls, f.name)
        if not {"const", "compute"} & set(f.o):
            continue
        v = c.full[f.name]
        if v is ABSENT:
            v = 1
        for what, fn in [("attribute", lambda f=f, v=v: setattr(inst, f.name, v)),
                         ("item", lambda f=f, v=v: inst.__setitem__(f.name, v))]:
            h = strict and strict.made.get(f.name)
            if h:
                # what the validators would say to the value makes no difference
                h.on, h.calls = True, 0
                mon.ev("assignments to immutable fields with validators")
            k, e = outcome(fn)
            if h:
                h.on = False
            mon.check(k == "err" and isinstance(e, errors.ImmutableFieldError), f"{what} assignment to {f!r}: {short(e)}", c.describe())
            mon.check(e.field is fld or name_of(e.field) == f.name, f"{what} assignment to {f!r}: {e.field!r} blamed", c.describe())
            mon.check(isinstance(e, errors.IllegalOperationError), f"{e!r}")
            mon.ev("assignments to immutable fields")
            mon.seen("immutable", f.kind, what, "const" in f.o)
    # a required value isn't there, or only what is read before it is
    req = [f for f in c.s.fields if f.name in c.given and not {"default", "factory", "const", "compute"} & set(f.o)
           and c.full[f.name] is not ABSENT and not dependents(c.s, (f.name,)) and "present" not in f.o]
    for f in req:
        given = {k: v for k, v in c.given.items() if k != f.name}
        try:
            ref.resolve(c.s, given, c.ctx)
            continue
        except ref.Rej as e:
            if e.kind != "missing":
                continue
        inst = c.inst(given=given)
        for what, fn in [("to_bytes", lambda: inst.to_bytes(c.ctx)), ("to_stream", lambda: inst.to_stream(io.BytesIO(), c.ctx)),
                         ("partial_dump", lambda f=f: inst.partial_dump(io.BytesIO(), f.name, c.ctx))]:
            k, e = outcome(fn)
            mon.check(k == "err" and isinstance(e, errors.MissingRequiredValueError), f"{what} without {f.name!r}: {short(e)}", c.describe())
            blamed(mon, e, [f.name], f"{what} without {f.name!r}", c.describe())
            mon.ev("missing values")
        mon.seen("missing", f.kind, repr(c.s)[:150])


# ---------------------------------------------------------------- validation


def validation(rng, mon, idx):
    """A validator, a const or the structure's own validator refuses; the error arrives as it was raised."""
    hooks = Hooks(rng)
    c = Case(rng, mon, hooks=hooks, consts=0.0)
    if not c.unambiguous() or not hooks.made:
        return
    inst = c.inst()
    for name in list(hooks.made)[:6]:
        h = hooks.made[name]
        for what, fn in [("to_bytes", lambda: inst.to_bytes(c.ctx)), ("from_bytes", lambda: c.cls.from_bytes(c.data, c.ctx)),
                         ("construction and dump", lambda: c.inst().to_bytes(c.ctx))]:
            h.on, h.calls = True, 0
            try:
                k, e = outcome(fn)
            finally:
                h.on = False
            if not h.calls:
                continue
            mon.check(k == "err" and e is h.raised, f"{what}: {h.raised!r} of the validator of {name!r} became {short(e)}", c.describe())
            mon.check(isinstance(e, errors.ValidationError) and name_of(e.field) == name, f"{what}: {e!r} is about {e.field!r}", c.describe())
            mon.ev("failed validators")
            mon.seen("validation", what, repr(c.s)[:150])
    mon.eq(inst.to_bytes(c.ctx), c.data, "dump after failed validations", c.describe())


class Hooks:
    def __init__(self, rng):
        from ..build import Ctx

        self.base = Ctx()
        self.rng = rng
        self.made = {}

    def __getattr__(self, name):
        return getattr(self.base, name)

    def validators(self, f):
        if f.name is None or self.rng.random() < 0.4:
            return self.base.validators(f)
        h = Check(f.name)
        self.made[f.name] = h
        return [h]


class Check:
    def __init__(self, name):
        self.name, self.on, self.calls, self.raised = name, False, 0, None

    def __call__(self, field, v):
        if self.on:
            self.calls += 1
            self.raised = errors.ValidationError(field=self.name, value=v)
            raise self.raised


# ---------------------------------------------------------------- declarations

WORDS = ["alpha", "beta", "gamma", "delta", "kind", "total", "body", "x", "y1", "flags_"]
SIMPLE = [bf.UInt8, bf.Int16, bf.UInt32, bf.Float32, bf.UUID4]


def declare(rng, bad_name, bad_field, style="assign", base=binobj.Struct, others=2, more=None):
    """A class with the field somewhere among others."""
    ns = {}
    free = [w for w in WORDS if w != bad_name and w not in (more or {})]
    rng.shuffle(free)
    around = [(free[i], rng.choice(SIMPLE)()) for i in range(rng.randint(0, others))]
    around.insert(rng.randint(0, len(around)), (bad_name, bad_field))
    for n, f in around:
        ns[n] = f
    ns.update(more or {})
    return type("Dec" + str(rng.randrange(100)), (base,), ns)


class TwoBases1(binobj.Struct):
    p1 = bf.UInt8()


class TwoBases2(binobj.Struct):
    p2 = bf.UInt8()


def definitions(rng, mon, idx):
    n = rng.choice(WORDS)
    other = rng.choice([w for w in WORDS if w != n])
    causes = {
        "default and factory": (errors.ConfigurationError, n, lambda: rng.choice(SIMPLE)(name=n, default=1, factory=int)),
        "pad_byte too long": (errors.ConfigurationError, n, lambda: bf.String(name=n, size=4, pad_byte=rng.choice([b"ab", b""]))),
        "pad_byte of text": (errors.ConfigurationError, n, lambda: bf.String(name=n, size=4, pad_byte=" ")),
        "float endianness": (errors.ConfigurationError, n, lambda: bf.Float32(name=n, endian=rng.choice(["Big", "middle", "<"]))),
        "integer encoding": (errors.ConfigurationError, n,
                             lambda: bf.VariableLengthInteger(name=n, vli_format=rng.choice(["vlq", 77, "x"]))),
        "timestamp resolution": (errors.ConfigurationError, n, lambda: bf.Timestamp64(name=n, resolution=rng.choice(["m", "sec", "ps"]))),
        "union of classes": (errors.ConfigurationError, n,
                             lambda: bf.Union(bf.UInt8, bf.Int16(), name=n, load_decider=None, dump_decider=None)),
        "two names": (errors.ConfigurationError, None,
                      lambda: declare(rng, n, bf.UInt8(name=other), others=0)),
        "two parents": (errors.MultipleInheritanceError, None,
                        lambda: type("Kid", rng.choice([(TwoBases1, TwoBases2), (TwoBases2, TwoBases1)]), {n: bf.UInt8()})),
        "field of a parent again": (errors.FieldRedefinedError, n, lambda: redefined(rng, n)),
        "field of a dataclass parent again": (errors.FieldRedefinedError, n, lambda: redefined(rng, n, "pep526")),
        "two computing functions": (errors.ConfigurationError, n, lambda: two_computes(n)),
        "computing a constant": (errors.ConfigurationError, n, lambda: const_compute(n)),
        "mixed declarations": (errors.MixedDeclarationsError, None, lambda: mixed(rng, n, other)),
        "union annotation": (errors.InvalidTypeAnnotationError, n, lambda: annotated(rng, n)),
        "no fields": (errors.NoDefinedFieldsError, None, lambda: binobj.dataclass(type("Empty", (binobj.Struct,), {}))),
        "array counted by a nameless field": (errors.ConfigurationError, None, lambda: bf.Array(bf.UInt8(), count=bf.UInt8(), name=n)
                                              .from_bytes(b"\1\2\3")),
    }
    names_ = sorted(causes)
    label = names_[idx % len(names_)]
    want, who, fn = causes[label]
    k, e = outcome(fn)
    mon.check(k == "err", f"{label}: accepted")
    while isinstance(e, RuntimeError) and e.__cause__ is not None:
        e = e.__cause__  # what goes wrong while a class is made is wrapped before Python 3.12
    mon.check(isinstance(e, want), f"{label}: {short(e)}, not {want.__name__}")
    mon.check(isinstance(e, errors.ConfigurationError), f"{label}: {short(e)}")
    if who is not None:
        mon.check(name_of(e.field) == who, f"{label}: {e.field!r} blamed, not {who!r}")
    where = {"two parents": "Kid", "mixed declarations": "Mix", "no fields": "Empty", "field of a dataclass parent again": "K",
             "field of a parent again": "Dec"}.get(label)
    if where is not None:
        got = e.struct if isinstance(e.struct, str) else getattr(e.struct, "__name__", getattr(e.struct, "name", e.struct))
        mon.check(got == where or where == "Dec" and str(got).startswith("Dec"), f"{label}: structure {e.struct!r} blamed, not {where!r}")
    mon.ev("unusable declarations")
    mon.seen("definition", label, n)
    runtime(rng, mon, n, other)


def redefined(rng, n, style="assign"):
    if style == "assign":
        base = declare(rng, n, bf.UInt8())
        if rng.random() < 0.5:
            base = type("Mid", (base,), {"mid_": bf.UInt8()})
        return declare(rng, n, bf.UInt16(), base=base, others=0)
    base = binobj.dataclass(type("B", (binobj.Struct,), {"__annotations__": {n: bf.UInt8}}))
    return binobj.dataclass(type("K", (base,), {"__annotations__": {n: bf.UInt8}}))


def two_computes(n):
    f = bf.UInt8(name=n)
    f.computes(lambda self, values: 1)
    f.computes(lambda self, values: 2)


def const_compute(n):
    f = bf.UInt8(name=n, const=3)
    f.computes(lambda self, values: 1)


def mixed(rng, n, other):
    return binobj.dataclass(type("Mix", (binobj.Struct,), {n: bf.UInt8(), "__annotations__": {other: bf.UInt8}}))


def annotated(rng, n):
    a = rng.choice([typing.Union[bf.UInt8, bf.UInt16], typing.Union[bf.StringZ, bf.UInt8, bf.Int8], bf.UInt8 | bf.StringZ,
                    bf.UInt8 | bf.StringZ | None])
    return binobj.dataclass(type("Ann", (binobj.Struct,), {"__annotations__": {"q_": bf.UInt8, n: a}}))


def runtime(rng, mon, n, other):
    """Declarations that turn out to be unusable, or that are asked for too much, when they are used."""
    cases = [
        ("load an unsized string", errors.UndefinedSizeError, n,
         lambda: declare(rng, n, bf.String(), others=0).from_bytes(b"abc")),
        ("load unsized bytes", errors.UndefinedSizeError, n, lambda: declare(rng, n, bf.Bytes(), others=0).from_bytes(b"abc")),
        ("load an unsized integer", errors.UndefinedSizeError, n, lambda: declare(rng, n, bf.Integer(), others=0).from_bytes(b"abc")),
        ("dump an unsized integer", errors.UndefinedSizeError, n, lambda: declare(rng, n, bf.Integer(), others=0)(**{n: 5}).to_bytes()),
        ("size of what has none", errors.UndefinedSizeError, n,
         lambda: getattr(declare(rng, n, rng.choice([bf.Bytes, bf.String, bf.Integer])(), others=0), n).get_expected_size({})),
        ("null of an unsized field", errors.CannotDetermineNullError, n,
         lambda: declare(rng, n, bf.StringZ(null_value=bf.DEFAULT), others=0).from_bytes(b"abc\0")),
        ("count by a field that isn't there", errors.FieldReferenceError, "nope_" + other,
         lambda: declare(rng, n, bf.Array(bf.UInt8(), count="nope_" + other), others=0).from_bytes(b"\1\2\3")),
        ("size by a field that isn't there", errors.MissingRequiredValueError, "nope_" + other,
         lambda: declare(rng, n, bf.Bytes(size="nope_" + other), others=0).from_bytes(b"\1\2\3")),
    ]
    label, want, who, fn = rng.choice(cases)
    k, e = outcome(fn)
    mon.check(k == "err" and isinstance(e, want), f"{label}: {short(e)}, not {want.__name__}")
    mon.check(name_of(e.field) == who, f"{label}: {e.field!r} blamed, not {who!r}")
    mon.ev("unusable when used: " + label)
    mon.seen("runtime", label, n)


SCENARIOS = [
    Scenario("bad_values", bad_values, 5000),
    Scenario("arrays", arrays, 3000),
    Scenario("lone", lone, 2000),
    Scenario("eof", eof, 3000),
    Scenario("leftover", leftover, 2000),
    Scenario("constants", constants, 3000),
    Scenario("names", names, 3000),
    Scenario("validation", validation, 2500),
    Scenario("definitions", definitions, 3000),
]
