"""Pieces shared by the checks."""
import copy
import datetime
import io
import math

import binobj
from binobj import fields as bf

from . import ref
from .build import Builder
from .gen import Gen, GiveUp, features
from .spec import ABSENT, F, S, shape


class Case:
    """A generated declaration with one set of values, its reference encoding and the real class."""

    def __init__(self, rng, mon, s=None, ctx="gen", gen=None, hooks=None, build=True, **prof):
        self.rng = rng
        self.gen = gen or Gen(rng, **prof)
        for _ in range(20):
            try:
                self.s = s or self.gen.struct()
                self.ctx = self.gen.ctx() if ctx == "gen" else ctx
                self.values()
                break
            except GiveUp:
                continue
        else:
            raise AssertionError("generator gave up")
        self.hooks = hooks
        if build:
            self.b = Builder(hooks)
            self.cls = self.b.cls(self.s)
        if mon is not None:
            mon.ev("declarations")
            mon.seen("shape", shape(self.s))
            for x in features(self.s):
                mon.ev("feature " + x)
            mon.sample(f"{self.s!r} values={self.given!r} context={self.ctx!r} -> {self.data.hex()}")

    def inst(self, as_struct=None, given=None):
        return self.cls(**self.b.kwargs(self.s, self.given if given is None else given, as_struct))

    def values(self):
        self.given = self.gen.given(self.s, self.ctx)
        self.full = ref.resolve(self.s, self.given, self.ctx)
        self.data, self.spans = ref.encode_struct(self.s, self.full, self.ctx)
        if budget(self.decoded()):  # a value that reads as a null, so that what follows is an absurd count or size
            raise GiveUp

    def more(self):
        """Another set of values for the same declaration."""
        c = object.__new__(Case)
        c.__dict__.update(self.__dict__)
        for _ in range(20):
            try:
                c.values()
                return c
            except GiveUp:
                continue
        c.__dict__.update(self.__dict__)
        return c

    def decoded(self, data=None, pos=0, trace=None):
        """Reference decoding; (values, end) or the Rej."""
        try:
            return ref.decode_struct(self.s, self.data if data is None else data, pos, self.ctx, trace)
        except ref.Rej as e:
            return e

    def unambiguous(self):
        d = self.decoded()
        return not isinstance(d, ref.Rej) and d[1] == len(self.data) and ref.loaded_equal(
            d[0], ref.approx_struct(self.s, self.full, self.ctx))

    def longer(self, rng):
        """Other bytes for the same values: variable-length integers in longer encodings."""
        ref.LONGER = rng
        try:
            return ref.encode_struct(self.s, self.full, self.ctx)[0]
        finally:
            ref.LONGER = None

    def span(self, name):
        for n, a, b in self.spans:
            if n == name:
                return a, b
        return None

    def end_of(self, name):
        """Offset just behind the field (which may be absent)."""
        end = 0
        ends = {n: b for n, a, b in self.spans}
        for f in self.s.fields:
            end = ends.get(f.name, end)
            if f.name == name:
                return end
        raise KeyError(name)

    def describe(self):
        return f"declaration {self.s!r}\n  values {self.given!r}\n  context {self.ctx!r}\n  bytes {self.data.hex()}"


def plain(v):
    """A resolved value in a form that a field used on its own accepts (mappings for structures)."""
    if v is ABSENT:
        from binobj.fields import NOT_PRESENT

        return NOT_PRESENT
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def outcome(fn, *a, **kw):
    """('ok', value) or ('err', exception)."""
    try:
        return "ok", fn(*a, **kw)
    except Exception as e:  # noqa: BLE001
        return "err", e


def expect_error(mon, fn, what, *detail, kind=None):
    """fn has to raise (an exception of the given kind); returns the exception."""
    k, v = outcome(fn)
    mon.check(k == "err", f"{what}: accepted, gave {short(v)}", *detail)
    if kind is not None:
        mon.check(isinstance(v, kind), f"{what}: raised {v!r}, not {kind}", *detail)
    return v


def short(x, n=400):
    try:
        s = repr(x)
    except Exception as e:  # noqa: BLE001
        s = f"<unreprable {type(x).__name__}: {e!r}>"
    return s if len(s) <= n else s[:n] + "..."


def snapshot(x):
    """Deep, comparable picture of a value."""
    import binobj

    if isinstance(x, binobj.Struct):
        return (type(x), tuple((k, snapshot(v)) for k, v in vars(x).items()))
    if isinstance(x, dict):
        return (dict, tuple((k, snapshot(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x), tuple(snapshot(v) for v in x))
    if isinstance(x, (bytearray,)):
        return (bytearray, bytes(x))
    if isinstance(x, float) and math.isnan(x):
        return "nan"
    if isinstance(x, float):
        return (float, x, math.copysign(1, x))
    if isinstance(x, datetime.datetime):
        return (x, x.tzinfo, x.fold)
    if isinstance(x, set):
        return (set, frozenset(x))
    return (type(x), x)


def mutate_bytes(rng, data):
    """A hostile variation of a serialization."""
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        x = rng.random()
        if not b or x < 0.12:
            i = rng.randint(0, len(b))
            b[i:i] = rng.choice([b"\0", b"\xff", b"\x80", rng.randbytes(rng.randint(1, 4))])
        elif x < 0.5:
            i = rng.randrange(len(b))
            b[i] = rng.choice([0, 1, 0x7F, 0x80, 0xFF, b[i] ^ (1 << rng.randrange(8)), rng.randrange(256)])
        elif x < 0.7:
            i = rng.randrange(len(b))
            del b[i:i + rng.randint(1, 3)]
        elif x < 0.8:
            i = rng.randrange(len(b))
            b = b[:i]
        elif x < 0.9:
            i, j = sorted((rng.randint(0, len(b)), rng.randint(0, len(b))))
            b[i:i] = b[i:j]
        else:
            i = rng.randrange(len(b))
            n = rng.randint(1, 4)
            b[i:i + n] = rng.randbytes(len(b[i:i + n]))
    return bytes(b)


def compare_load(mon, case, want, got, what):
    """want: (values, end) or Rej from the reference; got: outcome() of the library."""
    assert not budget(want)
    if isinstance(want, ref.Rej):
        mon.check(got[0] == "err", f"{what}: the layout gives no values for this input ({want!r}) but it was accepted",
                  short(got[1]), case.describe())
        mon.ev("inputs refused")
        return
    mon.check(got[0] == "ok", f"{what}: refused with {short(got[1])}", f"expected {short(want[0])}", case.describe())
    diff = ref.same_struct(case.s, want[0], got[1])
    mon.check(diff is None, f"{what}: {diff}", f"expected {short(want[0], 1500)}", f"got {short(got[1], 1500)}",
              case.describe())
    mon.ev("inputs accepted")


def budget(want):
    """The reference gave up on this input (absurd size or count), so the library isn't asked about it."""
    return isinstance(want, ref.Rej) and want.kind == "budget"


def values_of(s, inst):
    """Plain values held by a structure instance (inverse of Builder.struct_value for loaded instances)."""
    import binobj
    from binobj import fields as bf

    def conv(v):
        if v is bf.NOT_PRESENT:
            return ABSENT
        if isinstance(v, binobj.Struct):
            return {k: conv(v[k]) for k in v}
        if isinstance(v, dict):
            return {k: conv(x) for k, x in v.items()}
        if isinstance(v, list):
            return [conv(x) for x in v]
        return v

    del s
    return {k: conv(inst[k]) for k in inst}


def dict_form(s, full, keep=False):
    """The dictionary a fully resolved structure converts to (plain values)."""
    from binobj import fields as bf

    out = {}
    for f in s.fields:
        if f.o.get("discard") and not keep:
            continue
        v = full[f.name]
        out[f.name] = bf.NOT_PRESENT if v is ABSENT else dict_value(f, v, keep, full)
    return out


def dict_value(f, v, keep, env):
    if v is None:
        return None
    if f.kind == "nest":
        return dict_form(f.p["struct"], v, keep)
    if f.kind == "arr":
        return [dict_value(f.p["comp"], x, keep, env) for x in v]
    if f.kind == "union":
        c = f.p["choices"][ref.union_index(f, env)]
        return dict_form(c, v, keep) if isinstance(c, S) else dict_value(c, v, keep, env)
    return v


_ = (copy, io, F)


def become(inst, name, new, how):
    """Make a field have another value, by changing the object it has where that works."""
    old = inst.__values__.get(name)
    if how and type(old) is type(new):
        if isinstance(old, (list, bytearray)):
            old[:] = new
            return 1
        if isinstance(old, dict):
            old.clear()
            old.update(new)
            return 1
        if isinstance(old, binobj.Struct):
            fixed = {n for n, f in old.__binobj_struct__.components.items() if f.is_computed_field or f.const is not bf.UNDEFINED}
            if not fixed & {*old, *new}:
                for n in set(old) - set(new):
                    del old[n]
                return 1 + sum(become(old, n, new[n], how) for n in new)
    setattr(inst, name, new)
    return 0
