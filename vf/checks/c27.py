"""C27: field types written by the user get what built-in ones get."""
import datetime
import decimal
import enum
import fractions
import io
import sys
import typing
import warnings
import zlib

import binobj
from binobj import errors
from binobj import fields as bf

from .. import ref
from ..build import Builder, halt_fn
from ..core import Scenario
from ..gen import FLOAT_CLS, Gen
from ..spec import ABSENT, F, S, UNSET, walk_field
from ..streams import RecStream
from ..util import Case, budget, compare_load, expect_error, mutate_bytes, outcome, short

PROPERTY = "C27"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: fields of generated structures are exchanged for field types written against the documented "
             "extension points, whose methods record and judge their calls; dumps, loads, partial operations and refusals are "
             "judged by the reference codec that knows nothing of the exchange")
LEVEL_NOTE = "declarations, which fields are exchanged, the way the types are written, values and input bytes are sampled"
RULE = ("an evaluation is one generated declaration with some fields exchanged for user-written ones, used with several values "
        "and inputs, or one user-written type put through the services of the base class; distinct ones differ in the declaration "
        "or in the kind of type, its options and what happens")
ASSUMPTIONS = ["a user-written type implements the two documented methods (and the optional hooks for sizes and padding) as "
               "the documentation asks: it reads and writes at the stream's position and raises an error when it can't"]
FLOORS = {"nulls of the size": 60, "nulls refused for their size": 60, "dumps by types that only load": 150, "bad types": 24, "dates": 540, "dump calls judged": 1000, "errors delivered": 160,
          "fields exchanged": 6800, "hostile loads": 3400, "inputs accepted": 3700, "inputs refused": 2500,
          "lengths": 1400, "load calls judged": 1000, "partial operations": 2600, "settings compared": 370,
          "sizes kept": 220, "sizes refused": 300, "sizes worked out": 24, "structure dumps": 2800,
          "structure loads": 2800, "values compared by equality": 160}


class Log:
    """What the methods of the user-written types saw."""

    def __init__(self):
        self.calls = []  # (which, field object, position, value)
        self.ctx = None
        self.bad = None

    def call(self, which, fld, stream, data, context, values):
        if not (context is self.ctx or (context is None and fld.spec.o.get("null", ("",))[0] == "val")):
            self.bad = f"{which} of {fld!r} got the context {context!r}"
        if values is None:
            self.bad = f"{which} of {fld!r} got no values of the other fields"
        if which == "dump" and (data is None or data is bf.NOT_PRESENT or data is bf.UNDEFINED or data is bf.DEFAULT):
            self.bad = f"{which} of {fld!r} was given {data!r}"
        self.calls.append((which, fld, stream.tell(), data))


def get_exactly(fld, stream, loaded_fields):
    """The bytes of a field that has a size, read in the way the type happens to do it."""
    if fld.way % 2:
        return fld._read_exact_size(stream, loaded_fields)
    n = fld.get_expected_size(loaded_fields)
    if n < 0:
        raise errors.DeserializationError("negative size")
    at = stream.tell()
    if fld.way % 4:
        data = stream.read(n)
    else:
        data = b"".join(iter(lambda: stream.read(1) if stream.tell() < at + n else b"", b""))
    if len(data) < n:
        if fld.way % 3:
            raise errors.UnexpectedEOFError(field=None, size=n, offset=at)
        raise errors.UnexpectedEOFError(field=fld, size=n, offset=at)
    return data


def get_growing(fld, stream, decode):
    """One byte after the other, until they make up a value."""
    at, data = stream.tell(), b""
    while True:
        b = stream.read(1)
        if not b:
            raise errors.UnexpectedEOFError(field=None, size=1, offset=at + len(data))
        data += b
        r = decode(data)
        if r is not None:
            return r


class User(bf.Field):
    """The common part of the types written from scratch. Subclasses have the spec of a field as `spec`."""

    spec = log = None
    way = 0

    def __init__(self, *, endian=None, encoding="iso-8859-1", **kw):
        self.endian = endian or sys.byteorder
        self.encoding = encoding
        super().__init__(**kw)

    def bind_to_container(self, *args, **kwargs):
        super().bind_to_container(*args, **kwargs)
        if self.const is not bf.UNDEFINED and self.spec.p.get("size") is None:
            self._size = self._size_for_value(self.const)  # the structure's defaults may have changed it

    def actual(self):
        """The spec, with what the structure's defaults have made of the field."""
        f = self.spec
        p = dict(f.p)
        if "endian" in p:
            p["endian"] = self.endian
        if "enc" in p and f.kind != "vli":
            p["enc"] = self.encoding
        return F(f.kind, f.name, p, f.o)

    def _do_load(self, stream, context, loaded_fields):
        self.log.call("load", self, stream, None, context, loaded_fields)
        f = self.actual()
        if f.kind == "vli":
            def decode(b):
                try:
                    return (ref.vli_decode(f.p["enc"], b, 0),)
                except ref.Rej:
                    return None

            return get_growing(self, stream, decode)[0][0]
        if f.kind == "strz" and self.size is None:
            return get_growing(self, stream, lambda b: ref.find_terminated(b, 0, len(b), f.p["enc"]))[0]
        data = get_exactly(self, stream, loaded_fields)
        if f.kind in ("bytes", "str"):
            return data if f.kind == "bytes" else data.decode(f.p["enc"])
        try:
            if f.kind == "strz":
                r = ref.find_terminated(data, 0, len(data), f.p["enc"])
                if r is None:
                    raise ref.Rej("unterminated")
                return r[0]
            return ref.dec_plain(f, data, 0, {}, None)[0]
        except ref.Rej as e:
            raise (errors.DeserializationError(str(e)) if self.way % 2 else ValueError(str(e))) from None

    def _do_dump(self, stream, data, context, all_fields):
        self.log.call("dump", self, stream, data, context, all_fields)
        b = self.encoded(data)
        if self.way % 3 == 0:
            for i in range(len(b)):
                stream.write(b[i:i + 1])
        elif self.way % 4 == 1:
            # the beginning is filled in at the end
            stream.write(bytes(len(b[:2])))
            stream.write(b[2:])
            stream.seek(0)
            stream.write(b[:2])
        else:
            stream.write(b)

    def encoded(self, data):
        f = self.actual()
        if f.kind == "bytes":
            return bytes(data)
        if f.kind == "str":
            return data.encode(f.p["enc"])
        if f.kind == "strz":
            if "\0" in data:
                raise errors.UnserializableValueError(field=self, value=data, reason="contains a null")
            return (data + "\0").encode(f.p["enc"])
        try:
            return ref.enc_plain(f, data, {}, None)
        except ref.Rej as e:
            raise errors.UnserializableValueError(field=self, value=data, reason=str(e)) from None


class Sizing(User):
    def _size_for_value(self, value):
        return len(self.encoded(value))


class Padding(User):
    def _add_padding(self, serialized, to_size):
        pad = self.spec.p.get("pad")
        if pad is None:
            return super()._add_padding(serialized, to_size)
        return serialized + pad * (to_size - len(serialized))


class Both(Padding, Sizing):
    pass


class UserBuilder(Builder):
    """Exchanges some of the fields."""

    def __init__(self, rng, log, share=0.7):
        super().__init__()
        self.r = rng
        self.log = log
        self.share = share
        self.types = {}

    def type_for(self, f):
        if id(f) in self.types:
            return self.types[id(f)]
        t = None
        if f.kind in ("int", "float", "ts", "vli", "bytes", "str", "strz", "uuid") and self.r.random() < self.share:
            # the same name, because it's what selects the structure's defaults for a type
            via = f.p.get("via") or {"float": FLOAT_CLS.get(f.p.get("size")), "vli": "VariableLengthInteger", "bytes": "Bytes",
                                     "str": "String", "strz": "StringZ", "uuid": "UUID4", "int": "Integer"}[f.kind]
            ns = {"spec": f, "log": self.log, "way": self.r.randrange(12)}
            over = {"int": ("endian",), "float": ("endian",), "ts": ("endian",), "str": ("encoding",), "strz": ("encoding",)}
            if self.r.random() < 0.25:
                t = type(via, (getattr(bf, via),), {**ns, **passing(getattr(bf, via))})
            else:
                padded = f.p.get("pad") is not None or self.r.random() < 0.3
                # without a size of its own a constant's size has to be known
                sizing = self.r.random() < 0.5 or ("const" in f.o and f.p.get("size") is None)
                base = Both if padded and sizing else Padding if padded else Sizing if sizing else User
                size = f.p.get("size") if f.kind in ("int", "float", "ts") else 0
                if f.kind == "uuid":
                    size = ref.plain_size(f)
                if size:
                    def init(self, size=size, **kw):
                        base.__init__(self, size=size, **kw)

                    ns["__init__"] = init
                t = type(via, (base,), {**ns, "__overrideable_attributes__": over.get(f.kind, ())})
        elif f.kind == "arr" and isinstance(f.p["count"], tuple) and f.p["count"][0] == "halt" and self.r.random() < self.share:
            t = type("Array", (bf.Array,), {"spec": f, "should_halt": staticmethod(halt_fn(f.p["count"][1]))})
        elif (f.kind in ("arr", "union") or f.kind == "nest" and not f.p.get("short")) and self.r.random() < 0.4:
            via = {"arr": "Array", "nest": "Nested", "union": "Union"}[f.kind]
            t = type(via, (getattr(bf, via),), {"spec": f, "log": self.log, **passing(getattr(bf, via))})
        self.types[id(f)] = t
        return t

    def field(self, f, made, use_names=False):
        t = self.type_for(f)
        if t is None:
            return super().field(f, made, use_names)
        p = f.p
        if not issubclass(t, User):
            # Like the built-in one, but made from another class.
            if "should_halt" in vars(t):
                return t(self.field(p["comp"], made, use_names), **self.common(f, made, use_names))
            return super().field(f, made, use_names)
        kw = self.common(f, made, use_names)
        if p.get("endian") is not None and not p.get("endian_default"):
            kw["endian"] = p["endian"]
        if f.kind in ("str", "strz") and not p.get("enc_default"):
            kw["encoding"] = p["enc"]
        if f.kind in ("bytes", "str", "strz") and p.get("size") is not None:
            n = p["size"]
            kw["size"] = self.ref(n, made, use_names) if isinstance(n, tuple) else n
        return t(**kw)

    def make(self, name, f):
        return self.type_for(f) or super().make(name, f)

    def short_annotation(self, f, s):
        t = self.type_for(f)
        if t is None or f.kind == "nest":
            return super().short_annotation(f, s)
        if not f.p.get("short") or id(f) in self.validated:
            return None
        return (typing.Optional[t] if "null" in f.o else t), f.o.get("default", UNSET)


def passing(base):
    """A built-in type made to tell what it is asked."""
    def load(self, stream, context, loaded_fields):
        self.log.call("load", self, stream, None, context, loaded_fields)
        return base._do_load(self, stream, context, loaded_fields)

    def dump(self, stream, data, context, all_fields):
        self.log.call("dump", self, stream, data, context, all_fields)
        base._do_dump(self, stream, data, context, all_fields)

    return {"_do_load": load, "_do_dump": dump}


def case(rng, mon, **prof):
    c = Case(rng, mon, build=False, **prof)
    c.log = Log()
    c.b = UserBuilder(rng, c.log)
    c.cls = c.b.cls(c.s)
    n = sum(t is not None for t in c.b.types.values())
    mon.ev("fields exchanged", n)
    c.log.ctx = c.ctx
    return c, n


def calm(mon, c, what):
    mon.check(c.log.bad is None, f"{what}: {c.log.bad}", c.describe())


def calls(mon, c, which, what, base, trace=None):
    """Every exchanged field of the structure itself was asked exactly when it had to be."""
    spans = {n: a for n, a, _ in (c.spans if trace is None else [(n, a, b) for n, a, b, _ in trace])}
    for f in c.s.fields:
        if c.b.types.get(id(f)) is None or "should_halt" in vars(c.b.types[id(f)]):
            continue
        fld = getattr(c.cls, f.name)
        mine = [x for x in c.log.calls if x[0] == which and x[1] is fld]
        v = c.full[f.name] if trace is None else next(x[3] for x in trace if x[0] == f.name)
        if f.o.get("null", ("",))[0] == "val" or (f.kind == "union" and v is None):
            mon.check(len(mine) <= 1 or which == "dump", f"{what}: {fld!r} was asked to {which} {len(mine)} times", c.describe())
            continue
        asked = 0 if f.name not in spans or v is None else 1
        if trace is not None and "present" in f.o and not ref.cond(
                f, {n: x for n, _, _, x in trace}, c.ctx, c.data[spans[f.name]:spans[f.name] + 1]):
            asked = 0
        mon.check(len(mine) == asked, f"{what}: {fld!r} was asked to {which} {len(mine)} times, not {asked}", c.describe())
        if asked and which == "load":
            mon.eq(mine[0][2], base + spans[f.name], f"{what}: {fld!r} was asked to load at another position", c.describe())
        if asked and which == "dump" and f.kind not in ("arr", "nest", "union"):
            diff = ref.same_plain(c.full[f.name], bytes(mine[0][3]) if f.kind == "bytes" else mine[0][3])
            mon.check(diff is None, f"{what}: {fld!r} was asked to dump something else: {diff}", c.describe())
        mon.ev(f"{which} calls judged")


def swap(rng, mon, idx):
    c, n = case(rng, mon)
    if not n:
        return
    for c in (c, c.more(), c.more()):
        inst = c.inst(rng)
        c.log.calls.clear()
        st = RecStream(b"\xaa\xbb", 2)
        inst.to_stream(st, c.ctx)
        got = st.getvalue()
        mon.check(got == b"\xaa\xbb" + c.data, f"user-written types: dumped {got[2:].hex()}", f"want {c.data.hex()}", c.describe())
        calm(mon, c, "dump")
        calls(mon, c, "dump", "dump", 0)
        mon.eq(inst.to_bytes(c.ctx), c.data, "user-written types: the second dump differs", c.describe())
        mon.ev("structure dumps")
        if c.ctx is None or not any("present" in f.o for g in c.s.fields for f in walk_field(g)):
            c.log.ctx = None
            k, size = outcome(len, inst)
            mon.check(k == "ok" and size == len(c.data), f"len() is {short(size)}, the dump takes up {len(c.data)}", c.describe())
            c.log.ctx = c.ctx
            mon.ev("lengths")
        trace = []
        want = c.decoded(trace=trace)
        if budget(want):
            continue
        c.log.calls.clear()
        st = RecStream(b"\xaa\xbb" + c.data, 2)
        got = outcome(c.cls.from_stream, st, c.ctx)
        compare_load(mon, c, want, got, "load through user-written types")
        calm(mon, c, "load")
        if not isinstance(want, ref.Rej):
            mon.eq(st.at, 2 + want[1], "load through user-written types: stream position", c.describe())
            calls(mon, c, "load", "load", 2, trace)
            mon.ev("structure loads")
        partial(rng, mon, c, trace)


def partial(rng, mon, c, trace):
    if not c.unambiguous():
        return
    values = {n: v for n, _, _, v in trace}
    for f in rng.sample(c.s.fields, min(3, len(c.s.fields))):
        st = RecStream(b"\xaa" + c.data, 1)
        k, got = outcome(c.cls.get_field, st, f.name, c.ctx)
        diff = ref.same(f, values[f.name], got, f.name) if k == "ok" else short(got)
        mon.check(diff is None and st.at == 1, f"get_field({f.name!r}): {diff}, stream left at {st.at}", c.describe())
        st = io.BytesIO()
        k, got = outcome(c.inst().partial_dump, st, f.name, c.ctx)
        mon.check(k == "ok" and st.getvalue() == c.data[:c.end_of(f.name)],
                  f"partial_dump({f.name!r}): {short(got)}, wrote {st.getvalue().hex()}", c.describe())
    cut = rng.randint(0, len(c.data))
    st = RecStream(c.data[:cut])
    k, got = outcome(c.cls.partial_load, st, None, c.ctx)
    tr2 = []
    whole = c.decoded(c.data[:cut], 0, tr2)
    if k == "ok" and not budget(whole):
        lead = {n: v for n, _, _, v in tr2}
        diff = ref.same_struct(c.s, lead, got)
        mon.check(diff is None, f"partial_load of {c.data[:cut].hex()}: {diff}", c.describe())
    elif isinstance(whole, ref.Rej) and whole.kind == "eof":
        mon.check(k == "ok", f"partial_load of {c.data[:cut].hex()} failed: {short(got)}", c.describe())
    mon.ev("partial operations")


def hostile(rng, mon, idx):
    c, n = case(rng, mon)
    if not n:
        return
    for _ in range(6):
        data = mutate_bytes(rng, c.data) if rng.random() < 0.7 else c.data[:rng.randint(0, len(c.data))]
        want = c.decoded(data)
        if budget(want):
            continue
        compare_load(mon, c, want, outcome(c.cls.from_bytes, data, c.ctx, False), f"load of {data.hex()} through user-written types")
        calm(mon, c, f"load of {data.hex()}")
        mon.ev("hostile loads")


# ---------------------------------------------------------------- what the base class does for a type


class Oops(Exception):
    pass


def make(rng, **methods):
    return type("T", (bf.Field,), methods)


def place(rng, fld, before=1):
    """The field within a structure: itself, an element, an alternative. (class, wrap, unwrap)"""
    how = rng.choice(["own", "own", "element", "choice", "nested", "inherited"])
    dec = {"load_decider": lambda st, cl, c, lf: cl[0], "dump_decider": lambda d, cl, c, af: cl[0]}
    pre = {"pre": bf.Bytes(size=before)}
    if how == "own":
        return how, type("P", (binobj.Struct,), {**pre, "x": fld}), lambda v: v, lambda v: v
    if how == "inherited":
        base = type("B", (binobj.Struct,), {**pre, "x": fld})
        return how, type("P", (base,), {"y": bf.Bytes(size=0, default=b"")}), lambda v: v, lambda v: v
    if how == "element":
        return how, type("P", (binobj.Struct,), {**pre, "x": bf.Array(fld, count=1)}), lambda v: [v], lambda v: v[0]
    if how == "choice":
        return how, type("P", (binobj.Struct,), {**pre, "x": bf.Union(fld, **dec)}), lambda v: v, lambda v: v
    inner = type("I", (binobj.Struct,), {"x": fld})
    return how, type("P", (binobj.Struct,), {**pre, "x": bf.Nested(inner)}), lambda v: {"x": v}, lambda v: v["x"]


def sizes(rng, mon, idx):
    """The bytes a type writes take up the declared size, or the value is refused."""
    n = rng.choice([0, 1, 2, 4, 9])
    pads = rng.choice([None, b"=", b"\0"])
    ns = {"_do_load": lambda self, stream, context, loaded_fields: self._read_exact_size(stream, loaded_fields)}

    def dump(self, stream, data, context, all_fields):
        for i in range(len(data)):
            stream.write(data[i:i + 1])

    ns["_do_dump"] = dump
    if pads:
        ns["_add_padding"] = lambda self, ser, to: ser + pads * (to - len(ser))
    how = rng.choice(["int", "name", "field"])
    num = bf.UInt8()
    t = make(rng, **ns)
    fld = t(size=n if how == "int" else "n" if how == "name" else num)
    cls = type("P", (binobj.Struct,), {"n": num, "x": fld, "end": bf.UInt8(const=7)})
    for m in {0, n, max(0, n - 1), n + 1, n + 5}:
        v = rng.randbytes(m)
        what = f"user-written type of {n} bytes (given by {how}, padding {pads}), {v!r}"
        st = RecStream()
        k, got = outcome(cls(n=n, x=v).to_stream, st)
        ok = m == n or (m < n and pads is not None)
        if ok:
            want = bytes([n]) + v + (pads or b"") * (n - m) + b"\x07"
            mon.check(k == "ok" and st.getvalue() == want, f"{what}: {short(got)}, wrote {st.getvalue().hex()}, want {want.hex()}")
            got = cls.from_bytes(want)
            mon.eq(got.x, want[1:-1], f"{what}: loaded")
            mon.eq(len(cls(n=n, x=v)), len(want), f"{what}: len()")
            mon.ev("sizes kept")
        else:
            mon.check(k == "err" and isinstance(got, errors.ValueSizeError) and got.field is fld,
                      f"{what}: {short(got)}, wrote {st.getvalue().hex()}")
            mon.check(bytes([n]).startswith(st.getvalue()), f"{what}: wrote parts of the refused value: {st.getvalue().hex()}")
            mon.ev("sizes refused")
        mon.seen("size", how, n, m, pads)
    null_sizes(rng, mon, t, n, pads)
    load_only(rng, mon, ns, n)
    for cut in range(n):
        e = expect_error(mon, lambda: cls.from_bytes(bytes([n]) + b"z" * cut), f"user-written type of {n} bytes cut to {cut}",
                         kind=errors.UnexpectedEOFError)
        mon.check(e.field is fld and e.size == n and e.offset == 1, f"error of a cut user-written type: {e!r} {vars(e)}")


def null_sizes(rng, mon, t, n, pads):
    """A designated null takes up the declared size like any other value, or null can't be dumped."""
    m = rng.choice([0, n, max(0, n - 1), n + 1, n + 5])
    null = bytearray(rng.randbytes(m))  # `bytes` would be taken as they are
    num = bf.UInt8()
    fld = t(size=rng.choice([n, "n", num]), null_value=null)
    how, cls, wrap, unwrap = place(rng, fld)
    while how == "choice":  # null is the union's affair
        how, cls, wrap, unwrap = place(rng, fld)
    if fld.size != n:
        how, cls, wrap, unwrap = "own", type("P", (binobj.Struct,), {"n": num, "x": fld}), lambda v: v, lambda v: v
    first = "n" if fld.size != n else "pre"
    lead = n if first == "n" else b"P"
    what = f"user-written type of {n} bytes ({how}, padding {pads}) with null {null!r}"
    st = RecStream()
    k, got = outcome(cls(**{first: lead, "x": wrap(None)}).to_stream, st)
    head = bytes([n]) if first == "n" else b"P"
    if m == n or (m < n and pads is not None):
        rep = bytes(null) + (pads or b"") * (n - m)
        mon.check(k == "ok" and st.getvalue() == head + rep, f"{what}: {short(got)}, wrote {st.getvalue().hex()}")
        back = cls.from_bytes(head + rep)
        mon.check(unwrap(back.x) is None, f"{what}: null loaded as {short(back.x)}")
        mon.ev("nulls of the size")
    else:
        mon.check(k == "err" and isinstance(got, errors.UnserializableValueError) and got.field is fld,
                  f"{what}: null dumped: {short(got)}, wrote {st.getvalue().hex()}")
        mon.check(head.startswith(st.getvalue()), f"{what}: wrote parts of the refused null: {st.getvalue().hex()}")
        mon.ev("nulls refused for their size")
        rep = b""
    v = rng.randbytes(n)
    if v != rep and v != bytes(null):
        mon.eq(cls(**{first: lead, "x": wrap(v)}).to_bytes(), head + v, f"{what}: a value")
        mon.eq(unwrap(cls.from_bytes(head + v).x), v, f"{what}: a value loaded")
    mon.seen("null size", how, n, m, pads, first)


def load_only(rng, mon, ns, n):
    """A type that can only be loaded: dumping is refused, and nothing is written."""
    t = make(rng, _do_load=ns["_do_load"])
    fld = t(size=n, **rng.choice([{}, {"null_value": b"0" * n}, {"default": b"1" * n}]))
    how, cls, wrap, unwrap = place(rng, fld)
    v = b"2" * n
    if not (n == 0 and fld.allow_null):
        mon.eq(unwrap(cls.from_bytes(b"P" + v).x), v, f"type that only loads ({how})")
    st = RecStream()
    e = expect_error(mon, lambda: cls(pre=b"P", x=wrap(v)).to_stream(st), f"type that only loads ({how}): dumped",
                     kind=errors.UnserializableValueError)
    mon.check(e.field is fld and e.value == v, f"type that only loads ({how}): {vars(e)}")
    mon.check(b"P".startswith(st.getvalue()), f"type that only loads ({how}): wrote {st.getvalue().hex()}")
    mon.ev("dumps by types that only load")
    mon.seen("load only", how, n, fld.allow_null)


def failing(rng, mon, idx):
    """Errors raised by the type arrive; a loading error gets to know the field it's about."""
    own = idx % 2
    raised = [Oops("x"), ValueError("v"), KeyError("k"), OSError("o"), errors.DeserializationError("d"),
              errors.UnexpectedEOFError(field=None, size=3, offset=1), errors.SerializationError("s"), StopIteration(),
              EOFError("e"), AttributeError("a"), TypeError("t"), ZeroDivisionError(), errors.Error("b"), AssertionError(),
              errors.ExtraneousDataError("x"), UnicodeDecodeError("ascii", b"\xff", 0, 1, "bad"), LookupError("l"),
              ][idx // 2 % 17]
    armed = [False]

    def load(self, stream, context, loaded_fields):
        b = stream.read(2)
        if armed[0]:
            raise raised
        return b

    def dump(self, stream, data, context, all_fields):
        stream.write(data[:1])
        if armed[0]:
            raise raised
        stream.write(data[1:])

    kw = rng.choice([{}, {"null_value": b"\xff\xff"}, {"validate": lambda f, v: None}, {"default": b"zz"}])
    fld = make(rng, _do_load=load, _do_dump=dump)(**kw)
    how, cls, wrap, unwrap = place(rng, fld)
    what = f"user-written type ({how}, {sorted(kw)}) raising {raised!r}"
    inst = cls(pre=b"a", x=wrap(b"bc"))
    mon.eq(inst.to_bytes(), b"abc", f"{what}: before")
    armed[0] = True
    if own:
        st = RecStream(b"abcdef")
        k, got = outcome(cls.from_stream, st)
        mon.check(k == "err" and got is raised, f"{what}: load gave {short(got)}")
        if isinstance(raised, errors.DeserializationError):
            outer = getattr(cls, "x")
            mon.check(raised.field in (fld, outer), f"{what}: the error is about {raised.field!r}")
        k, got = outcome(cls.get_field, st2 := RecStream(b"abcdef"), "x")
        mon.check(k == "err" and got is raised and st2.at == 0, f"{what}: get_field gave {short(got)}, stream at {st2.at}")
        st3 = RecStream(b"abcdef")
        k, got = outcome(cls.partial_load, st3)
        if isinstance(raised, errors.UnexpectedEOFError):
            mon.check(k == "ok" and [n for n in got] == ["pre"] and st3.at == 1, f"{what}: partial_load gave {short(got)} at {st3.at}")
        else:
            mon.check(k == "err" and got is raised, f"{what}: partial_load gave {short(got)}")
    else:
        st = RecStream()
        k, got = outcome(inst.to_stream, st)
        mon.check(k == "err" and got is raised, f"{what}: dump gave {short(got)}")
        mon.check(b"a".startswith(st.getvalue()), f"{what}: parts of the failed value were written: {st.getvalue().hex()}")
    armed[0] = False
    mon.eq(inst.to_bytes(), b"abc", f"{what}: afterwards")
    mon.eq(unwrap(cls.from_bytes(b"abc").x), b"bc", f"{what}: load afterwards")
    mon.ev("errors delivered")
    mon.seen("error", type(raised).__name__, how, own, tuple(kw))


class Date(bf.Field):
    """The one of the documentation."""

    def _do_load(self, stream, context, loaded_fields):
        date_bytes = stream.read(8)
        date_string = date_bytes.decode("ascii")
        timestamp = datetime.datetime.strptime(date_string, "%Y%m%d")
        return timestamp.date()

    def _do_dump(self, stream, data, context, all_fields):
        if isinstance(data, datetime.datetime):
            data = data.date()
        date_string = f"{data.year:04}{data:%m%d}"
        stream.write(date_string.encode("ascii"))


def date(rng):
    return datetime.date.fromordinal(rng.randint(1, 3652059))


def enc_date(d):
    return f"{d.year:04}{d.month:02}{d.day:02}".encode()


def dates(rng, mon, idx):
    """The services of the base class, with the type of the documentation."""
    other = date(rng)
    special = date(rng)
    null = rng.choice([None, b"--------", b"", b"none", special])
    opt = ["plain", "const", "default", "factory", "computed", "present", "discard", "validate", "array", "union", "sized"][idx % 11]
    kw = {} if null in (None, b"") else {"null_value": null}
    if opt == "const":
        kw = {"const": special}
    if opt == "default":
        kw["default"] = special
    if opt == "factory":
        kw["factory"] = lambda: special
    if opt == "present":
        kw["present"] = lambda v, ctx=None, st=None: bool(v["flag"])
        kw["not_present_value"] = other
    if opt == "discard":
        kw["discard"] = True
    seen = []
    if opt == "validate":
        def check(field, value):
            seen.append((field, value))
            if value == other:
                raise errors.ValidationError(field=field, value=value)

        kw["validate"] = check
    if opt == "sized":
        kw["size"] = 8
    d = date(rng)
    while d in (other, special):
        d = date(rng)
    fld = Date(**kw)
    ns = {"flag": bf.UInt8(), "x": fld, "y": bf.UInt8()}
    if opt == "array":
        ns["x"] = bf.Array(fld, count=3)
    if opt == "union":
        ns["x"] = bf.Union(Date(**kw), bf.UInt8(), load_decider=lambda s, c, x, lf: c[lf["flag"]],
                           dump_decider=lambda v, c, x, af: c[af["flag"]])
    if opt == "computed":
        fld.computes(lambda field, values: special if values["y"] == 9 else d)
    cls = type("D", (binobj.Struct,), ns)
    what = f"date field with {opt}, null {null!r}, {d}"
    nb = {None: None, special: enc_date(special)}.get(null, null) if "null_value" in kw else None

    def rt(given, data, back=None):
        k, got = outcome(cls(**given).to_bytes)
        mon.check(k == "ok" and got == data, f"{what}: {short(given)} dumped as {short(got)}, want {data!r}")
        k, got = outcome(cls.from_bytes, data)
        want = {**given, **(back or {})}
        want = {k: v for k, v in want.items() if v is not UNSET}
        mon.check(k == "ok" and {n: got[n] for n in got} == want, f"{what}: {data!r} loaded as {short(got)}, want {short(want)}")
        mon.ev("dates")

    if opt in ("plain", "sized", "validate", "discard", "default", "factory"):
        back = {"x": UNSET} if opt == "discard" else None
        rt({"flag": 1, "x": d, "y": 2}, b"\1" + enc_date(d) + b"\2", back)
        dt = datetime.datetime(d.year, d.month, d.day, 5, 6)
        mon.eq(cls(flag=1, x=dt, y=2).to_bytes(), b"\1" + enc_date(d) + b"\2", f"{what}: datetime")
        if nb is not None and not (opt == "validate" and special == other):
            if opt == "sized" and len(nb) not in (0, 8):
                pass
            rt({"flag": 1, "x": None, "y": 2}, b"\1" + nb + b"\2", back)
        elif nb is None and "null_value" not in kw:
            expect_error(mon, lambda: cls(flag=1, x=None, y=2).to_bytes(), f"{what}: null", kind=errors.UnserializableValueError)
        k, got = outcome(cls.from_bytes, b"\1" + enc_date(d)[:5])
        mon.check(k == "err", f"{what}: cut date loaded as {short(got)}")
        mon.eq(len(cls(flag=1, x=d, y=2)), 10, f"{what}: len()")
        mon.eq(cls.get_size(), 10 if opt == "sized" and len(nb or b"12345678") == 8 else None, f"{what}: get_size()")
    if opt in ("default", "factory"):
        rt({"flag": 1, "y": 2}, b"\1" + enc_date(special) + b"\2", {"x": None if null == special else special})
    if opt == "const":
        rt({"flag": 1, "y": 2}, b"\1" + enc_date(special) + b"\2", {"x": special})
        expect_error(mon, lambda: cls.from_bytes(b"\1" + enc_date(d) + b"\2"), f"{what}: another date", kind=errors.ValidationError)
        expect_error(mon, lambda: setattr(cls(flag=1, y=2), "x", d), f"{what}: assigned", kind=errors.ImmutableFieldError)
    if opt == "computed":
        rt({"flag": 1, "y": 2}, b"\1" + enc_date(d) + b"\2", {"x": d})
        rt({"flag": 1, "y": 9}, b"\1" + enc_date(special) + b"\x09", {"x": None if null == special else special})
        expect_error(mon, lambda: setattr(cls(flag=1, y=2), "x", d), f"{what}: assigned", kind=errors.ImmutableFieldError)
    if opt == "present":
        rt({"flag": 1, "x": d, "y": 2}, b"\1" + enc_date(d) + b"\2")
        rt({"flag": 0, "y": 2}, b"\0\2", {"x": other})
        rt({"flag": 0, "x": d, "y": 2}, b"\0\2", {"x": other})
    if opt == "array":
        rt({"flag": 1, "x": [d, special if null != special else None, d], "y": 2},
           b"\1" + enc_date(d) + enc_date(special) + enc_date(d) + b"\2")
        if nb is not None:
            rt({"flag": 1, "x": [d, None, None], "y": 2}, b"\1" + enc_date(d) + nb + nb + b"\2")
    if opt == "union":
        rt({"flag": 0, "x": d, "y": 2}, b"\0" + enc_date(d) + b"\2")
        rt({"flag": 1, "x": 5, "y": 2}, b"\1\5\2")
        if nb is not None:
            k, got = outcome(cls.from_bytes, b"\0" + nb + b"\2")
            mon.check(k == "ok" and got.x is None, f"{what}: null loaded as {short(got)}")
    if opt == "validate":
        seen.clear()
        cls.from_bytes(b"\1" + enc_date(d) + b"\2")
        mon.check(seen and all(f is fld and v == d for f, v in seen), f"{what}: the validator saw {seen}")
        for bad in (lambda: cls.from_bytes(b"\1" + enc_date(other) + b"\2"), lambda: cls(flag=1, x=other, y=2).to_bytes(),
                    lambda: setattr(cls(), "x", other)):
            if null == other:
                continue
            e = expect_error(mon, bad, f"{what}: refused date", kind=errors.ValidationError)
            mon.check(e.field is fld, f"{what}: the refusal is about {e.field!r}")
    mon.seen("date", opt, str(null)[:4])


def settings(rng, mon, idx):
    """Arguments of a user-written type that structures may give defaults for."""
    names = rng.sample(["scale", "shift", "endian", "mode", "unit"], rng.choice([1, 2, 3]))
    own = {n: rng.choice([1, 2, 3]) for n in names}

    class Setting(bf.Field):
        __overrideable_attributes__ = tuple(names)

        def __init__(self, **kw):
            for n in names:
                setattr(self, n, kw.pop(n, own[n]))
            super().__init__(**kw)

        def _do_load(self, stream, context, loaded_fields):
            b = self._read_exact_size(stream, loaded_fields)
            if b[1:] != bytes(self.sig()):
                raise errors.DeserializationError("other settings")
            return b[0]

        def _do_dump(self, stream, data, context, all_fields):
            stream.write(bytes([data, *self.sig()]))

        def sig(self):
            return [0 if getattr(self, n) is None else getattr(self, n) for n in names]

    class Derived(Setting):
        pass

    class Fixed(Setting):
        __overrideable_attributes__ = ()

    meta = {}
    for n in [*names, "other"]:
        if rng.random() < 0.6:
            meta[n] = rng.choice([0, None, 7, 8])
        for t in ("Setting", "Derived", "Fixed"):
            if rng.random() < 0.3:
                meta[f"{t}__{n}"] = rng.choice([0, None, 11, 12])
    ns, want = {}, {}
    for i in range(rng.choice([1, 2, 4])):
        t = rng.choice([Setting, Derived, Fixed])
        explicit = {n: rng.choice([0, None, 20, 21]) for n in names if rng.random() < 0.3}
        ns[f"f{i}"] = t(size=1 + len(names), **explicit)
        want[f"f{i}"] = [explicit[n] if n in explicit
                         else own[n] if t is Fixed
                         else meta.get(f"{t.__name__}__{n}", meta.get(n, own[n])) for n in names]
    style = rng.choice(["assign", "annotated"])
    m = {"Meta": type("Meta", (), {"argument_defaults": meta})} if meta else {}
    if style == "assign":
        cls = type("C", (binobj.Struct,), {**ns, **m})
    else:
        cls = binobj.dataclass(type("C", (binobj.Struct,), {**m, "__annotations__": dict(ns), "__module__": __name__}))
    what = f"settings {names} own {own} by {style}, structure {meta}"
    for n, w in want.items():
        fld = getattr(cls, n)
        mon.eq([getattr(fld, x) for x in names], w, f"{what}: {type(fld).__name__} {n}")
        mon.ev("settings compared")
    vals = {n: rng.randrange(256) for n in want}
    data = b"".join(bytes([vals[n], *(0 if x is None else x for x in want[n])]) for n in want)
    mon.eq(cls(**vals).to_bytes(), data, f"{what}: dump")
    got = cls.from_bytes(data)
    mon.eq({n: got[n] for n in want}, vals, f"{what}: load")
    mon.eq(cls.get_size(), len(data), f"{what}: size")
    mon.seen("settings", len(names), len(meta), len(ns))


def buggy(rng, mon, idx):
    """A type that breaks the rule about working out sizes is found out, and sizes are worked out as asked."""
    def size_bad(self, value):
        return len(self.to_bytes(value))

    def size_good(self, value):
        return len(value)

    ns = {"_do_load": lambda self, stream, context, loaded_fields: stream.read(2),
          "_do_dump": lambda self, stream, data, context, all_fields: stream.write(
              data + bytes(max(0, self.get_expected_size({**all_fields, self.name: data}) - len(data))) if bad else data) and None}
    bad = idx % 2 == 0
    if bad:
        fld = type("Bad", (bf.Field,), {**ns, "_size_for_value": size_bad})(name="x")
        expect_error(mon, lambda: fld.get_expected_size({"x": b"ab"}), "endless size computation",
                     kind=errors.BuggyFieldImplementationError)
        mon.ev("bad types")
        return
    n = rng.randint(0, 9)
    v = rng.randbytes(n)
    fld = type("Good", (bf.Field,), {**ns, "_size_for_value": size_good})(
        name="x", **rng.choice([{}, {"default": b"q" * 11}, {"null_value": b"N" * 5}]))
    mon.eq(fld.get_expected_size({"x": v}), n, "get_expected_size with the value given")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mon.eq(fld._get_expected_size({"x": v}), n, "the deprecated name of get_expected_size")
    if fld.allow_null:
        mon.eq(fld.get_expected_size({"x": None}), 5, "get_expected_size of null")
    if fld.default is not bf.UNDEFINED:
        mon.eq(fld.get_expected_size({}), 11, "get_expected_size of the default")
    else:
        expect_error(mon, lambda: fld.get_expected_size({}), "size of nothing", kind=errors.UndefinedSizeError)
    cls = type("G", (binobj.Struct,), {"x": fld, "y": bf.UInt16()})
    mon.eq(cls.get_size(), None, "size of a structure with a field of no fixed size")
    mon.eq(len(cls(x=v, y=1)), n + 2, "len() with a type that works out sizes")
    c = type("Const", (bf.Field,), {**ns, "_size_for_value": size_good})(const=v)
    mon.eq(c.size, n, "size of a constant of a user-written type")
    whole = (rng.choice([1, "x", b"y", None]), v)  # of any kind of value

    def two(self, stream, data, context, all_fields):
        stream.write(data[1])

    c = type("Const", (bf.Field,), {"_do_load": lambda self, stream, context, loaded_fields: (whole[0], stream.read(n)),
                                    "_do_dump": two, "_size_for_value": lambda self, value: len(value[1])})(const=whole)
    mon.eq(c.size, n, "size of a constant that is a tuple")
    cls = type("K", (binobj.Struct,), {"c": c, "y": bf.UInt8()})
    mon.eq((cls.get_size(), cls.y.offset), (n + 1, n), "size of a structure with a constant of a user-written type")
    mon.eq(cls(y=3).to_bytes(), v + b"\x03", "dump of a constant that is a tuple")
    mon.eq(cls.get_field(io.BytesIO(v + b"\x03"), "y"), 3, "field behind a constant of a user-written type")
    d = type("NoSize", (bf.Field,), ns)(const=v)
    mon.eq(d.size, None, "size of a constant of a type that can't tell")
    mon.ev("sizes worked out")
    mon.seen("sizes", n, fld.allow_null)


class Same:
    """Equal to a number, and to nothing else."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return (other.n if isinstance(other, Same) else other) == self.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return f"Same({self.n})"


class Number(enum.IntEnum):
    A = 0
    B = 1
    C = 2


def equals(rng, mon, idx):
    """Values of the type's own classes; null, constants and conditions go by equality."""
    kind = [int, bool, Number, Same, float, complex, fractions.Fraction, decimal.Decimal][idx % 8]
    other = rng.choice([int, bool, float, Number, Same, kind])
    null = rng.choice([0, 1])
    bits = rng.choice([1, 15])

    class Odd(bf.Field):
        """Several bytes mean the same."""

        def _do_load(self, stream, context, loaded_fields):
            return kind(self._read_exact_size(stream)[0] & bits & 1)

        def _do_dump(self, stream, data, context, all_fields):
            stream.write(bytes([int(data.n if isinstance(data, Same) else data.real)]))

    opt = rng.choice(["null", "const"])
    fld = Odd(size=1, **({"null_value": other(null)} if opt == "null" else {"const": other(null)}))
    how, cls, wrap, unwrap = place(rng, fld)
    what = f"type loading {kind.__name__}s with {opt} {other(null)!r} ({how})"
    for b in range(0, 256, rng.choice([1, 3, 16])):
        v = kind(b & bits & 1)
        k, got = outcome(cls.from_bytes, b"a" + bytes([b]))
        if opt == "null":
            want = None if v == null else v
            mon.check(k == "ok" and type(unwrap(got.x)) is type(want) and unwrap(got.x) == want,
                      f"{what}: {b} loaded as {short(got)}, want {want!r}")
        elif v == null:
            mon.check(k == "ok" and unwrap(got.x) == v, f"{what}: {b} loaded as {short(got)}")
        else:
            mon.check(k == "err" and isinstance(got, errors.ValidationError), f"{what}: {b} gave {short(got)}, want a refusal")
    if opt == "null" and how != "choice":
        mon.eq(cls(pre=b"a", x=wrap(None)).to_bytes(), b"a" + bytes([null]), f"{what}: null dumped")
    mon.eq(cls(pre=b"a", x=wrap(kind(1 - null) if opt == "null" else kind(null))).to_bytes(),
           b"a" + bytes([1 - null if opt == "null" else null]), f"{what}: value dumped")
    mon.ev("values compared by equality")
    mon.seen("equals", kind.__name__, other.__name__, null, opt, how)


SCENARIOS = [
    Scenario("swap", swap, 2500),
    Scenario("hostile", hostile, 1500),
    Scenario("sizes", sizes, 300),
    Scenario("failing", failing, 400),
    Scenario("dates", dates, 700),
    Scenario("settings", settings, 400),
    Scenario("equals", equals, 400),
    Scenario("buggy", buggy, 120),
]

_ = (ABSENT, Gen, S)
