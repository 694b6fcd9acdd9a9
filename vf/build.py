"""Turn a spec into a real binobj class, using only the public API."""
import types
import typing
import zlib

import binobj
from binobj import fields as bf
from binobj import varints

from .spec import ABSENT, F, S, UNSET

VLI = {
    "vlq": varints.VarIntEncoding.VLQ,
    "leb128": varints.VarIntEncoding.LEB128,
    "uleb128": varints.VarIntEncoding.ULEB128,
    "compact": varints.VarIntEncoding.COMPACT_INDICES,
}
UUIDF = {
    "v1": bf.UUIDFormat.BINARY_VARIANT_1,
    "v2": bf.UUIDFormat.BINARY_VARIANT_2,
    "canon": bf.UUIDFormat.CANONICAL_STRING,
    "hex": bf.UUIDFormat.HEX_STRING,
}


FLOAT = {2: "Float16", 4: "Float32", 8: "Float64"}


class Ctx:
    """Default hooks: how callbacks in a generated declaration behave. Checks may override."""

    def present(self, f, fn):
        return fn

    def compute(self, f, fn):
        return fn

    def halt(self, f, fn):
        return fn

    def decider(self, f, which, fn):
        return fn

    def validators(self, f):
        return f.o.get("validators", ())

    def struct_ns(self, s, ns, fields):
        """Last chance to add members to the class namespace."""


def odd(fn, c):
    """The same answers, but true and false only by their truth value (about half of the time)."""
    key = zlib.crc32(repr(c).encode("utf-8", "backslashreplace"))
    if key % 2:
        return fn
    yes = [1, "yes", [0], 2, b"\0", 0.5][key // 2 % 6]
    no = [None, 0, "", [], b"", 0.0][key // 16 % 6]
    return lambda *args, **kw: yes if fn(*args, **kw) else no


def present_fn(c):
    return odd(_present_fn(c), c)


def _present_fn(c):
    if c[0] == "flag":
        return lambda v, ctx=None, stream=None: bool(v[c[1]] & c[2])
    if c[0] == "ctx":
        return lambda v, ctx=None, stream=None: bool(ctx is not None and ctx.get(c[1]))
    if c[0] == "fixed":
        return lambda v, ctx=None, stream=None: c[1]
    if c[0] == "peek":

        def peek(v, ctx=None, stream=None):
            if stream is None:
                return True
            here = stream.tell()
            try:
                return stream.read(1) == bytes([c[1]])
            finally:
                stream.seek(here)

        return peek
    raise AssertionError(c)


def compute_fn(c):
    if c[0] == "len":
        return lambda field, af: len(af[c[1]])
    if c[0] == "enclen":
        return lambda field, af: len((af[c[1]] + ("\0" if c[3] else "")).encode(c[2]))
    if c[0] == "sum":
        return lambda field, af: sum(af[n] for n in c[1]) % c[2]
    raise AssertionError(c)


def halt_fn(h):
    return odd(_halt_fn(h), h)


def _halt_fn(h):
    if h[0] == "last":
        return lambda seq, stream, values, ctx, loaded: bool(values) and values[-1] == h[1]
    if h[0] == "upto":
        return lambda seq, stream, values, ctx, loaded: len(values) >= h[1]
    if h[0] == "peek":

        def peek(seq, stream, values, ctx, loaded):
            here = stream.tell()
            try:
                return stream.read(1) in (b"", bytes([h[1]]))
            finally:
                stream.seek(here)

        return peek
    raise AssertionError(h)


def fresh(name):
    """An equal string that is another object."""
    return "".join(list(name)) if len(name) > 1 else name


def union_struct(f, v):
    """The structure alternative that a dictionary value belongs to (alternatives have distinct field names)."""
    for c in f.p["choices"]:
        st = c if isinstance(c, S) else c.p["struct"] if c.kind == "nest" else None
        if st is not None and set(v) <= {x.name for x in st.fields}:
            return st
    raise AssertionError(v)


def fits(comp, v):
    """Whether the dictionaries in v, if any, can be elements of comp."""
    return all(comp.kind == "nest" and set(x) <= {y.name for y in comp.p["struct"].fields} if isinstance(x, dict)
               else comp.kind == "arr" and fits(comp.p["comp"], x) if isinstance(x, list)
               else x is None or comp.kind not in ("nest", "arr") for x in v)


class Builder:
    def __init__(self, hooks=None, meta_style=False):
        self.hooks = hooks or Ctx()
        self.cache = {}  # id(S) -> class
        self.keep = []
        self.validated = set()  # id(F) of fields with validators
        self.wrap = None  # list -> the iterable to hand over instead
        self.rng = None  # decides which bytes are handed over as bytearray
        self.outside = (None, ())  # field and the options of it that are not given as arguments

    # -- fields

    def common(self, f, made, use_names):
        kw = {}
        o = f.o
        if self.outside[0] is f:
            o = {k: v for k, v in o.items() if k not in self.outside[1]}
        for k in ("const", "default"):
            if k in o:
                kw[k] = self.fixed(f, o[k])
        if "factory" in o:
            val = o["factory"]
            old = zlib.crc32(repr(f).encode("utf-8", "backslashreplace")) % 4 == 0  # the deprecated way to say the same
            kw["default" if old else "factory"] = lambda: self.fixed(f, val)
        if o.get("discard"):
            kw["discard"] = True
        if "null" in o:
            n = o["null"]
            kw["null_value"] = bf.DEFAULT if n[0] == "zero" else n[1]
        if "np" in o:
            kw["not_present_value"] = o["np"]
        if "present" in o:
            kw["present"] = self.hooks.present(f, present_fn(o["present"]))
        vs = self.hooks.validators(f)
        if vs:
            self.validated.add(id(f))
            kw["validate"] = list(vs) if len(vs) > 1 else vs[0]
        return kw

    def ref(self, r, made, use_names):
        """('ref', name, how): Field object or name."""
        if r[2] == "obj" and not use_names and r[1] in made:
            return made[r[1]]
        return fresh(r[1])

    def make(self, name, f):
        """The class of the field."""
        return getattr(bf, name)

    def field(self, f, made, use_names=False):
        kw = self.common(f, made, use_names)
        k, p = f.kind, f.p
        make = self.make
        if k == "int":
            via = p.get("via")
            if p["endian"] is not None and not p.get("endian_default"):
                kw["endian"] = p["endian"]
            if via in (None, "Integer"):
                return make("Integer", f)(size=p["size"], signed=p["signed"], **kw)
            if via == "UnsignedInteger":
                return make("UnsignedInteger", f)(size=p["size"], **kw)
            return make(via, f)(**kw)
        if k == "float":
            if not p.get("endian_default"):
                kw["endian"] = p["endian"]
            return make(FLOAT[p["size"]], f)(**kw)
        if k == "ts":
            if not p.get("endian_default"):
                kw["endian"] = p["endian"]
            kw.update(resolution=p["res"], tz_aware=p["aware"], signed=p["signed"])
            via = p.get("via", "Timestamp")
            if via == "Timestamp":
                kw["size"] = p["size"]
            return make(via, f)(**kw)
        if k == "vli":
            if p.get("max") is not None:
                kw["max_bytes"] = p["max"]
            return make("VariableLengthInteger", f)(vli_format=VLI[p["enc"]], **kw)
        if k in ("bytes", "str", "strz"):
            n = p.get("size")
            if n is not None:
                kw["size"] = self.ref(n, made, use_names) if isinstance(n, tuple) else n
            if k == "bytes":
                return make("Bytes", f)(**kw)
            if not p.get("enc_default"):
                kw["encoding"] = p["enc"]
            if p.get("pad") is not None:
                kw["pad_byte"] = p["pad"]
            return make("String" if k == "str" else "StringZ", f)(**kw)
        if k == "uuid":
            return make("UUID4", f)(stored_as=UUIDF[p["fmt"]], **kw)
        if k == "arr":
            c = p["count"]
            if isinstance(c, tuple) and c[0] == "halt":
                kw["halt_check"] = self.hooks.halt(f, halt_fn(c[1]))
            elif isinstance(c, tuple):
                kw["count"] = self.ref(c, made, use_names)
            elif c is not None:
                kw["count"] = c
            return make("Array", f)(self.field(p["comp"], made, use_names), **kw)
        if k == "nest":
            return make("Nested", f)(self.cls(p["struct"]), **kw)
        if k == "union":
            choices = [self.cls(c) if isinstance(c, S) else self.field(c, made, use_names) for c in p["choices"]]
            tag = p["tag"]

            def load_decider(stream, classes, context, loaded_fields):
                return classes[loaded_fields[tag] % len(classes)]

            def dump_decider(data, classes, context, all_fields):
                return classes[all_fields[tag] % len(classes)]

            return make("Union", f)(
                *choices,
                load_decider=self.hooks.decider(f, "load", load_decider),
                dump_decider=self.hooks.decider(f, "dump", dump_decider),
                **kw,
            )
        raise AssertionError(k)

    # -- values

    def value(self, f, v, as_struct=None):
        """Spec value -> value to hand to binobj. as_struct: rng deciding dict/instance, or None = instances."""
        if v is ABSENT:
            return bf.NOT_PRESENT
        if v is None or v is UNSET:
            return v
        if f.kind == "nest" and isinstance(v, dict):
            return self.struct_value(f.p["struct"], v, as_struct)
        if f.kind == "arr" and isinstance(v, list):
            out = [self.value(f.p["comp"], x, as_struct) for x in v]
            return self.wrap(out) if self.wrap else out
        if f.kind == "union" and isinstance(v, dict):
            return self.struct_value(union_struct(f, v), v, as_struct)
        if f.kind == "union" and isinstance(v, list):
            comp = next((c for c in f.p["choices"] if isinstance(c, F) and c.kind == "arr" and fits(c.p["comp"], v)),
                        None)
            out = [self.value(comp.p["comp"], x, as_struct) for x in v] if comp else v
            return self.wrap(out) if self.wrap else out
        r = as_struct or self.rng
        if isinstance(v, bytes) and r is not None and r.random() < 0.15:
            return bytearray(v)
        return v

    def fixed(self, f, v):
        """The same every time."""
        rng, self.rng = self.rng, None
        try:
            return self.value(f, v)
        finally:
            self.rng = rng

    def kwargs(self, s, given, as_struct=None):
        return {k: self.value(s.get(k), v, as_struct) for k, v in given.items() if v is not UNSET}

    def struct_value(self, s, given, as_struct=None):
        kw = self.kwargs(s, given, as_struct)
        if as_struct is not None and as_struct.random() < 0.5:
            return kw
        return self.cls(s)(**kw)

    # -- classes

    def cls(self, s):
        if id(s) in self.cache:
            return self.cache[id(s)]
        base = self.cls(s.base) if s.base else binobj.Struct
        ns, made = {}, {}
        if s.base:
            made.update({n: getattr(base, n) for n in (f.name for f in s.base.fields)})
        fields = {}
        use_names = s.style != "assign"
        for f in s.own:
            body = self.body(f) if use_names else ()
            self.outside = (f, body)
            fields[f.name] = made[f.name] = self.field(f, made, use_names)
            self.outside = (None, ())
        if s.meta:
            ns["Meta"] = type("Meta", (), {"argument_defaults": dict(s.meta)})
        ns["__module__"] = __name__
        if s.style == "assign":
            ns.update((fresh(k), v) for k, v in fields.items())
            for f in s.own:
                if "compute" in f.o:
                    fields[f.name].computes(self.hooks.compute(f, compute_fn(f.o["compute"])))
        else:
            ann = {}
            for f in s.own:
                fld = fields[f.name]
                if "compute" in f.o:
                    fld.computes(self.hooks.compute(f, compute_fn(f.o["compute"])))
                short = self.short_annotation(f, s)
                if short is not None:
                    a, default = short
                    if default is not UNSET:
                        ns[f.name] = default
                else:
                    a = fld
                    body = self.body(f)
                    if "default" in body:
                        ns[f.name] = self.fixed(f, f.o["default"])
                    if "null" in body:
                        a = typing.Optional[fld]
                if s.style == "annotated":
                    a = typing.Annotated[object, a]
                ann[fresh(f.name)] = a
            ns["__annotations__"] = ann
        self.hooks.struct_ns(s, ns, fields)
        cls = types.new_class(s.name, (base,), {}, lambda d: d.update(ns))
        if s.style != "assign":
            cls = binobj.dataclass(cls)
        self.cache[id(s)] = cls
        self.keep.append(s)
        return cls

    def body(self, f):
        """Options given by the class body or the annotation, not by the field used as the annotation."""
        out = []
        key = zlib.crc32(repr(f).encode("utf-8", "backslashreplace"))
        if "default" in f.o and key % 3:
            out.append("default")
        if f.o.get("null") == ("zero",) and key % 5 > 1:
            out.append("null")
        return out

    def short_annotation(self, f, s):
        """Class form of an annotation (`x: UInt16 = 3`) where the declaration allows it."""
        if not f.p.get("short") or id(f) in self.validated:
            return None
        if f.kind == "nest":
            cls = self.cls(f.p["struct"])
            default = self.fixed(f, f.o["factory"]) if "factory" in f.o else UNSET
            if "null" in f.o:
                cls = cls | None if f.name[-1] in "13579" else typing.Optional[cls]
            return cls, default
        cls = getattr(bf, f.p["via"]) if f.kind in ("int", "ts") else {
            "float": {2: bf.Float16, 4: bf.Float32, 8: bf.Float64}.get(f.p.get("size")), "strz": bf.StringZ,
        }[f.kind]
        default = f.o.get("default", UNSET)
        if "null" in f.o:  # Optional[X] means "null is zero bytes"
            ann = cls | None if f.name[-1] in "13579" else typing.Optional[cls]
            text = f"bf.{cls.__name__} | None" if f.name[-1] in "159" else f"typing.Optional[bf.{cls.__name__}]"
        else:
            ann, text = cls, f"bf.{cls.__name__}"
        # With postponed evaluation of annotations there are only strings.
        return text if s.style == "pep526" and f.name[-1] in "2356" else ann, default
