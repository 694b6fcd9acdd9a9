"""Generator of declarations (spec.S) and of values for them."""
import datetime
import math
import struct as _struct
import uuid

from . import ref
from .spec import ABSENT, F, S, UNSET

INT_VIA = {(1, True): "Int8", (2, True): "Int16", (4, True): "Int32", (8, True): "Int64",
           (1, False): "UInt8", (2, False): "UInt16", (4, False): "UInt32", (8, False): "UInt64"}
FLOAT_CLS = {2: "Float16", 4: "Float32", 8: "Float64"}
CTX_KEYS = ("c0", "c1", "c2")

# encoding -> sample characters it can carry (besides ASCII letters)
SINGLE = {
    "ascii": "~!#", "iso-8859-1": "éÿ¡\x80", "cp1252": "€Ž™", "koi8-r": "ЖяЮ", "cp437": "░é≡", "iso-8859-15": "€œ",
}
MULTI = {
    "utf-8": "é€𝄞Ж字\x7f\u0800\uffff\ufeff", "utf-16-le": "é€𝄞Ā字\u0100\ufeff",
    "utf-16-be": "é€𝄞Ā字\u0100\ufeff", "utf-32-le": "é€𝄞\u0100\U00010000\ufeff",
    "utf-32-be": "é€𝄞\u0100\U00010000\ufeff",
    "utf-16": "é€𝄞Ā字", "utf-32": "é€𝄞字", "utf-8-sig": "é€字",
    "shift_jis": "日本ｱ表", "euc_jp": "日本字", "gb18030": "汉字€𝄞", "big5": "漢字功",
}
STATEFUL = {"iso2022_jp": "日本字", "hz": "汉字", "iso2022_kr": "한글"}
EBCDIC = {"cp500": "é", "cp037": "é"}
ASCII_OK = set(SINGLE) | {"utf-8", "shift_jis", "euc_jp", "gb18030", "big5"}
ALL_ENC = {**SINGLE, **MULTI, **STATEFUL, **EBCDIC}

DEFAULTS = dict(
    nulls=0.3, conds=0.3, discards=0.1, computed=0.4, consts=0.15, defaults=0.25, np=0.4,
    unions=True, arrays=True, nested=True, strings=True, eof=True, halts=True, styles=True,
    inherit=0.25, meta=0.3, refs=True, maxdepth=2, maxfields=6, minfields=1, encs="all", ctx=True, peek=True,
    stateful=0.1, static_only=False, ts=True, own_null_choices=True, odd_float=0.15, sub_res=0.15, redumpable=False, nan_nulls=False,
)


WORDS = ["self", "cls", "name", "size", "const", "default", "offset", "values", "context", "data", "stream", "count",
         "value", "type", "field", "key", "_x", "x_", "_", "__dunder__", "\u00e9", "\u6570", "id", "object", "keys", "items",
         "get", "pop", "update", "struct", "endian", "encoding", "init_kwargs", "last_field", "exact", "instance", "args",
         "kwargs", "annotations", "bytes", "int", "A", "null_value", "all_fields", "loaded_fields", "item"]


class Gen:
    def __init__(self, rng, **prof):
        unknown = set(prof) - set(DEFAULTS)
        assert not unknown, unknown
        self.rng = rng
        self.p = {**DEFAULTS, **prof}
        self.n = 0
        self.words = set()

    def chance(self, p):
        return self.rng.random() < p

    # ------------------------------------------------------------------ declarations

    def struct(self, depth=0, nonempty=True, names=None, allow_eof=True):
        """A structure declaration."""
        r = self.rng
        self.n += 1
        st = _Build(self, depth, names or f"f{'abcdefgh'[min(depth, 7)]}{self.n}_")
        nf = r.randint(self.p["minfields"], self.p["maxfields"] if depth == 0 else 3)
        meta = {}
        if self.chance(self.p["meta"]):
            if self.chance(0.7):
                meta["endian"] = r.choice(["big", "little"])
            if self.chance(0.3):
                meta[r.choice(["UInt16", "Int32", "Float32", "Integer", "Timestamp32", "UInt64"]) + "__endian"] = (
                    r.choice(["big", "little"]))
            if self.chance(0.5):
                meta["encoding"] = r.choice(["utf-8", "utf-16-le", "cp500", "utf-16-be", "ascii"])
            if self.chance(0.2):
                meta["StringZ__encoding"] = r.choice(["utf-8", "utf-16-le", "utf-32-be"])
        st.meta = meta
        split = None
        if self.chance(self.p["inherit"]) and nf >= 2:
            split = r.randint(1, nf - 1)
        base_fields = None
        for i in range(nf):
            if split is not None and i == split:
                base_fields = list(st.fields)
                st.start_child()
            st.add(last=(i == nf - 1), nonempty=(nonempty and i == 0), allow_eof=allow_eof and depth == 0)
        if depth == 0 and allow_eof and self.p["eof"] and self.p["arrays"] and self.chance(0.2):
            st.add_array(eof=True)
        styles = ["assign", "assign", "pep526", "annotated"] if self.p["styles"] else ["assign"]
        name = f"S{self.n}_{depth}"
        if base_fields is not None and base_fields != st.fields:
            base = S(name + "B", base_fields, None, r.choice(styles), meta)
            return S(name, st.fields[len(base_fields):], base, r.choice(styles), st.meta if st.meta is not meta else {})
        return S(name, st.fields, None, r.choice(styles), meta)

    def ctx(self):
        if self.chance(0.15):
            return None
        return {k: self.chance(0.6) for k in CTX_KEYS}

    # plain kinds ---------------------------------------------------------------

    def int_field(self, name, meta=None, size=None, signed=None):
        r = self.rng
        size = size or r.choice([1, 1, 2, 2, 4, 4, 8, 8, 3, 5, 7, 12, 16])
        signed = self.chance(0.5) if signed is None else signed
        p = {"size": size, "signed": signed, "endian": r.choice(["big", "little"])}
        via = INT_VIA.get((size, signed))
        if via is None or self.chance(0.2):
            via = "Integer" if signed or self.chance(0.5) else "UnsignedInteger"
        p["via"] = via
        self.endian(p, via, meta)
        return F("int", name, p)

    def endian(self, p, cls, meta):
        """With some chance leave the byte order to the structure's or the machine's default."""
        if self.chance(0.35 if meta is None or not meta else 0.6):
            import sys

            p["endian_default"] = True
            meta = meta or {}
            p["endian"] = meta.get(cls + "__endian", meta.get("endian", sys.byteorder))

    def float_field(self, name, meta=None):
        size = self.rng.choice([2, 4, 8])
        p = {"size": size, "endian": self.rng.choice(["big", "little"])}
        self.endian(p, FLOAT_CLS[size], meta)
        return F("float", name, p)

    def ts_field(self, name, meta=None):
        r = self.rng
        size, via = r.choice([(4, "Timestamp32"), (8, "Timestamp64"), (8, "Timestamp"), (6, "Timestamp"),
                              (12, "Timestamp")])
        p = {"size": size, "via": via, "res": r.choice(["s", "ms", "us", "ns"]), "aware": self.chance(0.5),
             "signed": self.chance(0.7), "endian": r.choice(["big", "little"])}
        self.endian(p, via, meta)
        return F("ts", name, p)

    def vli_field(self, name):
        p = {"enc": self.rng.choice(["vlq", "leb128", "uleb128", "compact"])}
        if self.chance(0.3):
            p["max"] = self.rng.randint(1, 10)
        return F("vli", name, p)

    def uuid_field(self, name):
        return F("uuid", name, {"fmt": self.rng.choice(["v1", "v2", "canon", "hex"])})

    def bytes_field(self, name, size=None):
        return F("bytes", name, {"size": size if size is not None else self.rng.choice([0, 1, 2, 3, 5, 9])})

    def encoding(self):
        x = self.rng.random()
        if self.p["encs"] == "ascii_ok":
            return self.rng.choice(sorted(ASCII_OK))
        if x < self.p["stateful"]:
            return self.rng.choice(sorted(STATEFUL))
        if x < 0.5:
            return self.rng.choice(["iso-8859-1", "utf-8", "utf-16-le", "ascii"])
        return self.rng.choice(sorted({**SINGLE, **MULTI, **EBCDIC}))

    def str_field(self, name, kind, meta=None, size="auto"):
        """size: auto (decide), None (unsized; strz only) or a ref tuple."""
        r = self.rng
        p = {"enc": self.encoding()}
        if self.chance(0.35):
            meta = meta or {}
            cls = "String" if kind == "str" else "StringZ"
            p["enc_default"] = True
            p["enc"] = meta.get(cls + "__encoding", meta.get("encoding", "iso-8859-1"))
        if self.chance(0.45):
            p["pad"] = r.choice([b"\0", b" ", b"\xff", b"x"])
        f = F(kind, name, p)
        if size == "auto":
            if kind == "strz" and self.chance(0.6):
                p.pop("pad", None)
                return f
            sample = self.text(p["enc"])
            n = len(ref.enc_text(sample + ("\0" if kind == "strz" else ""), p["enc"]))
            p["sample"] = sample
            if p.get("pad") is not None:
                n += r.choice([0, 0, 1, 2, 4])
            p["size"] = n
        elif size is not None:
            p["size"] = size
        else:
            p.pop("pad", None)
        return f

    # ------------------------------------------------------------------ values

    def text(self, enc, maxlen=6):
        chars = "abcXYZ019 " + ALL_ENC.get(enc, "") * 2
        while True:
            s = "".join(self.rng.choice(chars) for _ in range(self.rng.choice([0, 1, 1, 2, 3, maxlen])))
            try:
                if s.encode(enc).decode(enc) == s and (s + "\0").encode(enc).decode(enc) == s + "\0":
                    return s
            except UnicodeError:
                pass

    def int_value(self, size, signed):
        r = self.rng
        bits = 8 * size
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        x = r.random()
        if x < 0.3:
            return r.choice([lo, hi, 0, 1, hi - 1, lo + 1, -1 if signed else 1])
        if x < 0.6:
            k = r.randint(0, bits)
            return max(lo, min(hi, r.choice([1, -1]) * (1 << k) + r.choice([-1, 0, 1])))
        return r.randint(lo, hi)

    def vli_value(self, enc, maxb=None):
        r = self.rng
        while True:
            x = r.random()
            if x < 0.3:
                v = r.randint(0, 200)
            elif x < 0.8:
                v = (1 << r.randint(0, 80)) + r.choice([-1, 0, 1])
            else:
                v = r.getrandbits(r.randint(1, 140))
            if enc in ("leb128", "compact") and self.chance(0.5):
                v = -v
            if maxb is None or len(ref.vli_bytes(enc, v)) <= maxb:
                return v

    def float_value(self, size, odd=None):
        r = self.rng
        x = r.random()
        if x < 0.2:
            return r.choice([0.0, -0.0, 1.0, -1.5, math.inf, -math.inf, math.nan])
        if self.chance(self.p["odd_float"] if odd is None else odd):  # not exactly representable
            v = r.choice([0.1, math.pi, 1 / 3, 1e-8, -2.7182818284])
            return v
        n = size
        while True:
            v = ref.bytes_float(r.randbytes(n), "big")
            if not math.isnan(v):
                return v

    def ts_value(self, f, sub=None):
        p = f.p
        r = self.rng
        bits = 8 * p["size"]
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if p["signed"] else (0, (1 << bits) - 1)
        u = ref.UNITS[p["res"]]
        lo, hi = max(lo, -30_000_000_000 * u), min(hi, 250_000_000_000 * u)
        x = r.random()
        if x < 0.25:
            n = r.choice([lo, hi, 0, 1, -1 if lo < 0 else 2])
        elif x < 0.5:
            n = r.randint(max(lo, -10 * u), min(hi, 10 * u))
        else:
            n = r.randint(lo, hi)
        us = n * 10**6 // u
        dt = ref.EPOCH + datetime.timedelta(microseconds=us)
        if self.chance(self.p["sub_res"] if sub is None else sub):
            d2 = dt + datetime.timedelta(microseconds=r.randint(0, 999999))
            if lo <= ref.ts_units(d2, p["res"]) <= hi:
                dt = d2
        if not lo <= ref.ts_units(dt, p["res"]) <= hi:
            dt = ref.EPOCH
        return dt if p["aware"] else dt.replace(tzinfo=None)

    def fit_text(self, f, n):
        """Text for a string field that has to take up n bytes, or None."""
        enc, pad = f.p["enc"], f.p.get("pad")
        z = "\0" if f.kind == "strz" else ""
        for _ in range(25):
            s = self.text(enc)
            k = len(ref.enc_text(s + z, enc))
            if k == n or (k < n and pad is not None):
                return s
            if k < n and enc in ASCII_OK:
                return s + "q" * (n - k)
        s = f.p.get("sample")
        return s

    def plain_value(self, f, env):
        """A valid non-null value of a field. env: values of earlier/referenced fields."""
        k, p = f.kind, f.p
        r = self.rng
        if k == "int":
            return self.int_value(p["size"], p["signed"])
        if k == "float":
            return self.float_value(p["size"])
        if k == "ts":
            return self.ts_value(f)
        if k == "vli":
            return self.vli_value(p["enc"], p.get("max"))
        if k == "uuid":
            return uuid.UUID(int=r.choice([r.getrandbits(128), r.getrandbits(128), 0, 2**128 - 1]))
        if k == "bytes":
            n = ref.ref_size(f, env)
            return r.choice([r.randbytes(n), r.randbytes(n), bytes(n)])
        if k in ("str", "strz"):
            n = ref.ref_size(f, env)
            return self.text(p["enc"]) if n is None else self.fit_text(f, n)
        if k == "arr":
            c = p["count"]
            if isinstance(c, int):
                n = c
            elif isinstance(c, tuple) and c[0] == "ref":
                n = env[c[1]]
            elif isinstance(c, tuple):
                return self.halted_value(f, c[1], env)
            else:
                n = r.choice([0, 1, 2, 5])
            return [self.any_value(p["comp"], env) for _ in range(n)]
        if k == "nest":
            return self.given(p["struct"], env["__ctx__"])
        if k == "union":
            c = p["choices"][ref.union_index(f, env)]
            if isinstance(c, S):
                return self.named(c, self.given(c, env["__ctx__"]), env["__ctx__"])
            v = self.any_value(c, env, nulls=False)
            return self.named_within(c, v, env["__ctx__"])
        raise AssertionError(k)

    def named_within(self, c, v, ctx):
        if c.kind == "nest" and isinstance(v, dict):
            return self.named(c.p["struct"], v, ctx)
        if c.kind == "arr" and isinstance(v, list):
            return [self.named_within(c.p["comp"], x, ctx) for x in v]
        return v

    @staticmethod
    def named(s, given, ctx):
        """At least one explicit value, so that it is apparent which structure the values are for."""
        if given:
            return given
        for name, v in ref.resolve(s, given, ctx).items():
            if v is not ABSENT and "compute" not in s.get(name).o:
                return {name: v}
        raise GiveUp()

    def halted_value(self, f, h, env):
        comp = f.p["comp"]
        n = self.rng.choice([0, 1, 2, 4])
        if h[0] == "upto":
            return [self.any_value(comp, env) for _ in range(h[1])]
        if h[0] == "last":
            out = []
            while len(out) < n:
                v = self.any_value(comp, env)
                if v != h[1]:
                    out.append(v)
            return [*out, h[1]]
        out = []
        for _ in range(50):
            if len(out) >= n:
                break
            v = self.any_value(comp, env)
            ctx = env["__ctx__"]
            if ref.encode_field(comp, ref.normal(comp, v, ctx, env), env, ctx)[:1] != bytes([h[1]]):
                out.append(v)
        return out

    def any_value(self, f, env, nulls=True):
        if nulls and "null" in f.o and self.chance(0.3):
            return None
        if "const" in f.o:
            return f.o["const"]
        return self.plain_value(f, env)

    def given(self, s, ctx, omit=0.5):
        """Explicit values for a structure; everything omitted is resolved by the declaration.

        The result always encodes (unless a string cannot be fitted; then it is retried)."""
        for _ in range(30):
            g = self._given(s, ctx, omit)
            if g is None:
                continue
            try:
                full = ref.resolve(s, g, ctx)
                ref.encode_struct(s, full, ctx)
                return g
            except (ref.Rej, TypeError):
                continue
        raise GiveUp()

    def _given(self, s, ctx, omit):
        env = {"__ctx__": ctx}
        fields = s.fields
        byname = {f.name: f for f in fields}
        # 1. fields that refer to nothing and that others refer to
        targets = {}
        for f in fields:
            for role, name in refs_of(f):
                targets.setdefault(name, []).append((role, f))
        for f in fields:
            if f.name in targets:
                role, t = targets[f.name][0]
                if "const" in f.o:
                    env[f.name] = f.o["const"]
                elif role == "size" or role == "count":
                    n = self.role_size(role, t, env)
                    env[f.name] = n
                    if "compute" not in f.o and "default" in f.o and self.chance(0.3):
                        env[f.name] = f.o["default"]
                else:
                    env[f.name] = self.plain_value(f, env)
        given = {}
        for f in fields:
            if f.name in env:
                v = env[f.name]
            elif "compute" in f.o:
                v = UNSET
            else:
                if "default" in f.o and self.chance(omit * 0.6):
                    v = f.o["default"]
                elif "factory" in f.o and self.chance(omit * 0.6):
                    v = f.o["factory"]
                else:
                    v = self.any_value(f, env)
                env[f.name] = v
            # now decide whether it is handed over explicitly
            if v is UNSET:
                continue
            if "present" in f.o:
                c = f.o["present"]
                if c[0] == "peek":
                    if self.chance(0.5):
                        given[f.name] = ABSENT
                        continue
                elif not ref.cond(f, env, ctx):
                    if self.chance(0.5):
                        continue
                    given[f.name] = v if self.chance(0.7) else ABSENT
                    continue
            resolved = f.o.get("default", f.o.get("factory", f.o.get("const", UNSET)))
            if resolved is not UNSET and _eq(resolved, v) and self.chance(0.7):
                continue
            if "compute" in f.o and self.chance(0.7):
                continue
            given[f.name] = v
        for f in fields:
            if "compute" in f.o and f.name not in given and f.o["compute"][0] == "sum":
                pass
        del byname
        return given

    def role_size(self, role, t, env):
        """Pick the value of a size/count field from the first field that uses it."""
        if role == "count":
            return self.rng.choice([0, 1, 2, 3, 5])
        if t.kind in ("str", "strz"):
            s = self.text(t.p["enc"])
            n = len(ref.enc_text(s + ("\0" if t.kind == "strz" else ""), t.p["enc"]))
            t.p["sample"] = s
            if t.p.get("pad") is not None and not self.has_enclen(t):
                n += self.rng.choice([0, 1, 2])
            return n
        return self.rng.choice([0, 1, 2, 4, 7])

    @staticmethod
    def has_enclen(t):
        return t.p.get("enclen")


class GiveUp(Exception):
    pass


def _eq(a, b):
    return a is b or (type(a) is type(b) and a == b)


def refs_of(f):
    """(role, name) pairs of the fields of the same structure that f depends on."""
    out = []
    if isinstance(f.p.get("size"), tuple):
        out.append(("size", f.p["size"][1]))
    if f.kind == "arr":
        if isinstance(f.p["count"], tuple) and f.p["count"][0] == "ref":
            out.append(("count", f.p["count"][1]))
        out += refs_of(f.p["comp"])
    if f.kind == "union":
        out.append(("tag", f.p["tag"]))
        for c in f.p["choices"]:
            if isinstance(c, F):
                out += refs_of(c)
    if f.o.get("present", ("",))[0] == "flag":
        out.append(("flag", f.o["present"][1]))
    return out


class _Build:
    """Accumulates the fields of one structure."""

    def __init__(self, gen, depth, prefix):
        self.g = gen
        self.depth = depth
        self.prefix = prefix
        self.names = []
        self.fields = []
        self.meta = {}
        self.roles = {}  # role -> names of usable fields
        self.used = {}

    def start_child(self):
        if self.meta and self.g.chance(0.3):
            self.meta = {"endian": self.g.rng.choice(["big", "little"])}

    def name(self):
        """The name of the next field; sometimes a word that the library uses itself."""
        i = len(self.fields)
        while len(self.names) <= i:
            word = self.g.rng.choice(WORDS) if self.g.chance(0.15) else None
            if word is None or word in self.g.words:
                word = f"{self.prefix}{len(self.names)}"
            self.g.words.add(word)
            self.names.append(word)
        return self.names[i]

    def push(self, f):
        self.fields.append(f)
        return f

    def role_int(self, role):
        """A field usable as size, count, flag or tag; reused sometimes."""
        g = self.g
        have = self.roles.setdefault(role, [])
        if have and g.chance(0.4) and role in ("flag", "tag", "count"):
            return g.rng.choice(have)
        if role in ("size", "count") and g.chance(0.3):
            f = F("vli", self.name(), {"enc": g.rng.choice(["vlq", "uleb128"])})
        else:
            f = g.int_field(self.name(), self.meta, size=g.rng.choice([1, 1, 2, 4]), signed=g.chance(0.25))
        if not g.p["redumpable"] and g.chance(g.p["discards"]):
            f.o["discard"] = True
        self.push(f)
        have.append(f.name)
        return f.name

    def refform(self):
        return self.g.rng.choice(["obj", "name"])

    def options(self, f, nulls=True, cond=True, consts=True):
        g, r, p = self.g, self.g.rng, self.g.p
        simple = f.kind in ("int", "float", "ts", "vli", "bytes", "str", "strz", "uuid")
        has_ref = bool(refs_of(f))
        if consts and simple and not has_ref and g.chance(p["consts"]):
            v = self.const_value(f)
            if v is not UNSET:
                f.o["const"] = v
                if f.kind in ("bytes",) and g.chance(0.5):
                    f.p.pop("size")
                if f.kind in ("str", "strz"):
                    if g.chance(0.5) and not (f.p.get("enc_default") and f.kind == "strz"):
                        f.p.pop("size", None)
                        f.p.pop("pad", None)
        elif not has_ref and f.kind != "union" and g.chance(p["defaults"]):
            how = "factory" if f.kind == "nest" or g.chance(0.4) else "default"
            try:
                f.o[how] = g.any_value(f, {"__ctx__": None}, nulls=False)
                if f.kind == "nest" and uses_ctx(f.p["struct"]):
                    f.o.pop(how)
            except GiveUp:
                f.o.pop(how, None)
        if nulls and "const" not in f.o and g.chance(p["nulls"]):
            self.null(f)
        if not p["redumpable"] and g.chance(p["discards"]):
            f.o["discard"] = True
        if cond and g.chance(p["conds"]):
            self.condition(f)
        if "present" in f.o and simple and g.chance(p["np"]) and "discard" not in f.o and not has_ref:
            f.o["np"] = g.any_value(f, {"__ctx__": None}, nulls=False) if g.chance(0.7) else None
        self.short(f)
        return f

    def short(self, f):
        """Whether a bare class can be used as the annotation."""
        o = set(f.o)
        if not o <= {"factory" if f.kind == "nest" else "default", "null"} or ("null" in f.o and f.o["null"] != ("zero",)):
            return
        ok = False
        if f.kind == "int":
            ok = f.p.get("endian_default") and f.p["via"] not in ("Integer", "UnsignedInteger")
        elif f.kind == "float":
            ok = f.p.get("endian_default")
        elif f.kind == "ts":
            ok = (f.p.get("endian_default") and f.p["via"] != "Timestamp" and f.p["res"] == "s"
                  and not f.p["aware"] and f.p["signed"])
        elif f.kind == "strz":
            ok = f.p.get("enc_default") and f.p.get("size") is None and "null" not in f.o
        elif f.kind == "nest":
            ok = True
        if ok and self.g.chance(0.7):
            f.p["short"] = True

    def const_value(self, f):
        g = self.g
        if f.kind == "float":
            return g.rng.choice([1.0, -2.5, math.inf, 0.5])
        if f.kind in ("str", "strz"):
            if f.p.get("enc_default") or f.p.get("size") is None:
                t = g.text(f.p["enc"]) if not f.p.get("enc_default") else g.rng.choice(["a", "xyz", ""])
                try:
                    f.p["size"] = len(ref.enc_text(t + ("\0" if f.kind == "strz" else ""), f.p["enc"]))
                except ref.Rej:
                    return UNSET
                f.p.pop("pad", None)
                return t
            f.p.pop("pad", None)
            t = f.p["sample"]
            f.p["size"] = len(ref.enc_text(t + ("\0" if f.kind == "strz" else ""), f.p["enc"]))
            return t
        if f.kind == "ts":
            return g.ts_value(f, sub=0)
        return g.plain_value(f, {})

    def null(self, f):
        g, r = self.g, self.g.rng
        size = ref.plain_size(f)
        x = r.random()
        if size is not None and x < 0.3 and f.kind != "nest":
            f.o["null"] = ("zero",)
            return
        if isinstance(f.p.get("size"), tuple) and x < 0.3 and f.kind == "bytes":
            f.o["null"] = ("zero",)
            return
        if x < 0.65 and f.kind in ("int", "float", "vli", "strz", "uuid", "ts", "str") and not refs_of(f):
            if f.kind == "float":
                v = r.choice([-1.0, 65504.0, math.inf] + [math.nan, -0.0] * bool(g.p["nan_nulls"]))
            elif f.kind == "strz" and f.p.get("pad") is not None:
                v = f.p["sample"]
            elif f.kind == "ts":
                v = g.ts_value(f, sub=0)
            else:
                v = g.plain_value(f, {"__ctx__": None})
            f.o["null"] = ("val", v)
            return
        if size and x < 0.85:
            f.o["null"] = ("raw", r.choice([bytes(size), b"\xff" * size, r.randbytes(size)]))
        elif size != 0 or True:
            f.o["null"] = ("raw", r.choice([b"\xff", b"\0", b"NUL", b"\\N\0", r.randbytes(r.randint(1, 6))]))

    def condition(self, f):
        g, r = self.g, self.g.rng
        x = r.random()
        if x < 0.2 and g.p["ctx"]:
            f.o["present"] = ("ctx", r.choice(CTX_KEYS))
        elif x < 0.3:
            f.o["present"] = ("fixed", g.chance(0.5))
        else:
            # the flag field has to come first
            if f.name != self.name():
                return
            flag = self.role_int("flag")
            f.name = self.name()
            f.o["present"] = ("flag", flag, r.choice([1, 2, 4, 0x80, 3]))

    # ---- composite

    def add(self, last=False, nonempty=False, allow_eof=True):
        g, r, p = self.g, self.g.rng, self.g.p
        if nonempty:
            f = r.choice([lambda n: g.int_field(n, self.meta), g.vli_field, g.uuid_field])(self.name())
            f = self.options(f, cond=False)
            return self.push(f)
        kinds = ["int"] * 4 + ["float", "vli", "bytes", "uuid"]
        if p["ts"]:
            kinds.append("ts")
        if p["strings"]:
            kinds += ["str", "str", "strz", "strz"]
        if p["arrays"]:
            kinds += ["arr", "arr", "arr"]
        if p["nested"] and self.depth < p["maxdepth"]:
            kinds += ["nest", "nest"]
        if p["unions"] and self.depth < p["maxdepth"]:
            kinds += ["union"]
        if p["refs"]:
            kinds += ["refbytes", "refstr", "sum"]
        if p["peek"]:
            kinds += ["peek"]
        k = r.choice(kinds)
        if k == "arr":
            return self.add_array()
        if k == "refbytes":
            size = self.role_int("size")
            self.roles["size"].remove(size)
            f = F("bytes", self.name(), {"size": ("ref", size, self.refform())})
            self.maybe_compute(size, ("len", f.name))
            computed = "compute" in self.byname(size).o
            return self.push(self.options(f, nulls=not computed, cond=not computed))
        if k == "refstr":
            size = self.role_int("size")
            self.roles["size"].remove(size)
            f = g.str_field(self.name(), r.choice(["str", "strz"]), self.meta, ("ref", size, self.refform()))
            self.maybe_compute(size, ("enclen", f.name, f.p["enc"], f.kind == "strz"))
            computed = "compute" in self.byname(size).o
            f.p["enclen"] = computed
            return self.push(self.options(f, nulls=not computed, cond=not computed))
        if k == "sum":
            ints = [x.name for x in self.fields if x.kind in ("int", "vli") and not x.p.get("signed")
                    and "present" not in x.o and "null" not in x.o and "compute" not in x.o
                    and x.p.get("enc") not in ("leb128", "compact")]
            if not ints:
                k = "int"
            else:
                f = g.int_field(self.name(), self.meta, size=2, signed=False)
                f.o["compute"] = ("sum", r.sample(ints, r.randint(1, len(ints))), 251)
                if g.chance(p["conds"]):
                    self.condition(f)
                return self.push(f)
        if k == "peek":
            b = r.randrange(256)
            f = F("int", self.name(), {"size": 1, "signed": False, "endian": "big", "via": "UInt8"})
            f.o.update({"const": b, "present": ("peek", b)})
            return self.push(f)
        if k == "nest":
            st = self.hollow() if g.chance(0.08) else g.struct(self.depth + 1, nonempty=True, allow_eof=False)
            return self.push(self.options(F("nest", self.name(), {"struct": st})))
        if k == "union":
            tag = self.role_int("tag")
            return self.push(self.options(self.union(self.name(), tag)))
        f = self.scalar(k, self.name())
        return self.push(self.options(f))

    def hollow(self):
        """A structure that takes up no bytes."""
        g = self.g
        g.n += 1
        pre = f"e{g.n}_"
        fs = [r for r in (F("bytes", pre + "a", {"size": 0}), F("arr", pre + "b", {"comp": self.element(None), "count": 0}),
                          F("int", pre + "c", {"size": 1, "signed": False, "endian": "big", "via": "UInt8"},
                            {"present": ("fixed", False), "discard": True})) if g.chance(0.5)]
        return S(f"E{g.n}", fs or [F("bytes", pre + "a", {"size": 0})], None, "assign", {})

    def byname(self, name):
        return next(f for f in self.fields if f.name == name)

    def maybe_compute(self, name, how):
        f = self.byname(name)
        if self.g.chance(self.g.p["computed"]):
            f.o["compute"] = how

    def scalar(self, k, name, meta="own"):
        g = self.g
        m = self.meta if meta == "own" else None
        if k == "int":
            return g.int_field(name, m)
        if k == "float":
            return g.float_field(name, m)
        if k == "ts":
            return g.ts_field(name, m)
        if k == "vli":
            return g.vli_field(name)
        if k == "uuid":
            return g.uuid_field(name)
        if k == "bytes":
            return g.bytes_field(name)
        return g.str_field(name, k, m)

    def element(self, name, depth=0):
        """An array component or union alternative taking at least one byte."""
        g, r, p = self.g, self.g.rng, self.g.p
        kinds = ["int", "int", "float", "vli", "uuid", "bytes"]
        if p["ts"]:
            kinds.append("ts")
        if p["strings"]:
            kinds += ["str", "strz", "strz"]
        if p["nested"] and self.depth < p["maxdepth"]:
            kinds += ["nest", "nest"]
        if p["arrays"] and depth == 0:
            kinds += ["arr"]
        k = r.choice(kinds)
        if k == "nest":
            f = F("nest", name, {"struct": g.struct(self.depth + 1, nonempty=True, allow_eof=False)})
        elif k == "arr":
            f = F("arr", name, {"comp": self.element(None, depth + 1), "count": r.randint(1, 3)})
            if g.chance(0.3) and f.p["comp"].kind == "int" and not {"null", "const"} & set(f.p["comp"].o):
                f.p["count"] = ("halt", ("last", g.plain_value(f.p["comp"], {})))
        elif k == "bytes":
            f = g.bytes_field(name, size=r.choice([1, 2, 5]))
        else:
            f = self.scalar(k, name, meta=None)
            if k == "str" and f.p["size"] == 0:
                f = g.int_field(name)
        if f.kind not in ("nest", "arr") and g.chance(p["consts"] * 0.6):
            v = self.const_value(f)
            if v is not UNSET and (f.kind != "str" or f.p["size"]):
                f.o["const"] = v
                return f
            if f.kind == "str" and not f.p["size"]:
                f = g.int_field(name)
        if g.chance(p["nulls"] * 0.6):
            self.null(f)
            if f.o["null"][0] == "val" and f.kind == "str":
                f.o.pop("null")
        return f

    def union(self, name, tag):
        g, r = self.g, self.g.rng
        choices = []
        for _ in range(r.randint(1, 3)):
            if g.chance(0.4) and g.p["nested"]:
                choices.append(g.struct(self.depth + 1, nonempty=True, allow_eof=False))
            else:
                c = self.element(None)
                if not g.p["own_null_choices"]:
                    c.o.pop("null", None)
                choices.append(c)
        return F("union", name, {"choices": choices, "tag": tag})

    def add_array(self, eof=False):
        g, r, p = self.g, self.g.rng, self.g.p
        x = r.random()
        if eof:
            f = F("arr", self.name(), {"comp": self.element(None), "count": None})
            # nothing may follow; no null, no condition
            return self.push(f)
        if x < 0.35 or not p["refs"] and x < 0.7:
            f = F("arr", self.name(), {"comp": None, "count": r.choice([0, 1, 2, 3])})
            f.p["comp"] = self.element(None)
            return self.push(self.options(f))
        if x < 0.7 and p["refs"]:
            cnt = self.role_int("count")
            comp = None
            if g.chance(0.2) and p["refs"]:
                size = self.role_int("size")
                self.roles["size"].remove(size)
                comp = F("bytes", None, {"size": ("ref", size, "name")})
            elif g.chance(0.15) and p["unions"] and self.depth < p["maxdepth"]:
                tag = self.role_int("tag")
                comp = self.union(None, tag)
            f = F("arr", self.name(), {"comp": comp or self.element(None), "count": ("ref", cnt, self.refform())})
            fresh = sum(1 for x in self.fields if any(n == cnt for _, n in refs_of(x))) == 0
            computed = "compute" in self.byname(cnt).o
            if fresh and not computed:
                self.maybe_compute(cnt, ("len", f.name))
                computed = "compute" in self.byname(cnt).o
                if computed:
                    self.roles["count"].remove(cnt)
            return self.push(self.options(f, nulls=not computed, cond=not computed))
        if not p["halts"]:
            return self.add()
        y = r.random()
        if y < 0.4:
            comp = g.int_field(None, None, size=r.choice([1, 2]))
            f = F("arr", self.name(), {"comp": comp, "count": ("halt", ("last", g.plain_value(comp, {})))})
        elif y < 0.7:
            f = F("arr", self.name(), {"comp": self.element(None), "count": ("halt", ("upto", r.randint(0, 3)))})
        else:
            b = r.randrange(256)
            f = F("arr", self.name(), {"comp": self.element(None), "count": ("halt", ("peek", b))})
            self.push(self.options(f, nulls=False))
            end = F("int", self.name(), {"size": 1, "signed": False, "endian": "big", "via": "UInt8"}, {"const": b})
            return self.push(end)
        return self.push(self.options(f, nulls=False))


def uses_ctx(s):
    from .spec import walk

    return any(f.o.get("present", ("",))[0] == "ctx" for f in walk(s))


def has_eof(s):
    return any(f.kind == "arr" and f.p["count"] is None for f in s.fields)


def features(s):
    """Names of the features a declaration uses, for evidence."""
    from .spec import walk

    out = set()
    for f in walk(s):
        out.add(f.kind)
        for k, v in f.o.items():
            out.add(f"{k}:{v[0]}" if k in ("null", "present", "compute") else k)
        if isinstance(f.p.get("size"), tuple):
            out.add("size-ref")
        if f.kind == "arr":
            c = f.p["count"]
            out.add("arr:" + ("eof" if c is None else "const" if isinstance(c, int) else c[0] if c[0] == "ref"
                              else c[1][0]))
    if s.base:
        out.add("inherit")
    out.add("style:" + s.style)
    return out


_ = _struct
