"""Reference codec: what the declaration means, computed without binobj.

Encoding and decoding work on plain values: numbers, str, bytes, UUID, datetime, list, and dict for nested
structures.  `Rej` is raised where the declaration says that the operation must be refused.
"""
import datetime
import math
import struct as _struct
import uuid

from .spec import ABSENT, F, S, UNSET


# Beyond these the reference gives up (kind "budget") and nothing is required of the library.
MAX_ELEMENTS = 20_000
MAX_NULL = 1 << 24


class Rej(Exception):
    """The operation must be refused."""

    def __init__(self, kind, field=None, pos=None, need=None):
        super().__init__(kind, field, pos, need)
        self.kind = kind
        self.field = field
        self.pos = pos
        self.need = need


# ---------------------------------------------------------------------------- integers


def int_bytes(v, size, signed, endian):
    lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed and size else (0, (1 << (8 * size)) - 1)
    if signed and size == 0:
        lo = hi = 0
    if not lo <= v <= hi:
        raise Rej("range")
    u = v + (1 << (8 * size)) if v < 0 else v
    out = []
    for i in range(size):
        out.append((u >> (8 * i)) % 256)
    if endian == "big":
        out.reverse()
    return bytes(out)


def bytes_int(b, signed, endian):
    seq = list(b) if endian == "big" else list(b)[::-1]
    u = 0
    for x in seq:
        u = u * 256 + x
    if signed and seq and seq[0] >= 128:
        u -= 1 << (8 * len(seq))
    return u


# ---------------------------------------------------------------------------- floats

_FL = {2: (5, 10), 4: (8, 23), 8: (11, 52)}
_FC = {2: "e", 4: "f", 8: "d"}


def bytes_float(b, endian):
    """IEEE-754 interchange format by arithmetic."""
    ebits, mbits = _FL[len(b)]
    u = bytes_int(b, False, endian)
    sign = -1.0 if u >> (ebits + mbits) else 1.0
    e = (u >> mbits) & ((1 << ebits) - 1)
    m = u & ((1 << mbits) - 1)
    bias = (1 << (ebits - 1)) - 1
    if e == (1 << ebits) - 1:
        return math.nan if m else sign * math.inf
    if e == 0:
        return sign * math.ldexp(m, 1 - bias - mbits)
    return sign * math.ldexp(m + (1 << mbits), e - bias - mbits)


def float_bytes(v, size, endian):
    try:
        b = _struct.pack(">" + _FC[size], v)
    except (OverflowError, _struct.error):
        raise Rej("range") from None
    return b if endian == "big" else b[::-1]


# ---------------------------------------------------------------------------- variable-length integers


def vli_bytes(enc, v):
    if enc in ("uleb128", "vlq"):
        if v < 0:
            raise Rej("range")
        groups = [v & 127]
        v >>= 7
        while v:
            groups.append(v & 127)
            v >>= 7
        if enc == "vlq":
            groups.reverse()
        return bytes([g | 128 for g in groups[:-1]] + [groups[-1]])
    if enc == "leb128":
        out = []
        while True:
            g = v & 127
            v >>= 7
            if (v == 0 and not g & 64) or (v == -1 and g & 64):
                out.append(g)
                return bytes(out)
            out.append(g | 128)
    # compact indices: first byte carries the sign and 6 bits, big-endian 7-bit groups follow
    neg, m = v < 0, abs(v)
    groups = []
    while m > 63:
        groups.append(m & 127)
        m >>= 7
    groups.append(m | (64 if neg else 0))
    groups.reverse()
    return bytes([g | 128 for g in groups[:-1]] + [groups[-1]])


LONGER = None  # source of randomness: use other encodings of variable-length integers than the shortest one


def longer(enc, b, rng):
    """Another encoding of the same integer (mostly)."""
    n = rng.choice([0, 1, 1, 2, 5])
    if enc == "vlq":
        return b"\x80" * n + b
    if enc == "compact":
        return b if n == 0 else bytes([b[0] & 64 | 128]) + b"\x80" * (n - 1) + (
            bytes([b[0] & 63 | b[0] & 128]) + b[1:])
    if n == 0:
        return b
    fill = 127 if enc == "leb128" and b[-1] & 64 else 0
    return b[:-1] + bytes([b[-1] | 128]) + bytes([fill | 128]) * (n - 1) + bytes([fill])


def vli_decode(enc, data, pos):
    end = pos
    while True:
        if end >= len(data):
            raise Rej("eof", pos=end, need=1)
        end += 1
        if data[end - 1] < 128:
            break
    g = [b & 127 for b in data[pos:end]]
    if enc == "uleb128":
        return sum(x << (7 * i) for i, x in enumerate(g)), end
    if enc == "leb128":
        u = sum(x << (7 * i) for i, x in enumerate(g))
        return (u - (1 << (7 * len(g))) if g[-1] & 64 else u), end
    if enc == "vlq":
        u = 0
        for x in g:
            u = u * 128 + x
        return u, end
    u = g[0] & 63
    for x in g[1:]:
        u = u * 128 + x
    return (-u if g[0] & 64 else u), end


# ---------------------------------------------------------------------------- timestamps

EPOCH = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
UNITS = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}


def ts_units(dt, res):
    """Whole units since the epoch. Naive values are local time; the general checks run with TZ=UTC."""
    if dt.tzinfo is None:
        dt = dt.replace(tzinfo=datetime.timezone.utc)
    us = (dt - EPOCH) // datetime.timedelta(microseconds=1)
    n = abs(us) * UNITS[res] // 10**6
    return -n if us < 0 else n


def units_ts(n, res, aware):
    us = n * 10**6 // UNITS[res]
    try:
        dt = EPOCH + datetime.timedelta(microseconds=us)
    except OverflowError:
        raise Rej("range") from None
    return dt if aware else dt.replace(tzinfo=None)


# ---------------------------------------------------------------------------- text


def enc_text(s, enc):
    try:
        return s.encode(enc)
    except UnicodeError:
        raise Rej("encode") from None


def dec_text(b, enc):
    try:
        return b.decode(enc)
    except UnicodeError:
        raise Rej("decode") from None


BOMS = {"utf-16": (b"\xff\xfe", b"\xfe\xff"), "utf-32": (b"\xff\xfe\0\0", b"\0\0\xfe\xff")}


def find_terminated(data, pos, limit, enc):
    """Shortest prefix that decodes, as a whole, to text ending in NUL."""
    boms = BOMS.get(enc)
    if boms and data[pos:pos + len(boms[0])] not in boms:
        return None
    for end in range(pos + 1, limit + 1):
        try:
            t = data[pos:end].decode(enc)
        except UnicodeError:
            continue
        if t.endswith("\0"):
            return t[:-1], end
    return None


# ---------------------------------------------------------------------------- static facts


def static_size(x):
    """Size in bytes when every serialization has the same, else None."""
    if isinstance(x, S):
        total = 0
        for f in x.fields:
            n = static_size(f)
            if n is None:
                return None
            total += n
        return total
    f = x
    if "present" in f.o or f.kind == "vli":  # (longer encodings of a constant are accepted)
        return None
    n = plain_size(f)
    if n is not None and f.o.get("null", ("",))[0] == "raw" and len(f.o["null"][1]) != n:
        return None
    return n


def plain_size(f):
    k, p = f.kind, f.p
    if k in ("int", "float", "ts"):
        return p["size"]
    if k == "uuid":
        return {"v1": 16, "v2": 16, "canon": 36, "hex": 32}[p["fmt"]]
    if k in ("bytes", "str", "strz", "vli"):
        if isinstance(p.get("size"), int):
            return p["size"]
        if "const" in f.o and p.get("size") is None:
            return len(enc_plain(f, f.o["const"], {}, None))
        return None
    if k == "arr":
        n = static_size(p["comp"])
        if isinstance(p["count"], int) and n is not None:
            return n * p["count"]
        return None
    if k == "nest":
        return static_size(p["struct"])
    return None


def static_offset(s, name):
    off = 0
    for f in s.fields:
        if f.name == name:
            return off
        n = static_size(f)
        if n is None:
            return None
        off += n
    raise KeyError(name)


# ---------------------------------------------------------------------------- resolution


def cond(f, env, ctx, peeked=None):
    """Presence. `peeked` is the byte at the read position on load, None on dump."""
    c = f.o.get("present")
    if c is None:
        return True
    if c[0] == "flag":
        return bool(env[c[1]] & c[2])
    if c[0] == "ctx":
        return bool(ctx is not None and ctx.get(c[1]))
    if c[0] == "peek":
        return peeked is None or peeked == bytes([c[1]])
    if c[0] == "fixed":
        return c[1]
    raise AssertionError(c)


def compute(c, val):
    if c[0] == "len":
        return len(val(c[1]))
    if c[0] == "enclen":
        return len(enc_text(val(c[1]) + ("\0" if c[3] else ""), c[2]))
    if c[0] == "sum":
        return sum(val(n) for n in c[1]) % c[2]
    raise AssertionError(c)


def resolve(s, given, ctx, partial=False):
    """Given values (dict) -> the value each field is dumped with (ABSENT if not present).

    partial: fields that have no value are left out instead of making it fail."""
    given = {k: v for k, v in given.items() if v is not UNSET}
    out, busy = {}, set()

    def val(name):
        if name in out:
            return out[name]
        f = s.get(name)
        if name in busy:
            raise AssertionError("cyclic")
        busy.add(name)
        v = UNSET
        if name in given:
            v = given[name]
        elif "default" in f.o:
            v = f.o["default"]
        elif "factory" in f.o:
            v = f.o["factory"]
        elif "const" in f.o:
            v = f.o["const"]
        if v is not ABSENT:
            c = f.o.get("present")
            if not cond(f, {c[1]: val(c[1])} if c and c[0] == "flag" else {}, ctx):
                v = ABSENT
            elif v is UNSET and "compute" in f.o:
                v = compute(f.o["compute"], val)
            elif v is UNSET:
                raise Rej("missing", name)
        out[name] = v
        return v

    for f in s.fields:
        try:
            val(f.name)
        except Rej as e:
            if not partial or e.kind != "missing":
                raise
            busy.clear()
    return {f.name: normal(f, out[f.name], ctx, out) for f in s.fields if f.name in out}


def normal(f, v, ctx, env):
    """Resolve nested structures inside a value."""
    if v is None or v is ABSENT:
        return v
    if f.kind == "nest":
        return resolve(f.p["struct"], v, ctx)
    if f.kind == "arr":
        return [normal(f.p["comp"], x, ctx, env) for x in v]
    if f.kind == "union":
        c = f.p["choices"][union_index(f, env)]
        return resolve(c, v, ctx) if isinstance(c, S) else normal(c, v, ctx, env)
    return v


# ---------------------------------------------------------------------------- encoding


def ref_size(f, env):
    n = f.p.get("size")
    if isinstance(n, tuple):
        return env[n[1]]
    return n


def ref_count(f, env):
    n = f.p.get("count")
    if isinstance(n, tuple):
        return None if n[0] == "halt" else env[n[1]]
    return n


def null_repr(f, env, ctx):
    n = f.o.get("null")
    if n is None:
        raise Rej("null", f.name)
    if n[0] == "raw":
        return n[1]
    if n[0] == "val":
        return enc_plain(f, n[1], env, ctx)
    size = plain_size(f)
    if size is None:
        size = ref_size(f, env)
    if not 0 <= size <= MAX_NULL:
        raise Rej("budget" if size > 0 else "negative")
    return bytes(size)


def encode_struct(s, full, ctx):
    """(bytes, [(name, start, end)]) for a resolved structure."""
    out, spans = b"", []
    for f in s.fields:
        v = full[f.name]
        if v is ABSENT:
            continue
        try:
            b = encode_field(f, v, full, ctx)
        except Rej as e:
            e.path = [f.name, *getattr(e, "path", [])]
            if e.field is None:
                e.field = f.name
            raise
        spans.append((f.name, len(out), len(out) + len(b)))
        out += b
    return out, spans


def encode_field(f, v, env, ctx):
    if v is None:
        return null_repr(f, env, ctx)
    b = enc_plain(f, v, env, ctx)
    if LONGER is not None and f.kind == "vli":
        return longer(f.p["enc"], b, LONGER)
    size = plain_size(f)
    if size is None:
        size = ref_size(f, env)
    if size is not None and len(b) != size:
        raise Rej("size")
    return b


def pad_to(b, size, pad):
    if len(b) > size:
        raise Rej("size")
    if len(b) < size:
        if pad is None:
            raise Rej("size")
        b += pad * (size - len(b))
    return b


def enc_plain(f, v, env, ctx):
    k, p = f.kind, f.p
    if k == "int":
        return int_bytes(v, p["size"], p["signed"], p["endian"])
    if k == "float":
        return float_bytes(v, p["size"], p["endian"])
    if k == "ts":
        return int_bytes(ts_units(v, p["res"]), p["size"], p["signed"], p["endian"])
    if k == "vli":
        b = vli_bytes(p["enc"], v)
        if p.get("max") is not None and len(b) > p["max"]:
            raise Rej("size")
        return b
    if k == "bytes":
        n = ref_size(f, env)
        if n is not None and len(v) != n:
            raise Rej("size")
        return v
    if k == "str":
        n = ref_size(f, env)
        b = enc_text(v, p["enc"])
        return b if n is None else pad_to(b, n, p.get("pad"))
    if k == "strz":
        if "\0" in v:
            raise Rej("nul")
        n = ref_size(f, env)
        b = enc_text(v + "\0", p["enc"])
        return b if n is None else pad_to(b, n, p.get("pad"))
    if k == "uuid":
        x = v.int
        if p["fmt"] == "v1":
            return int_bytes(x, 16, False, "big")
        if p["fmt"] == "v2":
            return (
                int_bytes(x >> 96, 4, False, "little") + int_bytes((x >> 80) & 0xFFFF, 2, False, "little")
                + int_bytes((x >> 64) & 0xFFFF, 2, False, "little") + int_bytes(x & (2**64 - 1), 8, False, "big")
            )
        h = f"{x:032x}"
        if p["fmt"] == "canon":
            h = "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))
        return h.encode("ascii")
    if k == "arr":
        n = ref_count(f, env)
        if n is not None and len(v) != n:
            raise Rej("count")
        return b"".join(encode_field(p["comp"], x, env, ctx) for x in v)
    if k == "nest":
        return encode_struct(p["struct"], v, ctx)[0]
    if k == "union":
        c = p["choices"][union_index(f, env)]
        if isinstance(c, S):
            return encode_struct(c, v, ctx)[0]
        return encode_field(c, v, env, ctx)
    raise AssertionError(k)


def union_index(f, env):
    return env[f.p["tag"]] % len(f.p["choices"])


def approx_struct(s, full, ctx):
    return {f.name: f.o.get("np", ABSENT) if full[f.name] is ABSENT else approx(f, full[f.name], full, ctx)
            for f in s.fields}


def approx(f, v, env, ctx):
    """What a dumped value is documented to come back as."""
    k, p = f.kind, f.p
    if v is None:
        return None
    if k == "float":
        return bytes_float(float_bytes(v, p["size"], "big"), "big")
    if k == "ts":
        return units_ts(ts_units(v, p["res"]), p["res"], p["aware"])
    if k == "str" and p.get("pad") is not None:
        try:
            return enc_plain(f, v, env, ctx).decode(p["enc"])
        except UnicodeError:
            return v
    if k == "arr":
        return [approx(p["comp"], x, env, ctx) for x in v]
    if k == "nest":
        return approx_struct(p["struct"], v, ctx)
    if k == "union":
        c = p["choices"][union_index(f, env)]
        return approx_struct(c, v, ctx) if isinstance(c, S) else approx(c, v, env, ctx)
    return v


# ---------------------------------------------------------------------------- decoding


def decode_struct(s, data, pos, ctx, trace=None):
    """(values, end). Values include discarded fields; ABSENT -> the declared stand-in."""
    env = {}
    for f in s.fields:
        try:
            v, end = decode_field(f, data, pos, env, ctx)
        except Rej as e:
            e.path = [f.name, *getattr(e, "path", [])]
            if e.field is None:
                e.field = f.name
            raise
        if trace is not None:
            trace.append((f.name, pos, end, v))
        env[f.name] = v
        pos = end
    return env, pos


def decode_field(f, data, pos, env, ctx):
    if not cond(f, env, ctx, data[pos:pos + 1]):
        return f.o.get("np", ABSENT), pos
    if "null" in f.o:
        r = null_repr(f, env, ctx)
        if data[pos:pos + len(r)] == r:
            return None, pos + len(r)
    v, end = dec_plain(f, data, pos, env, ctx)
    if "null" in f.o and f.o["null"][0] in ("val", "raw") and v == f.o["null"][1]:
        v = None
    if "const" in f.o and v != f.o["const"]:
        raise Rej("const", f.name)
    return v, end


def take(data, pos, n):
    if n < 0:
        raise Rej("negative")
    if pos + n > len(data):
        raise Rej("eof", pos=pos, need=n)
    return data[pos:pos + n], pos + n


def dec_plain(f, data, pos, env, ctx):
    k, p = f.kind, f.p
    if k in ("int", "float", "ts"):
        b, end = take(data, pos, p["size"])
        if k == "float":
            return bytes_float(b, p["endian"]), end
        n = bytes_int(b, p["signed"], p["endian"])
        return (n if k == "int" else units_ts(n, p["res"], p["aware"])), end
    if k == "vli":
        return vli_decode(p["enc"], data, pos)
    if k in ("bytes", "str"):
        n = ref_size(f, env)
        if n is None:
            n = plain_size(f)
        b, end = take(data, pos, n)
        return (b if k == "bytes" else dec_text(b, p["enc"])), end
    if k == "strz":
        n = ref_size(f, env)
        if n is None and "const" in f.o:
            n = plain_size(f)
        if n is not None:
            b, end = take(data, pos, n)
            r = find_terminated(b, 0, n, p["enc"])
            if r is None:
                raise Rej("unterminated")
            return r[0], end
        r = find_terminated(data, pos, len(data), p["enc"])
        if r is None:
            raise Rej("eof-or-decode", pos=pos)
        return r
    if k == "uuid":
        b, end = take(data, pos, plain_size(f))
        if p["fmt"] == "v1":
            return uuid.UUID(int=bytes_int(b, False, "big")), end
        if p["fmt"] == "v2":
            x = (bytes_int(b[:4], False, "little") << 96 | bytes_int(b[4:6], False, "little") << 80
                 | bytes_int(b[6:8], False, "little") << 64 | bytes_int(b[8:], False, "big"))
            return uuid.UUID(int=x), end
        try:
            return uuid.UUID(hex=b.decode("ascii")), end
        except ValueError:
            raise Rej("decode") from None
    if k == "arr":
        out = []
        c = p["count"]
        while not halted(c, out, data, pos, env):
            if len(out) > MAX_ELEMENTS:
                raise Rej("budget")
            start = pos
            v, pos = decode_field(p["comp"], data, pos, env, ctx)
            if c is None and pos == start:
                raise Rej("endless")
            out.append(v)
        return out, pos
    if k == "nest":
        return decode_struct(p["struct"], data, pos, ctx)
    if k == "union":
        c = p["choices"][union_index(f, env)]
        if isinstance(c, S):
            return decode_struct(c, data, pos, ctx)
        return decode_field(c, data, pos, env, ctx)
    raise AssertionError(k)


def halted(c, out, data, pos, env):
    if c is None:
        return pos >= len(data)
    if isinstance(c, int):
        return len(out) >= c
    if c[0] == "halt":
        h = c[1]
        if h[0] == "last":
            return bool(out) and out[-1] == h[1]
        if h[0] == "upto":
            return len(out) >= h[1]
        if h[0] == "peek":
            return data[pos:pos + 1] in (b"", bytes([h[1]]))
        raise AssertionError(h)
    return len(out) >= env[c[1]]


# ---------------------------------------------------------------------------- comparing


def same(f, want, got, path=""):
    """None if the loaded value `got` is exactly `want` for field f, else a description."""
    from binobj import fields as bf

    if want is ABSENT:
        return None if got is bf.NOT_PRESENT else f"{path}: expected not-present marker, got {got!r}"
    if want is None or got is None:
        return None if want is got else f"{path}: expected {want!r}, got {got!r}"
    if f.kind == "nest":
        return same_struct(f.p["struct"], want, got, path)
    if f.kind == "union" and isinstance(want, dict):
        from .build import union_struct

        return same_struct(union_struct(f, want), want, got, path)
    if f.kind == "union" and isinstance(want, list):
        from .build import fits

        f = next(c for c in f.p["choices"] if isinstance(c, F) and c.kind == "arr" and fits(c.p["comp"], want))
        return same(f, want, got, path)
    if f.kind == "arr":
        if type(got) is not list or len(got) != len(want):
            return f"{path}: expected {len(want)} elements {want!r}, got {got!r}"
        for i, (w, g) in enumerate(zip(want, got)):
            r = same(f.p["comp"], w, g, f"{path}[{i}]")
            if r:
                return r
        return None
    return same_plain(want, got, path)


def same_plain(want, got, path=""):
    if type(want) is not type(got):
        return f"{path}: expected {want!r}, got {got!r} ({type(got).__name__})"
    if isinstance(want, float):
        if math.isnan(want):
            ok = math.isnan(got)
        else:
            ok = want == got and math.copysign(1, want) == math.copysign(1, got)
        return None if ok else f"{path}: expected {want!r}, got {got!r}"
    if isinstance(want, datetime.datetime):
        ok = want == got and want.tzinfo == got.tzinfo and want.utcoffset() == got.utcoffset()
        return None if ok else f"{path}: expected {want!r}, got {got!r}"
    return None if want == got else f"{path}: expected {want!r}, got {got!r}"


def same_struct(s, want, got, path=""):
    import binobj

    if not isinstance(got, binobj.Struct):
        return f"{path}: expected a structure, got {got!r}"
    assigned = set(got)
    for f in s.fields:
        if f.name not in want:
            continue
        if f.o.get("discard"):
            if f.name in assigned:
                return f"{path}.{f.name}: discarded field is still there"
            continue
        if f.name not in assigned:
            return f"{path}.{f.name}: field is not assigned after loading"
        r = same(f, want[f.name], getattr(got, f.name), f"{path}.{f.name}")
        if r:
            return r
        r = same(f, want[f.name], got[f.name], f"{path}[{f.name!r}]")
        if r:
            return r
    extra = assigned - {f.name for f in s.fields}
    return f"{path}: unexpected fields {extra}" if extra else None


def loaded_equal(a, b):
    """Reference values equal (NaN-tolerant)."""
    if isinstance(a, float) and isinstance(b, float):
        return same_plain(a, b) is None
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(loaded_equal(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(loaded_equal(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b
