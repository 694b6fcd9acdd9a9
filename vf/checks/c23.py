"""C23: text is carried exactly in its encoding and size."""
import codecs
import encodings.aliases
import io
import re

import binobj
from binobj import errors
from binobj import fields as bf

from .. import ref
from ..core import Scenario
from ..streams import RecStream
from ..util import mutate_bytes, outcome, short

PROPERTY = "C23"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: text fields of every text encoding the interpreter has, dumped and loaded under recording "
             "streams; bytes, text, stream position and refusals are judged by a whole-string codec oracle")
LEVEL_NOTE = "encodings are enumerated (all text codecs of the interpreter); text, sizes, pad bytes and input bytes are sampled"
RULE = ("an evaluation is one text field of one encoding with several texts and inputs, including damaged ones; distinct ones "
        "differ in encoding, field kind, way of giving the size and outcome")
ASSUMPTIONS = ["text is text that the encoding itself carries (decoding its encoding gives it back)",
               "what the interpreter's codecs do is right"]
FLOORS = {"arbitrary bytes loaded": 5500, "arbitrary bytes refused": 4000, "arbitrary sized bytes": 5900,
          "combined texts": 1500, "cut texts refused": 13000, "embedded terminators refused": 18000,
          "long texts refused": 1900, "other constants refused": 1300, "short texts refused": 140,
          "sized texts dumped": 1800, "sized texts loaded": 5400, "terminated texts loaded": 27000,
          "texts in a row": 4600, "texts the codec doesn't delimit": 150, "truncated sized texts refused": 1900,
          "unencodable text refused": 5800}


def text_codecs():
    out = []
    for n in sorted(set(encodings.aliases.aliases.values()) | {"utf_8_sig"}):
        try:
            if codecs.lookup(n)._is_text_encoding and len("a\0".encode(n)) > 0:
                out.append(n)
        except (LookupError, UnicodeError):
            pass
    return out


CODECS = text_codecs()
COMMON = ["utf_8", "utf_16", "utf_16_le", "utf_16_be", "utf_32", "utf_32_le", "utf_32_be", "utf_8_sig", "utf_7", "iso8859_1",
          "ascii", "iso2022_jp", "iso2022_kr", "hz", "shift_jis", "euc_jp", "gb18030", "big5", "cp500"]
# codecs for single labels or program text rather than for text in general: only what they carry is in scope
ODD = {"idna", "punycode", "unicode_escape", "raw_unicode_escape"}
POOLS = {}


def pool(enc):
    """Characters the encoding carries, spread over all code points."""
    if enc not in POOLS:
        out = []
        step = [*range(1, 0x250), *range(0x250, 0x3100, 7), *range(0x3100, 0xD800, 61), *range(0xE000, 0x10000, 37),
                *range(0x10000, 0x110000, 4099), 0xFFFF, 0xFFFD, 0xFEFF, 0x10FFFF, 0x100, 0x2028]
        for cp in step:
            if carried(chr(cp), enc):
                out.append(chr(cp))
        POOLS[enc] = out
    return POOLS[enc]


def carried(s, enc):
    try:
        return s.encode(enc).decode(enc) == s and (s + "\0").encode(enc).decode(enc) == s + "\0"
    except (UnicodeError, ValueError):
        return False


SPECIAL = ["\ufeff", "\ufeff\ufeff", "\u200b", " ", "  ", "\t", "\r\n", "\n", "\r", "\x1a", "\xa0", "e\u0301", "\ufffd", "\ufffe",
           "\x7f", "\x1b", "~", "?", "\\x00", "\u2028", "\xad"]


def some_text(rng, enc, n=None):
    p = pool(enc)
    for _ in range(10):
        k = rng.choice([0, 1, 1, 2, 3, 5, 9, 30]) if n is None else n
        low = [c for c in p[:40]]
        s = "".join(rng.choice(p if rng.random() < 0.7 else low) for _ in range(k))
        if n is None and rng.random() < 0.25:
            # characters that careless handling of text drops or changes, where it would
            x = rng.choice(SPECIAL)
            s = x + s if rng.random() < 0.5 else s + x
        if carried(s, enc):
            return s
    return ""


def encoding(rng, idx):
    return CODECS[idx % len(CODECS)] if idx % 2 else rng.choice(COMMON)


def regular(s, enc):
    """The first place where a terminator is complete is the end."""
    b = (s + "\0").encode(enc)
    return ref.find_terminated(b, 0, len(b), enc.replace("_", "-")) == (s, len(b))


def terminated(data, enc):
    return ref.find_terminated(data, 0, len(data), enc.replace("_", "-"))


# ---------------------------------------------------------------- null-terminated

def zero(rng, mon, idx):
    enc = encoding(rng, idx)
    f = bf.StringZ(encoding=enc)
    for _ in range(4):
        s = some_text(rng, enc)
        if not regular(s, enc):
            mon.ev("texts the codec doesn't delimit")
            continue
        want = (s + "\0").encode(enc)
        what = f"StringZ({enc}) {s!r} {want.hex()}"
        k, got = outcome(f.to_bytes, s)
        mon.check(k == "ok" and got == want, f"{what}: dumped {short(got)}")
        k, got = outcome(f.from_bytes, want)
        mon.check(k == "ok" and got == s and type(got) is str, f"{what}: loaded {short(got)}")
        for tail in (b"", b"\0", b"\0\0\0\0", b"AB", some_text(rng, enc).encode(enc), rng.randbytes(5)):
            st = RecStream(b"\xee" + want + tail, pos=1)
            k, got = outcome(f.from_stream, st)
            mon.check(k == "ok" and got == s and st.at == 1 + len(want),
                      f"{what} followed by {tail.hex()}: {short(got)}, stream left at {st.at - 1}")
            mon.ev("terminated texts loaded")
        # several in a row, in a structure
        n = rng.choice([2, 3])
        texts = [s] + [some_text(rng, enc) for _ in range(n - 1)]
        if all(regular(t, enc) for t in texts):
            cls = type("Z", (binobj.Struct,), {**{f"t{i}": bf.StringZ(encoding=enc) for i in range(n)}, "end": bf.UInt8(const=9)})
            all_ = b"".join((t + "\0").encode(enc) for t in texts) + b"\x09"
            k, got = outcome(lambda: cls(**{f"t{i}": t for i, t in enumerate(texts)}).to_bytes())
            mon.check(k == "ok" and got == all_, f"{enc} {texts!r}: dumped {short(got)}, want {all_.hex()}")
            k, got = outcome(cls.from_bytes, all_)
            mon.check(k == "ok" and [got[f"t{i}"] for i in range(n)] == texts, f"{enc} {texts!r}: loaded {short(got)}")
            arr = bf.Array(bf.StringZ(encoding=enc), count=n)
            k, got = outcome(arr.from_bytes, all_[:-1])
            mon.check(k == "ok" and got == texts, f"{enc} array {texts!r}: loaded {short(got)}")
            mon.ev("texts in a row")
        # cut short: nothing shorter is a terminated text
        for cut in {rng.randrange(len(want)) for _ in range(4)}:
            st = RecStream(want[:cut])
            k, got = outcome(f.from_stream, st)
            mon.check(k == "err", f"{what} cut to {want[:cut].hex()}: loaded {short(got)}")
            mon.ev("cut texts refused")
        # a terminator within
        for bad in ("\0", s + "\0", "\0" + s, s[: len(s) // 2] + "\0" + s[len(s) // 2:]):
            st = RecStream()
            k, e = outcome(f.to_stream, st, bad)
            mon.check(k == "err" and isinstance(e, errors.UnserializableValueError) and not st.getvalue(),
                      f"StringZ({enc}) dumped {bad!r}: {short(e)}, {st.getvalue().hex()}")
            mon.ev("embedded terminators refused")
        mon.seen("zero", enc, len(s), any(ord(c) > 0xFFFF for c in s))


def hostile(rng, mon, idx):
    """Arbitrary bytes as null-terminated text."""
    enc = encoding(rng, idx)
    f = bf.StringZ(encoding=enc)
    for _ in range(6):
        x = rng.random()
        if x < 0.6:
            s = some_text(rng, enc)
            d = mutate_bytes(rng, (s + "\0").encode(enc) + some_text(rng, enc).encode(enc) + b"\0\0\0\0")
        elif x < 0.8:
            d = bytes(rng.choice(b"\0\0a\x1b$B(~{}+-A\xff\xfe\x80\xc3\xd8\x0e\x0f") for _ in range(rng.randint(0, 14)))
        else:
            d = rng.randbytes(rng.randint(0, 20)) + b"\0" * rng.randint(0, 5)
        judge(mon, f, enc, d)


def judge(mon, f, enc, d):
    want = terminated(d, enc)
    st = RecStream(d)
    k, got = outcome(f.from_stream, st)
    what = f"StringZ({enc}) of {d.hex()}"
    if k == "ok":
        # the bytes taken are text that ends in the first terminator
        try:
            whole = d[:st.at].decode(enc)
        except (UnicodeError, ValueError) as e:
            whole = repr(e)
        mon.check(whole == got + "\0", f"{what}: loaded {got!r} from {d[:st.at].hex()}, which is {whole!r}")
        if enc == "utf_7" and d[: st.at].isascii() and re.search(r"\+[A-Za-z0-9+/]*AA", d[: st.at].decode()) and "\0" in got:
            return  # a null within a base64 run: the decoder gives out the run as one piece, and no dump writes this
        mon.check("\0" not in got, f"{what}: loaded {got!r}")
        # in UTF-7 the byte that ends a base64 run can be behind the null that is in it
        end = st.at - 1 if enc == "utf_7" and want and want[1] == st.at - 1 and d[want[1] : st.at] == b"-" else st.at
        mon.check(want is None or want == (got, end), f"{what}: loaded {got!r} up to {st.at}, not {want!r}")
        mon.ev("arbitrary bytes loaded")
    else:
        mon.check(isinstance(got, (errors.Error, UnicodeError, ValueError)), f"{what}: {got!r}")
        if want is not None:
            # valid so far, so there has to be a reason in the bytes before the terminator
            mon.check(not valid_prefixes(d[: want[1]], enc), f"{what}: refused with {got!r}, but begins with {want!r}")
        mon.ev("arbitrary bytes refused")
    mon.seen("hostile", enc, k, want is None)


def valid_prefixes(d, enc):
    """Reads as text piece by piece as well as a whole."""
    dec = codecs.getincrementaldecoder(enc)()
    out = ""
    try:
        for b in d:
            out += dec.decode(bytes([b]))
    except (UnicodeError, ValueError):
        return False
    return out == d.decode(enc)


# ---------------------------------------------------------------- sized

PADS = [None, None, b"\0", b" ", b"\xff", b"x", b"\x80"]


def fixed(rng, mon, idx):
    enc = encoding(rng, idx)
    pad = rng.choice(PADS)
    s = some_text(rng, enc)
    z = rng.random() < 0.4
    if z and not regular(s, enc):
        return
    body = (s + ("\0" if z else "")).encode(enc)
    size = len(body) + (rng.choice([0, 0, 1, 2, 3, 7, 20]) if pad is not None else rng.choice([0, 0, 0, 1]))
    cls = bf.StringZ if z else bf.String
    how = rng.choice(["number", "name", "object", "alone"])
    kw = {"pad_byte": pad} if pad is not None else {}
    what = f"{cls.__name__}({enc}, size={size}, pad={pad!r}, {how}) {s!r}"
    if how == "alone":
        f = cls(encoding=enc, size=size, **kw)

        def dump(t, n=size):
            st = RecStream()
            r = outcome(f.to_stream, st, t)
            return r if r[0] == "err" and not st.getvalue() else ("ok", st.getvalue()) if r[0] == "ok" else ("partial", r)

        def load(d):
            st = RecStream(d)
            r = outcome(f.from_stream, st)
            return r, st.at
        front, back = b"", b""
    else:
        ns = {"n": bf.UInt16(endian="big")}
        ns["t"] = cls(encoding=enc, size=size if how == "number" else ns["n"] if how == "object" else "n", **kw)
        ns["end"] = bf.UInt8(default=0xA5)
        S = type("T", (binobj.Struct,), ns)
        front, back = size.to_bytes(2, "big"), b"\xa5"

        def dump(t, n=size):
            st = RecStream()
            r = outcome(lambda: S(n=size, t=t).to_stream(st))
            if r[0] == "err":
                return r if len(st.getvalue()) <= 2 else ("partial", r)
            b = st.getvalue()
            mon.check(b.startswith(front) and b.endswith(back), f"{what}: neighbours damaged: {b.hex()}")
            return "ok", b[2:-1]

        def load(d):
            st = RecStream(front + d)
            k, r = outcome(S.from_stream, st)
            if k == "ok":
                mon.check(r.end == d[size], f"{what}: the next field is {r.end}")
                return ("ok", r.t), st.at - 3
            return (k, r), st.at
    # exact bytes
    k, got = dump(s)
    if len(body) == size or pad is not None:
        want = body + (pad or b"") * (size - len(body))
        mon.check(k == "ok" and got == want, f"{what}: dumped {short(got)}, want {want.hex()}")
        mon.check(len(got) == size, f"{what}: takes {len(got)} bytes")
        for tail in (b"\xa5", b"\0\0\0", some_text(rng, enc).encode(enc) + b"\1"):
            (k, v), at = load(want + tail)
            if z:
                exp = s
            else:
                try:
                    exp = want.decode(enc)
                except (UnicodeError, ValueError):
                    exp = None
            if exp is None:
                mon.check(k == "err", f"{what}: {want.hex()} loaded as {short(v)}, though it isn't text")
            else:
                mon.check(k == "ok" and v == exp and at == size, f"{what}: {(want + tail).hex()} loaded as {short(v)} up to {at}, "
                          f"not {exp!r}")
                if len(body) == size:
                    mon.check(v == s, f"{what}: came back as {v!r}")
            mon.ev("sized texts loaded")
        mon.ev("sized texts dumped")
    else:
        mon.check(k == "err" and isinstance(got, errors.ValueSizeError), f"{what}: too short, {k} {short(got)}")
        mon.ev("short texts refused")
    # too long by as little as possible
    t = s
    for _ in range(40):
        t += rng.choice(pool(enc))
        if carried(t, enc) and len((t + ("\0" if z else "")).encode(enc)) > size:
            k, e = dump(t)
            mon.check(k == "err" and isinstance(e, errors.ValueSizeError), f"{what}: over-long {t!r} dumped: {k} {short(e)}")
            mon.ev("long texts refused")
            break
    # not encodable
    for t in ("\ud800", "a\udfff", s + "\ud83d"):
        try:
            t.encode(enc)
        except (UnicodeError, ValueError):
            k, e = dump(t)
            mon.check(k == "err", f"{what}: {t!r} dumped: {k} {short(e)}")
            mon.ev("unencodable text refused")
    # arbitrary bytes of that size
    for _ in range(3):
        d = mutate_bytes(rng, body + bytes(size))[:size].ljust(size, rng.choice([b"\0", b" ", b"\xff"]))
        (k, v), at = load(d + b"\xa5\0")
        if z:
            w = terminated(d, enc)
            if k == "ok":
                mon.check("\0" not in v and (w is None or w[0] == v) and at == size, f"{what}: {d.hex()} loaded as {v!r} up to {at}, "
                          f"not {w!r}")
                mon.check(any(decodes_to(d[:i], enc, v + "\0") for i in range(size + 1)), f"{what}: {d.hex()} loaded as {v!r}")
            else:
                mon.check(w is None or not valid_prefixes(d[: w[1]], enc), f"{what}: {d.hex()} refused with {v!r}, has {w!r}")
        else:
            try:
                w = d.decode(enc)
            except (UnicodeError, ValueError):
                w = None
            mon.check((k == "ok" and v == w and at == size) if w is not None else k == "err",
                      f"{what}: {d.hex()} loaded as {short(v)} up to {at}, not {w!r}")
        mon.ev("arbitrary sized bytes")
    # less than that size
    if size:
        (k, v), at = load(rng.choice([body, bytes(size)])[: rng.randrange(size)])
        mon.check(k == "err" and isinstance(v, errors.UnexpectedEOFError), f"{what}: truncated input gave {short(v)}")
        mon.ev("truncated sized texts refused")
    mon.seen("fixed", enc, z, how, pad is not None, size - len(body))


def decodes_to(d, enc, s):
    try:
        return d.decode(enc) == s
    except (UnicodeError, ValueError):
        return False


# ---------------------------------------------------------------- constants, computed sizes, class defaults

def combined(rng, mon, idx):
    """Constant text, sizes computed from the text, encodings set by the class."""
    enc = encoding(rng, idx)
    s, t = some_text(rng, enc), some_text(rng, enc)
    if not (regular(s, enc) and regular(t, enc)):
        return
    n = bf.UInt16(endian="big")
    meta = rng.random() < 0.5
    kw = {} if meta else {"encoding": enc}
    latin = all(ord(c) < 256 for c in s + t)
    if meta and not latin:
        meta, kw = False, {"encoding": enc}
    pad = rng.choice([b"\0", b" "])
    ns = {"c": bf.String(const=s, **kw), "z": bf.StringZ(const=t, **kw), "n": n, "t": bf.String(size=n, **kw),
          "u": bf.StringZ(size="n2", pad_byte=pad, **kw), "v": bf.StringZ(**kw)}
    n2 = bf.UInt8()
    ns = {"n2": n2, **ns}
    n.computes(lambda f, af: len(af["t"].encode(enc)))
    n2.computes(lambda f, af: len((af["u"] + "\0").encode(enc)) + len(s) % 3)
    if meta:
        ns["Meta"] = type("Meta", (), {"argument_defaults": rng.choice(
            [{"encoding": enc}, {"String__encoding": enc, "StringZ__encoding": enc}])})
    C = type("C", (binobj.Struct,), ns)
    a, b, d = some_text(rng, enc), some_text(rng, enc), some_text(rng, enc)
    if not (regular(b, enc) and regular(d, enc)):
        return
    ub = (b + "\0").encode(enc)
    k2 = len(ub) + len(s) % 3
    want = (bytes([k2 & 255]) + s.encode(enc) + (t + "\0").encode(enc) + len(a.encode(enc)).to_bytes(2, "big") + a.encode(enc)
            + ub + pad * (k2 - len(ub)) + (d + "\0").encode(enc))
    what = f"{enc} meta={meta} const {s!r} {t!r}, values {a!r} {b!r} {d!r}"
    k, got = outcome(lambda: C(t=a, u=b, v=d).to_bytes())
    if k2 > 255:
        mon.check(k == "err", f"{what}: dumped {short(got)}")
        return
    mon.check(k == "ok" and got == want, f"{what}: dumped {short(got)}, want {want.hex()}")
    st = RecStream(want + b"\0\0")
    k, got = outcome(C.from_stream, st)
    mon.check(k == "ok" and (got.c, got.z, got.t, got.u, got.v) == (s, t, a, b, d) and st.at == len(want),
              f"{what}: {want.hex()} loaded as {short(got)} up to {st.at}")
    mon.check(len(C(t=a, u=b, v=d)) == len(want), f"{what}: length {len(C(t=a, u=b, v=d))}, not {len(want)}")
    mon.ev("combined texts")
    # another constant is refused
    if s:
        other = want[:1] + mutate_bytes(rng, want[1: 1 + len(s.encode(enc))])[: len(s.encode(enc))].ljust(
            len(s.encode(enc)), b"?") + want[1 + len(s.encode(enc)):]
        if not decodes_to(other[1: 1 + len(s.encode(enc))], enc, s):
            k, got = outcome(C.from_bytes, other)
            mon.check(k == "err", f"{what}: other constant {other.hex()} loaded as {short(got)}")
            mon.ev("other constants refused")
    mon.seen("combined", enc, meta)


_ = (io, ODD)
SCENARIOS = [Scenario("zero", zero, 3000, 60000), Scenario("hostile", hostile, 4000, 120000),
             Scenario("fixed", fixed, 5000, 120000), Scenario("combined", combined, 4000, 80000)]
