"""C15: variable-length integers are exact, minimal and self-delimiting."""
import io

import binobj
from binobj import errors, varints
from binobj import fields as bf

from .. import ref
from ..build import VLI
from ..core import Scenario
from ..streams import RecStream
from ..util import expect_error, outcome, short

PROPERTY = "C15"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: every codec, field and structure is run on all small integers, all short byte strings and "
             "the neighbourhood of every power of two, and judged against an independently written codec; the bytes "
             "consumed are watched on the stream")
LEVEL_NOTE = ("integers up to +-70000 and strings of two bytes are exhaustive (quick); larger integers are sampled around "
              "powers of two up to 2^420; thorough is exhaustive for three-byte strings and integers up to +-1.7 million")
RULE = ("an evaluation is a block of consecutive integers, of byte strings, or one large integer with its neighbourhood; "
        "distinct ones differ in the scheme, the encoded length and the bits at its boundaries")
ASSUMPTIONS = ["the canonical sequences are the ones described in the schemes' cited definitions"]
FLOORS = {"byte strings decoded": 490000, "in structures": 3200, "integers encoded": 170000,
          "leftovers untouched": 170000, "out of domain": 60000, "over the byte limit": 4200, "truncations": 190000}

ENCS = list(VLI)
SIGNED = {"vlq": False, "uleb128": False, "leb128": True, "compact": True}
FN = {
    "vlq": (varints.encode_integer_vlq, varints.decode_integer_vlq),
    "uleb128": (varints.encode_integer_uleb128, varints.decode_integer_uleb128),
    "leb128": (varints.encode_integer_leb128, varints.decode_integer_leb128),
    "compact": (varints.encode_integer_compact, varints.decode_integer_compact),
}


def codec(rng, enc):
    if rng.random() < 0.5:
        return FN[enc]
    i = varints.INTEGER_ENCODING_MAP[VLI[enc]]
    return i.encode, i.decode


def one(mon, enc, fns, v, tail):
    """An integer through the plain functions."""
    encode, decode = fns
    if v < 0 and not SIGNED[enc]:
        expect_error(mon, lambda: encode(v), f"{enc} of {v}", kind=(ValueError, OverflowError))
        mon.ev("out of domain")
        return None
    want = ref.vli_bytes(enc, v)
    got = encode(v)
    mon.check(got == want and isinstance(got, bytes), f"{enc}: {v} encodes to {got!r}, want {want!r}")
    st = RecStream(b"\xee" + want + tail, pos=1)
    back = decode(st)
    mon.check(back == v and type(back) is int, f"{enc}: {want.hex()} (for {v}) decodes to {back}")
    mon.check(st.at == 1 + len(want), f"{enc}: decoding {want.hex()} before {tail.hex()} left the stream at {st.at}")
    # Whatever is looked at beyond the sequence is nobody's business, but it mustn't be needed.
    mon.ev("leftovers untouched")
    mon.ev("integers encoded")
    mon.seen(enc, len(want), want[0] & 0xC0, want[-1] & 0x40, v < 0)
    return want


BLOCK = 512


def small(rng, mon, idx):
    """All integers of a block, of both signs."""
    lo = idx * BLOCK
    for enc in ENCS:
        fns = codec(rng, enc)
        for v in range(lo, lo + BLOCK):
            tail = (b"", b"\x00", b"\x80", b"\xff\x7f", b"\x01")[v % 5]
            one(mon, enc, fns, v, tail)
            one(mon, enc, fns, -v, tail)
    fld = {e: bf.VariableLengthInteger(vli_format=VLI[e], name="x") for e in ENCS}
    for enc in ENCS:
        for v in rng.sample(range(lo, lo + BLOCK), 40):
            v = v if rng.random() < 0.5 else -v
            field(rng, mon, enc, fld[enc], v)


def field(rng, mon, enc, f, v):
    """An integer through a field used on its own."""
    st = RecStream(b"##")
    st.seek(2)
    if v < 0 and not SIGNED[enc]:
        e = expect_error(mon, lambda: f.to_stream(st, v), f"{enc} field given {v}")
        mon.check(isinstance(e, errors.UnserializableValueError), f"{enc} field given {v}: {e!r}")
        expect_error(mon, lambda: f.to_bytes(v), f"{enc} field given {v}", kind=errors.UnserializableValueError)
        mon.check(st.getvalue() == b"##", f"{enc} field refused {v} but wrote {st.getvalue()!r}")
        mon.ev("out of domain")
        return
    want = ref.vli_bytes(enc, v)
    f.to_stream(st, v)
    mon.eq(st.getvalue(), b"##" + want, f"{enc} field: {v}")
    mon.eq(f.to_bytes(v), want, f"{enc} field: {v}")
    mon.eq(f.from_bytes(want), v, f"{enc} field: {want.hex()}")
    tail = rng.choice([b"", b"\0", b"\x80\x80", b"\x7f"])
    st = RecStream(want + tail)
    mon.eq(f.from_stream(st), v, f"{enc} field: {want.hex()}")
    mon.eq(st.at, len(want), f"{enc} field: position after {want.hex()} followed by {tail.hex()}")
    if tail:
        expect_error(mon, lambda: f.from_bytes(want + tail), f"{enc} field: trailing {tail.hex()}",
                     kind=errors.ExtraneousDataError)
        k, got = outcome(f.from_bytes, want + tail, None, False)
        mon.check(k == "ok" and got == v, f"{enc} field: {want.hex()} with trailing data gave {short(got)}")
    for cut in range(len(want)):
        expect_error(mon, lambda: f.from_bytes(want[:cut]), f"{enc} field: truncated {want[:cut].hex()}",
                     kind=errors.UnexpectedEOFError)
        mon.ev("truncations")


SPECIAL = [0x00, 0x01, 0x3F, 0x40, 0x41, 0x7F, 0x80, 0xBF, 0xC0, 0xFF]


def strings(rng, mon, idx):
    """Byte strings decode to what they stand for, canonical or not."""
    first, bucket = idx % 256, idx // 256
    thirds = SPECIAL if bucket == 0 else range((bucket - 1) * 11, min(256, bucket * 11))
    for enc in ENCS:
        decode = FN[enc][1]
        for second in range(256):
            if first < 128 and second not in SPECIAL:
                continue
            for third in thirds:
                data = bytes([first, second, third])
                try:
                    want = ref.vli_decode(enc, data, 0)
                except ref.Rej:
                    e = expect_error(mon, lambda: decode(io.BytesIO(data)), f"{enc}: unterminated {data.hex()}",
                                     kind=errors.UnexpectedEOFError)
                    del e
                    mon.ev("truncations")
                    if third & 1:
                        continue
                    data += bytes([rng.randrange(128)])
                    want = ref.vli_decode(enc, data, 0)
                st = io.BytesIO(data)
                k, got = outcome(decode, st)
                mon.check(k == "ok" and got == want[0] and st.tell() == want[1],
                          f"{enc}: {data.hex()} decodes to {short(got)} ending at {st.tell()}, want {want}")
                mon.ev("byte strings decoded")
        mon.seen(enc, first, bucket)
    for n in range(3):  # nothing but continuation bytes
        for enc in ENCS:
            data = bytes([0x80 | first]) * (n + rng.randrange(60))
            expect_error(mon, lambda: FN[enc][1](io.BytesIO(data)), f"{enc}: unterminated {data.hex()}",
                         kind=errors.UnexpectedEOFError)
            mon.ev("truncations")


MAXBIT = 420


def big(rng, mon, idx):
    """Around one power of two."""
    bits = idx % MAXBIT
    for d in (-2, -1, 0, 1, 2, rng.randrange(1 << max(1, bits))):
        for sign in (1, -1):
            v = sign * ((1 << bits) + d)
            for enc in ENCS:
                tail = rng.randbytes(rng.randrange(4))
                want = one(mon, enc, codec(rng, enc), v, tail)
                f = bf.VariableLengthInteger(vli_format=VLI[enc], name="x")
                if rng.random() < 0.3:
                    field(rng, mon, enc, f, v)
                if want is None:
                    continue
                if rng.random() < 0.5:
                    limit(rng, mon, enc, v, want)
                for _ in range(3):
                    cut = want[:rng.randrange(len(want))]
                    expect_error(mon, lambda: FN[enc][1](io.BytesIO(cut)), f"{enc}: truncated {cut.hex()}",
                                 kind=errors.UnexpectedEOFError)
                    mon.ev("truncations")


def limit(rng, mon, enc, v, want):
    for n in {len(want) - 1, len(want), len(want) + 1, rng.randrange(1, 70)} - {0}:
        f = bf.VariableLengthInteger(vli_format=VLI[enc], max_bytes=n, name="x")
        st = io.BytesIO()
        k, e = outcome(f.to_stream, st, v)
        if n >= len(want):
            mon.check(k == "ok" and st.getvalue() == want, f"{enc} at most {n} bytes: {v} gave {short(e)} {st.getvalue()!r}")
            mon.eq(f.from_bytes(want), v, f"{enc} at most {n} bytes: {want.hex()}")
        else:
            mon.check(k == "err" and isinstance(e, errors.ValueSizeError) and e.field is f,
                      f"{enc} at most {n} bytes: {v} ({len(want)} bytes) gave {short(e)}")
            mon.check(st.getvalue() == b"", f"{enc} at most {n} bytes: refused {v} but wrote {st.getvalue()!r}")
            mon.ev("over the byte limit")


def structs(rng, mon, idx):
    """Several of them in structures and arrays, one right after the other."""
    ns, spec = {}, []
    for i in range(rng.randint(1, 5)):
        enc = rng.choice(ENCS)
        kw = {}
        if rng.random() < 0.3:
            kw["max_bytes"] = rng.randint(1, 12)
        fld = bf.VariableLengthInteger(vli_format=VLI[enc], **kw)
        arr = rng.random() < 0.3
        ns[f"f{i}"] = bf.Array(fld, count=rng.randrange(4)) if arr else fld
        spec.append((f"f{i}", enc, kw.get("max_bytes"), ns[f"f{i}"].count if arr else None))
    cls = type("V", (binobj.Struct,), ns)
    for _ in range(4):
        vals, data, offs, bad = {}, b"", [], None
        for n, enc, mx, cnt in spec:
            out = []
            for _ in range(1 if cnt is None else cnt):
                v = rng.randrange(1 << rng.choice([1, 6, 7, 8, 13, 14, 15, 21, 28, 32, 35, 63, 64, 70, 128]))
                if SIGNED[enc] and rng.random() < 0.5 or rng.random() < 0.02:
                    v = -v
                out.append(v)
                if v < 0 and not SIGNED[enc]:
                    bad = bad or (n, errors.UnserializableValueError)
                    continue
                b = ref.vli_bytes(enc, v)
                if mx is not None and len(b) > mx:
                    bad = bad or (n, errors.ValueSizeError)
                offs.append(len(data))
                data += b
            vals[n] = out[0] if cnt is None else out
        inst = cls(**vals)
        k, got = outcome(inst.to_bytes)
        if bad:
            mon.check(k == "err" and isinstance(got, bad[1]), f"{spec} given {vals}: {short(got)}, want {bad}")
            mon.ev("in structures")
            continue
        mon.check(k == "ok" and got == data, f"{spec} given {vals}: {short(got)}, want {data.hex()}")
        k, n = outcome(len, inst)
        mon.check(k == "ok" and n == len(data), f"{spec} given {vals}: size {short(n)}, want {len(data)}")
        tail = rng.randbytes(rng.randrange(3))
        st = RecStream(data + tail)
        k, got = outcome(cls.from_stream, st)
        mon.check(k == "ok" and {x: got[x] for x in vals} == vals, f"{spec}: {data.hex()} loads as {short(got)}, want {vals}")
        mon.eq(st.at, len(data), f"{spec}: position after {data.hex()} {tail.hex()}")
        n = rng.choice(spec)[0]
        mon.eq(cls.get_field(io.BytesIO(data), n), vals[n], f"{spec}: {n} of {data.hex()}")
        if data:
            cut = rng.randrange(len(data))
            e = expect_error(mon, lambda: cls.from_bytes(data[:cut]), f"{spec}: {data[:cut].hex()} of {data.hex()}",
                             kind=errors.UnexpectedEOFError)
            del e
        mon.ev("in structures")
        mon.seen([x[1] for x in spec], [x[3] for x in spec], len(data))


def domain(rng, mon, idx):
    """Only the four schemes exist; the field is what the scheme says about sign and byte order."""
    for bad in (None, "vlq", 1, object(), VLI):
        expect_error(mon, lambda: bf.VariableLengthInteger(vli_format=bad), f"scheme {bad!r}",
                     kind=(errors.ConfigurationError, TypeError))
    for enc in ENCS:
        f = bf.VariableLengthInteger(vli_format=VLI[enc])
        mon.eq(f.signed, SIGNED[enc], f"{enc}: signed")
        mon.check(not f.has_fixed_size, f"{enc}: has a fixed size")


SCENARIOS = [
    Scenario("small", small, 137),
    Scenario("strings", strings, 256),
    Scenario("big", big, MAXBIT),
    Scenario("structs", structs, 2000),
    Scenario("domain", domain, 1, 1),
]
