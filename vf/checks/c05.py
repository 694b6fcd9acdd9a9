"""C05: truncated input is always rejected."""
import io
import os
import tempfile

from binobj import errors

from .. import ref
from ..core import Scenario
from ..gen import Gen
from ..spec import ABSENT, walk, walk_field
from ..streams import RecStream
from ..util import Case, budget, compare_load, outcome, short

PROPERTY = "C05"
LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitoring with fault injection: input cut at every byte, outcome judged by a reference decoder"
LEVEL_NOTE = ("for every generated structure and value every cut point is tried on every way of loading; the "
              "declarations and values themselves are sampled")
RULE = ("an evaluation is one generated declaration with one set of values, cut at every byte; distinct ones differ in "
        "the structural signature together with the field in which the cut falls")
ASSUMPTIONS = ["a field that takes up no bytes may be read from beyond the end of the data (nothing is missing)"]
FLOORS = {"cuts": 63000, "cuts accepted at an element boundary": 770, "cuts rejected": 63000,
          "file truncations": 650, "inputs accepted": 780, "partial cuts": 21000,
          "remains of a null representation that aren't text": 5, "single-field cuts": 21000,
          "skipped: ambiguous": 94, "stand-alone cuts": 24000}
MAXCUTS = 260


def cuts_of(rng, n):
    if n <= MAXCUTS:
        return range(n)
    return sorted(set(range(60)) | set(range(n - 60, n)) | {rng.randrange(n) for _ in range(MAXCUTS - 120)})


EOFISH = {"eof", "unterminated", "eof-or-decode"}


def text_null(fields):
    """Whether a cut null representation could be looked at as text (and not be any)."""
    return any("null" in f.o for f in fields) and any(f.kind in ("str", "strz") for f in fields)


def must_be_rejected(mon, got, want, what, fields, *detail):
    mon.check(got[0] == "err", f"{what}: accepted, gave {short(got[1])}", *detail)
    if isinstance(got[1], UnicodeError) and text_null(fields):
        mon.ev("remains of a null representation that aren't text")
        return
    if want.kind in EOFISH:
        mon.check(isinstance(got[1], errors.DeserializationError),
                  f"{what}: raised {short(got[1])}, not a deserialization error", *detail)


def structs(rng, mon, idx, **prof):
    c = Case(rng, mon, **prof)
    if not c.unambiguous():
        mon.ev("skipped: ambiguous")
        return
    for k in cuts_of(rng, len(c.data)):
        d = c.data[:k]
        want = c.decoded(d)
        if budget(want):
            continue
        what = f"first {k} of {len(c.data)} bytes ({d.hex()})"
        how = k % 3
        if how == 0:
            got = outcome(c.cls.from_bytes, d, c.ctx)
        elif how == 1:
            got = outcome(c.cls.from_stream, RecStream(d), c.ctx)
        else:
            got = outcome(c.cls.from_bytes, d, c.ctx, False)
        mon.ev("cuts")
        if isinstance(want, ref.Rej):
            must_be_rejected(mon, got, want, what, list(walk(c.s)), c.describe())
            mon.ev("cuts rejected")
            mon.seen(c.s.name, repr(c.s)[:150], want.field)
        elif how == 0 and want[1] != len(d):
            mon.check(got[0] == "err", f"{what}: exact load accepted", c.describe())
        else:
            compare_load(mon, c, want, got, what)
            mon.ev("cuts accepted at an element boundary")
    # a real file, cut at a few points
    if idx % 8 == 0 and c.data:
        with tempfile.TemporaryFile() as fp:
            os.pwrite(fp.fileno(), c.data, 0)
            for k in sorted({len(c.data) - 1, len(c.data) // 2, rng.randrange(len(c.data))}, reverse=True):
                fp.truncate(k)
                fp.seek(0)
                want = c.decoded(c.data[:k])
                got = outcome(c.cls.from_stream, fp, c.ctx)
                if isinstance(want, ref.Rej):
                    must_be_rejected(mon, got, want, f"file truncated to {k} bytes", list(walk(c.s)), c.describe())
                elif not budget(want):
                    compare_load(mon, c, want, got, f"file truncated to {k} bytes")
                mon.ev("file truncations")


def plainish(rng, mon, idx):
    structs(rng, mon, idx, nulls=0.05, conds=0.1, peek=False)


def parts(rng, mon, idx):
    """get_field and partial_load up to a field, on cut data."""
    c = Case(rng, mon, maxfields=5)
    if not c.unambiguous():
        return
    prefix = rng.choice([b"", b"", b"\x11\x22\x33"])
    for k in cuts_of(rng, len(c.data)):
        d = c.data[:k]
        trace = []
        want_all = c.decoded(d, 0, trace)
        if budget(want_all):
            continue
        done = {n: v for n, a, b, v in trace}
        ends = {n: (a, b) for n, a, b, v in trace}
        names = [f.name for f in c.s.fields]
        for name in ([want_all.path[0]] if isinstance(want_all, ref.Rej) else []) + [rng.choice(names)]:
            f = c.s.get(name)
            st = io.BytesIO(prefix + d)
            st.seek(len(prefix))
            got = outcome(c.cls.get_field, st, name, c.ctx)
            what = f"get_field({name!r}) on the first {k} of {len(c.data)} bytes"
            mon.ev("single-field cuts")
            if name in done:
                diff = ref.same(f, done[name], got[1], name) if got[0] == "ok" else short(got[1])
                mon.check(diff is None, f"{what}: {diff}", c.describe())
            else:
                span = c.span(name)
                if span is None or span[0] == span[1] or (f.kind == "arr" and f.p["count"] is None) or f.kind in (
                        "nest", "union", "arr") or "null" in f.o or "present" in f.o:
                    # may legitimately need no byte at all at this place
                    if got[0] == "ok" and not needs_bytes(f, c, d, span):
                        continue
                must_be_rejected(mon, got, want_all, what, list(walk(c.s)), c.describe())
            mon.check(st.tell() == len(prefix), f"{what} moved the stream to {st.tell()}", c.describe())
            # partial load up to the field
            st = io.BytesIO(prefix + d)
            st.seek(len(prefix))
            got = outcome(c.cls.partial_load, st, name, c.ctx)
            what = f"partial_load(last_field={name!r}) on the first {k} of {len(c.data)} bytes"
            mon.ev("partial cuts")
            if name in done:
                mon.check(got[0] == "ok", f"{what}: {short(got[1])}", c.describe())
                if not f.o.get("discard"):
                    diff = ref.same(f, done[name], got[1][name], name)
                    mon.check(diff is None, f"{what}: {diff}", c.describe())
                mon.eq(st.tell(), len(prefix) + ends[name][1], f"{what}: position", c.describe())
            else:
                must_be_rejected(mon, got, want_all, what, list(walk(c.s)), c.describe())


def needs_bytes(f, c, d, span):
    """Whether decoding f at its place in the full data would have to touch bytes beyond the cut."""
    if span is None or span[0] == span[1]:
        return False
    try:
        ref.decode_field(f, d, min(span[0], len(d)), {**c.full}, c.ctx)
    except ref.Rej:
        return True
    except Exception:  # noqa: BLE001
        return False
    return False


def lone(rng, mon, idx):
    """Stand-alone fields and elements."""
    c = Case(rng, mon, maxfields=4, peek=False)
    for f in c.s.fields:
        v = c.full[f.name]
        if v is ABSENT or f.o.get("present"):
            continue
        try:
            data = ref.encode_field(f, v, c.full, c.ctx)
        except ref.Rej:
            continue
        fld = getattr(c.cls, f.name)
        env = {k: c.b.value(c.s.get(k), x) for k, x in c.full.items() if x is not None}
        for k in cuts_of(rng, len(data)):
            d = data[:k]
            mon.ev("stand-alone cuts")
            entry = [lambda: fld.from_stream(io.BytesIO(d), c.ctx, env), lambda: fld.from_bytes(d, c.ctx, False, env),
                     lambda: fld.from_bytes(d, c.ctx, True, env)][k % 3]
            got = outcome(entry)
            what = f"stand-alone {f!r} on the first {k} of {len(data)} bytes ({d.hex()})"
            try:
                want, end = ref.decode_field(f, d, 0, c.full, c.ctx)
            except ref.Rej as e:
                if e.kind == "budget":
                    continue
                must_be_rejected(mon, got, e, what, list(walk_field(f)), c.describe())
                continue
            if k % 3 == 2 and end != len(d):
                mon.check(got[0] == "err", f"{what}: exact load accepted")
                continue
            diff = ref.same(f, want, got[1], f.name) if got[0] == "ok" else short(got[1])
            mon.check(diff is None, f"{what}: {diff}", c.describe())


def texts(rng, mon, idx):
    """Null-terminated text of every encoding, cut everywhere."""
    from ..build import Builder
    from ..gen import ALL_ENC
    from ..spec import F

    g = Gen(rng)
    enc = sorted(ALL_ENC)[idx % len(ALL_ENC)]
    f = F("strz", "x", {"enc": enc})
    fld = Builder().field(f, {})
    for _ in range(5):
        t = g.text(enc, 12)
        data = ref.enc_text(t + "\0", enc)
        for k in range(len(data)):
            got = outcome(fld.from_bytes, data[:k])
            mon.ev("stand-alone cuts")
            try:
                want, end = ref.decode_field(f, data[:k], 0, {}, None)
            except ref.Rej as e:
                must_be_rejected(mon, got, e, f"{enc} text {t!r} cut to {k} bytes", [f])
                continue
            mon.check(got == ("ok", want) and end == k, f"{enc} text {t!r} cut to {k} bytes: {short(got)}")
    mon.seen("text", enc)


SCENARIOS = [
    Scenario("structs", structs, 3200),
    Scenario("plainish", plainish, 1600),
    Scenario("parts", parts, 1000),
    Scenario("lone", lone, 2000),
    Scenario("texts", texts, 200),
]
