"""C04: loading consumes exactly one record; exact mode is exact."""
import array
import io
import os
import tempfile

from .. import ref
from ..core import Scenario
from ..spec import ABSENT
from ..streams import RecStream
from ..util import Case, budget, compare_load, outcome, plain, short

PROPERTY = "C04"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: stream-position and value oracle over records embedded in longer streams"
LEVEL_NOTE = ("positions and values are compared after every load and dump with an independent reference codec; streams "
              "are in-memory, recording, buffered and real files; declarations and surroundings are generated")
RULE = ("an evaluation is one generated declaration with several records placed in a longer stream; distinct ones "
        "differ in the structural signature of the declaration")
ASSUMPTIONS = ["structures that run to the end of the data by declaration are not put before other records",
               "streams are seekable, as the library's callbacks and lookahead require"]
FLOORS = {"absent stand-alone fields": 470, "buffers of wide items": 3300, "dumps into the middle": 3500,
          "exact loads with leftovers": 12000, "inputs accepted": 46000, "inputs refused": 21000,
          "leftover bytes: 1": 6200, "leftover bytes: 2-9": 6200, "leftover bytes: >9": 210,
          "records read in sequence": 7000, "stand-alone fields": 4300, "stand-alone leftovers": 3800,
          "stream kind: BytesIO": 3300, "stream kind: buffered": 3300, "stream kind: file": 3400,
          "stream kind: recording": 3300}


def junk(rng):
    return rng.choice([b"", b"\0", b"\xff", rng.randbytes(1), rng.randbytes(rng.randint(2, 40))])


def stream_of(rng, mon, data, pos):
    k = rng.randrange(4)
    if k == 0:
        st = io.BytesIO(data)
    elif k == 1:
        st = RecStream(data)
    elif k == 2:
        st = io.BufferedRandom(RecStream(data), rng.choice([1, 8, 8192]))
    else:
        st = tempfile.TemporaryFile(buffering=rng.choice([-1, 0, 64]))
        os.pwrite(st.fileno(), data, 0)
    st.seek(pos)
    mon.ev("stream kind: " + ["BytesIO", "recording", "buffered", "file"][k])
    return st


def sequences(rng, mon, idx):
    c = Case(rng, mon, eof=False)
    recs = [c] + [c.more() for _ in range(rng.randint(1, 3))]
    pre, post = junk(rng), junk(rng)
    whole = pre + b"".join(r.data for r in recs) + post
    st = stream_of(rng, mon, whole, len(pre))
    pos = len(pre)
    for r in recs:
        want = r.decoded(whole, pos)
        if budget(want):
            break
        got = outcome(c.cls.from_stream, st, c.ctx)
        compare_load(mon, r, want, got, f"record at {pos} of {whole.hex()}")
        if isinstance(want, ref.Rej):
            break
        mon.eq(st.tell(), want[1], f"position after the record at {pos} of {whole.hex()}", r.describe())
        mon.ev("records read in sequence")
        pos = want[1]
    # the caller's stream is still usable and untouched
    st.seek(0)
    mon.eq(st.read(), whole, "loading changed the stream's content")
    st.close()


def dumps(rng, mon, idx):
    c = Case(rng, mon)
    recs = [c] + [c.more() for _ in range(rng.randint(0, 2))]
    back = b"\xee" * rng.choice([0, 3, 500])
    pos = rng.randint(0, len(back))
    st = stream_of(rng, mon, back, pos)
    want = bytearray(back)
    for r in recs:
        r.inst().to_stream(st, r.ctx)
        want[pos:pos + len(r.data)] = r.data
        pos += len(r.data)
        mon.eq(st.tell(), pos, "position after dumping into the middle of a stream", r.describe())
        mon.ev("dumps into the middle")
    st.seek(0)
    mon.eq(st.read(), bytes(want), "stream content after dumping into its middle", c.describe())
    st.close()


def wide(d):
    """A buffer whose items are larger than a byte, if possible."""
    for i, code in zip((8, 4, 2), "QIH"):
        if d and len(d) % i == 0:
            return array.array(code, d) if i != 4 else memoryview(d).cast(code)
    return d


def exact(rng, mon, idx):
    c = Case(rng, mon)
    for r in (c, c.more()):
        base = r.decoded()
        for extra in (b"", b"\0", rng.randbytes(1), rng.randbytes(2), rng.randbytes(rng.randint(3, 9)), b"\0" * 5000):
            d = r.data + extra
            if len(extra) > 100 and idx % 20:
                continue
            want = r.decoded(d)
            if budget(want):
                continue
            src = rng.choice([bytes, bytes, bytearray, memoryview, wide, wide])(d)
            if getattr(src, "itemsize", 1) > 1:
                mon.ev("buffers of wide items")
            got = outcome(c.cls.from_bytes, src, r.ctx, False)
            compare_load(mon, r, want, got, f"non-exact from_bytes of {short(d.hex())} ({len(extra)} extra)")
            st = io.BytesIO(d)
            got = outcome(c.cls.from_stream, st, r.ctx)
            compare_load(mon, r, want, got, f"from_stream of {short(d.hex())} ({len(extra)} extra)")
            left = 0 if isinstance(want, ref.Rej) else len(d) - want[1]
            full = ref.Rej("leftover") if left else want
            got = outcome(c.cls.from_bytes, src, r.ctx, True)
            compare_load(mon, r, full, got, f"exact from_bytes of {short(d.hex())} ({left} bytes left)")
            if left:
                mon.ev("exact loads with leftovers")
                mon.ev("leftover bytes: " + ("1" if left == 1 else "2-9" if left < 10 else ">9"))
                got = outcome(c.cls.from_bytes, src, r.ctx)
                mon.check(got[0] == "err", f"default from_bytes accepts {left} leftover bytes", r.describe())
    del base


def fields(rng, mon, idx):
    """Stand-alone fields: positions, exactness, agreement of the entry points."""
    c = Case(rng, mon, maxfields=4, peek=False)
    for f in c.s.fields:
        v = c.full[f.name]
        if v is ABSENT or f.o.get("present"):
            continue
        fld = getattr(c.cls, f.name)
        env = {k: c.b.value(c.s.get(k), x) for k, x in c.full.items() if x is not None}
        try:
            data = ref.encode_field(f, v, c.full, c.ctx)
        except ref.Rej:
            continue
        pre, post = junk(rng), junk(rng)
        whole = pre + data + post
        try:
            want, end = ref.decode_field(f, whole, len(pre), c.full, c.ctx)
        except ref.Rej:
            continue
        st = stream_of(rng, mon, whole, len(pre))
        k, got = outcome(fld.from_stream, st, c.ctx, env)
        mon.check(k == "ok", f"stand-alone {f!r} refuses {whole.hex()} at {len(pre)}: {short(got)}")
        diff = ref.same(f, want, got, f.name)
        mon.check(diff is None, f"stand-alone field in a longer stream: {diff}", c.describe())
        mon.eq(st.tell(), end, f"position after stand-alone field {f!r} at {len(pre)} of {whole.hex()}", c.describe())
        st.close()
        # byte strings
        tail = whole[len(pre):]
        tail = rng.choice([bytes, wide])(tail)
        k, got = outcome(fld.from_bytes, tail, c.ctx, False, env)
        diff = ref.same(f, want, got, f.name) if k == "ok" else short(got)
        mon.check(diff is None, f"stand-alone non-exact from_bytes of {bytes(tail).hex()}: {diff}", f"{f!r}")
        k, got = outcome(fld.from_bytes, tail, c.ctx, True, env)
        left = len(whole) - end
        if left:
            mon.check(k == "err", f"stand-alone exact from_bytes accepts {left} leftover bytes", f"{f!r}", bytes(tail).hex())
            mon.ev("stand-alone leftovers")
        else:
            diff = ref.same(f, want, got, f.name) if k == "ok" else short(got)
            mon.check(diff is None, f"stand-alone exact from_bytes: {diff}", f"{f!r}", bytes(tail).hex())
        # dumping
        st = stream_of(rng, mon, whole, len(pre))
        fld.to_stream(st, plain(v), c.ctx, env)
        mon.eq(st.tell(), len(pre) + len(data), f"position after dumping stand-alone field {f!r}")
        st.seek(0)
        mon.eq(st.read(), whole, f"content around a dumped stand-alone field {f!r}")
        st.close()
        mon.ev("stand-alone fields")


def absent(rng, mon, idx):
    """Stand-alone fields whose condition doesn't hold take nothing from the stream."""
    c = Case(rng, mon, maxfields=5, peek=False, conds=0.8)
    for f in c.s.fields:
        if not f.o.get("present"):
            continue
        env = dict(c.full)
        pre, post = junk(rng), junk(rng)
        try:
            want, end = ref.decode_field(f, pre + post, len(pre), env, c.ctx)
        except ref.Rej:
            continue
        if end != len(pre) or ref.cond(f, env, c.ctx):
            continue
        fld = getattr(c.cls, f.name)
        got_env = {k: c.b.value(c.s.get(k), x) for k, x in c.full.items() if x is not None}
        st = stream_of(rng, mon, pre + post, len(pre))
        for how in ("stream", "loose", "exact"):
            if how == "stream":
                k, got = outcome(fld.from_stream, st, c.ctx, got_env)
                mon.check(st.tell() == len(pre), f"absent {f!r} moved the stream from {len(pre)} to {st.tell()}")
                st.close()
            else:
                k, got = outcome(fld.from_bytes, post, c.ctx, how == "exact", got_env)
            if how == "exact" and post:
                mon.check(k == "err", f"exact from_bytes of absent {f!r} accepts {len(post)} leftover bytes", short(got))
                mon.ev("stand-alone leftovers")
            else:
                diff = ref.same(f, want, got, f.name) if k == "ok" else short(got)
                mon.check(diff is None, f"absent stand-alone field ({how}): {diff}", c.describe())
        mon.ev("absent stand-alone fields")


SCENARIOS = [
    Scenario("sequences", sequences, 6000),
    Scenario("dumps", dumps, 4500),
    Scenario("exact", exact, 5000),
    Scenario("fields", fields, 4000),
    Scenario("absent", absent, 1500),
]
