"""C24: stream failures surface and leave nothing behind."""
import io
import os
import shutil
import tempfile

from binobj import errors

from .. import ref
from ..core import Scenario
from ..spec import ABSENT, walk
from ..streams import RecStream
from ..util import Case, budget, compare_load, outcome, plain, short, snapshot
from .c05 import must_be_rejected

PROPERTY = "C24"
LEVEL = "fault_enumeration"
TECHNIQUE = ("runtime monitoring with fault injection: every single stream call of every operation fails in turn, with several "
             "kinds of exception, once or for good; the exception's identity, what came back, the position, the values held and a "
             "retry on a good stream are checked")
LEVEL_NOTE = ("for every generated structure and value each stream call of each operation is made to fail; the declarations, "
              "values and kinds of exception are sampled")
RULE = ("an evaluation is one generated declaration with one set of values, with a failure at each stream call of one or more "
        "operations; distinct ones differ in declaration, operation and the kind of call that failed")
ASSUMPTIONS = ["once the failure is over the stream works again, unless it is injected as a lasting one",
               "when the call that fails is the one that would restore the position, the position isn't restored"]
FLOORS = {"failures of a broken pipe": 55, "failures of a buffered file open for reading": 55,
          "failures of a closed file": 110, "failures of a closed memory stream": 110,
          "failures of a file open for reading": 55, "failures of a file open for writing": 55,
          "failures of a full device": 55, "failures of read": 4300, "failures of seek": 1200,
          "failures of tell": 6000, "failures of write": 780, "failures that reached the caller": 12000,
          "failures to restore the position": 1400, "failures while dumping": 520,
          "failures while dumping a field on its own": 260, "failures while loading": 2400,
          "failures while loading a field on its own": 1300, "failures while loading partially": 3200,
          "failures while reading a single field": 4600, "inputs accepted": 760,
          "positions restored after a failure": 3100, "retries": 3000, "retries with files": 55,
          "shortened streams rejected": 700, "shortened streams that end at an element boundary": 55}
MAXCALLS = 150


class OSFault(OSError):
    pass


class ClosedFault(ValueError):
    pass


class UnsupportedFault(io.UnsupportedOperation):
    pass


class EndFault(EOFError):
    pass


class LookFault(LookupError):
    pass


class RangeFault(OverflowError):
    pass


class KindFault(TypeError):
    pass


class InterruptedFault(InterruptedError):
    pass


class BlockingFault(BlockingIOError):
    pass


class TimeFault(TimeoutError):
    pass


class ConnectionFault(ConnectionResetError):
    pass


class PipeFault(BrokenPipeError):
    pass


class AccessFault(PermissionError):
    pass


class StateFault(RuntimeError):
    pass


class AttributeFault(AttributeError):
    pass


class TextFault(UnicodeError):
    pass


class StopFault(BaseException):
    """Something like an interrupt."""


KINDS = [OSFault, OSFault, OSFault, ClosedFault, UnsupportedFault, EndFault, LookFault, RangeFault, KindFault, StopFault,
         InterruptedFault, BlockingFault, TimeFault, ConnectionFault, PipeFault, AccessFault, StateFault, AttributeFault, TextFault]


class Faulty(RecStream):
    """Fails at the given call, and from then on if lasting."""

    def __init__(self, data=b"", pos=0, at=None, kind=OSFault, lasting=False):
        super().__init__(data, pos)
        self.plan = (at, kind, lasting)
        self.faults = []
        self.calls = []
        self.target = None

    def _tick(self, kind):
        at, exc, lasting = self.plan
        self.calls.append(kind)
        n = len(self.calls)
        if at is not None and (n == at or (lasting and n > at)):
            e = exc(f"injected at call {n} ({kind})")
            self.faults.append((kind, e, self.target if kind == "seek" else None))
            raise e

    def seek(self, off, whence=0):
        self.target = off if whence == 0 else self.buf.tell() + off
        return super().seek(off, whence)


def caught(fn, *a):
    """Like outcome, for the injected BaseException too."""
    try:
        return outcome(fn, *a)
    except StopFault as e:
        return "err", e


def calls_of(rng, n):
    if n <= MAXCALLS:
        return range(1, n + 1)
    return sorted(set(range(1, 41)) | set(range(n - 39, n + 1)) | set(rng.sample(range(1, n + 1), MAXCALLS - 80)))


def surfaced(mon, st, got, what, *detail):
    kind, e, _ = st.faults[0]
    mon.check(got[0] == "err", f"{what}: the failing {kind} went unnoticed, the result is {short(got[1])}", *detail)
    mon.check(any(got[1] is f[1] for f in st.faults),
              f"{what}: {e!r} of the stream was reported as {short(got[1])}", *detail)
    mon.ev("failures that reached the caller")
    mon.ev("failures of " + kind)


def faults(rng, mon, c, data, op, run, good, pos=0, limit=None):
    """run(stream) with a failure at each call; good(outcome, stream, what) judges a run on a good stream."""
    base = Faulty(data, pos)
    got = caught(run, base)
    good(got, base, f"{op} without a failure")
    n = len(base.calls)
    mon.check(n > 0 or not c.data or op not in ("from_stream", "to_stream"), f"{op}: no stream calls observed", c.describe())
    ks = calls_of(rng, n)
    if limit is not None and len(ks) > limit:
        ks = sorted(rng.sample(list(ks), limit))
    for k in ks:
        kind = rng.choice(KINDS)
        lasting = rng.random() < 0.25
        st = Faulty(data, pos, k, kind, lasting)
        got = caught(run, st)
        what = f"{op} with {kind.__name__} at call {k} of {n} ({base.calls[k - 1]}{', lasting' if lasting else ''})"
        mon.check(st.faults, f"{what}: made only {len(st.calls)} stream calls this time", c.describe())
        surfaced(mon, st, got, what, c.describe())
        mon.seen(op.split("(")[0], st.faults[0][0], kind.__name__, lasting, repr(c.s)[:150])
        yield what, st
        if k % 5 == 0 or k == n:
            good(caught(run, again := RecStream(data, pos)), again, f"{op} again after {what}")
            mon.ev("retries")


def loads(rng, mon, idx):
    c = Case(rng, mon)
    if not c.unambiguous():
        return
    prefix = rng.choice([b"", b"\x11\x22\x33"])
    want = c.decoded()
    ctx = snapshot(c.ctx)

    def good(got, st, what):
        compare_load(mon, c, want, got, what)
        mon.check(st.at == len(prefix) + len(c.data), f"{what}: stream ends up at {st.at}", c.describe())

    for _ in faults(rng, mon, c, prefix + c.data, "from_stream", lambda st: c.cls.from_stream(st, c.ctx), good, len(prefix)):
        mon.ev("failures while loading")
    mon.check(snapshot(c.ctx) == ctx, "the context was changed", c.describe())


def dumps(rng, mon, idx):
    c = Case(rng, mon)
    inst = c.inst(as_struct=rng.choice([rng, None]))
    # what is held has to be the same afterwards, also inside given mappings and lists
    before = snapshot(inst)
    ctx = snapshot(c.ctx)
    prefix = rng.choice([b"", b"\x11\x22\x33"])

    def good(got, st, what):
        mon.check(got[0] == "ok", f"{what}: {short(got[1])}", c.describe())
        out = st.getvalue()
        mon.check(out == prefix + c.data, f"{what}: wrote {out.hex()}, not {(prefix + c.data).hex()}", c.describe())

    for what, st in faults(rng, mon, c, prefix, "to_stream", lambda st: inst.to_stream(st, c.ctx), good, len(prefix)):
        mon.check(snapshot(inst) == before, f"{what}: the values changed", snapshot(inst), before, c.describe())
        mon.ev("failures while dumping")
        if rng.random() < 0.1:
            k, out = outcome(inst.to_bytes, c.ctx)
            mon.check(k == "ok" and out == c.data, f"to_bytes after {what}: {short(out)}", c.describe())
    mon.check(snapshot(c.ctx) == ctx, "the context was changed", c.describe())
    # and another one of the same class isn't affected either
    other = c.inst()
    k, out = outcome(other.to_bytes, c.ctx)
    mon.check(k == "ok" and out == c.data, f"another instance after the failures: {short(out)}", c.describe())


def restored(mon, what, st, pos, *detail):
    """The position is as it was, unless restoring it is what fails."""
    kind, _, target = st.faults[0]
    if st.plan[2] or (kind == "seek" and target == pos):
        mon.ev("failures to restore the position")
        return
    mon.check(st.at == pos, f"{what}: the stream is left at {st.at}, not {pos}", *detail)
    mon.ev("positions restored after a failure")


def single(rng, mon, idx):
    c = Case(rng, mon, maxfields=6)
    if not c.unambiguous():
        return
    want = c.decoded()[0]
    prefix = rng.choice([b"", b"\x11", b"\x11\x22\x33"])
    p = len(prefix)
    fs = c.s.fields if len(c.s.fields) <= 4 else rng.sample(c.s.fields, 4)
    for f in fs:
        op = f"get_field({f.name!r})"

        def good(got, st, what, f=f):
            diff = ref.same(f, want[f.name], got[1], f.name) if got[0] == "ok" else short(got[1])
            mon.check(diff is None, f"{what}: {diff}", c.describe())
            mon.check(st.at == p, f"{what}: leaves the stream at {st.at}", c.describe())

        for what, st in faults(rng, mon, c, prefix + c.data, op, lambda st, f=f: c.cls.get_field(st, f.name, c.ctx), good, p, 60):
            restored(mon, what, st, p, c.describe())
            mon.ev("failures while reading a single field")


def partial(rng, mon, idx):
    c = Case(rng, mon, maxfields=6)
    if not c.unambiguous():
        return
    trace = []
    c.decoded(None, 0, trace)
    prefix = rng.choice([b"", b"\x11\x22\x33"])
    names = [f.name for f in c.s.fields]
    for last in [None, rng.choice(names)]:
        n = len(names) if last is None else names.index(last) + 1
        want = {x: v for x, _, _, v in trace[:n]}
        end = trace[n - 1][2] if n else 0

        def good(got, st, what, want=want, end=end):
            mon.check(got[0] == "ok", f"{what}: {short(got[1])}", c.describe())
            diff = ref.same_struct(c.s, want, got[1])
            mon.check(diff is None, f"{what}: {diff}", c.describe())
            mon.check(st.at == len(prefix) + end, f"{what}: leaves the stream at {st.at}", c.describe())

        for _ in faults(rng, mon, c, prefix + c.data, f"partial_load(last_field={last!r})",
                        lambda st, last=last: c.cls.partial_load(st, last, c.ctx), good, len(prefix), 60):
            mon.ev("failures while loading partially")


def alone(rng, mon, idx):
    """Fields that are used on their own."""
    c = Case(rng, None, nulls=0.1, conds=0.05, discards=0, maxfields=5)
    if not c.unambiguous():
        return
    inst = c.inst()
    loaded = c.decoded()[0]
    k, held = outcome(c.cls.from_bytes, c.data, c.ctx)
    if k != "ok":
        return
    fs = [f for f in c.s.fields if c.full[f.name] is not ABSENT and c.span(f.name)]
    for f in rng.sample(fs, min(4, len(fs))):
        real = getattr(c.cls, f.name)
        a, b = c.span(f.name)
        value = held[f.name]
        shot = snapshot(value)
        env = {g.name: held[g.name] for g in c.s.fields}
        ek = snapshot(env)
        # a dump of what was loaded is the oracle for the bytes; the value loaded is the reference's
        out = io.BytesIO()
        k, e = outcome(real.to_stream, out, value, c.ctx, env)
        k2, e2 = outcome(real.from_stream, io.BytesIO(c.data[a:b]), c.ctx, dict(env))
        if k != "ok" or k2 != "ok" or ref.same(f, loaded[f.name], e2) is not None:
            continue  # whether this has to work is for other checks

        def good(got, st, what, f=f, b=b):
            diff = ref.same(f, loaded[f.name], got[1], f.name) if got[0] == "ok" else short(got[1])
            mon.check(diff is None, f"{what}: {diff}", c.describe())

        for _ in faults(rng, mon, c, c.data[a:b], f"{f.kind}.from_stream",
                        lambda st, real=real: real.from_stream(st, c.ctx, dict(env)), good, 0, 60):
            mon.ev("failures while loading a field on its own")

        def good(got, st, what, f=f, e=out.getvalue()):
            mon.check(got[0] == "ok", f"{what}: {short(got[1])}", c.describe())
            mon.check(st.getvalue() == e, f"{what}: wrote {st.getvalue().hex()}, not {e.hex()}", c.describe())

        for what, _ in faults(rng, mon, c, b"", f"{f.kind}.to_stream",
                              lambda st, real=real, value=value: real.to_stream(st, value, c.ctx, env), good, 0, 60):
            mon.check(snapshot(value) == shot and snapshot(env) == ek, f"{what}: the values changed", c.describe())
            mon.ev("failures while dumping a field on its own")
    _ = (inst, plain)


class Shrinking(RecStream):
    """The data ends in the middle of what the given read asks for (if nothing behind that has been seen)."""

    def __init__(self, data, at, m):
        super().__init__(data)
        self.plan, self.reads, self.high, self.cut = (at, m), 0, 0, None

    def read(self, n=-1):
        self.reads += 1
        here = self.buf.tell()
        if self.cut is None and self.reads >= self.plan[0] and here >= self.high and n > 0:
            m = min(n - 1, self.plan[1])
            if len(self.buf.getbuffer()) - here > m:
                self.cut = here + m
                self.buf.truncate(self.cut)
        d = super().read(n)
        self.high = max(self.high, self.buf.tell())
        return d


def shrinks(rng, mon, idx):
    """A stream that turns out to be shorter in the middle of the load."""
    c = Case(rng, mon)
    if not c.unambiguous() or not c.data:
        return
    base = RecStream(c.data)
    c.cls.from_stream(base, c.ctx)
    reads = base.kinds().count("read")
    for k in calls_of(rng, reads):
        st = Shrinking(c.data, k, rng.choice([0, 0, 1, 2, 5]))
        got = outcome(c.cls.from_stream, st, c.ctx)
        if st.cut is None:
            continue
        d = c.data[:st.cut]
        want = c.decoded(d)
        if budget(want):
            continue
        what = f"input that turns out to end after {st.cut} of {len(c.data)} bytes at read {k}"
        if isinstance(want, ref.Rej):
            must_be_rejected(mon, got, want, what, list(walk(c.s)), c.describe())
            mon.ev("shortened streams rejected")
        else:
            compare_load(mon, c, want, got, what)
            mon.ev("shortened streams that end at an element boundary")
        mon.seen("shrinks", repr(c.s)[:150], k)


def real(rng, mon, idx):
    """Failing streams that the operating system makes."""
    c = Case(rng, mon)
    if not c.data or not c.unambiguous():
        return
    inst = c.inst()
    before = snapshot(inst)
    want = c.decoded()
    d = tempfile.mkdtemp(prefix="vf-c24-")
    try:
        path = os.path.join(d, "f")
        with open(path, "wb") as fp:
            fp.write(c.data)
        # what each of these raises on its own is what the caller gets
        for name, mk, op in [
            ("a full device", lambda: open("/dev/full", "wb", buffering=0), "w"),  # noqa: SIM115
            ("a file open for reading", lambda: open(path, "rb", buffering=0), "w"),  # noqa: SIM115
            ("a buffered file open for reading", lambda: open(path, "rb"), "w"),  # noqa: SIM115
            ("a closed file", lambda: closed(open(path, "rb")), "r"),  # noqa: SIM115
            ("a closed file", lambda: closed(open(path, "ab")), "w"),  # noqa: SIM115
            ("a closed memory stream", lambda: closed(io.BytesIO(c.data)), "rw"),
            ("a file open for writing", lambda: open(path, "ab", buffering=0), "r"),  # noqa: SIM115
            ("a broken pipe", broken_pipe, "w"),
        ]:
            for way in op:
                with mk() as fp:
                    own = outcome(fp.write, b"x") if way == "w" else outcome(fp.read, 1)
                    mon.check(own[0] == "err", f"{name}: works after all")
                    got = outcome(inst.to_stream, fp, c.ctx) if way == "w" else outcome(c.cls.from_stream, fp, c.ctx)
                    if way == "r" and got[0] == "ok" and not any(b > a for _, a, b in c.spans):
                        continue
                what = f"{'dump to' if way == 'w' else 'load from'} {name}"
                mon.check(got[0] == "err", f"{what}: no failure reached the caller", c.describe())
                same = type(own[1]) is type(got[1]) or (way == "r" and isinstance(got[1], (OSError, ValueError))
                                                        and not isinstance(got[1], errors.Error))
                mon.check(same, f"{what}: {own[1]!r} was reported as {short(got[1])}", c.describe())
                mon.ev("failures of " + name)
                mon.seen("real", name, way)
        mon.check(snapshot(inst) == before, "the values changed after failures of files", c.describe())
        with open(path, "wb", buffering=0) as fp:
            inst.to_stream(fp, c.ctx)
        with open(path, "rb") as fp:
            mon.eq(fp.read(), c.data, "retry into a good file", c.describe())
            fp.seek(0)
            compare_load(mon, c, want, outcome(c.cls.from_stream, fp, c.ctx), "retry from a good file")
        mon.ev("retries with files")
    finally:
        shutil.rmtree(d)


def closed(fp):
    fp.close()
    return Closed(fp)


class Closed:
    """A closed stream that can be used in a with statement."""

    def __init__(self, fp):
        self.fp = fp

    def __enter__(self):
        return self.fp

    def __exit__(self, *a):
        return False


def broken_pipe():
    r, w = os.pipe()
    os.close(r)
    return os.fdopen(w, "wb", buffering=0)


SCENARIOS = [
    Scenario("loads", loads, 2500),
    Scenario("dumps", dumps, 2500),
    Scenario("single", single, 1800),
    Scenario("partial", partial, 1800),
    Scenario("alone", alone, 1800),
    Scenario("shrinks", shrinks, 1800),
    Scenario("real", real, 1200),
]
