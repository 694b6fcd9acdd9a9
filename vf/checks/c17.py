"""C17: operations are isolated: concurrent and nested use never interfere."""
import os
import sys
import threading
import time
import zlib

import binobj
from binobj import errors

from .. import ref
from ..build import Builder, Ctx
from ..core import Scenario
from ..gen import GiveUp
from ..spec import walk
from ..streams import RecStream
from ..util import Case, budget, mutate_bytes, outcome, short, snapshot

PROPERTY = "C17"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring under stress: operations on the same and related classes run in threads with tiny time "
             "slices, step by step under a seeded scheduler that switches at every stream call and callback, and nested "
             "inside each other's stream calls and callbacks; every result is compared with what the operation gives alone "
             "on classes of its own")
LEVEL_NOTE = ("interleavings are sampled at stream calls and user callbacks (seeded scheduler) and wherever the interpreter "
              "switches threads (stress); there is no race detector for pure Python code")
RULE = ("an evaluation is one set of operations run together; distinct ones differ in the order in which the operations' "
        "steps were observed to run")
ASSUMPTIONS = ["the caller doesn't share streams or change values between concurrent operations"]
FLOORS = {"failures": 300, "operations after a failure": 1000, "operations in threads": 900,
          "operations interleaved": 660, "operations nested": 10000, "operations preempted": 270,
          "preemptions": 10000, "switches between steps": 9900}


class Points(Ctx):
    """Calls back before and after every callback of the declaration."""

    def __init__(self):
        self.point = None
        self.explode = None

    def at(self, what):
        if self.explode:
            self.explode(what)
        if self.point:
            self.point(what)

    def around(self, what, fn):
        def wrapped(*a, **kw):
            self.at(what)
            r = fn(*a, **kw)
            self.at(what)
            return r

        return wrapped

    def present(self, f, fn):
        def wrapped(v, ctx=None, stream=None):
            self.at("present")
            r = fn(v, ctx, stream)
            self.at("present")
            return r

        return wrapped

    def compute(self, f, fn):
        return self.around("compute", fn)

    def halt(self, f, fn):
        return self.around("halt", fn)

    def decider(self, f, which, fn):
        return self.around("decide", fn)

    def validators(self, f):
        return (lambda field, value: self.at("validate"),) if "np" not in f.o and zlib.crc32(str(f.name).encode()) % 3 == 0 else ()


class PointStream(RecStream):
    def __init__(self, data, point):
        super().__init__(data)
        self.point = point

    def _tick(self, kind):
        if self.point:
            self.point(kind)
        super()._tick(kind)


class Op:
    def __init__(self, rng, m, kinds=None):
        self.m = m
        self.kind = rng.choice(kinds or ["dump", "dump", "load", "load", "load", "field", "pload", "pdump", "dict", "size"])
        self.data = m.data
        if rng.random() < 0.35:
            d = mutate_bytes(rng, m.data)
            if not budget(m.decoded(d)):
                self.data = d
        self.field = rng.choice(m.s.fields).name
        self.given = m.given
        if rng.random() < 0.1 and self.given:
            self.given = {k: v for k, v in self.given.items() if k != rng.choice(list(self.given))}
        self.inst = {}

    def run(self, b, point=None):
        """The operation on the classes of a builder; its outcome in comparable form."""
        cls = b.cls(self.m.s)
        m = self.m
        if id(b) not in self.inst and self.kind in ("dump", "pdump", "dict", "size"):
            self.inst[id(b)] = cls(**b.kwargs(m.s, self.given))
        inst = self.inst.get(id(b))
        st = PointStream(b"" if self.kind in ("dump", "pdump") else self.data, point)
        k, v = outcome({
            "dump": lambda: inst.to_stream(st, m.ctx), "load": lambda: cls.from_stream(st, m.ctx),
            "field": lambda: cls.get_field(st, self.field, m.ctx),
            "pload": lambda: cls.partial_load(st, self.field, m.ctx),
            "pdump": lambda: inst.partial_dump(st, self.field, m.ctx), "dict": lambda: inst.to_dict(True, m.ctx),
            "size": lambda: len(inst),
        }[self.kind])
        if k == "err":
            return (k, type(v).__name__, getattr(getattr(v, "field", None), "name", None), getattr(v, "offset", None),
                    st.getvalue() if self.kind in ("dump", "pdump") else None)
        return k, snap(v), st.at, st.getvalue()

    def __repr__(self):
        return f"{self.kind}({self.m.s!r}, {self.field}, {self.given!r}, {self.m.ctx!r}, {self.data.hex()})"


def snap(v):
    if isinstance(v, binobj.Struct):
        return {k: snap(x) for k, x in vars(v)["__values__"].items()}
    if isinstance(v, (list, tuple)):
        return [snap(x) for x in v]
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    return snapshot(v)


class World:
    """A family of classes used together, and operations with what each gives alone."""

    def __init__(self, rng, mon, nops, wanted=None, kinds=None, **prof):
        self.points = Points()
        for _ in range(12):
            c = Case(rng, mon, hooks=self.points, conds=0.35, computed=0.4, **prof)
            if not wanted or any(f.kind == wanted for f in c.s.fields):
                break
        self.c, self.b = c, c.b
        structs = [c.s, c.s, c.s]
        if kinds:
            pass
        elif c.s.base:
            structs.append(c.s.base)
        structs += [f.p["struct"] for f in walk(c.s) if f.kind == "nest" and not kinds][:2]
        self.ops = []
        tries = 0
        while len(self.ops) < nops:
            tries += 1
            s = rng.choice(structs) if tries < 30 else c.s
            try:
                m = c if s is c.s and rng.random() < 0.2 else Case(rng, None, s=s, gen=c.gen, build=False)
            except (AssertionError, GiveUp, ref.Rej, KeyError):  # no values for this one alone
                m = c
            self.ops.append(Op(rng, m, kinds))
        alone = Builder(Points())
        self.want = [op.run(alone) for op in self.ops]
        for op, w in zip(self.ops, self.want):
            if op.kind == "dump" and w[0] == "ok" and op.given is op.m.given:
                mon.check(w[3] == op.m.data, f"{op!r} alone gave {w[3].hex()}, want {op.m.data.hex()}")

    def compare(self, mon, i, got, how):
        mon.check(got == self.want[i], f"{self.ops[i]!r} {how}: {short(got, 900)}, alone {short(self.want[i], 900)}")


# ---------------------------------------------------------------- step by step

class Lockstep:
    """Threads of which exactly one runs at any time; a seeded choice is made at every point."""

    def __init__(self, rng):
        self.rng = rng
        self.sems = []
        self.live = []
        self.me = threading.local()
        self.order = []
        self.main = threading.Semaphore(0)

    def add(self, fn):
        i = len(self.sems)
        self.sems.append(threading.Semaphore(0))

        def body():
            self.sems[i].acquire()
            self.me.i = i
            try:
                fn()
            finally:
                self.live.remove(i)
                if self.live:
                    self.sems[self.rng.choice(self.live)].release()
                else:
                    self.main.release()

        t = threading.Thread(target=body, daemon=True)
        self.live.append(i)
        return t

    def point(self, what):
        i = getattr(self.me, "i", None)
        if i is None:
            return
        j = self.rng.choice(self.live)
        self.order.append(j)
        if j != i:
            self.sems[j].release()
            self.sems[i].acquire()


def lockstep(rng, mon, idx):
    w = World(rng, mon, rng.choice([2, 2, 3, 4]))
    for _ in range(2):
        ls = Lockstep(rng)
        w.points.point = ls.point
        got = {}

        def work(i):
            got[i] = w.ops[i].run(w.b, ls.point)

        ts = [ls.add(lambda i=i: work(i)) for i in range(len(w.ops))]
        for t in ts:
            t.start()
        ls.sems[rng.randrange(len(ts))].release()
        mon.check(ls.main.acquire(timeout=30), "operations didn't finish", w.ops)
        for t in ts:
            t.join(10)
        w.points.point = None
        for i in range(len(w.ops)):
            w.compare(mon, i, got.get(i), f"interleaved {ls.order[:200]} with {[o for o in w.ops if o is not w.ops[i]]!r}")
            mon.ev("operations interleaved")
        mon.ev("switches between steps", len(ls.order))
        mon.seen("order", tuple(ls.order), [o.kind for o in w.ops])


# ---------------------------------------------------------------- line by line

HOME = os.path.dirname(binobj.__file__) + os.sep


def lines(rng, mon, idx):
    """As above, but the switches are between any two lines (or instructions) of the library itself."""
    kinds = rng.choice([None, ["load"], ["load", "pload"], ["dump"], ["dump", "pdump"]])  # all in the same code, or not
    wanted = rng.choice([None, "union", "union", "arr", "nest"])
    w = World(rng, mon, rng.choice([2, 2, 3]), maxfields=3 if kinds else 4, wanted=wanted, kinds=kinds)
    for _ in range(2):
        ls = Lockstep(rng)
        got = {}
        chance = rng.choice([0.02, 0.1, 0.4])
        instr = rng.random() < 0.25

        def local(frame, event, arg):
            if event in ("line", "opcode") and ls.rng.random() < chance:
                ls.point(event)
            return local

        def trace(frame, event, arg):
            if not frame.f_code.co_filename.startswith(HOME):
                return None
            if instr:
                frame.f_trace_opcodes = True
            return local

        def work(i):
            sys.settrace(trace)
            try:
                got[i] = w.ops[i].run(w.b)
            finally:
                sys.settrace(None)

        ts = [ls.add(lambda i=i: work(i)) for i in range(len(w.ops))]
        for t in ts:
            t.start()
        ls.sems[rng.randrange(len(ts))].release()
        mon.check(ls.main.acquire(timeout=60), "operations didn't finish", w.ops)
        for t in ts:
            t.join(10)
        for i in range(len(w.ops)):
            w.compare(mon, i, got.get(i), f"preempted {ls.order[:100]} by {[o for o in w.ops if o is not w.ops[i]]!r}")
            mon.ev("operations preempted")
        mon.ev("preemptions", sum(a != b for a, b in zip(ls.order, ls.order[1:])))
        mon.seen("lines", tuple(ls.order), [o.kind for o in w.ops])


# ---------------------------------------------------------------- free-running threads

def stress(rng, mon, idx):
    w = World(rng, mon, 4)
    reps = 3
    order = []
    results = {}

    def point_for(i):
        n = [0]

        def point(what):
            order.append(i)
            n[0] += 1
            if n[0] % 3 == i % 3:
                time.sleep(0)

        return point

    w.points.point = lambda what: time.sleep(0)
    go = threading.Barrier(len(w.ops))

    def work(i):
        p = point_for(i)
        go.wait(20)
        for r in range(reps):
            results[i, r] = w.ops[(i + r) % len(w.ops)].run(w.b, p)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(w.ops))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(40)
            mon.check(not t.is_alive(), "operations didn't finish", w.ops)
    finally:
        sys.setswitchinterval(old)
        w.points.point = None
    for i in range(len(w.ops)):
        for r in range(reps):
            w.compare(mon, (i + r) % len(w.ops), results.get((i, r)), f"in threads with {w.ops!r}")
            mon.ev("operations in threads")
    mon.ev("switches between steps", sum(a != b for a, b in zip(order, order[1:])))
    mon.seen("stress", tuple(order))


# ---------------------------------------------------------------- nested

def nested(rng, mon, idx):
    w = World(rng, mon, 5)
    depth, bad, done, trail = [0], [], [0], []

    def point(what):
        trail.append((depth[0], what))
        if depth[0] >= 2 or done[0] >= 40 or rng.random() < 0.5:
            return
        i = rng.randrange(len(w.ops))
        depth[0] += 1
        done[0] += 1
        try:
            got = w.ops[i].run(w.b, point)
            if got != w.want[i]:
                bad.append((i, got, what))
        finally:
            depth[0] -= 1

    w.points.point = point
    for i, op in enumerate(w.ops):
        got = op.run(w.b, point)
        for j, g, what in bad:
            w.compare(mon, j, g, f"inside {what} of {op!r}")
        w.compare(mon, i, got, f"with others run inside its callbacks: {w.ops!r}")
        mon.ev("operations nested", 1 + done[0])
        done[0] = 0
    w.points.point = None
    mon.seen("nested", tuple(trail), [o.kind for o in w.ops])


# ---------------------------------------------------------------- after failures

class Boom(Exception):
    pass


def failures(rng, mon, idx):
    """Operations fail at some stream call or callback; those after them notice nothing."""
    w = World(rng, mon, 4)
    for _ in range(6):
        i = rng.randrange(len(w.ops))
        left = [rng.randrange(1, 14)]
        hit = []

        def explode(what):
            left[0] -= 1
            if left[0] == 0:
                hit.append(what)
                raise rng.choice([Boom, OSError, errors.DeserializationError, KeyboardInterrupt, MemoryError])()

        w.points.explode = explode if rng.random() < 0.7 else None
        try:
            w.ops[i].run(w.b, explode)
        except (KeyboardInterrupt, MemoryError):
            pass
        w.points.explode = None
        if hit:
            mon.ev("failures")
        for j in {i, rng.randrange(len(w.ops))}:
            w.compare(mon, j, w.ops[j].run(w.b), f"after {w.ops[i]!r} failed in {hit}")
            mon.ev("operations after a failure")
        mon.seen("failed", hit, w.ops[i].kind, w.ops[j].kind)


SCENARIOS = [
    Scenario("lockstep", lockstep, 2400),
    Scenario("lines", lines, 3000),
    Scenario("stress", stress, 1500),
    Scenario("nested", nested, 2000),
    Scenario("failures", failures, 2000),
]
