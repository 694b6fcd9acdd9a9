"""C21: user callbacks see the documented arguments."""
import binobj
from binobj import decorators
from binobj import fields as bf

from .. import ref
from ..build import Builder, Ctx
from ..core import Scenario
from ..spec import ABSENT, F, S, UNSET, walk
from ..streams import RecStream
from ..util import Case, budget, mutate_bytes, outcome, short

PROPERTY = "C21"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: every user callback at every nesting level records its arguments, the stream position and "
             "what the stream offers there; the recorded trace is checked against the sequence of calls that a reference "
             "walk over the same bytes or values predicts")
LEVEL_NOTE = "declarations, callbacks, values, contexts and input bytes are sampled"
RULE = ("an evaluation is one generated declaration full of callbacks, loaded (wholly, partly, by single field) from good "
        "and damaged data and dumped in several ways, with all callback calls recorded; distinct ones differ in the "
        "sequence of callbacks and depths")
ASSUMPTIONS = ["on dump, the mapping a presence condition gets supports only item access and membership",
               "a callback reading a conditional field from that mapping may see it evaluated without a context"]
FLOORS = {"arrays dumped from iterables": 23, "compute on dump": 120, "dump decider on dump": 34,
          "dumps observed": 600, "halt on load": 330, "load decider on load": 130, "loads observed": 2600,
          "loads with values given": 94, "present on dump": 980, "present on load": 2000, "validators on dump": 4700,
          "validators on load": 13000}

LEAF = ("int", "float", "ts", "vli", "bytes", "str", "strz", "uuid")


class Falsy(dict):
    """A context that is false."""

    def __bool__(self):
        return False


class SubContext(dict):
    pass


class Watch(Ctx):
    """Records every callback."""

    def __init__(self):
        self.events = []
        self.busy = False
        self.mode = None
        self.stream = None
        self.problems = []

    def note(self, kind, f, env, ctx, stream, extra=None):
        at = look = None
        if stream is not None:
            at = stream.tell()
            look = stream.read(3)
            stream.seek(at)
        self.events.append((kind, f, env, ctx, at, look, extra))

    def grab(self, v):
        """What the mapping holds right now."""
        if self.mode == "load":
            return {k: v[k] for k in v}
        return v

    def dump_view(self, s_fields, v):
        """The unconditional simple fields as the callback can see them."""
        out = {}
        for f in s_fields:
            if f.kind in LEAF and "present" not in f.o:
                out[f.name] = outcome(lambda f=f: v[f.name])
        return out

    def guarded(self, record, fn):
        if self.busy:
            return fn()
        self.busy = True
        try:
            record()
        finally:
            self.busy = False
        return fn()

    def present(self, f, fn):
        def watched(v, ctx=None, stream=None):
            return self.guarded(lambda: self.note("present", f, self.view(f, v), ctx, stream), lambda: fn(v, ctx, stream))

        return watched

    def view(self, f, v):
        if self.mode == "load":
            return dict(v)
        return self.dump_view(self.siblings.get(id(f), ()), v)

    def compute(self, f, fn):
        def watched(field, af):
            return self.guarded(lambda: self.note("compute", f, self.view(f, af), UNSET, None, field), lambda: fn(field, af))

        return watched

    def halt(self, f, fn):
        def watched(seq, stream, values, ctx, loaded):
            return self.guarded(lambda: self.note("halt", f, self.view(f, loaded), ctx, stream, (seq, list(values))),
                                lambda: fn(seq, stream, values, ctx, loaded))

        return watched

    def decider(self, f, which, fn):
        def load(stream, classes, ctx, loaded):
            return self.guarded(lambda: self.note("load decider", f, self.view(f, loaded), ctx, stream),
                                lambda: fn(stream, classes, ctx, loaded))

        def dump(data, classes, ctx, af):
            return self.guarded(lambda: self.note("dump decider", f, self.view(f, af), ctx, None, data),
                                lambda: fn(data, classes, ctx, af))

        return load if which == "load" else dump

    def validators(self, f):
        def watched(field, value):
            if not self.busy:
                self.events.append(("validate", f, None, UNSET, None, None, (field, value)))

        return (watched,)

    def struct_ns(self, s, ns, fields):
        names = [f.name for f in s.own]
        if not names:
            return

        def method(inst, field, value):
            if not self.busy:
                self.events.append(("method", s.get(field.name), None, UNSET, None, None, (field, value)))

        ns[f"v_{s.name}"] = decorators.validates(*names)(method)

    def index(self, s):
        """Which fields each field's callbacks see next to it."""
        self.siblings = {}
        todo = [s]
        while todo:
            x = todo.pop()
            for f in x.fields:
                for y in inner(f):
                    if isinstance(y, S):
                        todo.append(y)
                    else:
                        self.siblings[id(y)] = x.fields


def inner(f):
    """f, its elements and alternatives as fields, and structures reached."""
    yield f
    if f.kind == "arr":
        yield from inner(f.p["comp"])
    elif f.kind == "nest":
        yield f.p["struct"]
    elif f.kind == "union":
        for c in f.p["choices"]:
            if isinstance(c, S):
                yield c
            else:
                yield from inner(c)


class Registry(Builder):
    def __init__(self, hooks):
        super().__init__(hooks)
        self.objects = {}

    def field(self, f, made, use_names=False):
        r = super().field(f, made, use_names)
        self.objects[id(f)] = r
        return r


# ---------------------------------------------------------------- what a load should call

class Walk:
    """Reference walk over the data, predicting the stream-side callbacks."""

    def __init__(self, data, ctx, over=None):
        self.data, self.ctx = data, ctx
        self.over = over or {}
        self.top = True
        self.events = []
        self.values = []  # (field, value) validated
        self.absent = []

    def call(self, kind, f, env, pos, extra=None):
        self.events.append((kind, f, dict(env), pos, extra))

    def struct(self, s, pos, last=None):
        env = {}
        if self.top:  # values given by the caller replace what is read
            env.update(self.over)
            self.top = False
            over = self.over
        else:
            over = {}
        for f in s.fields:
            v, pos = self.field(f, pos, env)
            env.setdefault(f.name, v)
            if f.name in over:
                self.absent.append((f, over[f.name]))
            if f.name == last:
                break
        return env, pos

    def field(self, f, pos, env):
        d = self.data
        if "present" in f.o:
            self.call("present", f, env, pos)
            if not ref.cond(f, env, self.ctx, d[pos:pos + 1]):
                self.absent.append((f, f.o.get("np", ABSENT)))
                return f.o.get("np", ABSENT), pos
        if "null" in f.o:
            r = ref.null_repr(f, env, self.ctx)
            if d[pos:pos + len(r)] == r:
                self.values.append((f, None))
                return None, pos + len(r)
        v, end = self.plain(f, pos, env)
        if "null" in f.o and f.o["null"][0] in ("val", "raw") and v == f.o["null"][1]:
            v = None
        if "const" in f.o and v != f.o["const"]:
            raise ref.Rej("const", f.name)
        self.values.append((f, v))
        return v, end

    def plain(self, f, pos, env):
        if f.kind == "nest":
            return self.struct(f.p["struct"], pos)
        if f.kind == "union":
            self.call("load decider", f, env, pos)
            c = f.p["choices"][ref.union_index(f, env)]
            return self.struct(c, pos) if isinstance(c, S) else self.field(c, pos, env)
        if f.kind == "arr":
            out = []
            while True:
                if isinstance(f.p["count"], tuple) and f.p["count"][0] == "halt":
                    self.call("halt", f, env, pos, list(out))
                if ref.halted(f.p["count"], out, self.data, pos, env):
                    return out, pos
                if len(out) > 200:
                    raise ref.Rej("budget")
                v, pos = self.field(f.p["comp"], pos, env)
                out.append(v)
        return ref.dec_plain(f, self.data, pos, env, self.ctx)


STREAM_SIDE = ("present", "halt", "load decider")


def same_env(fields, want, got):
    if list(got) != list(want) and (set(got) != set(want) or len(got) != len(want)):
        return f"has fields {list(got)}, not {list(want)}"
    for f in fields:
        if f.name in want:
            r = ref.same(f, want[f.name], got[f.name], f.name)
            if r:
                return r
    return None


def check_load(mon, c, w, data, base, want, events, what, subset=False):
    """The stream-side callbacks of a load against the predicted ones."""
    got = [e for e in events if e[0] in STREAM_SIDE]
    # a callback asked again with nothing changed in between is the same question
    dedup = []
    for e in got:
        if dedup and e[0] == "present" and dedup[-1][:2] == e[:2] and dedup[-1][4] == e[4]:
            continue
        dedup.append(e)
    got = dedup
    i = 0
    for kind, f, env, ctx, at, look, extra in got:
        while subset and i < len(want) and (want[i][0], id(want[i][1]), base + want[i][3]) != (kind, id(f), at):
            i += 1
        mon.check(i < len(want), f"{what}: unexpected call of {kind} of {f.name} at {at}", c.describe())
        wk, wf, wenv, wpos, wextra = want[i]
        mon.check(kind == wk and f is wf, f"{what}: call {i} was {kind} of {f.name}, not {wk} of {wf.name}", c.describe())
        mon.check(at == base + wpos, f"{what}: {kind} of {f.name} ran with the stream at {at}, not {base + wpos}", c.describe())
        mon.check(look == data[wpos:wpos + 3], f"{what}: {kind} of {f.name} could look at {look!r}, not {data[wpos:wpos + 3]!r}",
                  c.describe())
        mon.check(ctx is c.ctx, f"{what}: {kind} of {f.name} got context {ctx!r}, not {c.ctx!r}", c.describe())
        if not subset or env:
            diff = same_env(w.siblings[id(f)], wenv, env)
            mon.check(diff is None, f"{what}: {kind} of {f.name}: the mapping {diff}", f"want {wenv!r}", f"got {env!r}",
                      c.describe())
        if kind == "halt":
            diff = ref.same(F("arr", "x", {"comp": f.p["comp"], "count": None}), wextra, extra[1])
            mon.check(diff is None, f"{what}: stop check of {f.name} got elements {diff}", c.describe())
            mon.check(extra[0] is c.b.objects[id(f)], f"{what}: stop check of {f.name} got array {extra[0]!r}", c.describe())
        mon.ev(f"{kind} on load")
        i += 1
    if not subset:
        mon.check(i == len(want), f"{what}: {len(want) - i} expected calls missing, first {want[i][0] if i < len(want) else ''} "
                  f"of {want[i][1].name if i < len(want) else ''}", c.describe())
    mon.seen(tuple((e[0], e[1].kind) for e in want[:6]), subset)


def check_validators(mon, c, wk, events, what, complete):
    """Validators got their own field and the values read."""
    want = {}
    for f, v in wk.values:
        want.setdefault(id(f), []).append(v)
    standins = {}
    for f, v in wk.absent:
        standins.setdefault(id(f), []).append(v)
    seen = {}
    for kind, f, _, _, _, _, extra in events:
        if kind not in ("validate", "method"):
            continue
        field, value = extra
        check_field(mon, c, kind, f, field, what)
        ok = [v for v in want.get(id(f), []) + standins.get(id(f), []) if ref.same(f, v, value) is None]
        mon.check(bool(ok), f"{what}: {kind} validator of {f.name} got {short(value)}, read was "
                  f"{short(want.get(id(f), []))}", c.describe())
        seen.setdefault((kind, id(f)), []).append(value)
        mon.ev("validators on load")
    if complete:
        for f, v in wk.values:
            mon.check(any(ref.same(f, v, x) is None for x in seen.get(("validate", id(f)), [])),
                      f"{what}: no validator of {f.name} got {short(v)}", c.describe())


def check_field(mon, c, kind, f, field, what):
    mon.check(isinstance(field, bf.Field) and (f.name is None or field.name == f.name),
              f"{what}: {kind} callback of {f.name} got field {field!r}", c.describe())
    if not f.p.get("short"):
        mon.check(field is c.b.objects[id(f)], f"{what}: {kind} callback of {f.name} got another field object {field!r}",
                  c.describe())


def overridden(rng, mon, idx):
    """Loads whose caller overrides values."""
    c, w = setup(rng, mon, unions=rng.random() < 0.5)
    names = [f for f in c.s.fields if f.kind in LEAF and not f.o.get("discard") and "const" not in f.o]
    if not names:
        return
    try:
        other = c.more().full
    except Exception:  # noqa: BLE001
        return
    over = {f.name: other[f.name] for f in rng.sample(names, min(len(names), rng.choice([1, 1, 2])))
            if other[f.name] is not ABSENT}
    wk = Walk(c.data, c.ctx, over)
    try:
        want, end = wk.struct(c.s, 0)
        good = True
    except (ref.Rej, TypeError) as e:
        if not isinstance(e, ref.Rej) or budget(e):
            return  # null as a size or flag
        good = False
    op(rng, mon, c, w, wk, c.data, 0, good, f"load of {c.data.hex()} with {over!r} given",
       lambda st: c.cls.from_stream(st, c.ctx, over))
    mon.ev("loads with values given")


def setup(rng, mon, **prof):
    w = Watch()
    kind = rng.random()
    keys = {k: rng.random() < 0.6 for k in ("c0", "c1", "c2")}
    ctx = None if kind < 0.15 else Falsy(keys) if kind < 0.4 else SubContext(keys)
    c = Case(rng, mon, ctx=ctx, hooks=w, build=False, **{"conds": 0.6, "computed": 0.6, "maxfields": 5, **prof})
    c.b = Registry(w)
    w.index(c.s)
    c.cls = c.b.cls(c.s)
    c.hooks = w
    # conditions of one structure may refer to any of its fields, so give the same view to elements and alternatives
    return c, w


def loads(rng, mon, idx):
    c, w = setup(rng, mon)
    datas = [c.data] + [mutate_bytes(rng, c.data) for _ in range(3)]
    try:
        datas.append(c.more().data)
    except Exception:  # noqa: BLE001
        pass
    for d in datas:
        base = rng.choice([0, 0, 1, 5])
        wk = Walk(d, c.ctx)
        try:
            wk.struct(c.s, 0)
            good = True
        except ref.Rej as e:
            if budget(e):
                continue
            good = False
        what = f"load of {d.hex()}"
        op(rng, mon, c, w, wk, d, base, good, what, lambda st: c.cls.from_stream(st, c.ctx))
        name = rng.choice(c.s.fields).name
        wk = Walk(d, c.ctx)
        try:
            wk.struct(c.s, 0, last=name)
            good = True
        except ref.Rej as e:
            if budget(e):
                continue
            good = False
        op(rng, mon, c, w, wk, d, base, good, f"partial load of {d.hex()} up to {name}",
           lambda st: c.cls.partial_load(st, name, c.ctx))
        if good:
            op(rng, mon, c, w, wk, d, base, good, f"reading {name} of {d.hex()}",
               lambda st: c.cls.get_field(st, name, c.ctx), subset=True)
        # the rest: loading stops quietly at the end of the data
        wk = Walk(d, c.ctx)
        try:
            wk.struct(c.s, 0)
            good = True
        except ref.Rej:
            good = False
        op(rng, mon, c, w, wk, d, base, None, f"partial load of {d.hex()}", lambda st: c.cls.partial_load(st, None, c.ctx),
           strict=good)


def op(rng, mon, c, w, wk, d, base, good, what, fn, subset=False, strict=True):
    w.events.clear()
    w.mode = "load"
    st = RecStream(b"?" * base + d, pos=base)
    k, got = outcome(fn, st)
    ev = list(w.events)
    if good is not None and not subset:
        mon.check((k == "ok") == good, f"{what}: {short(got)}", c.describe())
    if not strict:
        return  # where it stops is another property's business
    # single-field reads may need only some of the fields
    check_load(mon, c, w, d, base, wk.events, ev, what, subset)
    if not subset:
        check_validators(mon, c, wk, ev, what, k == "ok")
    mon.ev("loads observed")


# ---------------------------------------------------------------- dumping

def occurrences(s, full):
    """(field, value, structure values) of everything that is dumped."""
    for f in s.fields:
        yield from occ_field(f, full[f.name], full)


def occ_field(f, v, env):
    yield f, v, env
    if v is ABSENT or v is None:
        return
    if f.kind == "nest":
        yield from occurrences(f.p["struct"], v)
    elif f.kind == "arr":
        for x in v:
            yield from occ_field(f.p["comp"], x, env)
    elif f.kind == "union":
        c = f.p["choices"][ref.union_index(f, env)]
        if isinstance(c, S):
            yield from occurrences(c, v)
        else:
            yield from occ_field(c, v, env)


def below(f):
    for y in inner(f):
        if isinstance(y, S):
            for z in y.fields:
                yield z
                yield from below(z)
        elif y is not f:
            yield y


class Lazy:
    """An iterable without a length."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


def eq(want, got):
    if isinstance(want, float) and isinstance(got, (int, float)):
        return want == got or want != want and got != got
    return want == got


def dumps(rng, mon, idx):
    lazy = rng.random() < 0.3
    c, w = setup(rng, mon, **({"computed": 0.0} if lazy else {}))
    if lazy:
        c.b.wrap = Lazy
        mon.ev("arrays dumped from iterables", sum(f.kind == "arr" for f in c.s.fields))
    try:
        inst = c.inst(rng)
    except Exception as e:  # noqa: BLE001
        mon.check(False, f"construction: {e!r}", c.describe())
        return
    name = rng.choice(c.s.fields).name
    ops = [("to_bytes", lambda: inst.to_bytes(c.ctx)), ("to_stream", lambda: inst.to_stream(RecStream(), c.ctx)),
           ("partial_dump", lambda: inst.partial_dump(RecStream(), name, c.ctx)),
           ("to_dict", lambda: inst.to_dict(rng.random() < 0.5, c.ctx))]
    occ = {}
    for f, v, env in occurrences(c.s, c.full):
        occ.setdefault(id(f), []).append((f, v, env))
    # what is inside an absent value may be looked at but isn't dumped
    loose = {id(y) for x in occ.values() for f, v, _ in x if v is ABSENT for y in below(f)}
    rng.shuffle(ops)
    for nm, fn in ops:
        w.events.clear()
        w.mode = "dump"
        k, got = outcome(fn)
        mon.check(k == "ok", f"{nm}: {short(got)}", c.describe())
        ev = list(w.events)
        validated = {}
        for kind, f, env, ctx, at, look, extra in ev:
            what = f"{nm}: {kind} of {f.name}"
            if id(f) not in occ or id(f) in loose:
                continue  # of an alternative that is not used
            if kind in ("present", "dump decider"):
                mon.check(ctx is c.ctx, f"{what} got context {ctx!r}, not {c.ctx!r}", c.describe())
            if kind == "present":
                mon.check(at is None, f"{what} got a stream", c.describe())
            if kind in ("present", "compute", "dump decider"):
                match(mon, c, what, f, env, [e for _, _, e in occ[id(f)]])
                mon.ev(f"{kind} on dump")
            if kind == "compute":
                check_field(mon, c, kind, f, extra, what)
            if kind in ("validate", "method"):
                field, value = extra
                check_field(mon, c, kind, f, field, what)
                if f.kind in LEAF:
                    mon.check(any(eq(v, value) for _, v, _ in occ[id(f)] if v is not ABSENT) or value is f.o.get("np", bf.NOT_PRESENT)
                              or any(v is ABSENT for _, v, _ in occ[id(f)]),
                              f"{what} got {short(value)}, dumped is {short([v for _, v, _ in occ[id(f)]])}", c.describe())
                    validated.setdefault(id(f), []).append(value)
                mon.ev("validators on dump")
        if nm in ("to_bytes", "to_stream"):
            for x in occ.values():
                for f, v, _ in x:
                    if f.kind in LEAF and v is not ABSENT and id(f) not in loose:
                        mon.check(any(eq(v, y) for y in validated.get(id(f), [])),
                                  f"{nm}: no validator of {f.name} got {short(v)}", c.describe())
            # the deciders of the structure's own unions run in declaration order
            order = [f.name for kind, f, *_ in ev if kind == "dump decider" and f.name is not None and f in c.s.fields]
            want = [f.name for f in c.s.fields if f.kind == "union" and c.full[f.name] is not ABSENT and c.full[f.name] is not None]
            mon.check(order == want, f"{nm}: unions were dumped in the order {order}, not {want}", c.describe())
        mon.ev("dumps observed")
        mon.seen("dump", nm, tuple((e[0], e[1].kind) for e in ev[:5]))


def match(mon, c, what, f, view, envs):
    """The view of the mapping agrees with the values about to be written (of some occurrence)."""
    worst = None
    for env in envs:
        diffs = [n for n, (k, v) in view.items() if k != "ok" or n in env and not eq(env[n], v)]
        if not diffs:
            return
        worst = diffs
    mon.check(False, f"{what}: the mapping has other values than are dumped for {worst}", f"seen {short(view, 900)}",
              f"dumped {short(envs, 1200)}", c.describe())


_ = (binobj, walk)
SCENARIOS = [Scenario("overridden", overridden, 2000, 30000),
             Scenario("loads", loads, 3000, 60000), Scenario("dumps", dumps, 3000, 60000)]
