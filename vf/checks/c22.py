"""C22: observing, dumping and loading have no side effects."""
import copy
import io

import binobj
from binobj import decorators
from binobj import fields as bf

from .. import ref
from ..core import Scenario
from ..gen import Gen, GiveUp, refs_of
from ..build import Ctx
from ..spec import ABSENT
from ..streams import RecStream
from ..util import Case, become, budget, mutate_bytes, outcome, short, snapshot

PROPERTY = "C22"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: random histories of observing, dumping and loading operations with deep pictures of the "
             "structure, the values it was given, contexts, inputs and class taken before and after each, and vandalism of "
             "everything handed out to see whether it shows up elsewhere")
LEVEL_NOTE = "declarations, values, histories and inputs are sampled"
RULE = ("an evaluation is one structure put through a history of operations; distinct ones differ in the declaration and the "
        "order of operations")
ASSUMPTIONS = ["mutable objects in a declaration (a list as a default or as the stand-in for an absent field) are shared by "
               "documented design", "given iterators are used up by dumping"]
FLOORS = {"changed after observation": 5000, "changed in place after observation": 800,
          "changes to dictionaries": 2900, "changes to loaded values": 1500, "field dumps": 10000,
          "field loads": 3500, "histories": 2400, "loads with overrides": 4700, "operations": 22000,
          "overrides changed afterwards": 3200, "repeated operations": 2900, "sharing checks": 2100}


def picture(c, inst):
    """Everything there is to see of a structure, through its interface."""
    names = [n for n in inst]
    return {
        "assigned": names, "values": {n: snap(inst[n]) for n in names}, "bytes": result(inst.to_bytes, c.ctx),
        "dict": result(inst.to_dict, True, c.ctx), "repr": repr(inst),
    }


def snap(v):
    if isinstance(v, binobj.Struct):
        return (type(v).__name__, {n: snap(v[n]) for n in v})
    if isinstance(v, (list, tuple)):
        return [type(v).__name__, *map(snap, v)]
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    return snapshot(v)


def result(fn, *a):
    k, v = outcome(fn, *a)
    return (k, snap(v)) if k == "ok" else (k, type(v).__name__)


def class_picture(cls):
    m = cls.__binobj_struct__
    return [(n, f.name, f.index, f.offset, snap_opt(f.const), snap_opt(f.default), f.discard, f.size, len(f.validators))
            for n, f in m.components.items()], cls.get_size()


def snap_opt(v):
    return snap(v) if not callable(v) else "callable"


OPS = {
    "repr": lambda c, i, r: repr(i), "str": lambda c, i, r: str(i), "len": lambda c, i, r: len(i),
    "to_dict": lambda c, i, r: i.to_dict(False, c.ctx), "to_dict all": lambda c, i, r: i.to_dict(True, c.ctx),
    "to_dict no context": lambda c, i, r: i.to_dict(True),
    "to_bytes": lambda c, i, r: i.to_bytes(c.ctx), "bytes": lambda c, i, r: bytes(i),
    "to_bytes no context": lambda c, i, r: i.to_bytes(),
    "to_stream": lambda c, i, r: stream_of(lambda st: i.to_stream(st, c.ctx)),
    "validate": lambda c, i, r: i.validate_contents(c.ctx), "validate no context": lambda c, i, r: i.validate_contents(),
    "iterate": lambda c, i, r: [n for n in i], "eq self": lambda c, i, r: i == i, "eq none": lambda c, i, r: i == None,  # noqa: E711
    "eq undefined": lambda c, i, r: i == bf.UNDEFINED, "ne": lambda c, i, r: i != 5,
    "eq dict": lambda c, i, r: i == {n: i[n] for n in i}, "get_size": lambda c, i, r: type(i).get_size(),
    "bool": lambda c, i, r: bool(len(i)), "vars": lambda c, i, r: len(vars(i)) > 0, "dir": lambda c, i, r: bool(dir(i)),
}


def stream_of(fn):
    st = RecStream()
    fn(st)
    return st.getvalue()


def pick_op(rng, c):
    x = rng.random()
    name = rng.choice(c.s.fields).name
    if x < 0.12:
        return f"read {name}", lambda i: getattr(i, name)
    if x < 0.2:
        return f"item {name}", lambda i: i[name]
    if x < 0.26:
        return f"in {name}", lambda i: name in i
    if x < 0.38:
        return f"partial_dump {name}", lambda i: stream_of(lambda st: i.partial_dump(st, name, c.ctx))
    if x < 0.42:
        return "partial_dump", lambda i: stream_of(lambda st: i.partial_dump(st, None, c.ctx))
    if x < 0.5:
        f = type_field(c, name)
        return f"compute {name}", lambda i: f.compute_value_for_dump(i.to_dict(True, c.ctx), c.ctx)
    if x < 0.56:
        return "eq twin", lambda i: i == c.twin
    if x < 0.6:
        return "eq other", lambda i: i == c.other
    k = rng.choice(sorted(OPS))
    return k, lambda i: OPS[k](c, i, rng)


def type_field(c, name):
    return c.cls.__binobj_struct__.components[name]


class Checked(Ctx):
    """Some structures have validators that look and do nothing."""

    def __init__(self, rng):
        self.rng = rng

    def struct_ns(self, s, ns, fields):
        if self.rng.random() < 0.5:
            return
        names = [f.name for f in s.own if self.rng.random() < 0.6]
        if names:
            def look(struct, field, value):
                return repr(value) is None

            ns["look_at_fields"] = decorators.validates(*names)(look)
        if self.rng.random() < 0.5:
            def look_at_all(struct, values):
                return [values[n] for n in names] is None

            ns["look_at_structure"] = decorators.validates_struct(look_at_all)


def prepare(rng, mon, **prof):
    c = Case(rng, mon, hooks=Checked(rng), conds=0.25, computed=0.5, defaults=0.4, maxfields=5, np=0.3, **prof)
    kw = c.b.kwargs(c.s, c.given, rng)
    return c, kw


def observe(rng, mon, idx):
    c, kw = prepare(rng, mon)
    inst = c.cls(**kw)
    c.twin = c.inst()
    c.other = c.more().inst()
    if rng.random() < 0.3:
        # something is missing, so operations fail
        assigned = [n for n in inst]
        if assigned:
            del inst[rng.choice(assigned)]
    elif rng.random() < 0.3 and c.unambiguous():
        k, loaded = outcome(c.cls.from_bytes, c.data, c.ctx)
        if k == "ok":
            inst = loaded
    given = snap(kw)
    ctx = snap(c.ctx)
    klass = class_picture(c.cls)
    before = picture(c, inst)
    twin, other = picture(c, c.twin), picture(c, c.other)
    first = {}
    history = []
    for _ in range(rng.randint(5, 14)):
        name, fn = pick_op(rng, c)
        history.append(name)
        r = result(fn, inst)
        mon.ev("operations")
        if name in first:
            mon.check(first[name] == r, f"{name} gave {short(r, 900)}, earlier {short(first[name], 900)}; history {history}",
                      c.describe())
            mon.ev("repeated operations")
        first[name] = r
        if rng.random() < 0.5:
            now = picture(c, inst)
            mon.check(now == before, f"{name} changed the structure: {differ(before, now)}; history {history}", c.describe())
            mon.check(snap(kw) == given, f"{name} changed the given values: {short(differ(given, snap(kw)))}; {history}",
                      c.describe())
    now = picture(c, inst)
    mon.check(now == before, f"the structure changed: {differ(before, now)}; history {history}", c.describe())
    mon.check(snap(kw) == given, f"given values changed: {short(differ(given, snap(kw)))}; history {history}", c.describe())
    mon.check(snap(c.ctx) == ctx, f"the context changed: {c.ctx!r}", c.describe())
    mon.check(class_picture(c.cls) == klass, f"the class changed: {short(differ(klass, class_picture(c.cls)))}; {history}",
              c.describe())
    mon.check(picture(c, c.twin) == twin and picture(c, c.other) == other, f"other structures changed; history {history}",
              c.describe())
    mon.check(twin["bytes"][1] == snapshot(c.data), f"the twin dumps {twin['bytes']}, want {c.data.hex()}", c.describe())
    mon.ev("histories")
    mon.seen(tuple(h.split()[0] for h in history[:4]), len(history), tuple(f.kind for f in c.s.fields))


def differ(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: (a.get(k), b.get(k)) for k in {**a, **b} if a.get(k) != b.get(k)}
    return (a, b)


# ---------------------------------------------------------------- vandalism

def vandalize(rng, v, depth=0):
    """Change every mutable container within a value; number of changes."""
    n = 0
    if isinstance(v, binobj.Struct):
        for x in [v[name] for name in v]:
            n += vandalize(rng, x, depth + 1)
        names = [x for x in v]
        if depth and names:
            del v[names[0]]
            n += 1
    elif isinstance(v, list):
        for x in v:
            n += vandalize(rng, x, depth + 1)
        v.append("vandal")
        n += 1
    elif isinstance(v, dict):
        for x in list(v.values()):
            n += vandalize(rng, x, depth + 1)
        v["vandal"] = "vandal"
        n += 1
    return n


def sharing(rng, mon, idx):
    """What is loaded or converted shares nothing changeable with anything else."""
    c, kw = prepare(rng, mon, arrays=True, eof=True)
    c2 = c.more()
    datas = [c.data, c.data, c2.data]
    want = c.decoded()
    if not (c.unambiguous() and c2.unambiguous()):
        return
    insts = []
    for d in datas:
        src = rng.choice([bytes, bytes, bytearray])(d)
        ctx = snap(c.ctx)
        k, inst = outcome(c.cls.from_bytes if isinstance(src, bytes) else lambda b, x: c.cls.from_stream(io.BytesIO(b), x), src,
                          c.ctx)
        mon.check(bytes(src) == d and snap(c.ctx) == ctx, "loading changed its input or context", c.describe())
        if k != "ok":
            return
        insts.append(inst)
    pics = [picture(c, i) for i in insts]
    klass = class_picture(c.cls)
    # dictionaries are copies
    d = outcome(insts[0].to_dict, True, c.ctx)
    if d[0] == "ok":
        n = vandalize(rng, d[1])
        mon.ev("changes to dictionaries", n)
        mon.check(picture(c, insts[0]) == pics[0], f"changing the dictionary form changed the structure: "
                  f"{differ(pics[0], picture(c, insts[0]))}", c.describe())
    # loaded structures are independent
    victim = insts[rng.choice([0, 1])]
    others = [i for i in range(3) if insts[i] is not victim]
    mine = [victim[nm] for nm in [x for x in victim] if not standin(c, want[0], nm)]
    n = sum(vandalize(rng, v, 1) for v in mine)
    for nm in [x for x in victim]:
        if rng.random() < 0.5:
            del victim[nm]
    mon.ev("changes to loaded values", n)
    for i in others:
        now = picture(c, insts[i])
        mon.check(now == pics[i], f"changing one loaded structure changed another: {differ(pics[i], now)}", c.describe())
    mon.check(class_picture(c.cls) == klass, "changing a loaded structure changed the class", c.describe())
    k, again = outcome(c.cls.from_bytes, c.data, c.ctx)
    mon.check(k == "ok" and picture(c, again) == pics[0], f"a later load gives {short(again)}", c.describe())
    k, got = outcome(lambda: c.inst().to_bytes(c.ctx))
    mon.check(k == "ok" and got == c.data, f"a later dump gives {short(got)}, want {c.data.hex()}", c.describe())
    mon.ev("sharing checks")
    mon.seen("sharing", tuple(f.kind for f in c.s.fields), n)


def standin(c, want, name):
    """Mutable objects of the declaration itself."""
    f = c.s.get(name)
    return "present" in f.o and "np" in f.o or want.get(name) is ABSENT


# ---------------------------------------------------------------- override values

def overrides(rng, mon, idx):
    c, kw = prepare(rng, mon, nulls=0.15)
    over = {}
    fields = [f for f in c.s.fields if f.kind in ("arr", "nest") and f.name in kw and not f.o.get("discard")]
    for f in fields:
        if isinstance(kw[f.name], (list, dict)):
            over[f.name] = kw[f.name]
    used = {n for f in c.s.fields for _, n in refs_of(f)}  # a size of another record could ask for absurd amounts
    extra = [f for f in c.s.fields if f.name not in used and f.kind in ("int", "bytes", "str", "uuid") and f.name in kw and f.name not in over]
    if extra:
        f = rng.choice(extra)
        over[f.name] = kw[f.name]
    before = snap(over)
    keys = list(over)
    for src in (c.data, mutate_bytes(rng, c.data)):
        if budget(c.decoded(src)):
            continue
        st = RecStream(src)
        k, inst = outcome(c.cls.from_stream, st, c.ctx, over)
        mon.check(snap(over) == before and list(over) == keys, f"loading {src.hex()} changed the override values to {over!r}",
                  c.describe())
        mon.ev("loads with overrides")
        if k != "ok":
            continue
        for n in over:
            if n in set(inst):
                mon.check(snap(inst[n]) == before[n], f"{n} is {inst[n]!r}, given {over[n]!r}", c.describe())
        pic = picture(c, inst)
        # the caller's objects aren't part of the result
        mine = copy.deepcopy(over)
        if vandalize(rng, over):
            mon.check(picture(c, inst) == pic, f"changing the override values after loading changed the structure: "
                      f"{differ(pic, picture(c, inst))}", c.describe())
            mon.ev("overrides changed afterwards")
        over = mine
        before2 = snap(over)
        for v in [inst[n] for n in inst]:
            vandalize(rng, v, 1)
        mon.check(snap(over) == before2, f"changing the loaded structure changed the override values: {over!r}", c.describe())
        mon.seen("overrides", tuple(sorted((c.s.get(n).kind for n in over))))


# ---------------------------------------------------------------- fields on their own

def alone(rng, mon, idx):
    g = Gen(rng, conds=0.2, nulls=0.3)
    from ..build import Builder
    from ..gen import _Build

    f = _Build(g, rng.choice([0, 1]), "e").element("x")
    f.p.pop("short", None)
    b = Builder()
    fld = b.field(f, {})
    try:
        v = g.any_value(f, {"__ctx__": None})
    except GiveUp:
        return
    val = b.value(f, v, rng)
    before = snap(val)
    state = {k: snap_opt(x) for k, x in vars(fld).items() if k[0] != "_" and isinstance(x, (int, str, bytes, type(None), bool))}
    k1, d1 = outcome(fld.to_bytes, val)
    for _ in range(3):
        k, d = outcome(fld.to_bytes, val, None, None)
        mon.check((k, snapshot(d) if k == "ok" else type(d)) == (k1, snapshot(d1) if k1 == "ok" else type(d1)),
                  f"{f!r}: dumped {short(v)} as {short(d1)}, then as {short(d)}")
        mon.check(snap(val) == before, f"{f!r}: dumping changed {before!r} to {val!r}")
        mon.ev("field dumps")
    if k1 == "ok":
        try:
            if budget(ref.decode_field(f, d1, 0, {"__ctx__": None}, None)):
                return
        except ref.Rej as e:
            if budget(e):
                return
        ra, rb = outcome(fld.from_bytes, d1), outcome(fld.from_bytes, d1)
        if ra[0] == "ok":
            p = snap(rb[1])
            mon.check(snap(ra[1]) == p, f"{f!r}: loads of {d1.hex()} differ: {ra[1]!r}, {rb[1]!r}")
            vandalize(rng, ra[1])
            mon.check(snap(rb[1]) == p and snap(fld.from_bytes(d1)) == p, f"{f!r}: values loaded from {d1.hex()} are shared")
            mon.ev("field loads")
    now = {k: snap_opt(x) for k, x in vars(fld).items() if k in state}
    mon.check(now == state, f"{f!r}: the field changed from {state!r} to {now!r}")
    mon.seen("alone", f.kind, str(f.o)[:10])


# ---------------------------------------------------------------- observing, changing, observing

def attempt(fn, *a):
    """The mixed values of several assignments need not make sense together, in any way."""
    try:
        return "ok", snap(fn(*a))
    except AssertionError:
        raise
    except Exception as e:  # noqa: BLE001
        return "err", type(e).__name__


def views(c, inst):
    """What every way of looking gives, the order of assignment aside."""
    out = {"assigned": sorted({n for n in inst}), "len": attempt(len, inst), "bytes": attempt(inst.to_bytes, c.ctx),
           "plain bytes": attempt(bytes, inst), "dict": attempt(inst.to_dict, True, c.ctx), "kept": attempt(inst.to_dict),
           "valid": attempt(inst.validate_contents, c.ctx), "partial": attempt(stream_of, lambda st: inst.partial_dump(st, None, c.ctx))}
    for f in c.s.fields:
        out["read " + f.name] = attempt(getattr, inst, f.name)
        out["part " + f.name] = attempt(stream_of, lambda st: inst.partial_dump(st, f.name, c.ctx))
    return out


def afterwards(rng, mon, idx):
    """Looking at a structure doesn't keep it from changing: it then looks like one that never was anything else."""
    c = Case(rng, mon, hooks=Checked(rng), conds=0.2, computed=0.5, defaults=0.4, maxfields=5, np=0.3, arrays=True)
    fixed = {f.name for f in c.s.fields if {"const", "compute"} & set(f.o)}
    now = dict(c.given)
    inst = c.cls(**c.b.kwargs(c.s, now))
    seen = views(c, inst)
    for _ in range(3):
        floats = [f.name for f in c.s.fields if f.kind == "float" and f.name not in fixed]
        if floats and rng.random() < 0.4:  # equal, but not the same
            n = rng.choice(floats)
            target = dict(now, **{n: -0.0 if repr(now.get(n)) == "0.0" else 0.0})
        else:
            other = c.more().given
            target = {n: v for n, v in now.items() if n in fixed}
            for f in c.s.fields:
                side = other if rng.random() < 0.7 else now
                if f.name not in fixed and f.name in side:
                    target[f.name] = side[f.name]
        kw = c.b.kwargs(c.s, target)
        for n in now.keys() - target.keys():
            del inst[n]
        changed = 0
        for n in target.keys() - fixed:
            if n not in now or target[n] is not now[n]:
                changed += become(inst, n, kw[n], rng.random() < 0.7)
        want = views(c, c.cls(**c.b.kwargs(c.s, target)))
        got = views(c, inst)
        mon.check(got == want, f"after having been looked at as {now!r} and changed to {target!r}: {short(differ(want, got), 900)}",
                  c.describe())
        mon.ev("changed after observation")
        if changed:
            mon.ev("changed in place after observation")
        now, seen = target, got
    mon.seen("afterwards", tuple(f.kind for f in c.s.fields), len(seen))


SCENARIOS = [Scenario("observe", observe, 6000, 100000), Scenario("afterwards", afterwards, 2500, 50000), Scenario("sharing", sharing, 6000, 100000),
             Scenario("overrides", overrides, 6000, 100000), Scenario("alone", alone, 9000, 100000)]
