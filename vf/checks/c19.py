"""C19: arrays hold exactly the declared elements."""
import array
import collections
import io
import itertools

import binobj
from binobj import errors
from binobj import fields as bf

from .. import ref
from ..build import Builder, Ctx, halt_fn
from ..core import Scenario
from ..gen import Gen, GiveUp, refs_of
from ..spec import ABSENT, F, S, UNSET
from ..streams import RecStream
from ..util import Case, budget, compare_load, mutate_bytes, outcome, short, values_of

PROPERTY = "C19"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: arrays loaded and dumped under instrumented streams, stop checks and input iterables; the "
             "elements, element boundaries, stop-check calls and items taken from the input are compared with a reference "
             "codec's")
LEVEL_NOTE = "element types, counts, stop conditions, inputs and container kinds are sampled"
RULE = ("an evaluation is one array, alone or in a structure, dumped from several kinds of input of right and wrong length "
        "and loaded from its bytes and variations of them; distinct ones differ in the element type, the way the count is "
        "given and the number of elements")
ASSUMPTIONS = ["every element takes at least one byte", "a count that is read from the data isn't negative"]
FLOORS = {"absent elements": 730, "arrays dumped alone": 43000, "arrays loaded": 8800, "arrays loaded alone": 10000,
          "arrays of conditional elements": 600, "arrays refused": 9800, "arrays with stop checks": 5900,
          "counted arrays": 1200, "dumps from containers": 9200, "elements loaded": 20000, "empty arrays": 1700,
          "endless inputs": 840, "inputs accepted": 6300, "inputs refused": 9600, "one-shot dumps": 2900,
          "stop checks observed": 2400, "truncated arrays refused": 7100, "wrong counts refused": 1100,
          "wrong lengths refused": 4400, "wrong lengths refused alone": 10000}


def top_arrays(s):
    return [f for f in s.fields if f.kind == "arr"]


def len_targets(s):
    return {f.o["compute"][1] for f in s.fields if "compute" in f.o and f.o["compute"][0] in ("len", "enclen")}


# ---------------------------------------------------------------- inputs

class Source:
    """An iterable that logs what is taken from it."""

    def __init__(self, items, endless=False):
        self.items = list(items)
        self.endless = endless
        self.iters = 0
        self.taken = 0
        self.ended = False

    def __iter__(self):
        self.iters += 1
        assert self.iters == 1, "iterated twice"
        for x in self.items:
            self.taken += 1
            yield x
        while self.endless:
            self.taken += 1
            assert self.taken < len(self.items) + 50, "endless input drained"
            yield self.items[-1]
        self.ended = True


class OneShot(Source):
    """An iterator, so `iter` gives itself."""

    def __init__(self, items, endless=False):
        super().__init__(items, endless)
        self.it = super().__iter__()

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


class Indexed:
    """Iterable by the old sequence protocol only."""

    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        return self.items[i]


class SizedOnly(Indexed):
    def __len__(self):
        return len(self.items)


def gen_of(items):
    yield from items


def as_keys(v):
    """A mapping with the elements as its keys, if they can be."""
    try:
        d = dict.fromkeys(v)
    except TypeError:
        return v
    return d if len(d) == len(v) and all(a is b for a, b in zip(d, v)) else v


def as_keyview(v):
    d = as_keys(v)
    return d.keys() if isinstance(d, dict) else v


def as_bytes(v):
    return bytes(v) if all(type(x) is int and 0 <= x < 256 for x in v) else v


def as_ints(v):
    return array.array("q", v) if v and all(type(x) is int and -(1 << 63) <= x < 1 << 63 for x in v) else v


CONTAINERS = {
    "mapping": as_keys, "key view": as_keyview, "bytes": as_bytes, "array": as_ints,
    "list": list, "tuple": tuple, "deque": collections.deque, "SizedOnly": SizedOnly,
    "UserList": collections.UserList, "dict values": lambda v: dict(enumerate(v)).values(),
    "iterator": iter, "generator": gen_of, "map": lambda v: map(lambda x: x, v), "Indexed": Indexed,
    "reversed": lambda v: reversed(v[::-1]), "chain": lambda v: itertools.chain(v[:1], v[1:]),
}
SIZED = ("mapping", "key view", "bytes", "array", "list", "tuple", "deque", "SizedOnly", "UserList", "dict values")


# ---------------------------------------------------------------- loading in structures

def structs(rng, mon, idx):
    for _ in range(12):
        c = Case(rng, None, unions=rng.random() < 0.4, conds=0.15, nulls=0.25, maxfields=5)
        if top_arrays(c.s):
            break
    else:
        return
    mon.sample(c.describe())
    for d in [c.data, c.more().data] + [mutate_bytes(rng, c.data) for _ in range(6)]:
        tail = b"" if rng.random() < 0.5 else rng.randbytes(rng.randint(1, 4))
        d += tail
        want = c.decoded(d)
        if budget(want):
            continue
        st = RecStream(b"##" + d, pos=2)
        want2 = c.decoded(b"##" + d, 2)
        got = outcome(c.cls.from_stream, st, c.ctx)
        compare_load(mon, c, want2, got, f"load of {d.hex()}")
        if not isinstance(want2, ref.Rej):
            mon.check(st.at == want2[1], f"load of {d.hex()} left the stream at {st.at}, not {want2[1]}", c.describe())
        # each array by itself
        for f in top_arrays(c.s):
            prefix(mon, c, f, d)


def prefix(mon, c, f, data):
    """Load up to an array: the elements and the place where it ends."""
    env, pos = {"__ctx__": c.ctx}, 0
    s = S(c.s.name + "P", c.s.fields[: c.s.fields.index(f) + 1])
    try:
        want, pos = ref.decode_struct(s, data, 0, c.ctx)
    except ref.Rej as e:
        want = e
    if budget(want):
        return
    st = RecStream(data)
    k, inst = outcome(c.cls.partial_load, st, f.name, c.ctx)
    if isinstance(want, ref.Rej):
        mon.check(k == "err", f"partial load of {data.hex()} up to {f.name}, which has no value there ({want!r}), gave {short(inst)}",
                  c.describe())
        mon.ev("arrays refused")
        return
    mon.check(k == "ok", f"partial load of {data.hex()} up to {f.name}: {short(inst)}", c.describe())
    if want[f.name] is ABSENT:
        return
    if not f.o.get("discard"):
        k, v = outcome(lambda: inst[f.name])
        mon.check(k == "ok", f"partial load of {data.hex()} up to {f.name} doesn't have it: {short(v)}", short(want), c.describe())
        diff = ref.same(f, want[f.name], v)
        mon.check(diff is None, f"partial load of {data.hex()} up to {f.name}: {diff}", short(want), c.describe())
    mon.check(st.at == pos, f"{f.name} ends at {pos} but the stream was left at {st.at}", data.hex(), c.describe())
    mon.ev("arrays loaded")
    n = len(want[f.name]) if want[f.name] is not None else None
    mon.ev("empty arrays" if n == 0 else "elements loaded", n or 1)
    mon.seen(f.p["comp"].kind, str(f.p["count"])[:12], n)


# ---------------------------------------------------------------- dumping in structures

def dumps(rng, mon, idx):
    for _ in range(12):
        c = Case(rng, None, unions=rng.random() < 0.3, conds=0.1, nulls=0.2, maxfields=5)
        arrs = [f for f in top_arrays(c.s) if f.name in c.given and isinstance(c.given[f.name], list)
                and isinstance(c.full[f.name], list)]
        if arrs:
            break
    else:
        return
    mon.sample(c.describe())
    f = rng.choice(arrs)
    items = c.given[f.name]
    lens = len_targets(c.s)
    base = c.b.kwargs(c.s, c.given, rng)
    made = c.b.value(f, items, rng)
    for name in rng.sample(sorted(CONTAINERS), 6):
        if f.name in lens and name not in SIZED:
            continue
        inst = c.cls(**{**base, f.name: CONTAINERS[name](made)})
        k, got = outcome(inst.to_bytes, c.ctx)
        mon.check(k == "ok" and got == c.data, f"dump with {f.name} given as {name}: {short(got)}, want {c.data.hex()}",
                  c.describe())
        mon.ev("dumps from containers")
        mon.seen("dump", name, f.p["comp"].kind, str(f.p["count"])[:12], len(items))
    if f.name not in lens:
        for cls in (Source, OneShot):
            src = cls(made)
            k, got = outcome(c.cls(**{**base, f.name: src}).to_bytes, c.ctx)
            mon.check(k == "ok" and got == c.data and src.taken == len(items) and src.ended,
                      f"dump with {f.name} given as one-shot {cls.__name__}: {short(got)}, {src.taken} of {len(items)} taken",
                      c.describe())
            mon.ev("one-shot dumps")
    # wrong lengths
    cnt = f.p["count"]
    if isinstance(cnt, int) or (isinstance(cnt, tuple) and cnt[0] == "ref" and f.name not in lens
                                and sum(1 for x in c.s.fields if any(n == cnt[1] for _, n in refs_of(x))) == 1):
        n = cnt if isinstance(cnt, int) else c.full[cnt[1]]
        if n != len(items):
            return
        wrong_lengths(rng, mon, c, f, base, made, n)


def wrong_lengths(rng, mon, c, f, base, made, n):
    extra = made or [c.b.value(f.p["comp"], c.gen.plain_value(f.p["comp"], {**c.full, "__ctx__": c.ctx}), rng)]
    wrong = [made + [extra[0]], made + extra * 2]
    if n:
        wrong += [made[:-1], []]
    start = next((a for nm, a, _ in c.spans if nm == f.name), len(c.data))
    for items in wrong:
        for name in ("list", rng.choice(SIZED), rng.choice(["generator", "iterator", "Source", "OneShot"])):
            src = {"Source": Source, "OneShot": OneShot}.get(name) or CONTAINERS[name]
            val = src(items)
            st = RecStream()
            k, e = outcome(lambda: c.cls(**{**base, f.name: val}).to_stream(st, c.ctx))
            what = f"dump of {len(items)} elements ({name}) for {n} in {f.name}"
            mon.check(k == "err" and isinstance(e, errors.ArraySizeError), f"{what}: {short(e)}, wrote {st.getvalue().hex()}",
                      c.describe())
            mon.check(e.n_expected == n and e.field.name == f.name, f"{what}: expected {e.n_expected} of {e.field}",
                      c.describe())
            if name in SIZED:
                mon.check(e.n_given == len(items), f"{what}: the error says {e.n_given} given", c.describe())
            mon.check(len(st.getvalue()) <= start, f"{what}: wrote part of the array: {st.getvalue().hex()}", c.describe())
            if isinstance(val, Source):
                mon.check(val.taken <= max(n, 0) + 1, f"{what}: took {val.taken} items", c.describe())
            mon.ev("wrong lengths refused")
    for cls in (Source, OneShot):
        src = cls(extra, endless=True)
        k, e = outcome(lambda: c.cls(**{**base, f.name: src}).to_bytes(c.ctx))
        mon.check(k == "err" and isinstance(e, errors.ArraySizeError) and src.taken <= n + max(1, len(extra)),
                  f"dump of endless input for {n} in {f.name}: {short(e)}, {src.taken} taken", c.describe())
        mon.ev("endless inputs")


# ---------------------------------------------------------------- alone

def alone(rng, mon, idx):
    """An array field used on its own, with its count in the mapping of values."""
    g = Gen(rng, conds=0.15, nulls=0.35, halts=True)
    from ..gen import _Build

    how = rng.choice(["fixed", "fixed", "name", "object", "eof", "upto", "last"])
    b = Builder()
    comp = _Build(g, rng.choice([0, 1, 1]), "e").element(None) if how != "last" else g.int_field(None, None, size=rng.choice([1, 2]))
    h = None
    if how == "fixed":
        count = rng.choice([0, 0, 1, 2, 3, 5, 300 if comp.kind == "int" else 4])
    elif how in ("name", "object"):
        count = ("ref", "n", "name")
    elif how == "eof":
        count = None
    else:
        h = ("upto", rng.randint(0, 3)) if how == "upto" else ("last", g.plain_value(comp, {}))
        count = ("halt", h)
    if rng.random() < 0.2:  # a condition that holds
        comp.o["present"] = ("fixed", True)
        if rng.random() < 0.6:
            comp.o["np"] = None if "null" in comp.o or rng.random() < 0.3 else g.plain_value(comp, {"__ctx__": None})
    f = F("arr", "x", {"comp": comp, "count": count})
    if rng.random() < 0.25 and count is not None:
        f.o["null"] = ("raw", b"\xfe\xdc\xba")
    for _ in range(3):
        env = {"n": rng.choice([0, 1, 2, 4]), "__ctx__": None}
        try:
            if how in ("upto", "last"):
                v = g.halted_value(f, h, env)
            else:
                m = count if how == "fixed" else env["n"]
                v = [g.any_value(comp, env) for _ in range(m)]
            v = ref.normal(f, v, None, env)
            data = ref.encode_field(f, v, env, None)
        except (GiveUp, ref.Rej):
            continue
        trial(rng, mon, b, g, f, v, data, env, how)
    if "null" in f.o:
        fld = make(b, f, how)
        k, got = outcome(fld.to_bytes, None, None, {"n": 2})
        mon.check(k == "ok" and got == b"\xfe\xdc\xba", f"{f!r}: null dumped as {short(got)}")


def make(b, f, how):
    if how == "object":
        n = bf.UInt8(name="n")
        return b.field(f, {"n": n}) if f.p["count"][2] == "obj" else b.field(
            F("arr", f.name, {**f.p, "count": ("ref", "n", "obj")}, f.o), {"n": n})
    return b.field(f, {})


def trial(rng, mon, b, g, f, v, data, env, how):
    fld = make(b, f, how)
    comp = f.p["comp"]
    all_fields = {"n": env["n"]}
    what = f"{f!r} n={env['n']} {short(v)} -> {data.hex()[:400]}"
    made = b.value(F("arr", "x", f.p), v, rng)
    for name in ["list", *rng.sample(sorted(CONTAINERS), 3)]:
        k, got = outcome(fld.to_bytes, CONTAINERS[name](made), None, all_fields)
        mon.check(k == "ok" and got == data, f"dump from {name}: {short(got)}", what)
        mon.ev("arrays dumped alone")
        mon.seen("alone", how, comp.kind, len(v), name)
    src = rng.choice([Source, OneShot])(made)
    st = RecStream(b"..", pos=2)
    k, got = outcome(fld.to_stream, st, src, None, all_fields)
    mon.check(k == "ok" and st.getvalue() == b".." + data and src.taken == len(v), f"dump from one-shot: {short(got)}", what)
    # elements one after another, with what follows left alone
    tail = b"" if how == "eof" else rng.choice([b"", b"\0", rng.randbytes(3), data[:4]])
    try:
        want, end = ref.decode_field(f, data + tail, 0, env, None)
    except ref.Rej as e:
        want = e
        if budget((want,)[0]):
            return
    st = RecStream(b".." + data + tail, pos=2)
    k, got = outcome(fld.from_stream, st, None, all_fields)
    if isinstance(want, ref.Rej):
        mon.check(k == "err", f"load of {(data + tail).hex()} gave {short(got)}", what)
        return
    mon.check(k == "ok", f"load of {(data + tail).hex()}: {short(got)}", what)
    diff = ref.same(f, want, got)
    mon.check(diff is None and st.at == 2 + end, f"load of {(data + tail).hex()}: {diff}, stream left at {st.at - 2}, not {end}", what)
    mon.ev("arrays loaded alone")
    # the elements by themselves
    if want is not None and want:
        el = b.field(comp, {})
        pos, out = 0, []
        st = RecStream(data + tail)
        for _ in want:
            k, x = outcome(el.from_stream, st, None, all_fields)
            mon.check(k == "ok", f"element alone: {short(x)}", what)
            out.append(x)
        for i, (x, w) in enumerate(zip(out, want)):
            diff = ref.same(comp, w, x, f"[{i}]")
            mon.check(diff is None, f"element alone: {diff}", what)
        mon.check(st.at == end, f"elements alone end at {st.at}, the array at {end}", what)
        del pos
    # wrong lengths
    if how in ("fixed", "name", "object"):
        n = len(v)
        extra = made[-1:] or [b.value(comp, ref.normal(comp, g.plain_value(comp, env), None, env), rng)]
        for items in [made + extra, *([made[:-1]] if n else [])]:
            st = RecStream()
            k, e = outcome(fld.to_stream, st, items, None, all_fields)
            mon.check(k == "err" and isinstance(e, errors.ArraySizeError) and (e.n_expected, e.n_given) == (n, len(items))
                      and not st.getvalue(), f"dump of {len(items)} elements: {short(e)}, wrote {st.getvalue().hex()}", what)
            k, e = outcome(fld.to_bytes, iter(items), None, all_fields)
            mon.check(k == "err" and isinstance(e, errors.ArraySizeError) and e.n_expected == n,
                      f"dump of an iterator over {len(items)} elements: {short(e)}", what)
            mon.ev("wrong lengths refused alone")
    # cut short
    if data and how != "eof":
        cut = data[: rng.randrange(len(data))]
        try:
            want, end = ref.decode_field(f, cut, 0, env, None)
        except ref.Rej:
            k, got = outcome(fld.from_stream, io.BytesIO(cut), None, all_fields)
            mon.check(k == "err", f"load of {cut.hex()} gave {short(got)}", what)
            mon.ev("truncated arrays refused")


# ---------------------------------------------------------------- stop checks

class Trace(Ctx):
    def __init__(self):
        self.calls = []

    def halt(self, f, fn):
        def check(seq, stream, values, ctx, loaded):
            r = fn(seq, stream, values, ctx, loaded)
            self.calls.append((f.name, seq, stream.tell(), list(values), ctx, dict(loaded), bool(r), type(values)))
            return r

        return check


class Context:
    """An opaque context that generated conditions can use."""

    def get(self, k, d=None):
        return False


def halts(rng, mon, idx):
    g = Gen(rng, conds=0.15, nulls=0.3, peek=False)
    from ..gen import _Build

    tr = Trace()
    b = Builder()
    own = [g.int_field(f"p{i}") for i in range(rng.randint(0, 2))]
    for f in own:
        f.p.pop("short", None)
    x = rng.random()
    pop = False
    if x < 0.4:
        comp = g.int_field(None, None, size=rng.choice([1, 2]))
        h = ("last", g.plain_value(comp, {}))
        pop = rng.random() < 0.5
    else:
        comp = _Build(g, 1, "e").element(None)
        h = ("upto", rng.randint(0, 4)) if x < 0.7 else ("peek", rng.randrange(256))
    f = F("arr", "x", {"comp": comp, "count": ("halt", h)})
    fn = halt_fn(h)

    def popping(seq, stream, values, ctx, loaded):
        if values and values[-1] == h[1]:
            values.pop()
            return True
        return False

    if pop:
        fn = popping
    check = tr.halt(f, fn)
    style = rng.choice(["argument", "subclass", "argument"])
    fields = {o.name: b.field(o, {}) for o in own}
    el = b.field(comp, {})
    if style == "subclass":
        class Stopping(bf.Array):
            should_halt = staticmethod(check)

        fields["x"] = Stopping(el)
    else:
        fields["x"] = bf.Array(el, halt_check=check)
    fields["end"] = bf.UInt8()
    import binobj

    cls = type("H", (binobj.Struct,), dict(fields))
    s = S("H", [*own, f, F("int", "end", {"size": 1, "signed": False, "endian": "big"})])
    for _ in range(3):
        ctx = Context()
        env = {"__ctx__": ctx}
        try:
            v = g.halted_value(f, h, env)
            vals = {o.name: g.plain_value(o, env) for o in own}
            full = ref.resolve(s, {**vals, "x": v, "end": h[1] if h[0] == "peek" else 7}, ctx)
            data, spans = ref.encode_struct(s, full, ctx)
            want, end = ref.decode_struct(s, data, 0, ctx)
        except (ref.Rej, GiveUp):
            continue
        what = f"{style} {s!r} pop={pop} {short(full)} -> {data.hex()}"
        tr.calls.clear()
        st = RecStream(b"!" + data + b"tail", pos=1)
        k, got = outcome(cls.from_stream, st, ctx)
        mon.check(k == "ok", f"load: {short(got)}", what)
        wx = want["x"][:-1] if pop else want["x"]
        diff = ref.same(f, wx, got["x"]) or ref.same(s.get("end"), want["end"], got["end"])
        mon.check(diff is None and st.at == 1 + end, f"load: {diff}, stream left at {st.at - 1}, not {end}", what)
        # the stop check was asked before every element and once at the end
        pos = sum(ref.plain_size(o) for o in own)
        env = {o.name: want[o.name] for o in own}
        n = len(want["x"])
        mon.check(len(tr.calls) == n + 1, f"stop check called {len(tr.calls)} times for {n} elements", what)
        for i, (_, seq, at, values, cx, loaded, r, typ) in enumerate(tr.calls):
            mon.check(seq is fields["x"], f"stop check {i} got {seq!r} instead of the array", what)
            mon.check(at == 1 + pos, f"stop check {i} ran at {at - 1}, not {pos}", what)
            mon.check(cx is ctx, f"stop check {i} got context {cx!r}", what)
            mon.check({k: v for k, v in loaded.items()} == env, f"stop check {i} got {loaded!r}, loaded so far {env!r}", what)
            mon.check(r == (i == n), f"stop check {i} of {n}: {r}", what)
            wv = want["x"][:i] if not (pop and i == n) else want["x"][:-1]
            diff = ref.same(F("arr", "x", {"comp": comp, "count": None}), wv, values)
            mon.check(diff is None and typ is list, f"stop check {i} got {values!r}: {diff}", what)
            mon.ev("stop checks observed")
            if i < n:
                _, pos = ref.decode_field(comp, b"" + data, pos, {**env, "__ctx__": ctx}, ctx)
        mon.seen("halt", style, h[0], comp.kind, n, pop)
        mon.ev("arrays with stop checks")
        # dump ignores the stop check
        tr.calls.clear()
        inst = cls(**{k: b.value(s.get(k), v) for k, v in full.items()})
        k, got = outcome(inst.to_bytes, ctx)
        mon.check(k == "ok" and got == data, f"dump: {short(got)}", what)


# ---------------------------------------------------------------- counts from other fields

def counts(rng, mon, idx):
    """Arrays of arrays and of structures whose counts are given by fields, computed or not; several per structure."""
    import binobj

    g = Gen(rng)
    kind = rng.choice(["object", "name"])
    n1, n2 = rng.randint(0, 4), rng.randint(0, 4)
    computed = rng.random() < 0.5
    order = rng.choice([("na", "nb"), ("nb", "na")])
    mk = rng.choice([bf.UInt8, bf.UInt16, lambda **k: bf.VariableLengthInteger(vli_format=binobj.varints.VarIntEncoding.VLQ)])
    ns = {order[0]: mk(), order[1]: mk()}
    sep = rng.random() < 0.5
    if sep:
        ns["sep"] = bf.UInt8(default=0xEE)
    inner_n = bf.UInt8()
    inner_d = bf.Array(bf.UInt8(), count=inner_n if kind == "object" else "m")
    Inner = type("Inner", (binobj.Struct,), {"m": inner_n, "d": inner_d})
    inner_n.computes(lambda fld, af: len(af["d"]))

    def cnt(n):
        return ns[n] if kind == "object" else n

    # both arrays of the same level, each with its own count field; elements are counted arrays or structures
    ns["a"] = bf.Array(bf.Nested(Inner), count=cnt("na"))
    ns["b"] = bf.Array(bf.Array(bf.UInt8(), count=cnt("na")), count=cnt("nb"))
    if computed:
        for n, a in (("na", "a"), ("nb", "b")):
            ns[n].computes(lambda fld, af, a=a: len(af[a]))
    ns["after"] = bf.UInt8(const=0x5A)
    cls = type("C", (binobj.Struct,), ns)
    a = [[rng.randrange(256) for _ in range(rng.randint(0, 3))] for _ in range(n1)]
    bb = [[rng.randrange(256) for _ in range(n1)] for _ in range(n2)]
    num = {"na": n1, "nb": n2}
    size = 2 if mk is bf.UInt16 else 1
    import sys

    want = (num[order[0]].to_bytes(size, sys.byteorder) + num[order[1]].to_bytes(size, sys.byteorder) + (b"\xee" if sep else b"")
            + b"".join(bytes([len(x), *x]) for x in a) + b"".join(map(bytes, bb)) + b"\x5a")
    kw = {"a": [Inner(d=x) if rng.random() < 0.5 else {"d": x} for x in a], "b": bb}
    if not computed:
        kw.update(num)
    what = f"{kind} {order} computed={computed} {a} {bb}"
    k, got = outcome(lambda: cls(**kw).to_bytes())
    mon.check(k == "ok" and got == want, f"dump: {short(got)}, want {want.hex()}", what)
    st = RecStream(want + b"xx")
    k, got = outcome(cls.from_stream, st)
    mon.check(k == "ok" and [list(x.d) for x in got.a] == a and got.b == bb and st.at == len(want) and
              got.na == n1 and got.nb == n2, f"load: {short(got)}", what)
    mon.ev("counted arrays")
    mon.seen("counts", kind, order, computed, n1, n2)
    if not computed and n1 + n2:
        # the counts disagree with the elements
        for n, arr in (("na", "a"), ("nb", "b")):
            bad = dict(kw, **{n: num[n] + rng.choice([1, 2, -1]) if num[n] else 1})
            st = RecStream()
            k, e = outcome(lambda: cls(**bad).to_stream(st))
            mon.check(k == "err" and isinstance(e, errors.ArraySizeError) and e.n_expected == bad[n] or
                      (n == "na" and k == "err" and isinstance(e, errors.ArraySizeError)),
                      f"dump with {n}={bad[n]}: {short(e)}, wrote {st.getvalue().hex()}", what)
            mon.ev("wrong counts refused")


# ---------------------------------------------------------------- elements that aren't always there

def sparse(rng, mon, idx):
    """Elements whose condition draws from a list: absent ones are left out, or stood in for."""
    n = rng.choice([0, 1, 2, 3, 5])
    bits = [rng.random() < 0.5 for _ in range(rng.randint(0, 12))]
    calls = [0]

    def present(values, context, stream):
        calls[0] += 1
        return bits[calls[0] - 1] if calls[0] <= len(bits) else True

    kinds = {
        "int": (lambda **kw: bf.Int16(endian="big", **kw), lambda: rng.randint(-9, 9), lambda v: v.to_bytes(2, "big", signed=True)),
        "bytes": (lambda **kw: bf.Bytes(size=3, **kw), lambda: rng.randbytes(3), lambda v: v),
        "text": (lambda **kw: bf.StringZ(**kw), lambda: rng.choice(["", "a", "xyz"]), lambda v: v.encode() + b"\0"),
        "null": (lambda **kw: bf.UInt8(null_value=b"\xff", **kw), lambda: rng.choice([None, 0, 3]),
                 lambda v: b"\xff" if v is None else bytes([v]))}
    kind = rng.choice(list(kinds))
    mk, val, enc = kinds[kind]
    kw = {}
    how = rng.choice(["count", "count", "field", "eof", "halt"])
    # Up to the end of the data, an element that takes up no space is refused: nothing would ever end the array.
    if how != "eof" and rng.random() < 0.4:
        kw["not_present_value"] = rng.choice([None, 7, "gone", b"--"])
    stand_in = kw.get("not_present_value", bf.NOT_PRESENT)
    want, data, i = [], b"", 0
    total = rng.randint(0, 4)
    while True:
        if how == "eof":
            if total == 0:
                break
        elif len(want) >= n:
            break
        there = bits[i] if i < len(bits) else True
        i += 1
        if there:
            v = val()
            want.append(v)
            data += enc(v)
            total -= 1
        elif stand_in is not bf.NOT_PRESENT:
            want.append(stand_in)
    tail = b"" if how == "eof" else rng.choice([b"", b"tail"])
    args = {"count": {"count": n}, "field": {"count": "n"}, "eof": {}, "halt": {
        "halt_check": lambda a, st, vals, c, env: len(vals) >= n}}[how]
    arr = bf.Array(mk(present=present, **kw), **args)
    what = f"array of {kind} {args} with {kw}, present {bits}: {data + tail!r}"
    st = RecStream(data + tail)
    if rng.random() < 0.5:
        k, got = outcome(arr.from_stream, st, None, {"n": n})
        at = st.at
    else:
        cls = type("S", (binobj.Struct,), {"n": bf.UInt8(), "a": arr})
        st = RecStream(bytes([n]) + data + tail)
        k, got = outcome(cls.from_stream, st)
        got, at = (got.a if k == "ok" else got), st.at - 1
    mon.check(k == "ok" and got == want and at == len(data), f"{what}: loaded {short(got)} up to {at}, want {want!r}")
    mon.check(calls[0] == i, f"{what}: condition asked {calls[0]} times, not {i}")
    mon.ev("arrays of conditional elements")
    mon.ev("absent elements", bits[:i].count(False))
    mon.seen("sparse", kind, how, bool(kw), tuple(bits[:i]))


SCENARIOS = [Scenario("structs", structs, 5000, 60000), Scenario("dumps", dumps, 4000, 50000), Scenario("alone", alone, 9000, 120000),
             Scenario("halts", halts, 5000, 60000), Scenario("counts", counts, 3000, 30000),
             Scenario("sparse", sparse, 1500, 20000)]
