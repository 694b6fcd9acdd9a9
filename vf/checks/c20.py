"""C20: a union uses exactly the alternative its decider chose."""
import collections
import types
import zlib

import binobj
from binobj import fields as bf

from .. import bad, ref
from ..build import Builder, Ctx
from ..core import Scenario
from ..gen import Gen, GiveUp, _Build
from ..spec import F, S, UNSET
from ..streams import RecStream
from ..util import Case, budget, compare_load, dict_value, mutate_bytes, outcome, short

PROPERTY = "C20"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: recorded decider calls, and differential runs of every union against a twin in which the "
             "chosen alternative stands in the union's place; results, errors, bytes and stream positions must agree")
LEVEL_NOTE = "alternatives, their options, decisions, values and input bytes are sampled"
RULE = ("an evaluation is one union with its alternatives, alone, in a structure or in an array, dumped and loaded with "
        "valid and invalid values and data next to its twin; distinct ones differ in the alternative, its options and place")
ASSUMPTIONS = ["dumping null through a union is governed by the union's own null declaration",
               "alternatives have no presence condition"]
FLOORS = {"arrays of tagged unions": 450, "arrays of unions": 1100, "decisions outside the alternatives": 300,
          "dump decisions observed": 3200, "dumps alone": 5800, "dumps alone refused": 6100,
          "dumps in structures": 5900, "dumps in structures refused": 6100, "inputs accepted": 1200,
          "inputs refused": 1600, "load decisions observed": 4600, "loads after reading deciders": 6400,
          "loads after reading deciders refused": 3100, "loads alone": 15000, "loads alone refused": 8000,
          "loads in structures": 11000, "loads in structures refused": 6300, "mapping proxies": 170,
          "mappings that are no dictionaries": 510, "partial operations": 35000,
          "structures with reading deciders": 6400, "union nulls loaded": 20, "unsupported decisions refused": 3600}


class Opaque:
    """A context."""

    def get(self, k, d=None):
        return bool(zlib.crc32(k.encode()) & 1)


class Validating(Ctx):
    """Some alternatives refuse some values."""

    def __init__(self, salt):
        self.salt = salt

    def validators(self, f):
        if f.o.get("picky") is None:
            return ()

        def picky(field, value):
            if zlib.crc32(repr(value).encode()) % 4 == f.o["picky"]:
                raise binobj.errors.ValidationError(field=field, value=value)

        return (picky,)


class Rec:
    """Deciders that follow a list of decisions and log their calls."""

    def __init__(self):
        self.decide = None
        self.calls = []

    def load(self, stream, classes, context, loaded_fields):
        self.calls.append(("load", stream, stream.tell(), classes, context, dict(loaded_fields), None))
        return self.decide(classes, len(self.calls) - 1)

    def dump(self, data, classes, context, all_fields):
        self.calls.append(("dump", None, None, classes, context, {k: all_fields[k] for k in all_fields}, data))
        return self.decide(classes, len(self.calls) - 1)


def alternatives(rng, g, n, other=None):
    """other: name of a field that gives some alternatives their size."""
    out = []
    for _ in range(n):
        if other and rng.random() < 0.2:
            how = ("ref", other, "name")
            x = rng.randrange(3)
            if x == 0:
                out.append(F("bytes", None, {"size": how}))
            elif x == 1:
                f = g.str_field(None, "str", {}, how)
                f.p["pad"] = f.p.get("pad") or b" "
                out.append(f)
            else:
                e = g.int_field(None)
                e.p.pop("short", None)
                out.append(F("arr", None, {"comp": e, "count": how}))
            continue
        if rng.random() < 0.35:
            out.append(g.struct(1, nonempty=True, allow_eof=False))
            continue
        f = _Build(g, 1, "e").element(None)
        f.p.pop("short", None)
        if rng.random() < 0.15 and f.kind in ("int", "uuid", "bytes", "float", "vli") and "null" not in f.o:
            f.o["const"] = g.plain_value(f, {})
            if f.o["const"] != f.o["const"]:
                del f.o["const"]
        if f.kind not in ("nest", "arr") and rng.random() < 0.3:
            f.o["picky"] = rng.randrange(4)
        out.append(f)
    return out


def nested(c):
    return F("nest", None, {"struct": c}) if isinstance(c, S) else c


def plain(v):
    """With structures as dictionaries."""
    if isinstance(v, binobj.Struct):
        return {k: plain(v[k]) for k in v}
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def alike(a, b):
    """Results of an operation on the union and on its twin."""
    if a[0] != b[0]:
        return False
    if a[0] == "err":
        missing = (KeyError, binobj.errors.MissingRequiredValueError)  # a value that a computed field needs
        return type(a[1]) is type(b[1]) or isinstance(a[1], missing) and isinstance(b[1], missing)
    return ref_eq(plain(a[1]), plain(b[1]))


def ref_eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b or a != a and b != b
    if isinstance(a, dict):
        return list(a) == list(b) and all(ref_eq(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(ref_eq, a, b))
    return a == b


class Place:
    """A union and, per alternative, the same with the alternative in its place."""

    def __init__(self, rng, g, other=None):
        self.rng, self.g = rng, g
        self.alts = alternatives(rng, g, rng.randint(1, 4), other)
        self.null = ("raw", rng.choice([b"\xfa", b"\xfa\xfb", b"\xfa\xfb\xfc\xfd"])) if rng.random() < 0.2 else None
        salt = rng.randrange(1000)
        self.rec = Rec()
        self.bu, self.bt = Builder(Validating(salt)), [Builder(Validating(salt)) for _ in self.alts]
        self.choices = [self.bu.cls(c) if isinstance(c, S) else self.bu.field(c, {}) for c in self.alts]

    def decider(self, i):
        """The i-th alternative, or one like it that isn't among the declared ones."""
        own = self.choices[i]
        if self.rng.random() < 0.3:
            c = self.alts[i]
            own = self.bu.cls(c) if isinstance(c, S) else self.bu.field(c, {})
        return lambda classes, n: own

    def union(self):
        kw = {"null_value": self.null[1]} if self.null else {}
        return bf.Union(*self.choices, load_decider=self.rec.load, dump_decider=self.rec.dump, **kw)

    def twin(self, i):
        kw = {}
        c = self.alts[i]
        if isinstance(c, S):
            return bf.Nested(self.bt[i].cls(c), **kw)
        return self.bt[i].field(c, {})

    def values(self, i, env, ctx):
        """(label, spec value): good ones, then bad ones."""
        f = nested(self.alts[i])
        good = []
        for _ in range(2):
            v = self.g.given(self.alts[i], ctx) if isinstance(self.alts[i], S) else self.g.any_value(f, env)
            good.append(("good", v))
        out = list(good)
        out += self.rng.sample(b := bad.bad_leaf(self.rng, self.g, f, good[0][1], env, ctx), min(2, len(b)))
        if "const" in f.o:
            out.append(("const", self.g.plain_value(f, env)))
        other = self.rng.randrange(len(self.alts))
        if other != i:
            o = self.alts[other]
            out.append(("other", self.g.given(o, ctx) if isinstance(o, S) else self.g.any_value(o, env)))
        out.append(("none", None))
        return out


def check_call(mon, place, op, n, what, stream=None, at=None, ctx=None, env=None, data=UNSET):
    calls = place.rec.calls
    mon.check(len(calls) == n, f"{what}: decider called {len(calls)} times, not {n}", short(calls))
    for kind, st, pos, classes, context, env_got, d in calls:
        mon.check(kind == op, f"{what}: the {kind} decider was called")
        mon.check(len(classes) == len(place.choices) and all(map(lambda a, b: a is b, classes, place.choices)),
                  f"{what}: decider got alternatives {classes!r}")
        mon.check(context is ctx, f"{what}: decider got context {context!r}")
        if stream is not None:
            mon.check(st is stream, f"{what}: decider got stream {st!r}")
            mon.check(at is None or pos == at, f"{what}: the decider's stream was at {pos}, not {at}")
        if env is not None:
            mon.check(ref_eq(plain(env_got), plain(env)) or env_got == env, f"{what}: decider got fields {env_got!r}, not {env!r}")
        if data is not UNSET:
            mon.check(ref_eq(plain(d), plain(data)), f"{what}: decider got data {short(d)}, not {short(data)}")
        mon.ev(f"{op} decisions observed")


class View(collections.abc.Mapping):
    """A mapping that is no dictionary."""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


MAPPINGS = [View, collections.OrderedDict, collections.ChainMap, types.MappingProxyType, collections.UserDict]


def as_mapping(rng, mon, v):
    """Structures may be given as any kind of mapping."""
    if type(v) is dict and rng.random() < 0.5:
        mon.ev("mappings that are no dictionaries")
        return rng.choice(MAPPINGS)(v)
    if isinstance(v, binobj.Struct) and rng.random() < 0.2:
        mon.ev("mapping proxies")
        return binobj.StructMappingProxy(v)
    return v


def as_data(b, c, v, rng):
    """Spec value -> value to hand over (dictionary or instance for structures)."""
    try:
        return b.value(nested(c), v, rng)
    except Exception:  # noqa: BLE001  (a value of another alternative)
        return v


# ---------------------------------------------------------------- alone

def alone(rng, mon, idx):
    g = Gen(rng, nulls=0.5, conds=0.2)
    place = Place(rng, g, "k")
    u = place.union()
    ctx = Opaque() if rng.random() < 0.7 else None
    k = {"k": rng.choice([0, 1, 2, 5])}
    env = {"__ctx__": ctx, **k}
    for i, c in enumerate(place.alts):
        twin = place.twin(i)
        place.rec.decide = place.decider(i)
        try:
            values = place.values(i, env, ctx)
        except GiveUp:
            continue
        inputs = []
        for label, v in values:
            seed = rng.random()
            import random

            dv = as_data(place.bu, c, v, random.Random(seed))
            dt = as_data(place.bt[i], c, v, random.Random(seed))
            what = f"alternative {i} of {place.alts!r}, {label} value {short(v)}"
            if isinstance(c, S):
                dv = as_mapping(rng, mon, dv)
            st, tt = RecStream(b"^", pos=1), RecStream(b"^", pos=1)
            place.rec.calls.clear()
            a = outcome(u.to_stream, st, dv, ctx, k)
            if v is None:
                if place.null:
                    mon.check(a[0] == "ok" and st.getvalue() == b"^" + place.null[1], f"{what}: {a!r} {st.getvalue()!r}")
                else:
                    mon.check(a[0] == "err" and st.getvalue() == b"^", f"{what}: {a!r} {st.getvalue()!r}")
                mon.check(not place.rec.calls, f"{what}: decider called for null")
                continue
            check_call(mon, place, "dump", 1, what, ctx=ctx, env=k, data=dv)
            b = outcome(twin.to_stream, tt, dt, ctx, k)
            same = alike(a, b)
            if not same and a[0] == b[0] == "err" and isinstance(c, S) and not isinstance(v, dict):
                same = True  # a value that isn't a structure; the kind of refusal isn't the alternative's business
            mon.check(same and st.getvalue() == tt.getvalue(), f"{what}: union {short(a)} {st.getvalue().hex()}, "
                      f"alternative {short(b)} {tt.getvalue().hex()}")
            if label == "other" and isinstance(c, S) and not isinstance(v, dict):
                mon.check(a[0] == "err", f"{what}: accepted")
            mon.ev("dumps alone" if a[0] == "ok" else "dumps alone refused")
            mon.seen(str(type(c)) + (c.kind if isinstance(c, F) else ""), label, a[0], str(getattr(c, "o", ""))[:20])
            if b[0] == "ok":
                inputs.append(tt.getvalue()[1:])
        for d in list(inputs):
            inputs += [mutate_bytes(rng, d), d + b"\xfa", d[: rng.randint(0, len(d))]]
        if isinstance(c, F) and "null" in c.o and c.o["null"][0] == "raw":
            inputs.append(c.o["null"][1] + b"..")
        for d in inputs:
            f = nested(c)
            try:
                ref.decode_field(f, d, 0, env, ctx)
            except ref.Rej as e:
                if budget(e):
                    continue
            what = f"alternative {i} of {place.alts!r} loading {d.hex()}"
            st, tt = RecStream(b"^" + d, pos=1), RecStream(b"^" + d, pos=1)
            place.rec.calls.clear()
            a = outcome(u.from_stream, st, ctx, k)
            if place.null and d.startswith(place.null[1]):
                mon.check(a == ("ok", None) and st.at == 1 + len(place.null[1]) and not place.rec.calls, f"{what}: {a!r}")
                mon.ev("union nulls loaded")
                continue
            check_call(mon, place, "load", 1, what, stream=st, at=1, ctx=ctx, env=k)
            b = outcome(twin.from_stream, tt, ctx, k)
            mon.check(alike(a, b), f"{what}: union {short(a)}, alternative {short(b)}")
            if a[0] == "ok":
                mon.check(st.at == tt.at, f"{what}: union left the stream at {st.at}, alternative at {tt.at}")
                if isinstance(c, S):
                    mon.check(isinstance(a[1], place.choices[i]), f"{what}: {a[1]!r} isn't of the chosen class")
                mon.ev("loads alone")
                if a[1] is not None:
                    # what was loaded can be dumped again, the same for both
                    x, y = outcome(u.to_bytes, a[1], ctx, k), outcome(twin.to_bytes, b[1], ctx, k)
                    mon.check(alike(x, y), f"{what}: dumped again as {short(x)}, alternative {short(y)}")
            else:
                mon.ev("loads alone refused")


# ---------------------------------------------------------------- in a structure

def placed(rng, mon, idx):
    g = Gen(rng, nulls=0.4, conds=0.2)
    place = Place(rng, g, "n")
    pre = [g.int_field(f"p{i}") for i in range(rng.randint(0, 2))]
    post = [g.scalar_field(f"q{i}") if hasattr(g, "scalar_field") else g.int_field(f"q{i}") for i in range(rng.randint(0, 2))]
    for f in pre + post:
        f.p.pop("short", None)

    def build(b, mid):
        # `n` is computed from a fixed text, so that deciders also see computed values
        ns = {f.name: b.field(f, {}) for f in pre}
        ns["n"] = bf.UInt8()
        ns["n"].computes(lambda field, af: (af["p0"] if pre else 7) % 251)
        ns["x"] = mid
        ns.update({f.name: b.field(f, {}) for f in post})
        return type("P", (binobj.Struct,), ns)

    U = build(place.bu, place.union())
    ctx = Opaque() if rng.random() < 0.7 else None
    at = sum(ref.plain_size(f) for f in pre) + 1
    for i, c in enumerate(place.alts):
        T = build(place.bt[i], place.twin(i))
        place.rec.decide = place.decider(i)
        env = {"__ctx__": ctx}
        around = {f.name: g.plain_value(f, env) for f in pre + post}
        n = (around["p0"] if pre else 7) % 251
        env["n"] = n
        try:
            values = place.values(i, env, ctx)
        except GiveUp:
            continue
        inputs = []
        for label, v in values:
            import random

            seed = rng.random()
            dv = as_data(place.bu, c, v, random.Random(seed))
            dt = as_data(place.bt[i], c, v, random.Random(seed))
            what = f"alternative {i} of {place.alts!r} between {around!r}, {label} value {short(v)}"
            ui, ti = U(**around, x=dv), T(**around, x=dt)
            st, tt = RecStream(), RecStream()
            place.rec.calls.clear()
            a = outcome(ui.to_stream, st, ctx)
            if v is None:
                mon.check(a[0] == ("ok" if place.null else "err") and not place.rec.calls, f"{what}: {short(a)}")
                continue
            b = outcome(ti.to_stream, tt, ctx)
            same = alike(a, b) or (a[0] == b[0] == "err" and isinstance(c, S) and not isinstance(v, dict))
            mon.check(same and (st.getvalue() == tt.getvalue() if a[0] == "ok" else len(st.getvalue()) <= at),
                      f"{what}: union {short(a)} {st.getvalue().hex()}, alternative {short(b)} {tt.getvalue().hex()}")
            if a[0] == "ok":
                allf = {f.name: around[f.name] for f in pre + post}
                check_call(mon, place, "dump", 1, what, ctx=ctx)
                got = place.rec.calls[0][5]
                mon.check(all(got.get(k) == w or w != w for k, w in {**allf, "n": n}.items()),
                          f"{what}: decider got fields {got!r}, not {allf!r} and n={n}")
                mon.check(ref_eq(plain(place.rec.calls[0][6]), plain(got.get("x"))),
                          f"{what}: decider got data {short(place.rec.calls[0][6])} with fields {short(got)}")
                place.rec.calls.clear()
                sa, sb = outcome(ui.partial_dump, s1 := RecStream(), "x", ctx), outcome(ti.partial_dump, s2 := RecStream(), "x", ctx)
                mon.check(alike(sa, sb) and (sa[0] == "err" or s1.getvalue() == s2.getvalue()), f"{what}: partial dump {short(sa)} "
                          f"{s1.getvalue().hex()}, alternative {short(sb)} {s2.getvalue().hex()}")
                if ctx is None:
                    la, lb = outcome(len, ui), outcome(len, ti)
                    mon.check(alike(la, lb), f"{what}: length {la!r}, alternative {lb!r}")
                inputs.append(tt.getvalue())
                mon.ev("dumps in structures")
            else:
                mon.ev("dumps in structures refused")
        for d in list(inputs):
            inputs += [mutate_bytes(rng, d), d[:at] + mutate_bytes(rng, d[at:])]
        for d in inputs:
            try:
                ref.decode_field(nested(c), d, at, env, ctx)
            except ref.Rej as e:
                if budget(e):
                    continue
            what = f"alternative {i} of {place.alts!r} in a structure loading {d.hex()}"
            if place.null and d[at:].startswith(place.null[1]):
                continue
            st, tt = RecStream(d), RecStream(d)
            place.rec.calls.clear()
            a, b = outcome(U.from_stream, st, ctx), outcome(T.from_stream, tt, ctx)
            mon.check(alike(a, b), f"{what}: union {short(a)}, alternative {short(b)}")
            if a[0] == "ok":
                mon.check(st.at == tt.at, f"{what}: union left the stream at {st.at}, alternative at {tt.at}")
                check_call(mon, place, "load", 1, what, stream=st, at=at, ctx=ctx,
                           env={**{f.name: a[1][f.name] for f in pre}, "n": a[1].n})
                mon.ev("loads in structures")
            else:
                mon.ev("loads in structures refused")
            for op in ("partial_load", "get_field"):
                s1, s2 = RecStream(d), RecStream(d)
                a, b = outcome(getattr(U, op), s1, "x", ctx), outcome(getattr(T, op), s2, "x", ctx)
                mon.check(alike(a, b) and (a[0] == "err" or s1.at == s2.at), f"{what} with {op}: union {short(a)}, "
                          f"alternative {short(b)}")
                mon.ev("partial operations")
            mon.seen("placed", str(type(c)) + (c.kind if isinstance(c, F) else ""), len(pre), len(post), a[0], len(place.alts))


# ---------------------------------------------------------------- in an array

def arrayed(rng, mon, idx):
    g = Gen(rng, nulls=0.0, conds=0.15, own_null_choices=False, peek=False)
    place = Place(rng, g)
    place.null = None
    for c in place.alts:
        if isinstance(c, F):
            c.o.pop("picky", None)
    place.choices = [place.bu.cls(c) if isinstance(c, S) else place.bu.field(c, {}) for c in place.alts]
    n = rng.choice([0, 1, 2, 3, 5])
    picks = [rng.randrange(len(place.alts)) for _ in range(n)]
    place.rec.decide = lambda classes, k: classes[picks[k]]
    arr = bf.Array(place.union(), count=n)
    ctx = Opaque() if rng.random() < 0.7 else None
    env = {"__ctx__": ctx}
    vals, want = [], b""
    try:
        for i in picks:
            c = place.alts[i]
            v = g.given(c, ctx) if isinstance(c, S) else g.any_value(c, env)
            vals.append(as_data(place.bu, c, v, rng))
            want += place.twin(i).to_bytes(as_data(place.bt[i], c, v, None), ctx, {})
    except GiveUp:
        return
    cls = type("A", (binobj.Struct,), {"arr": arr, "end": bf.UInt8(const=0xED)})
    what = f"array of unions of {place.alts!r} deciding {picks} {short(vals)}"
    for given in (vals, tuple(vals), iter(vals)):
        place.rec.calls.clear()
        k, got = outcome(lambda: cls(arr=given).to_bytes(ctx))
        mon.check(k == "ok" and got == want + b"\xed", f"{what}: dumped {short(got)}, want {want.hex()}")
        check_call(mon, place, "dump", n, what, ctx=ctx)
    place.rec.calls.clear()
    st = RecStream(want + b"\xedrest")
    k, got = outcome(cls.from_stream, st, ctx)
    pos, expect = 0, []
    for i in picks:
        try:
            v, pos = ref.decode_field(nested(place.alts[i]), want, pos, env, ctx)
        except ref.Rej:
            return  # e.g. text that doesn't read back; other properties
        expect.append(v)
    if k == "err" and pos != len(want):
        return
    mon.check(k == "ok" and st.at == len(want) + 1, f"{what}: load {short(got)} at {st.at}")
    for i, e, x in zip(picks, expect, got.arr):
        diff = ref.same(nested(place.alts[i]), e, x)
        mon.check(diff is None, f"{what}: loaded {diff}")
    check_call(mon, place, "load", n, what, stream=st, ctx=ctx, env={})
    mon.ev("arrays of unions")
    mon.seen("array", n, tuple(picks))


# ---------------------------------------------------------------- decisions that are none

def unsupported(rng, mon, idx):
    g = Gen(rng)
    place = Place(rng, g)
    extra = rng.random() < 0.5
    cls = type("U", (binobj.Struct,), {"p": bf.UInt8(), "x": place.union(), "q": bf.UInt8()})

    class Other:
        pass

    i = rng.randrange(len(place.alts))
    c = place.alts[i]
    try:
        v = g.given(c, None) if isinstance(c, S) else g.any_value(c, {"__ctx__": None}, nulls=False)
    except GiveUp:
        return
    dv = as_data(place.bu, c, v, None)
    decisions = [None, 0, 1, "x", "UInt8", Other, Other(), object, int, bf.UInt8, bf.Nested, [place.choices[i]],
                 (place.choices[i],), lambda *a: place.choices[i], True, {}, NotImplemented]
    if isinstance(c, S):
        decisions.append(dv)
    for d in rng.sample(decisions, 6):
        place.rec.decide = lambda classes, n, d=d: d
        what = f"decision {d!r} for {place.alts!r}"
        st = RecStream()
        k, e = outcome(place.union().to_stream, st, dv, None, {})
        mon.check(k == "err" and not st.getvalue(), f"{what}: dump alone {short(e)} wrote {st.getvalue().hex()}")
        st = RecStream()
        inst = cls(p=1, x=dv, q=2)
        k, e = outcome(inst.to_stream, st)
        mon.check(k == "err" and st.getvalue() in (b"", b"\1"), f"{what}: dump {short(e)} wrote {st.getvalue().hex()}")
        st = RecStream(b"\1" + b"\2" * 40)
        k, e = outcome(cls.from_stream, st)
        mon.check(k == "err", f"{what}: load gave {short(e)}")
        if place.null is None:
            k, e = outcome(place.union().from_bytes, b"\2" * 40, None, False)
            mon.check(k == "err", f"{what}: load alone gave {short(e)}")
        mon.ev("unsupported decisions refused")
        mon.seen("unsupported", str(d)[:20])
    if extra:
        # a supported kind that isn't among the alternatives is used as it is
        f = bf.UInt16(endian="big")
        place.rec.decide = lambda classes, n: f
        k, got = outcome(place.union().to_bytes, 0x1234)
        mon.check(k == "ok" and got == b"\x12\x34", f"a field of its own as a decision: {short(got)}")
        mon.ev("decisions outside the alternatives")


# ---------------------------------------------------------------- against the reference codec

class Count(Ctx):
    def __init__(self):
        self.n = 0

    def decider(self, f, which, fn):
        def decide(*a):
            self.n += 1
            return fn(*a)

        return decide


def structs(rng, mon, idx):
    for _ in range(12):
        c = Case(rng, None, unions=True, maxfields=6, conds=0.15, hooks=Count())
        if any(f.kind == "union" for f in c.s.fields):
            break
    else:
        return
    k, got = outcome(lambda: c.inst(rng).to_bytes(c.ctx))
    mon.check(k == "ok" and got == c.data, f"dump gave {short(got)}, want {c.data.hex()}", c.describe())
    for d in [c.data] + [mutate_bytes(rng, c.data) for _ in range(4)]:
        want = c.decoded(d)
        if budget(want):
            continue
        compare_load(mon, c, want, outcome(c.cls.from_stream, RecStream(d), c.ctx), f"load of {d.hex()}")
    mon.seen("struct", str([f.kind for f in c.s.fields]))


_ = dict_value
def consuming(rng, mon, idx):
    """Load deciders that look at the stream: what they leave unread is what the alternative gets."""
    g = Gen(rng, nulls=0.3, conds=0.15)
    place = Place(rng, g, "k")
    place.null = None
    ctx = Opaque() if rng.random() < 0.7 else None
    take, ahead = rng.choice([0, 1, 1, 2, 4]), rng.choice([0, 0, 1, 3])
    k = {"k": rng.choice([0, 1, 2, 5])}
    env = {"__ctx__": ctx, **k}
    seen = []
    chosen = [0]

    def load(stream, classes, context, loaded_fields):
        tag = stream.read(take)
        here = stream.tell()
        seen.append((tag, stream.read(ahead)))
        stream.seek(here)
        return classes[tag[0] % len(classes) if tag else chosen[0]]

    def dump(data, classes, context, all_fields):
        return classes[chosen[0]]

    u = bf.Union(*place.choices, load_decider=load, dump_decider=dump)
    boxed = type("Box", (binobj.Struct,), {"k": bf.UInt8(), "x": u, "end": bf.UInt8()})
    parts = []
    for i, c in enumerate(place.alts):
        chosen[0] = i
        twin = place.twin(i)
        try:
            v = g.given(c, ctx) if isinstance(c, S) else g.any_value(c, env)
        except GiveUp:
            continue
        b = outcome(twin.to_bytes, place.bt[i].value(nested(c), v), ctx, k)
        if b[0] == "err" or v is None:
            continue
        tag = (bytes([i + len(place.alts) * rng.randint(0, 255 // len(place.alts) - 1)]) + rng.randbytes(take - 1)) if take else b""
        parts.append((tag, b[1], i))
        for d in (b[1], b[1] + b"..", mutate_bytes(rng, b[1]), b[1][: rng.randint(0, len(b[1]))]):
            try:
                ref.decode_field(nested(c), d, 0, env, ctx)
            except ref.Rej as e:
                if budget(e):
                    continue
            what = f"alternative {i} of {place.alts!r} loading {d.hex()} after a decider took {tag.hex()!r}"
            st, tt = RecStream(b"^^" + tag + d, pos=2), RecStream(b"^^" + d, pos=2)
            seen.clear()
            a, w = outcome(u.from_stream, st, ctx, k), outcome(twin.from_stream, tt, ctx, k)
            mon.check(seen == [(tag, d[:ahead])], f"{what}: decider saw {seen!r}")
            if a[0] == w[0] == "err":
                mon.check(type(a[1]) is type(w[1]), f"{what}: {a[1]!r}, alternative {w[1]!r}")
                mon.ev("loads after reading deciders refused")
                continue
            mon.check(alike(a, w), f"{what}: union {short(a)}, alternative {short(w)}")
            mon.check(st.at == tt.at + take, f"{what}: union left the stream at {st.at}, alternative at {tt.at}")
            mon.ev("loads after reading deciders")
            if isinstance(c, S) or not nested(c).o.get("discard"):
                st = RecStream(bytes([k["k"]]) + tag + d[:tt.at - 2] + b"Z")
                a = outcome(boxed.from_stream, st, ctx)
                if a[0] == "ok":
                    mon.check(alike(("ok", a[1].x), w) and a[1].end == ord("Z") and st.at == len(st.getvalue()),
                              f"{what}, in a structure: {short(a)}, alternative {short(w)}")
                    mon.ev("structures with reading deciders")
        mon.seen("consuming", take, ahead, str(type(c)) + (c.kind if isinstance(c, F) else ""))
    if parts and take and "present" not in str(place.alts) and len(parts) > 1:
        rng.shuffle(parts)
        arr = bf.Array(bf.Union(*place.choices, load_decider=load, dump_decider=dump), count=len(parts))
        d = b"".join(t + b for t, b, _ in parts)
        st = RecStream(d + b"..")
        a = outcome(arr.from_stream, st, ctx, k)
        tt, want = RecStream(d + b".."), []
        for _ in parts:
            tag = tt.read(take)
            want.append(outcome(place.twin(tag[0] % len(place.alts)).from_stream, tt, ctx, k) if tag else ("err", None))
            if want[-1][0] == "err":
                break
        what = f"an array of {place.alts!r} told apart by tags in {d.hex()}"
        if want[-1][0] == "err":
            mon.check(a[0] == "err", f"{what}: {short(a)}, want {short(want)}")
        else:
            mon.check(a[0] == "ok" and len(a[1]) == len(want) and all(alike(("ok", x), w) for x, w in zip(a[1], want)),
                      f"{what}: {short(a)}, want {short(want)}")
            mon.check(st.at == tt.at, f"{what} left the stream at {st.at}, not {tt.at}")
            mon.ev("arrays of tagged unions")


SCENARIOS = [Scenario("alone", alone, 3000, 60000), Scenario("placed", placed, 3000, 60000), Scenario("arrayed", arrayed, 3000, 60000),
             Scenario("unsupported", unsupported, 1500), Scenario("structs", structs, 2000),
             Scenario("consuming", consuming, 2500)]
