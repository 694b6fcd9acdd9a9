"""C13: the value written for each field is resolved as documented."""
import io

import binobj
from binobj import errors
from binobj import fields as bf

from .. import ref
from ..build import Builder, Ctx
from ..core import Scenario
from ..gen import Gen, GiveUp, refs_of
from ..spec import ABSENT, F, S, UNSET
from ..util import Case, budget, dict_form, expect_error, outcome, short, snapshot, values_of

PROPERTY = "C13"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: histories of construction, assignment, deletion, reading, converting, dumping and "
             "loading judged step by step against a model of the assigned values and the declared resolution order")
LEVEL_NOTE = "declarations, histories and values are sampled"
RULE = ("an evaluation is one generated declaration and a history of about 14 operations on one instance; distinct ones "
        "differ in the declaration's structure and the sequence of kinds of operations and fields")
ASSUMPTIONS = ["a computed value that was loaded or given stays as it is, even if what it was computed from changes",
               "other fields' values seen by callbacks while loading are the overriding ones, where there are any"]
FLOORS = {"dumped alone without a value": 3000, "refused alone without a value": 2500, "computed values read": 1000, "dictionaries": 2900, "dumps": 8200,
          "dumps refused for want of a value": 4300, "immutable": 1900, "null overrides on load": 71,
          "overrides on load": 710, "reads": 23000, "resolutions by precedence": 2100}


def same_as(mon, f, want, got, what, *detail):
    """want: resolved plain value; got: what the library gave (instances for structures)."""
    if isinstance(got, binobj.Struct):
        diff = nested(f, want, got)
    elif isinstance(got, list) and f.kind == "arr":
        diff = None if len(got) == len(want) else "length"
        if diff is None:
            for w, g in zip(want, got):
                if isinstance(g, (binobj.Struct, list)):
                    same_as(mon, f.p["comp"], w, g, what, *detail)
                else:
                    diff = diff or ref.same(f.p["comp"], w, g, what)
    else:
        diff = ref.same(f, want, got, what)
    mon.check(diff is None, f"{what}: {diff}", *detail)


def nested(f, want, got):
    s = f.p["struct"] if f.kind == "nest" else None
    if s is None or want is None or want is ABSENT:
        return f"expected {want!r}, got {short(got)}"
    for n, v in got.__values__.items():
        w = want[n]
        if isinstance(v, (binobj.Struct, list, dict)) or v is bf.NOT_PRESENT or w is ABSENT:
            continue
        d = ref.same(s.get(n), w, v, n)
        if d:
            return d
    return None


class State:
    def __init__(self, c, inst, given):
        self.c = c
        self.inst = inst
        self.given = given  # name -> spec value
        self.objs = dict(inst.__values__)

    def resolved(self, ctx):
        """name -> value, for those that have one."""
        return ref.resolve(self.c.s, self.given, ctx, partial=True)

    def dumped(self):
        """Bytes, or the Rej."""
        try:
            full = ref.resolve(self.c.s, self.given, self.c.ctx)
            return ref.encode_struct(self.c.s, full, self.c.ctx)[0]
        except ref.Rej as e:
            return e


def check_dump(mon, st, hist):
    want = st.dumped()
    how = st.c.rng.randrange(3)
    if how == 0:
        k, got = outcome(st.inst.to_bytes, st.c.ctx)
    elif how == 1 and st.c.ctx is None:
        k, got = outcome(bytes, st.inst)
    else:
        buf = io.BytesIO()
        k, got = outcome(st.inst.to_stream, buf, st.c.ctx)
        if k == "ok":
            got = buf.getvalue()
    if isinstance(want, ref.Rej):
        if want.kind == "budget":
            return
        mon.check(k == "err", f"dump went through though it can't: {want!r}; gave {short(got)}", hist, st.c.describe())
        if want.kind == "missing":
            mon.ev("dumps refused for want of a value")
        return
    mon.check(k == "ok" and got == want, f"dump gave {short(got)}, want {want.hex()}", hist, repr(st.given),
              st.c.describe())
    mon.ev("dumps")


def check_read(mon, st, f, full, hist):
    n = f.name
    how = st.c.rng.choice([getattr, lambda i, x: i[x]])
    k, got = outcome(how, st.inst, n)
    if n in st.given:
        mon.check(k == "ok" and got is st.objs[n], f"{n} reads as {short(got)}, assigned was {short(st.objs[n])}", hist,
                  st.c.describe())
    elif n not in full:
        mon.check(k == "err", f"{n} has no value but reads as {short(got)}", hist, st.c.describe())
    else:
        mon.check(k == "ok", f"reading {n} failed: {short(got)}", hist, st.c.describe())
        same_as(mon, f, full[n], got, f"reading {n}", hist, st.c.describe())
        if "compute" in f.o:
            mon.ev("computed values read")
    mon.ev("reads")


def check_dict(mon, st, full, keep, hist):
    k, got = outcome(st.inst.to_dict, keep, st.c.ctx)
    need = [f.name for f in st.c.s.fields if keep or not f.o.get("discard")]
    if any(n not in full for n in need):
        if all("present" in st.c.s.get(n).o for n in need if n not in full):
            return  # what the condition depends on is missing
        mon.check(k == "err", f"dictionary form of an incomplete structure is {short(got)}", hist, st.c.describe())
        return
    mon.check(k == "ok", f"to_dict failed: {short(got)}", hist, st.c.describe())
    whole = {f.name: full.get(f.name, ABSENT) for f in st.c.s.fields}
    want = dict_form(st.c.s, whole, keep)
    mon.check(snapshot_eq(got, want), f"dictionary form is {short(got, 900)}, want {short(want, 900)}", hist,
              st.c.describe())
    mon.ev("dictionaries")


def snapshot_eq(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(snapshot_eq(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(snapshot_eq, a, b))
    return snapshot(a) == snapshot(b)


def history(rng, mon, idx):
    with_ctx = rng.random() < 0.4
    g = Gen(rng, unions=False, ctx=with_ctx, computed=0.8, defaults=0.45, consts=0.2, conds=0.2, discards=0.12, nulls=0.2,
            peek=False, maxfields=6, np=0.3)
    c = Case(rng, mon, gen=g, ctx="gen" if with_ctx else None)
    given = dict(c.given)
    for n in list(given):  # sometimes incomplete from the start
        if rng.random() < 0.12:
            del given[n]
    kw = c.b.kwargs(c.s, given)
    st = State(c, c.cls(**kw), given)
    hist = [f"constructed with {given!r}"]
    flags = {n for f in c.s.fields for role, n in refs_of(f) if role == "flag"}
    sig = []
    for _ in range(14):
        op = rng.choice(["set", "set", "del", "read", "dump", "dict", "dump", "load", "all"])
        f = rng.choice(c.s.fields)
        sig.append((op, f.kind))
        if op == "set":
            try:
                v = g.given(c.s, c.ctx, 0.0).get(f.name, UNSET)
            except GiveUp:
                continue
            if v is UNSET:
                v = c.given.get(f.name, UNSET)
            if {"const", "compute"} & set(f.o):
                how = rng.choice([setattr, lambda i, n, x: i.__setitem__(n, x)])
                k, e = outcome(how, st.inst, f.name, rng.choice([1, None, "x", b"", f.o.get("const")]))
                mon.check(k == "err" and isinstance(e, errors.ImmutableFieldError),
                          f"{f.name} was assigned though it is constant or computed ({short(e)})", hist, c.describe())
                mon.ev("immutable")
                continue
            if v is UNSET or (v is None or v is ABSENT) and f.name in flags:
                continue
            obj = c.b.value(f, v)
            rng.choice([setattr, lambda i, n, x: i.__setitem__(n, x)])(st.inst, f.name, obj)
            st.given[f.name] = v
            st.objs[f.name] = obj
            hist.append(f"{f.name} = {v!r}")
        elif op == "del":
            if f.name in flags and not {"default", "factory", "const"} & set(f.o):
                continue
            del st.inst[f.name]
            st.given.pop(f.name, None)
            st.objs.pop(f.name, None)
            hist.append(f"del {f.name}")
        elif op == "load":
            d = st.dumped()
            if isinstance(d, ref.Rej) or rng.random() < 0.6:
                continue
            load(rng, mon, st, d, hist)
        elif op == "dump":
            check_dump(mon, st, hist)
        else:
            # There's no context when reading fields.
            full = st.resolved(c.ctx if op == "dict" else None)
            if op == "read":
                check_read(mon, st, f, full, hist)
            elif op == "dict":
                check_dict(mon, st, full, rng.random() < 0.5, hist)
            else:
                for f in rng.sample(c.s.fields, len(c.s.fields)):
                    check_read(mon, st, f, full, hist)
    check_dump(mon, st, hist)
    mon.seen(c.s.name, sig, [x.kind for x in c.s.fields])


def load(rng, mon, st, data, hist):
    """Load data, overriding some of it."""
    c = st.c
    used = {n for f in c.s.fields for _, n in refs_of(f)}
    over = {}
    for f in rng.sample(c.s.fields, min(len(c.s.fields), rng.choice([0, 1, 1, 2]))):
        try:
            v = c.gen.given(c.s, c.ctx, 0.0).get(f.name, UNSET)
        except GiveUp:
            continue
        if "null" in f.o and f.name not in used and rng.random() < 0.3:
            v = None
        if v is UNSET or v is ABSENT or v is None and ("null" not in f.o or f.name in used):
            continue
        over[f.name] = v
        if v is None:
            mon.ev("null overrides on load")
    # What is loaded is what the declaration says given the overriding values.
    env, pos = {n: ref.normal(c.s.get(n), v, c.ctx, over) for n, v in over.items()}, 0
    keep = dict(env)
    try:
        for f in c.s.fields:
            v, pos = ref.decode_field(f, data, pos, env, c.ctx)
            env[f.name] = keep.get(f.name, v)
    except ref.Rej as e:
        if not budget(e):
            k, x = outcome(c.cls.from_bytes, data, c.ctx, False, c.b.kwargs(c.s, over))
            mon.check(k == "err", f"loading {data.hex()} with {over!r} gave {short(x)}, want {e!r}", hist, c.describe())
        return
    except TypeError:
        return
    kw = c.b.kwargs(c.s, over)
    before = snapshot(kw)
    if rng.random() < 0.5:
        k, inst = outcome(c.cls.from_bytes, data, c.ctx, False, kw)
    else:
        k, inst = outcome(c.cls.from_stream, io.BytesIO(data), c.ctx, kw)
    mon.check(k == "ok", f"loading {data.hex()} with {over!r} failed: {short(inst)}", hist, c.describe())
    mon.eq(snapshot(kw), before, "overriding values changed by loading", hist, c.describe())
    given = {}
    for f in c.s.fields:
        if f.o.get("discard"):
            mon.check(f.name not in set(inst), f"discarded {f.name} is still there", hist, c.describe())
            continue
        got = inst[f.name]
        if f.name in over:
            same_as(mon, f, keep[f.name], got, f"overridden {f.name}", hist, c.describe())
            mon.ev("overrides on load")
            given[f.name] = over[f.name]
        else:
            d = ref.same(f, env[f.name], got, f.name)
            mon.check(d is None, f"loading {data.hex()} with {over!r}: {d}", hist, c.describe())
            given[f.name] = complete(f, env[f.name], got)
    if any(f.kind in ("nest", "arr") and has_discards(f) for f in c.s.fields) or "nan" in repr(given):
        return
    hist.append(f"loaded {data.hex()} with {over!r}")
    st.inst, st.given, st.objs = inst, given, dict(inst.__values__)


def complete(f, v, got):
    del got
    return v


def has_discards(f):
    from ..spec import walk_field

    return any(x.o.get("discard") or x.kind == "nest" and any(y.o.get("discard") for y in x.p["struct"].fields)
               for x in walk_field(f) if x is not f)


def unknown(rng, mon, idx):
    """Unknown names are refused when constructing and overriding."""
    c = Case(rng, mon, maxfields=3)
    name = rng.choice(["nope", "_x", c.s.fields[0].name + "_", "name"])
    if name in {f.name for f in c.s.fields}:
        return
    kw = c.b.kwargs(c.s, c.given)
    expect_error(mon, lambda: c.cls(**kw, **{name: 1}), f"construction with unknown {name}", c.describe(),
                 kind=errors.UnexpectedValueError)
    if c.unambiguous():
        expect_error(mon, lambda: c.cls.from_bytes(c.data, c.ctx, init_kwargs={name: 1}), f"load with unknown {name}",
                     c.describe(), kind=errors.UnexpectedValueError)


def factories(rng, mon, idx):
    """Factories that return something else every time, and computed fields that depend on them."""
    n = [rng.randrange(100)]
    made = []
    g = Gen(rng)
    kind = rng.choice(["int", "bytes", "list", "str"])

    def factory():
        n[0] += 1
        v = {"int": n[0], "bytes": bytes([n[0] % 256]) * (n[0] % 5 + 1), "list": list(range(n[0] % 6)),
             "str": "x" * (n[0] % 7)}[kind]
        made.append(v)
        return v

    before = rng.random() < 0.6
    ns = {}
    fld = {"int": lambda: bf.UInt16(factory=factory, endian="big"),
           "bytes": lambda: bf.Bytes(size="n", factory=factory),
           "list": lambda: bf.Array(bf.UInt8(), count="n", factory=factory),
           "str": lambda: bf.StringZ(factory=factory)}[kind]()
    size = bf.UInt16(endian="big")
    size.computes(lambda f, af: af["d"] if kind == "int" else len(af["d"]))
    pre = g.rng.randrange(256)
    if before or kind in ("bytes", "list"):
        ns.update(p=bf.UInt8(), n=size, d=fld)
    else:
        ns.update(p=bf.UInt8(), d=fld, n=size)
    cls = type("V", (binobj.Struct,), ns)
    inst = cls(p=pre)
    for _ in range(3):
        made.clear()
        op = rng.randrange(3)
        if op == 0:
            got = inst.to_bytes()
        elif op == 1:
            b = io.BytesIO()
            inst.partial_dump(b, rng.choice([None, list(ns)[-1]]))
            got = b.getvalue()
        else:
            d = inst.to_dict()
            mon.check(d["n"] == (d["d"] if kind == "int" else len(d["d"])), f"dictionary form {d} is inconsistent")
            continue
        mon.check(bool(made), "the factory wasn't called")
        enc = []
        for v in made:
            k = (v if kind == "int" else len(v)).to_bytes(2, "big")
            b = {"int": lambda: k, "str": lambda: v.encode() + b"\0"}.get(kind, lambda: bytes(v))()
            enc.append(bytes([pre]) + (k + b if list(ns).index("n") == 1 else b + k))
        mon.check(got in enc, f"dumped {got.hex()}, the factory made {made}")
        mon.ev("dumps")
        mon.seen("factory", kind, before, op)


def alone(rng, mon, idx):
    """Fields on their own, dumped without a value: constants, defaults and factories supply it."""
    c = Case(rng, mon, maxfields=5, defaults=0.7, consts=0.4)
    for f in c.s.fields:
        fld = getattr(c.cls, f.name)
        env = {k: c.b.value(c.s.get(k), x) for k, x in c.full.items() if x is not None}
        v = f.o.get("const", f.o.get("default", f.o.get("factory", UNSET)))
        what = f"stand-alone field {f!r} dumped without a value"
        how = rng.choice(["bytes", "stream", "DEFAULT", "stream DEFAULT"])
        junk = rng.randbytes(rng.randrange(4))
        st = io.BytesIO(junk)
        st.seek(0, 2)
        if how == "bytes":
            k, got = outcome(fld.to_bytes, context=c.ctx, all_fields=env)
        elif how == "DEFAULT":
            k, got = outcome(fld.to_bytes, bf.DEFAULT, c.ctx, env)
        else:
            k, got = outcome(fld.to_stream, st, *([bf.DEFAULT] if "DEF" in how else []), context=c.ctx, all_fields=env)
            mon.check(st.getvalue()[:len(junk)] == junk, f"{what}: changed what was there before")
            if k == "ok":
                got = st.getvalue()[len(junk):]
        if v is UNSET:
            mon.check(k == "err" and isinstance(got, errors.MissingRequiredValueError) and got.field is fld,
                      f"{what} ({how}): {short(got)}")
            mon.check(st.getvalue() == junk, f"{what}: wrote {st.getvalue().hex()}")
            mon.ev("refused alone without a value")
        else:
            try:
                full = ref.normal(f, v, c.ctx, c.full)
                want = ref.encode_field(f, full, c.full, c.ctx)
            except ref.Rej:
                continue
            mon.check(k == "ok" and got == want, f"{what} ({how}): {short(got)}, want {want.hex()}", c.describe())
            mon.ev("dumped alone without a value")
        mon.seen("alone", f.kind, how, "const" in f.o, "default" in f.o, "factory" in f.o)


def precedence(rng, mon, idx):
    """Fields with a default or factory and a computing function; factories that have no value to give."""
    size = rng.choice([1, 2, 4])
    mx = 256 ** size - 1
    vals = [rng.randint(0, mx) for _ in range(4)]
    kind = rng.choice(["default", "factory", "const", "undefined", "absent", "none"])
    computed = rng.random() < 0.7
    calls, made = [], []
    null = rng.random() < 0.4
    opts = {"null_value": bf.DEFAULT} if null else {}
    dflt = rng.choice([vals[0], None if null else 0, 0])

    def factory():
        made.append(1)
        return {"factory": dflt, "undefined": bf.UNDEFINED, "absent": bf.NOT_PRESENT}[kind]

    def compute(field, values):
        calls.append(field)
        return vals[1]

    if kind in ("default", "const"):
        opts[kind] = dflt if kind == "default" else vals[0]
    elif kind != "none":
        opts["factory"] = factory
    x = bf.Integer(size=size, signed=False, endian="big", **opts)
    what = f"Integer({size}, {opts!r}){' computed' if computed else ''}"
    if computed:
        if kind == "const":
            expect_error(mon, lambda: x.computes(compute), f"{what}: a constant that is computed",
                         kind=errors.ConfigurationError)
            computed = False
        else:
            k, e = outcome(x.computes, compute)
            mon.check(k == "ok", f"{what}: {short(e)}")
            expect_error(mon, lambda: x.computes(compute), f"{what}: two computing functions",
                         kind=errors.ConfigurationError)
    if kind == "const":
        vals[3] = vals[0]
    first = rng.random() < 0.5
    y = bf.UInt8()
    y.computes(lambda f, v: 0 if v["x"] in (None, bf.NOT_PRESENT) else v["x"] % 251)
    ns = {"y": y, "x": x} if first else {"x": x, "y": y}
    cls = type("P", (binobj.Struct,), ns)
    if kind in ("default", "factory"):
        want = dflt
    elif kind == "const":
        want = vals[0]
    elif kind == "absent":
        want = bf.NOT_PRESENT
    else:
        want = vals[1] if computed else UNSET
    if kind != "absent":
        k, got = outcome(x.to_bytes)
        if want is UNSET or kind in ("none", "undefined"):
            mon.check(k == "err" and isinstance(got, errors.MissingRequiredValueError) and got.field is x,
                      f"{what}: dumped alone without a value: {short(got)}")
            mon.ev("refused alone without a value")
        else:
            mon.check(k == "ok" and got == (want or 0).to_bytes(size, "big"), f"{what}: dumped alone: {short(got)}")
            mon.ev("dumped alone without a value")
    inst = cls()
    for _ in range(6):
        op = rng.choice(["dump", "partial", "dict", "attr", "item", "len", "set", "del", "load", "given"])
        calls.clear()
        made.clear()
        cur = inst.__values__.get("x", want)
        enc = UNSET
        if cur is not UNSET:
            xb = b"" if cur is bf.NOT_PRESENT else (cur or 0).to_bytes(size, "big")
            if cur is None:  # the default null
                xb = bytes(size)
            yb = bytes([0 if cur in (None, bf.NOT_PRESENT) else cur % 251])
            if "y" in inst.__values__:
                yb = bytes([inst.__values__["y"]])
            enc = yb + xb if first else xb + yb
        if op == "dump":
            k, got = outcome(inst.to_bytes)
            expect = enc
        elif op == "partial":
            b = io.BytesIO()
            k, got = outcome(inst.partial_dump, b, list(ns)[-1])
            got, expect = (b.getvalue() if k == "ok" else got), enc
        elif op == "dict":
            k, got = outcome(inst.to_dict)
            expect = UNSET
            if cur is not UNSET:
                expect = {"x": cur, "y": yb[0]}
        elif op in ("attr", "item"):
            k, got = outcome(getattr if op == "attr" else lambda i, n: i[n], inst, "x")
            expect = cur
        elif op == "len" and enc is not UNSET:
            k, got = outcome(len, inst)
            expect = len(enc)
        elif op == "len":
            continue  # the size may be known all the same
        elif op == "set":
            if not computed and kind != "const":
                inst.x = vals[2]
                continue
            e = expect_error(mon, lambda: setattr(inst, "x", vals[2]), f"{what}: assigned",
                             kind=errors.ImmutableFieldError)
            mon.ev("immutable")
            continue
        elif op == "del":
            del inst["x"]
            continue
        elif op == "given":
            inst = cls(x=vals[3])
            continue
        else:
            data = (lambda a, b: b + a if first else a + b)(vals[3].to_bytes(size, "big"), bytes([vals[3] % 251]))
            inst = cls.from_bytes(data)
            v = None if null and vals[3] == 0 else vals[3]
            mon.check(inst.x == v and not calls and not made, f"{what}: loaded {data.hex()} as {inst!r}", repr(calls))
            continue
        if expect is UNSET:
            # the function computing y may have run into the lack of a value itself
            mon.check(k == "err" and isinstance(got, (errors.MissingRequiredValueError, KeyError)),
                      f"{what}: {op} without a value gave {short(got)}")
            mon.ev("dumps refused for want of a value")
        else:
            mon.check(k == "ok" and got == expect, f"{what}: {op} gave {short(got)}, want {short(expect)}")
            if kind != "undefined" and kind != "none" or "x" in inst.__values__:
                mon.check(not calls, f"{what}: {op} called the computing function though there's another value")
        if "x" in inst.__values__:
            mon.check(not made, f"{what}: {op} called the factory though there's a value")
        mon.ev("resolutions by precedence")
        mon.seen("precedence", kind, computed, first, op, null)


SCENARIOS = [
    Scenario("alone", alone, 3000),
    Scenario("precedence", precedence, 1500),
    Scenario("history", history, 7000),
    Scenario("unknown", unknown, 500),
    Scenario("factories", factories, 1500),
]
_ = (Builder, Ctx, F, S, values_of)
