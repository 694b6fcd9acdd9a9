"""C12: conditional fields appear exactly when their condition holds."""
import io

import binobj
from binobj import decorators
from binobj import fields as bf

from .. import ref
from ..build import Builder, Ctx
from ..core import Scenario
from ..gen import CTX_KEYS, Gen, refs_of
from ..spec import ABSENT, S, UNSET, walk
from ..streams import RecStream
from ..util import Case, budget, compare_load, dict_form, mutate_bytes, outcome, short, values_of

PROPERTY = "C12"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: bytes and values of condition-heavy structures judged against a reference codec under "
             "all contexts and many flag values; validators record whether they are shown the lack of a value")
LEVEL_NOTE = "declarations, values and flag bytes are sampled; the contexts used by conditions are all tried"
RULE = ("an evaluation is one generated declaration with conditional fields, used under several contexts and flag "
        "values; distinct ones differ in the declaration's structure and in which fields are absent")
ASSUMPTIONS = ["conditions are functions of their documented arguments"]
FLOORS = {"numbers absent with what they count": 800, "numbers present with what they count": 800,
          "absent fields dumped": 9800, "absent fields loaded": 12000, "contexts": 15000, "inputs accepted": 9400,
          "inputs refused": 2500, "missing values noticed": 720, "present conditional fields dumped": 7800,
          "present fields loaded": 7200, "structures without the absent fields": 1500}


class Watch(Ctx):
    """Validators everywhere that note being shown something that isn't a value."""

    def __init__(self, rng):
        self.rng = rng
        self.bad = []

    def see(self, field, value):
        if value is bf.NOT_PRESENT or value is bf.UNDEFINED or value is bf.DEFAULT:
            self.bad.append((field, value))
            raise ValueError(f"validator of {field} was shown {value!r}")

    def validators(self, f):
        return (self.see,) if "np" not in f.o and self.rng.random() < 0.6 else ()

    def struct_ns(self, s, ns, fields):
        names = [f.name for f in s.fields if "np" not in f.o]
        if names and self.rng.random() < 0.6:
            @decorators.validates(*names)
            def method(inst, field, value):
                self.see(field, value)

            ns["check_" + s.name] = method


CONTEXTS = [None, *({k: bool(n >> i & 1) for i, k in enumerate(CTX_KEYS)} for n in range(8))]


def use(rng, mon, c, w, what):
    """Dump, size, convert and load one set of values under one context."""
    d = c.describe
    inst = c.inst(rng)
    k, got = outcome(inst.to_bytes, c.ctx)
    mon.check(not w.bad, f"{what}: a validator was shown the lack of a value: {w.bad}", d())
    mon.check(k == "ok" and got == c.data, f"{what}: dump gave {short(got)}, want {c.data.hex()}", d())
    for f in c.s.fields:
        if "present" in f.o:
            mon.ev("absent fields dumped" if c.full[f.name] is ABSENT else "present conditional fields dumped")
    mon.seen(tuple((f.kind, str(f.o.get("present")), c.full[f.name] is ABSENT) for f in c.s.fields))
    dct = inst.to_dict(True, c.ctx)
    want = dict_form(c.s, c.full, True)
    for f in c.s.fields:
        mon.check((dct[f.name] is bf.NOT_PRESENT) == (want[f.name] is bf.NOT_PRESENT),
                  f"{what}: dictionary form has {short(dct[f.name])} for {f.name}, want {short(want[f.name])}", d())
    if c.ctx is None:
        mon.eq(len(inst), len(c.data), f"{what}: size", d())
    vals = c.decoded()
    load(rng, mon, c, c.data, vals, what)
    if rng.random() < 0.5 and c.data:
        data = mutate_bytes(rng, c.data)
        load(rng, mon, c, data, c.decoded(data), what + f" (changed bytes {data.hex()})")


def load(rng, mon, c, data, want, what):
    if budget(want):
        return
    st = RecStream(data)
    got = outcome(c.cls.from_stream, st, c.ctx)
    compare_load(mon, c, want, got, what + ": load")
    if isinstance(want, ref.Rej):
        return
    vals, end = want
    mon.eq(st.at, end, f"{what}: position after loading", c.describe())
    back = values_of(c.s, got[1])
    for f in c.s.fields:
        if "present" in f.o and not f.o.get("discard"):
            if vals[f.name] is ABSENT:
                mon.check(back[f.name] is ABSENT, f"{what}: absent {f.name} loaded as {short(back[f.name])}", c.describe())
            mon.ev("absent fields loaded" if vals[f.name] is ABSENT or "np" in f.o else "present fields loaded")
    f = rng.choice(c.s.fields)
    if not f.o.get("discard"):
        st = io.BytesIO(data)
        k, v = outcome(c.cls.get_field, st, f.name, c.ctx)
        mon.check(k == "ok" and ref.same(f, vals[f.name], v, f.name) is None,
                  f"{what}: get_field({f.name}) gave {short(v)}, want {short(vals[f.name])}", c.describe())


def structs(rng, mon, idx):
    w = Watch(rng)
    c = Case(rng, mon, hooks=w, conds=0.8, np=0.25, consts=0.1, own_null_choices=False, maxfields=7,
             discards=rng.choice([0, 0, 0.2]))
    use(rng, mon, c, w, "dump")
    for ctx in rng.sample(CONTEXTS, 3):
        c2 = object.__new__(Case)
        c2.__dict__.update(c.__dict__)
        c2.ctx = ctx
        try:
            c2.given = c.gen.given(c.s, ctx)
        except Exception:  # noqa: BLE001  (GiveUp)
            continue
        c2.full = ref.resolve(c.s, c2.given, ctx)
        c2.data, c2.spans = ref.encode_struct(c.s, c2.full, ctx)
        use(rng, mon, c2, w, f"context {ctx}")
        mon.ev("contexts")


def same_values_all_contexts(rng, mon, idx):
    """The same instance, under every context: only presence changes."""
    w = Watch(rng)
    g = Gen(rng, conds=0.7, refs=False, unions=False, nulls=0.1, consts=0.05, computed=0, peek=False, maxdepth=1, np=0,
            eof=False)
    c = Case(rng, mon, gen=g, hooks=w, ctx={k: True for k in CTX_KEYS})
    # every field gets a value, whether or not present now
    given = {}
    for f in c.s.fields:
        try:
            given[f.name] = g.any_value(f, {"__ctx__": {k: True for k in CTX_KEYS}, **{
                n: v for n, v in c.full.items() if v is not ABSENT}})
        except Exception:  # noqa: BLE001
            return
    for f in c.s.fields:
        if f.name in c.full and c.full[f.name] is not ABSENT:
            given[f.name] = c.given.get(f.name, c.full[f.name])
    try:
        wants = [ref.encode_struct(c.s, ref.resolve(c.s, given, ctx), ctx)[0] for ctx in CONTEXTS]
    except (ref.Rej, TypeError, KeyError):
        return
    inst = c.inst(given=given)
    for n, ctx in rng.sample(list(enumerate(CONTEXTS)), len(CONTEXTS)):
        k, got = outcome(inst.to_bytes, ctx)
        mon.check(k == "ok" and got == wants[n], f"context {ctx}: dump gave {short(got)}, want {wants[n].hex()}",
                  repr(given), c.describe())
        mon.ev("contexts")
        st = io.BytesIO()
        last = c.s.fields[-1].name
        k, got = outcome(inst.partial_dump, st, last, ctx)
        mon.check(k == "ok" and st.getvalue() == wants[n], f"context {ctx}: partial dump gave {short(got)} "
                  f"{st.getvalue().hex()}, want {wants[n].hex()}", repr(given), c.describe())


def without(rng, mon, idx):
    """A structure with absent fields dumps as the structure declared without these fields; their values, lack of
    values or even impossible values make no difference."""
    c = Case(rng, mon, conds=0.7, np=0.2, consts=0.05, nulls=0.15, computed=0.2, inherit=0.0)
    gone = {n for n, v in c.full.items() if v is ABSENT}
    used = set()
    for f in c.s.fields:
        if "compute" in f.o:
            x = f.o["compute"][1]
            used |= set(x) if isinstance(x, (list, tuple)) else {x}
    used |= {n for f in c.s.fields for _, n in refs_of(f)}
    gone -= used
    if not gone or len(gone) == len(c.s.fields):
        return
    rest = S(c.s.name, [f for f in c.s.fields if f.name not in gone], None, c.s.style, c.s.meta)
    b = Builder()
    inst = b.cls(rest)(**b.kwargs(rest, {n: v for n, v in c.given.items() if n not in gone}))
    plain = inst.to_bytes(c.ctx)
    given = dict(c.given)
    for n in gone:
        x = rng.random()
        given.pop(n, None)
        if x < 0.3 or c.s.get(n).o["present"][0] == "peek":
            given[n] = ABSENT
        elif x < 0.5:
            try:
                given[n] = c.gen.any_value(c.s.get(n), {"__ctx__": c.ctx, **c.full})
            except Exception:  # noqa: BLE001
                pass
    k, got = outcome(lambda: c.inst(given=given).to_bytes(c.ctx))
    mon.check(k == "ok" and got == plain, f"with {sorted(gone)} absent dump gave {short(got)}, the structure without "
              f"them {plain.hex()}", repr(given), c.describe())
    mon.eq(plain, c.data, "the structure without the absent fields", c.describe())
    mon.ev("structures without the absent fields")
    # and it loads that structure's data, as far as lookahead allows
    if c.unambiguous() and not any(f.o.get("present", ("",))[0] == "peek" for f in walk(c.s)):
        k1, v1 = outcome(b.cls(rest).from_bytes, plain, c.ctx)
        k2, v2 = outcome(c.cls.from_bytes, plain, c.ctx)
        mon.check(k1 == k2, f"loading: {short(v1)} without the fields, {short(v2)} with them absent", c.describe())
        if k1 == "ok":
            for f in rest.fields:
                if not f.o.get("discard"):
                    a, bb = values_of(rest, v1)[f.name], values_of(c.s, v2)[f.name]
                    mon.check(ref.loaded_equal(a, bb), f"{f.name} loaded as {a!r} without the absent fields and as {bb!r} "
                              "with them", c.describe())
            for n in gone:
                if "np" in c.s.get(n).o and not c.s.get(n).o.get("discard"):
                    got = getattr(v2, n)
                    mon.check(ref.same(c.s.get(n), c.s.get(n).o["np"], got, n) is None,
                              f"stand-in of {n} loaded as {got!r}, declared {c.s.get(n).o['np']!r}", c.describe())


def together(rng, mon, idx):
    """A number and what it's computed from, there or not there under the same condition."""
    kind = rng.choice(["bytes", "array", "text", "sum"])
    by = rng.choice(["context", "flag", "both"])
    num = bf.UInt8(present=lambda v, c, s: there(v, c))

    def there(values, context):
        a = context is not None and context["k"]
        b = values["flag"] & 1 if by != "context" else 0
        return {"context": a, "flag": b, "both": a or b}[by]

    opts = {"present": lambda v, c, s: there(v, c)}
    size = rng.choice([num, "n"])
    x, value, enc = {
        "bytes": lambda: (bf.Bytes(size=size, **opts), b"abc", b"abc"),
        "array": lambda: (bf.Array(bf.UInt16(endian="big"), count=size, **opts), [1, 2], b"\0\1\0\2"),
        "text": lambda: (bf.String(size=size, encoding="utf-8", **opts), "\u00e9x", b"\xc3\xa9x"),
        "sum": lambda: (bf.Int32(endian="little", **opts), 77, b"M\0\0\0"),
    }[kind]()
    count = {"bytes": 3, "array": 2, "text": 3, "sum": 77}[kind]

    def compute(field, values):
        v = values["x"]
        return len(v.encode()) if kind == "text" else v if kind == "sum" else len(v)

    num.computes(compute)
    ns = {"flag": bf.UInt8(), "n": num, "x": x, "end": bf.UInt8()}
    if kind == "sum" and rng.random() < 0.5:
        ns = {"flag": ns["flag"], "x": x, "n": num, "end": ns["end"]}
    cls = type("T", (binobj.Struct,), ns)
    if rng.random() < 0.3:  # a level down
        top = type("Top", (binobj.Struct,), {"t": bf.Nested(cls)})
    else:
        top = None
    for _ in range(4):
        flag, ctx = rng.randrange(256), rng.choice([None, {"k": True}, {"k": False}])
        present = bool(there({"flag": flag}, ctx))
        given = {"flag": flag, "end": 9}
        if present or rng.random() < 0.3:
            given["x"] = value
        elif rng.random() < 0.3:
            given["x"] = bf.NOT_PRESENT
        body = bytes([count]) + enc if list(ns)[1] == "n" else enc + bytes([count])
        want = bytes([flag]) + (body if present else b"") + b"\x09"
        inst = cls(**given)
        what = f"{kind} and its number under one condition ({by}), {given}, context {ctx}"
        op = rng.choice(["dump", "stream", "partial", "len", "dict"])
        # dictionaries given for nested structures stay what they are in the dictionary form
        obj = inst if top is None else top(t=inst if op == "dict" else rng.choice([inst, dict(given)]))
        if op == "dump":
            got = outcome(obj.to_bytes, ctx)
        elif op == "stream":
            st = RecStream()
            k, e = outcome(obj.to_stream, st, ctx)
            got = k, (st.getvalue() if k == "ok" else e)
        elif op == "partial":
            st = io.BytesIO()
            k, e = outcome(obj.partial_dump, st, rng.choice([None, "t" if top else "end"]), ctx)
            got = k, (st.getvalue() if k == "ok" else e)
        elif op == "len" and by == "flag":
            got, want = outcome(len, obj), len(want)
        elif op == "dict":
            got = outcome(obj.to_dict, False, ctx)
            if got[0] == "ok":
                d = got[1]["t"] if top else got[1]
                got = "ok", {k: v for k, v in d.items() if v is not bf.NOT_PRESENT}
            want = {"flag": flag, "end": 9, **({"n": count, "x": value} if present else {})}
        else:
            continue
        mon.check(got[0] == "ok" and got[1] == want, f"{op} of {what}: {short(got[1])}, want {short(want)}")
        mon.ev("numbers present with what they count" if present else "numbers absent with what they count")
        mon.seen("together", kind, by, op, present, top is None, "x" in given)


def required(rng, mon, idx):
    """A present field needs a value; its absence on any side of it changes nothing about that."""
    c = Case(rng, mon, conds=0.7, defaults=0, consts=0, computed=0.1, nulls=0.1)
    names = [f.name for f in c.s.fields if "present" in f.o and f.o["present"][0] != "peek"
             and c.full[f.name] is not ABSENT and f.name in c.given and not {"default", "factory", "const", "compute"}
             & set(f.o)]
    for n in names:
        given = {k: v for k, v in c.given.items() if k != n}
        k, e = outcome(lambda: c.inst(given=given).to_bytes(c.ctx))
        mon.check(k == "err", f"{n} is present and has no value, but dump gave {short(e)}", c.describe())
        mon.ev("missing values noticed")
        given[n] = ABSENT
        # saying explicitly that it isn't there leaves it out
        try:
            full = ref.resolve(c.s, given, c.ctx)
            data, _ = ref.encode_struct(c.s, full, c.ctx)
        except (ref.Rej, TypeError, KeyError):
            continue
        k, e = outcome(lambda: c.inst(given=given).to_bytes(c.ctx))
        mon.check(k == "ok" and e == data, f"{n} explicitly not present: dump gave {short(e)}, want {data.hex()}",
                  c.describe())


SCENARIOS = [
    Scenario("structs", structs, 5000),
    Scenario("same_values_all_contexts", same_values_all_contexts, 2500),
    Scenario("without", without, 7000),
    Scenario("required", required, 2500),
    Scenario("together", together, 1500),
]
_ = UNSET
