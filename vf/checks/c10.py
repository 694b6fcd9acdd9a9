"""C10: validators and constants are enforced on every path."""
import io

import binobj
from binobj import decorators, errors
from binobj import fields as bf

from .. import ref
from ..build import Builder, Ctx, union_struct
from ..core import Scenario
from ..gen import Gen, GiveUp
from ..spec import ABSENT, F, S, UNSET
from ..util import Case, outcome, short

PROPERTY = "C10"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: every validator of generated declarations records what it sees; the trace is judged "
             "against the values that the reference says are present, and each observed validator is then made to refuse")
LEVEL_NOTE = "declarations, placements of validators, values and refusing validators are sampled"
RULE = ("an evaluation is one generated declaration with validators of all kinds in random places, dumped and loaded "
        "with none refusing and then with one refusing at a time; distinct ones differ in the declaration's structure "
        "and in the kind, place and operation of the refusing validator")
ASSUMPTIONS = ["validators refuse by raising", "values given for fields whose condition does not hold may or may not be "
               "shown to validators", "a union's alternative is not consulted for a null that the union itself declares"]
FLOORS = {"assignments accepted": 6800, "assignments refused": 11000, "constants refused": 6100,
          "inherited refusals": 2100, "refusals on dump": 1400, "refusals on field read": 170,
          "refusals on load": 1300, "refusals on partial dump": 230, "refusals on partial load": 210,
          "validator calls": 11000}


class Refused(errors.ValidationError):
    def __init__(self, field=None):
        super().__init__("no", field=field, value=None)


class Refused2(ValueError):
    pass


class Rec(Ctx):
    """Attaches recording validators everywhere."""

    def __init__(self, rng, density=0.5):
        self.rng = rng
        self.density = density
        self.sites = {}  # site -> what it is about
        self.calls = []
        self.refuse = None

    def hit(self, site, *args):
        self.calls.append((site, args[-1]))
        if self.refuse and self.refuse[0] == site and self.refuse[1](args[-1]):
            raise self.refuse[2]

    def validators(self, f):
        if self.rng.random() > self.density:
            return ()
        out = []
        for i in range(self.rng.choice([1, 1, 2, 3])):
            site = ("arg", id(f), i)
            self.sites[site] = f

            def v(field, value, site=site):
                self.hit(site, value)

            out.append(v)
        return out

    def struct_ns(self, s, ns, fields):
        r = self.rng
        extra = {}
        names = [f.name for f in s.fields]
        for j in range(r.choice([0, 1, 1, 2])):
            on = r.sample(names, min(len(names), r.choice([1, 1, 2, 3])))
            extra[f"check{len(ns)}_{j}_{s.name}"] = self.method(s, j, on)
        for j in range(r.choice([0, 0, 1, 2])):
            extra[f"whole{len(ns)}_{j}_{s.name}"] = self.whole(s, j)
        if r.random() < 0.5:
            ns.update(extra)
        else:
            old = dict(ns)
            ns.clear()
            ns.update(extra)
            ns.update(old)

    def method(self, s, j, on):
        for n in on:
            self.sites[("meth", id(s), j, n)] = n

        def check(inst, field, value):
            self.hit(("meth", id(s), j, field.name), value)

        return decorators.validates(*on)(check)

    def whole(self, s, j):
        self.sites[("whole", id(s), j)] = s

        def check(inst, mapping):
            self.hit(("whole", id(s), j), {n: mapping[n] for n in plain_names(s)})

        return decorators.validates_struct(check)


def plain_names(s):
    return [f.name for f in s.fields if "present" not in f.o]


def chain(s):
    while s is not None:
        yield s
        s = s.base


def occurrences(rec, s, full, out):
    """Append (site, field spec or None, value) for everything that has to be seen."""
    for f in s.fields:
        v = full[f.name]
        if v is ABSENT:
            continue
        for d in chain(s):
            for j in range(3):
                if ("meth", id(d), j, f.name) in rec.sites:
                    out.append((("meth", id(d), j, f.name), f, v, full))
        of_field(rec, f, v, full, out)
    for d in chain(s):
        for j in range(3):
            if ("whole", id(d), j) in rec.sites:
                # A parent's validator looks at the parent's fields only.
                out.append((("whole", id(d), j), d, {n: full[n] for n in plain_names(d)}, full))
    return out


def of_field(rec, f, v, env, out):
    for i in range(3):
        if ("arg", id(f), i) in rec.sites:
            out.append((("arg", id(f), i), f, v, env))
    if v is None:
        return
    if f.kind == "nest":
        occurrences(rec, f.p["struct"], v, out)
    elif f.kind == "arr":
        for x in v:
            of_field(rec, f.p["comp"], x, env, out)
    elif f.kind == "union":
        c = f.p["choices"][ref.union_index(f, env)]
        if isinstance(c, S):
            occurrences(rec, c, v, out)
        else:
            of_field(rec, c, v, env, out)


def sees(f, got, want, env=None):
    """Whether got (as handed to a validator) is the value want."""
    if isinstance(f, S):
        return all(n in got and sees(f.get(n), got[n], w, want) for n, w in want.items())
    if want is None or got is None:
        return want is got
    if f.kind == "nest":
        return same_record(f.p["struct"], got, want)
    if f.kind == "arr":
        if not isinstance(got, list):
            return False
        return len(got) == len(want) and all(sees(f.p["comp"], a, b, env) for a, b in zip(got, want))
    if f.kind == "union":
        if isinstance(want, dict):
            return same_record(union_struct(f, want), got, want)
        if isinstance(want, list):
            return isinstance(got, list) and len(got) == len(want)
        return got == want or (got != got and want != want)
    return got == want or (got != got and want != want)


def same_record(s, got, want):
    vals = got.__values__ if isinstance(got, binobj.Struct) else got
    if not isinstance(vals, dict):
        return False
    for n, x in vals.items():
        if n not in want:
            return False
        if want[n] is ABSENT or x is bf.NOT_PRESENT:
            continue
        if not sees(s.get(n), x, want[n], want):
            return False
    return True


SPECIAL = (bf.NOT_PRESENT, bf.UNDEFINED, bf.DEFAULT)


def judge(mon, rec, want, what, c):
    seen = {}
    for site, v in rec.calls:
        seen.setdefault(site, []).append(v)
        mon.check(not any(v is x for x in SPECIAL), f"{what}: {where(rec, site)} was shown {v!r}", c.describe())
    mon.ev("validator calls", len(rec.calls))
    for site, f, v, env in want:
        mon.check(any(sees(f, x, v, env) for x in seen.get(site, ())),
                  f"{what}: {where(rec, site)} never saw {short(v)}; it saw {short(seen.get(site))}", c.describe())


def where(rec, site):
    k = site[0]
    x = rec.sites[site]
    if k == "arg":
        return f"validator #{site[2]} given to field {x!r}"
    if k == "meth":
        return f"validator method #{site[2]} for field {x}"
    return f"validator method #{site[2]} of structure {x.name}"


def refusals(rng, mon, rec, want, op, what, c, n=4):
    """Make validators refuse one at a time."""
    if not want:
        return
    for site, f, v, env in rng.sample(want, min(n, len(want))):
        exc = rng.choice([Refused(), Refused2("no")])
        rec.refuse = (site, lambda x, f=f, v=v, env=env: sees(f, x, v, env), exc)
        k, r = outcome(op)
        rec.refuse = None
        mon.check(k == "err", f"{what}: went through although {where(rec, site)} refuses {short(v)}; gave {short(r)}",
                  c.describe())
        mon.check(r is exc, f"{what}: {where(rec, site)} raised but the caller got {r!r}", c.describe())
        mon.ev("refusals on " + what)
        mon.seen("refusal", what, site[0], f.kind if isinstance(f, F) else "struct", tuple(x.kind for x in c.s.fields))


def everywhere(rng, mon, idx):
    rec = Rec(rng)
    c = Case(rng, mon, hooks=rec, own_null_choices=False, np=0.0)
    for c in (c, c.more()):
        inst = c.inst(rng)
        rec.calls.clear()
        dump = rng.choice([lambda: inst.to_bytes(c.ctx), lambda: inst.to_stream(io.BytesIO(), c.ctx)])
        k, got = outcome(dump)
        mon.check(k == "ok" and got in (None, c.data), f"dump gave {short(got)}", c.describe())
        want = occurrences(rec, c.s, c.full, [])
        judge(mon, rec, want, "dump", c)
        refusals(rng, mon, rec, want, dump, "dump", c)
        mon.eq(inst.to_bytes(c.ctx), c.data, "dump after refusals", c.describe())
        if not c.unambiguous():
            continue
        vals = c.decoded()[0]
        rec.calls.clear()
        load = rng.choice([lambda: c.cls.from_bytes(c.data, c.ctx),
                           lambda: c.cls.from_stream(io.BytesIO(c.data), c.ctx)])
        k, got = outcome(load)
        mon.check(k == "ok", f"load gave {short(got)}", c.describe())
        want = occurrences(rec, c.s, vals, [])
        judge(mon, rec, want, "load", c)
        refusals(rng, mon, rec, want, load, "load", c)


def partial(rng, mon, idx):
    """Validators given to the fields hold for partial operations as well."""
    rec = Rec(rng, 0.7)
    c = Case(rng, mon, hooks=rec, own_null_choices=False, np=0.0, inherit=0.1)
    top = {id(f): f for f in c.s.fields}
    inst = c.inst()
    want = [w for w in occurrences(rec, c.s, c.full, []) if w[0][0] == "arg" and w[0][1] in top]
    if not want:
        return
    last = c.s.fields[-1].name
    inst.partial_dump(io.BytesIO(), last, c.ctx)
    refusals(rng, mon, rec, want, lambda: inst.partial_dump(io.BytesIO(), last, c.ctx), "partial dump", c)
    if not c.unambiguous():
        return
    vals = c.decoded()[0]
    want = [w for w in occurrences(rec, c.s, vals, []) if w[0][0] == "arg" and w[0][1] in top]
    c.cls.partial_load(io.BytesIO(c.data), last, c.ctx)
    refusals(rng, mon, rec, want, lambda: c.cls.partial_load(io.BytesIO(c.data), last, c.ctx), "partial load", c)
    for w in rng.sample(want, min(3, len(want))):
        name = w[1].name
        refusals(rng, mon, rec, [w], lambda: c.cls.get_field(io.BytesIO(c.data), name, c.ctx), "field read", c)


def other_const(g, f):
    """Another value for a constant field that takes up the same size."""
    v = f.o["const"]
    for _ in range(20):
        try:
            if f.kind in ("str", "strz"):
                w = g.fit_text(f, ref.plain_size(f))
            elif f.kind == "bytes":
                w = g.rng.randbytes(len(v))
            elif f.kind == "vli":
                w = abs(v) ^ 1 if v >= 0 else v - 1
                if len(ref.vli_bytes(f.p["enc"], w)) != len(ref.vli_bytes(f.p["enc"], v)):
                    return UNSET
            else:
                w = g.plain_value(f, {})
            if w is None:
                continue
            a, b = ref.approx(f, w, {}, None), ref.approx(f, v, {}, None)
            if a != b and a == a and b == b:
                return w
        except (ref.Rej, GiveUp, TypeError):
            continue
    return UNSET


def const_paths(s, full, path=()):
    """Paths of the present constant fields in structures nested directly in each other."""
    for f in s.fields:
        if full[f.name] is ABSENT or f.o.get("present", ("",))[0] == "peek":
            continue
        if "const" in f.o:
            yield (*path, f.name), f
        elif f.kind == "nest" and full[f.name] is not None:
            yield from const_paths(f.p["struct"], full[f.name], (*path, f.name))


def with_value(given, full, path, v):
    name = path[0]
    if len(path) == 1:
        return {**given, name: v}
    inner = given.get(name, UNSET)
    if not isinstance(inner, dict):
        inner = {k: x for k, x in full[name].items() if x is not ABSENT}
    return {**given, name: with_value(inner, full[name], path[1:], v)}


def constants(rng, mon, idx):
    c = Case(rng, mon, consts=0.6, defaults=0.1, conds=0.15, own_null_choices=False, odd_float=0, sub_res=0)
    inst = c.inst()
    mon.eq(inst.to_bytes(c.ctx), c.data, "dump with the constants", c.describe())
    for f in c.s.fields:
        if "const" not in f.o or f.name not in inst.__binobj_struct__.components:
            continue
        before = inst.to_bytes(c.ctx)
        for v in (f.o["const"], other_const(c.gen, f), None):
            if v is UNSET:
                continue
            for how in (setattr, lambda i, n, x: i.__setitem__(n, x)):
                k, e = outcome(how, inst, f.name, v)
                mon.check(k == "err" and isinstance(e, errors.ImmutableFieldError),
                          f"constant {f.name} could be assigned {v!r} ({short(e)})", c.describe())
                mon.ev("assignments refused")
        mon.eq(inst.to_bytes(c.ctx), before, "dump after assigning to a constant", c.describe())
    if not c.unambiguous():
        return
    for path, f in const_paths(c.s, c.full):
        v = other_const(c.gen, f)
        if v is UNSET:
            continue
        given = with_value(c.given, c.full, path, v)
        try:
            full = ref.resolve(c.s, given, c.ctx)
            data, _ = ref.encode_struct(c.s, full, c.ctx)
        except ref.Rej:
            continue
        want = c.decoded(data)
        k, got = outcome(lambda: c.inst(given=given).to_bytes(c.ctx))
        mon.check(k == "ok" and got == data, f"another value passed for constant {path}: dump gave {short(got)}, "
                  f"want {data.hex()}", c.describe())
        if not isinstance(want, ref.Rej) or want.kind != "const":
            continue
        i = [x.name for x in c.s.fields].index(path[0]) + 1
        try:  # the constant itself has to be what's wrong, for the field to be refused on its own
            ref.decode_struct(S(c.s.name, c.s.fields[:i]), data, 0, c.ctx)
            continue
        except ref.Rej as e:
            if e.kind != "const":
                continue
        st = io.BytesIO(data + b"\0")
        for what, op in (("from_bytes", lambda: c.cls.from_bytes(data, c.ctx)),
                         ("from_stream", lambda: c.cls.from_stream(io.BytesIO(data), c.ctx)),
                         ("partial_load", lambda: c.cls.partial_load(io.BytesIO(data), None, c.ctx)),
                         ("get_field", lambda: c.cls.get_field(st, path[0], c.ctx))):
            k, e = outcome(op)
            mon.check(k == "err", f"{what} accepted {v!r} for constant {'.'.join(path)}: {short(e)}", data.hex(),
                      c.describe())
            mon.ev("constants refused")
            mon.seen("const", what, f.kind, len(path))


def element_constants(rng, mon, idx):
    """Constants of array elements and of alternatives."""
    g = Gen(rng, odd_float=0, sub_res=0)
    f = rng.choice([lambda: g.int_field(None), lambda: g.float_field(None), lambda: g.uuid_field(None),
                    lambda: g.bytes_field(None, rng.randint(1, 4))])()
    v = g.plain_value(f, {})
    if v != v:
        return
    f.o["const"] = v
    w = other_const(g, f)
    if w is UNSET:
        return
    n = rng.randint(1, 4)
    if rng.random() < 0.5:
        s = S("EC", [F("arr", "a", {"comp": f, "count": n}), g.int_field("z")], None, rng.choice(["assign", "pep526"]))
        good = {"a": [v] * n, "z": 0}
        bad = {"a": [v] * n, "z": 0}
        bad["a"][rng.randrange(n)] = w
    else:
        s = S("EC", [F("int", "t", {"size": 1, "signed": False, "endian": "big", "via": "UInt8"}),
                     F("union", "u", {"choices": [g.int_field(None), f], "tag": "t"}), g.int_field("z")])
        good, bad = {"t": 1, "u": v, "z": 0}, {"t": 1, "u": w, "z": 0}
    cls = Builder().cls(s)
    a, b = (ref.encode_struct(s, ref.resolve(s, x, None), None)[0] for x in (good, bad))
    mon.eq(cls(**good).to_bytes(), a, "dump")
    k, x = outcome(cls.from_bytes, a)
    mon.check(k == "ok", f"loading the constant failed: {short(x)}", repr(s))
    k, x = outcome(cls.from_bytes, b)
    mon.check(k == "err", f"{w!r} was accepted in place of constant {v!r}: {short(x)}", repr(s), b.hex())
    mon.ev("constants refused")
    mon.seen("element const", f.kind, n, s.fields[-2].kind)


def assignment(rng, mon, idx):
    """Refused assignments leave the previous value."""
    bad = {}

    class H(Ctx):
        def validators(self, f):
            if rng.random() < 0.3:
                return ()

            def v(field, value):
                if any(value is x for x in bad.get(id(f), ())):
                    raise Refused(field)

            mine.add(id(f))
            return (lambda field, value: None, v) if rng.random() < 0.3 else (v,)

    mine = set()
    c = Case(rng, mon, hooks=H(), consts=0.0, defaults=0.3, computed=0.1, nulls=0.3, inherit=0.3)
    inst = c.inst()
    vals = dict(inst.__values__)
    fs = [f for f in c.s.fields if not {"compute", "const"} & set(f.o)]
    for _ in range(12):
        if not fs:
            return
        f = rng.choice(fs)
        try:
            other = c.gen.given(c.s, c.ctx, 0.0)
        except GiveUp:
            return
        v = other.get(f.name, UNSET)
        if v is UNSET or v is ABSENT:
            continue
        v = c.b.value(f, v)
        # only objects of their own can be told apart by identity
        refuse = id(f) in mine and rng.random() < 0.6 and v is not None and not isinstance(v, bool)
        if refuse:
            v = unique(v)
            if v is None:
                continue
            bad[id(f)] = [v]
        how = rng.choice([setattr, lambda i, n, x: i.__setitem__(n, x)])
        k, e = outcome(how, inst, f.name, v)
        bad.pop(id(f), None)
        if refuse:
            mon.check(k == "err", f"{f.name} = {short(v)} was accepted though a validator refuses it", c.describe())
            mon.ev("assignments refused")
            mon.seen("assignment", f.kind, f.name in vals)
        else:
            mon.check(k == "ok", f"{f.name} = {short(v)} was refused: {e!r}", c.describe())
            vals[f.name] = v
            mon.ev("assignments accepted")
        mon.check(set(inst.__iter__()) == set(vals), f"after assigning {f.name}: assigned fields are "
                  f"{sorted(inst.__iter__())}, want {sorted(vals)}", c.describe())
        for n, x in vals.items():
            mon.check(inst[n] is x and getattr(inst, n) is x, f"after assigning {f.name}: {n} is {short(inst[n])}, "
                      f"want {short(x)}", c.describe())


def unique(v):
    """An equal object that is nobody else's."""
    if isinstance(v, int) and abs(v) > 300:
        return v + 0 if v + 0 is not v else int(str(v))
    if isinstance(v, float):
        return float(repr(v)) if v == v else None
    if isinstance(v, (list, binobj.Struct, dict)):
        return v
    if isinstance(v, bytes) and len(v) > 1:
        return bytes(bytearray(v))
    if isinstance(v, str) and len(v) > 1:
        return "".join(list(v))
    return None


def inheritance(rng, mon, idx):
    """A subclass's validators are its own; what it inherits holds for it as well."""
    g = Gen(rng, conds=0.0, consts=0.1, unions=False, maxdepth=1, peek=False, eof=False, computed=0.0, refs=False,
            discards=0.1)
    calls = []
    refuse = [None]

    def attach(name, on):
        if on is None:
            def check(inst, mapping):
                calls.append((name, type(inst)))
                if refuse[0] == name:
                    raise Refused()

            return decorators.validates_struct(check)

        def check(inst, field, value):
            calls.append((name, type(inst)))
            if refuse[0] == name and field.name == on[-1]:
                raise Refused(field)

        return decorators.validates(*on)(check)

    classes = []  # (class, spec, validators that apply)

    class H(Ctx):
        def struct_ns(self, s, ns, fields):
            if s.name.startswith("N"):
                names = [f.name for f in s.fields]
                own = []
                for k in range(rng.choice([0, 1, 2])):
                    nm = f"v_{s.name}_{k}"
                    ns[nm] = attach(nm, rng.sample(names, min(len(names), rng.choice([1, 2]))))
                    own.append(nm)
                for k in range(rng.choice([0, 0, 1])):
                    nm = f"w_{s.name}_{k}"
                    ns[nm] = attach(nm, None)
                    own.append(nm)
                applies[id(s)] = applies.get(id(s.base), []) + own

    applies = {}
    b = Builder(H())
    specs = []
    n = rng.choice([2, 3, 4, 5])
    for i in range(n):
        base = rng.choice(specs) if specs else None
        style = rng.choice(["assign", "pep526", "annotated"])
        g.n += 1
        fs = [rng.choice([g.int_field, g.vli_field, g.uuid_field])(f"x{i}_{k}") for k in range(rng.choice([0, 1, 2])
                                                                                         if base else 2)]
        for f in fs:
            f.p.pop("max", None)
            if f.p.get("endian_default"):
                f.p.pop("endian_default")
        specs.append(S(f"N{i}", fs, base, style if fs else "assign"))
    order = list(specs)
    for s in order:
        classes.append((b.cls(s), s))
    for cls, s in rng.sample(classes, len(classes)):
        given = {f.name: g.plain_value(f, {}) for f in s.fields}
        data, _ = ref.encode_struct(s, ref.resolve(s, given, None), None)
        inst = cls(**given)
        for what, op in (("dump", inst.to_bytes), ("load", lambda: cls.from_bytes(data))):
            calls.clear()
            k, r = outcome(op)
            mon.check(k == "ok", f"{what} failed: {short(r)}", repr(s))
            ran = {n for n, _ in calls}
            mon.eq(ran, set(applies[id(s)]), f"validators run by {what} of {s.name}", repr(specs))
            mon.check(all(t is cls for _, t in calls), "validator got an instance of another class", repr(specs))
            mon.ev("validator calls", len(calls))
            for name in {n for ns in applies.values() for n in ns}:
                refuse[0] = name
                k, r = outcome(op)
                refuse[0] = None
                mon.check((k == "err") == (name in applies[id(s)]),
                          f"{what} of {s.name} with {name} refusing: {k} {short(r)}", repr(specs))
                mon.ev("inherited refusals")
        mon.seen("inheritance", [x.style for x in specs], [specs.index(x.base) if x.base else None for x in specs],
                 s.name)


SCENARIOS = [
    Scenario("everywhere", everywhere, 4000),
    Scenario("partial", partial, 1500),
    Scenario("constants", constants, 2500),
    Scenario("element_constants", element_constants, 800),
    Scenario("assignment", assignment, 2500),
    Scenario("inheritance", inheritance, 1200),
]


def probe_factory():
    n = iter(range(1, 100))
    seen = []

    class P(binobj.Struct):
        d = bf.UInt8(factory=lambda: next(n))

        @decorators.validates("d")
        def check(self, field, value):
            seen.append(value)

    got = P().to_bytes()
    return got[0] in seen


KNOWN = {"factory-validator": probe_factory}
