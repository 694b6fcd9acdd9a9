"""C14: a structure behaves as a mapping of its assigned fields."""
import collections
import copy
import types
import warnings

import binobj
from binobj import errors
from binobj import fields as bf
from binobj import MutableStructMappingProxy, StructMappingProxy

from .. import ref
from ..build import Builder, Ctx
from ..core import Scenario
from ..gen import Gen, GiveUp
from ..spec import ABSENT, UNSET
from ..util import Case, dict_form, dict_value, expect_error, outcome, short, snapshot

PROPERTY = "C14"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: random sequences of reads, writes and deletes on several instances of related classes, "
             "every one judged against a model mapping; after every step all other instances and the classes are compared "
             "with their state before it")
LEVEL_NOTE = "declarations, values and operation sequences are sampled"
RULE = ("an evaluation is one operation sequence on a set of instances of generated classes, or one pair compared; "
        "distinct ones differ in the declaration's field kinds and in the operations or the kind of comparison")
ASSUMPTIONS = ["not-a-number values aren't compared"]
FLOORS = {"comparisons": 12000, "copies": 1900, "dictionaries": 4900, "equal pairs": 7800,
          "failed assignments": 1100, "nested differences": 280, "operations": 18000, "proxy operations": 12000,
          "reads": 53000, "refused names": 1900, "unequal pairs": 5000}


class Vetoed(Exception):
    pass


class Veto(Ctx):
    """Validators that refuse whatever is assigned while they're armed."""

    def __init__(self, rng):
        self.rng = rng
        self.armed = False
        self.of = set()
        self.chosen = {}

    def validators(self, f):
        if id(f) not in self.chosen:
            self.chosen[id(f)] = self.rng.random() < 0.3
        if not self.chosen[id(f)]:
            return ()

        def validator(field, value):
            if self.armed:
                raise Vetoed()

        self.of.add(id(f))
        return (validator,)


class Inst:
    def __init__(self, s, cls, obj, given):
        self.s, self.cls, self.obj = s, cls, obj
        self.given = dict(given)  # name -> spec value of what's assigned
        self.objs = {n: obj.__values__[n] for n in obj.__values__}

    def assigned(self):
        return {n for n, v in self.given.items() if v is not UNSET}

    def model(self):
        """What it's compared by."""
        return {n: dict_value(self.s.get(n), ref.normal(self.s.get(n), self.given[n], None, {}), False, {})
                if self.given[n] is not ABSENT else bf.NOT_PRESENT for n in self.assigned()}


def get_attr(x, n):
    return getattr(x, n)


def get_item(x, n):
    return x[n]


def get_proxy(x, n):
    return StructMappingProxy(x)[n]


def get_mapping(x, n):
    return dict((k, x[k]) for k in x)[n]


def set_item(x, n, v):
    x[n] = v


def set_proxy(x, n, v):
    MutableStructMappingProxy(x)[n] = v


def del_item(x, n):
    del x[n]


def del_proxy(x, n):
    del MutableStructMappingProxy(x)[n]


def class_picture(cls):
    m = cls.__binobj_struct__
    return (list(m.components), [id(f) for f in m.components.values()],
            [sorted((k, id(v)) for k, v in vars(f).items() if k != "_compiled_values")
             for f in m.components.values()],
            m.size_bytes if hasattr(m, "size_bytes") else None, sorted(k for k in vars(cls) if k != "__slotnames__"),
            [id(v) for v in m.struct_validators])


def check_state(mon, i, hist):
    names = i.assigned()
    got = list(iter(x) for x in (i.obj,))[0]
    got = [n for n in got]
    mon.check(len(got) == len(set(got)) and set(got) == names, f"iteration yields {got}, assigned are {sorted(names)}", hist)
    for n in i.s.fields:
        n = n.name
        mon.check((n in i.obj) == (n in names), f"{n!r} in structure is {n in i.obj}", hist)
        if n in i.given:
            a, b = outcome(get_attr, i.obj, n), outcome(get_item, i.obj, n)
            mon.check(a[0] == b[0] == "ok" and a[1] is b[1] is i.objs[n],
                      f"{n} reads as {short(a)} and {short(b)}, assigned was {short(i.objs[n])}", hist)
            mon.ev("reads")


def unassigned(mon, i, n, hist):
    """Attribute and item agree for what isn't assigned too, and what they give is as for a fresh instance."""
    a, b = outcome(get_attr, i.obj, n), outcome(get_item, i.obj, n)
    mon.check(a[0] == b[0], f"unassigned {n}: attribute gives {short(a)}, item {short(b)}", hist)
    full = ref.resolve(i.s, {k: v for k, v in i.given.items() if v is not UNSET}, None, partial=True)
    mon.check((a[0] == "ok") == (n in full), f"unassigned {n} reads as {short(a)}", hist)
    if a[0] == "ok":
        f = i.s.get(n)
        if not isinstance(a[1], (binobj.Struct, list)):
            mon.check(full[n] is ABSENT or ref.same(f, full[n], a[1], n) is None,
                      f"unassigned {n} reads as {short(a[1])}, want {short(full[n])}", hist)
        mon.check(snapshot(a[1]) == snapshot(b[1]), f"{n}: attribute {short(a[1])}, item {short(b[1])}", hist)
    mon.ev("reads")


def compare(mon, a, ma, b, mb, what, hist=()):
    want = ma == mb
    for x, y in ((a, b), (b, a)):
        k, got = outcome(lambda: (x == y, x != y))
        mon.check(k == "ok" and got == (want, not want),
                  f"{what}: comparison gave {short(got)}, want {(want, not want)}", short(x, 900), short(y, 900), hist)
    mon.ev("comparisons")
    mon.ev("equal pairs" if want else "unequal pairs")


def sequence(rng, mon, idx):
    g = Gen(rng, unions=False, ctx=False, computed=0.25, defaults=0.35, consts=0.12, conds=0.2, discards=0.15, nulls=0.2,
            peek=False, maxfields=6, inherit=0.5)
    w = Veto(rng)
    c = Case(rng, mon, gen=g, ctx=None, hooks=w)
    c.b.rng = rng
    b2 = Builder(w)
    kinds = [(c.s, c.cls), (c.s, c.cls), (c.s, b2.cls(c.s))]
    if c.s.base:
        kinds.append((c.s.base, c.b.cls(c.s.base)))
    live = []

    def new(s, cls):
        given = {n: v for n, v in g.given(s, None).items() if v is not UNSET and rng.random() < 0.75}
        return Inst(s, cls, cls(**c.b.kwargs(s, given)), given)

    try:
        live = [new(*k) for k in kinds]
    except GiveUp:
        return
    if "nan" in repr([i.given for i in live]):
        return
    flags = {n for i in live for f in i.s.fields for role, n in __import__("vf.gen", fromlist=["refs_of"]).refs_of(f)}
    hist, sig = [f"{c.s!r}", *(repr(i.given) for i in live)], []
    for _ in range(12):
        i = rng.choice(live)
        f = rng.choice(i.s.fields)
        n = f.name
        others = [(j, snapshot(j.obj)) for j in live if j is not i]
        classes = [(k, class_picture(k)) for k in {id(j.cls): j.cls for j in live}.values()]
        mine = snapshot(i.obj)
        op = rng.choice(["set", "set", "set", "del", "del", "unknown", "veto", "undef", "eq", "new", "dict", "copy"])
        sig.append(op)
        if op == "set":
            try:
                v = g.given(i.s, None, 0.0).get(n, UNSET)
            except GiveUp:
                continue
            if v is UNSET:
                v = c.given.get(n, UNSET)
            if "nan" in repr(v):
                continue
            how = rng.choice([setattr, set_item, set_proxy])
            if "const" in f.o or "compute" in f.o:
                e = expect_error(mon, lambda: how(i.obj, n, 1), f"assigning {n}", hist)
                mon.check(isinstance(e, errors.ImmutableFieldError), f"assigning {n}: {e!r}", hist)
                mon.check(snapshot(i.obj) == mine, f"the refused assignment of {n} changed the structure", hist)
                mon.ev("failed assignments")
            elif v is not UNSET and not (n in flags and v in (None, ABSENT)):
                o = c.b.value(f, v)
                if f.kind == "arr" and isinstance(o, list) and rng.random() < 0.3:
                    o = tuple(o)
                    mon.ev("tuples assigned")
                if how is not setattr and rng.random() < 0.1:
                    how(i.obj, n, c.b.value(f, v))
                how(i.obj, n, o)
                i.given[n], i.objs[n] = v, o
                hist.append(f"{live.index(i)}.{n} = {v!r}")
        elif op == "undef":
            if {"const", "compute"} & set(f.o) or n in flags or id(f) in w.of:
                continue
            setattr(i.obj, n, bf.UNDEFINED)
            i.given[n], i.objs[n] = UNSET, bf.UNDEFINED
            hist.append(f"{live.index(i)}.{n} = UNDEFINED")
        elif op == "del":
            rng.choice([del_item, del_proxy])(i.obj, n)
            i.given.pop(n, None)
            i.objs.pop(n, None)
            hist.append(f"del {live.index(i)}.{n}")
        elif op == "veto":
            if id(f) not in w.of or {"const", "compute"} & set(f.o):
                continue
            w.armed = True
            try:
                v = c.b.value(f, c.given.get(n, UNSET))
                k, e = outcome(rng.choice([setattr, set_item, set_proxy]), i.obj, n, v)
            finally:
                w.armed = False
            mon.check(k == "err" and isinstance(e, Vetoed), f"{n}: validator was ignored ({short(e)})", hist)
            mon.check(snapshot(i.obj) == mine, f"the refused assignment of {n} changed the structure", hist)
            mon.ev("failed assignments")
        elif op == "unknown":
            bad = rng.choice(["nope", n + "_", "to_bytes", "__values__", "__binobj_struct__", "from_bytes", "Meta", "",
                              n.upper() + "X", 0, None])
            for what, fn in (("read", lambda: i.obj[bad]), ("write", lambda: set_item(i.obj, bad, 1)),
                             ("delete", lambda: del_item(i.obj, bad)), ("proxy read", lambda: get_proxy(i.obj, bad)),
                             ("proxy write", lambda: set_proxy(i.obj, bad, 1)),
                             ("proxy delete", lambda: del_proxy(i.obj, bad))):
                expect_error(mon, fn, f"{what} of unknown {bad!r}", hist, kind=KeyError)
            mon.check(bad not in i.obj, f"unknown {bad!r} in structure", hist)
            word = rng.choice([w for w in ("nope", "_nope", "__", "_" + n, n + "_", "values", "struct", "field", "_struct",
                                           "cls", "é", n.upper() + "X", "2", "") if w not in {x.name for x in i.s.fields}])
            kw = c.b.kwargs(i.s, {k: v for k, v in i.given.items() if v is not UNSET and rng.random() < 0.8})
            kw = dict(rng.sample(t := [*kw.items(), (word, rng.choice([1, None, bf.UNDEFINED, bf.NOT_PRESENT, b""]))], len(t)))
            k, e = outcome(i.cls, **kw)
            mon.check(k == "err" and isinstance(e, errors.UnexpectedValueError),
                      f"construction with unknown {word!r} gave {short(e)}", hist)
            expect_error(mon, lambda: getattr(i.obj, "nope"), "reading attribute nope", hist, kind=AttributeError)
            mon.check(snapshot(i.obj) == mine, f"use of an unknown name changed the structure", hist)
            mon.ev("refused names")
        elif op == "new":
            try:
                j = new(*rng.choice(kinds))
            except GiveUp:
                continue
            if "nan" not in repr(j.given):
                live[rng.randrange(len(live))] = j
                hist.append(f"new {j.given!r}")
            continue
        elif op == "copy":
            how = rng.choice([copy.copy, copy.deepcopy])
            o = how(i.obj)
            mon.check(type(o) is type(i.obj) and snapshot(o) == mine, f"{how.__name__} gave {short(o)}", hist)
            mon.check(how is copy.deepcopy or all(v is i.obj.__values__[n] for n, v in o.__values__.items()),
                      f"the values of a shallow copy are others", hist)
            mon.ev("copies")
            j = Inst(i.s, i.cls, o, i.given)
            mon.check(all(k in o.__values__ for k in i.given), "copy lacks values", hist)
            live.append(j)
            hist.append(f"copy of {live.index(i)}")
            if len(live) > 6:
                live.pop(0)
        elif op == "dict":
            keep = rng.random() < 0.5
            full = ref.resolve(i.s, {k: v for k, v in i.given.items() if v is not UNSET}, None, partial=True)
            if any(x.name not in full for x in i.s.fields) or UNSET in i.given.values():
                continue
            k, got = outcome(i.obj.to_dict, keep)
            want = dict_form(i.s, full, keep)
            mon.check(k == "ok" and type(got) is dict and snapshot(sorted(frozen(got), key=lambda t: t[0])) ==
                      snapshot(sorted(want.items(), key=lambda t: t[0])) or has_dicts(want) and got == want,
                      f"dictionary form is {short(got, 900)}, want {short(want, 900)}", hist)
            mon.ev("dictionaries")
        else:
            j = rng.choice(live)
            mi, mj = outcome(i.model), outcome(j.model)
            if mi[0] == mj[0] == "ok":
                compare(mon, i.obj, mi[1], j.obj, mj[1], f"{live.index(i)} == {live.index(j)}", hist)
        mon.ev("operations")
        for j, before in others:
            mon.check(snapshot(j.obj) == before, f"{op} on another instance changed this one", short(j.obj), hist)
        for k, before in classes:
            mon.check(class_picture(k) == before, f"{op} on an instance changed {k}", hist)
        check_state(mon, i, hist)
        if UNSET not in i.given.values():
            f = rng.choice(i.s.fields)
            if f.name not in i.given:
                unassigned(mon, i, f.name, hist)
    mon.seen([f.kind for f in c.s.fields], tuple(sig))


def frozen(d):
    return [(k, bytes(v) if isinstance(v, bytearray) else v) for k, v in d.items()]


def has_dicts(v):
    return any(isinstance(x, (dict, list)) for x in v.values())


class Odd(collections.abc.Mapping):
    """A mapping that is no dictionary."""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


def pairs(rng, mon, idx):
    """Equality of structures reached in different ways and of slightly different ones."""
    g = Gen(rng, unions=False, ctx=False, computed=0.15, defaults=0.3, consts=0.1, conds=0.15, discards=0.2, nulls=0.2,
            peek=False, np=0.0, maxfields=5, nested=0.3, arrays=0.3, inherit=0.3)
    c = Case(rng, mon, gen=g, ctx=None)
    c.b.rng = rng
    if "nan" in repr(c.given) or "nan" in repr(c.full):
        return
    d = c.describe
    given = {n: v for n, v in c.given.items() if v is not UNSET}
    a = Inst(c.s, c.cls, c.inst(), given)
    ma = a.model()
    # The same values, assigned one by one in another order, to a class that was defined independently.
    cls2 = rng.choice([c.cls, Builder().cls(c.s)])
    b = cls2()
    names = list(given)
    rng.shuffle(names)
    for n in names:
        if {"const", "compute"} & set(c.s.get(n).o):
            b.__values__[n] = c.b.value(c.s.get(n), given[n])
        else:
            rng.choice([setattr, set_item])(b, n, c.b.value(c.s.get(n), given[n]))
    compare(mon, a.obj, ma, b, ma, "same values", d())
    mon.check(a.obj == a.obj, "a structure isn't equal to itself", d())
    # Mappings.
    m = rng.choice([dict, collections.OrderedDict, lambda x: types.MappingProxyType(dict(x)), Odd,
                    lambda x: collections.ChainMap(dict(x))])
    compare(mon, a.obj, ma, m(ma), ma, "mapping of the values", d())
    k, got = outcome(lambda: a.obj == StructMappingProxy(b))
    mon.check(k == "ok" and got is True, f"comparison with a proxy gave {short(got)}", d())
    # One difference.
    mb = dict(ma)
    x = rng.random()
    if x < 0.3 and mb:
        del mb[rng.choice(list(mb))]
    elif x < 0.5:
        mb["nope"] = 1
    elif x < 0.6:
        mb = {}
    elif mb:
        n = rng.choice(list(mb))
        mb[n] = differ(rng, mb[n])
    compare(mon, a.obj, ma, m(mb), mb, "mapping with a difference", d())
    c2 = c
    try:
        c2 = c.more()
    except (GiveUp, ref.Rej):
        pass
    g2 = {n: v for n, v in c2.given.items() if v is not UNSET}
    if "nan" not in repr(g2):
        g3 = dict(given)
        for n in g2:
            if rng.random() < 0.4:
                g3[n] = g2[n]
        for n in list(g3):
            if rng.random() < 0.1:
                del g3[n]
        i3 = Inst(c.s, c.cls, c.cls(**c.b.kwargs(c.s, g3)), g3)
        k, m3 = outcome(i3.model)
        if k == "ok":
            compare(mon, a.obj, ma, i3.obj, m3, "other values", d())
            mon.eq(set(i3.obj), set(g3), "iteration", d())
    # Deeper difference: nested structures are compared as a whole.
    for f in c.s.fields:
        if f.kind == "nest" and isinstance(given.get(f.name), dict) and isinstance(ma[f.name], dict) and ma[f.name]:
            mb = dict(ma)
            inner = dict(mb[f.name])
            n = rng.choice(list(inner))
            if rng.random() < 0.3:
                del inner[n]
            else:
                inner[n] = differ(rng, inner[n])
            mb[f.name] = inner
            compare(mon, a.obj, ma, mb, mb, f"difference in {f.name}.{n}", d())
            mon.ev("nested differences")
    for other in (None, 1, "x", b"", [], (), set(), object(), list(ma.items()), c.cls):
        k, got = outcome(lambda: (a.obj == other, a.obj != other))
        mon.check(k == "ok" and got == (False, True), f"comparison with {other!r} gave {short(got)}", d())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mon.check((a.obj == bf.UNDEFINED) == (not ma), "comparison with UNDEFINED", d())
    # Dictionary form.
    full = c.full
    for keep in (False, True):
        k, got = outcome(a.obj.to_dict, keep)
        want = dict_form(c.s, full, keep)
        mon.check(k == "ok" and got == want, f"dictionary form is {short(got, 900)}, want {short(want, 900)}", d())
        mon.ev("dictionaries")
    if c.unambiguous():
        lo = c.cls.from_bytes(c.data)
        vals = c.decoded()[0]
        if "nan" not in repr(vals):
            want = dict_form(c.s, vals, False)
            mon.check(lo.to_dict() == want or inexact(c.s), "dictionary form of what was loaded is "
                      f"{short(lo.to_dict(), 900)}, want {short(want, 900)}", d())
            compare(mon, lo, want, c.cls.from_bytes(c.data), want, "loaded twice", d())
            if not inexact(c.s):
                compare(mon, lo, want, want, want, "loaded and its dictionary form", d())
    mon.seen([f.kind for f in c.s.fields], x < 0.3, x < 0.5)


def inexact(s):
    """Fields whose loaded values the reference gives only up to equality of another kind."""
    from ..spec import walk

    return any(f.kind in ("union", "uuid", "float", "ts") for f in walk(s))


def differ(rng, v):
    if v is None:
        return 0
    if v is bf.NOT_PRESENT:
        return None
    if isinstance(v, bool):
        return not v
    if isinstance(v, (int, float)):
        return v + 1 if v + 1 != v else 0
    if isinstance(v, dict):
        v = dict(v)
        if v and rng.random() < 0.7:
            n = rng.choice(list(v))
            v[n] = differ(rng, v[n])
        else:
            v["nope"] = 1
        return v
    if isinstance(v, list):
        v = list(v)
        if v and rng.random() < 0.6:
            i = rng.randrange(len(v))
            v[i] = differ(rng, v[i])
        else:
            v.append(1)
        return v
    if isinstance(v, (str, bytes)):
        return v + v[:0].__class__(b"x" if isinstance(v, bytes) else "x")
    return None


# ---------------------------------------------------------------- mapping proxies

def keyed(x):
    """An outcome, with errors by class."""
    return x if x[0] == "ok" else ("err", type(x[1]))


def proxies(rng, mon, idx):
    """Every operation of a mapping on a proxy, against a dictionary of the assigned values."""
    g = Gen(rng, unions=False, ctx=False, computed=0.15, defaults=0.25, consts=0.1, conds=0.15, discards=0.15, nulls=0.2,
            peek=False, maxfields=7, inherit=0.4)
    c = Case(rng, mon, gen=g, ctx=None)
    given = {n: v for n, v in c.given.items() if v is not UNSET and rng.random() < rng.choice([0.3, 0.7, 1.0])}
    if "nan" in repr(c.given):
        return
    vals = c.b.kwargs(c.s, given)
    x = c.cls(**vals)
    model = dict(vals)
    ro, rw = StructMappingProxy(x), MutableStructMappingProxy(x)
    mon.check(ro.struct is x and rw.struct is x, "the proxy gives another structure", c.describe())
    loose = {n for f in c.s.fields for n in [f.name] if not {"const", "compute"} & set(f.o)}
    fresh = c.b.kwargs(c.s, {n: v for n, v in c.given.items() if v is not UNSET})
    hist = [f"{c.s!r}", f"assigned {model!r}"]
    sig = []
    for _ in range(14):
        op = rng.choice(["look", "look", "get", "get", "has", "set", "pop", "popitem", "setdefault", "update", "clear",
                         "del", "chain", "eq", "struct", "unknown"])
        if op == "clear" and rng.random() < 0.7:
            op = "look"
        sig.append(op)
        hist.append(op)
        p = rng.choice([ro, rw])
        n = rng.choice(list(model)) if model and rng.random() < 0.6 else rng.choice(c.s.fields).name
        ids = {k: id(v) for k, v in model.items()}
        # Only with a value, or with nothing that could serve as one, it's the same as in a dictionary.
        bare = not {"const", "default", "factory", "compute", "present"} & set(c.s.get(n).o)
        known = n in model or bare
        if op == "look":
            for what, fn in (("list", list), ("keys", lambda m: list(m.keys())), ("sorted", sorted),
                             ("set", set), ("unpack", lambda m: [*m])):
                got = outcome(fn, p)
                mon.check(got[0] == "ok" and sorted(got[1]) == sorted(model), f"{what}: {short(got)}, assigned are "
                          f"{sorted(model)}", hist)
            for what, fn in (("dict", dict), ("items", lambda m: dict(m.items())), ("stars", lambda m: {**m}),
                             ("values", lambda m: dict(zip(m.keys(), m.values()))),
                             ("match", lambda m: {k: m[k] for k in m})):
                got = outcome(fn, p)
                mon.check(got[0] == "ok" and {k: id(v) for k, v in got[1].items()} == ids,
                          f"{what}: {short(got)}, assigned are {short(model)}", hist)
            for what, fn in (("len", len), ("bool", bool), ("keys", lambda m: len(m.keys())),
                             ("items", lambda m: len(m.items())), ("values", lambda m: len(m.values()))):
                mon.check((got := outcome(fn, p)) == outcome(fn, model), f"{what}: {short(got)} with {len(model)} assigned",
                          hist)
        elif op == "get" and known:
            d = object()
            for what, fn in (("get", lambda m: m.get(n)), ("get or", lambda m: m.get(n, d)), ("item", lambda m: m[n])):
                a, b = keyed(outcome(fn, p)), keyed(outcome(fn, model))
                mon.check(a[0] == b[0] and a[1] is b[1], f"{what} {n}: {short(a)}, want {short(b)}", hist)
        elif op == "has" and known:
            for what, fn in (("in", lambda m: n in m), ("in keys", lambda m: n in m.keys())):
                mon.check((got := outcome(fn, p)) == outcome(fn, model), f"{n!r} {what}: {short(got)}", hist)
        elif op == "set" and n in fresh and n in loose:
            rw[n] = model[n] = fresh[n]
        elif op == "pop" and known:
            args = rng.choice([(n,), (n, None), (n, "gone")])
            before = dict(model)
            a, b = keyed(outcome(rw.pop, *args)), keyed(outcome(model.pop, *args))
            mon.check(a[0] == b[0] and a[1] is b[1], f"pop{args}: {short(a)}, want {short(b)}", hist, before)
        elif op == "popitem":
            a = keyed(outcome(rw.popitem))
            if not model:
                mon.check(a == ("err", KeyError), f"popitem of nothing gave {short(a)}", hist)
            else:
                mon.check(a[0] == "ok" and a[1][0] in model and model.pop(a[1][0]) is a[1][1],
                          f"popitem gave {short(a)}", hist)
        elif op == "setdefault" and known and n in loose and n in fresh:
            a, b = outcome(rw.setdefault, n, fresh[n]), outcome(model.setdefault, n, fresh[n])
            mon.check(a[0] == "ok" and a[1] is b[1], f"setdefault {n}: {short(a)}, want {short(b)}", hist)
        elif op == "update":
            some = {k: v for k, v in fresh.items() if k in loose and rng.random() < 0.4}
            rng.choice([lambda m: m.update(some), lambda m: m.update(list(some.items())), lambda m: m.update(**some)])(rw)
            model.update(some)
        elif op == "clear":
            rw.clear()
            model.clear()
        elif op == "del" and n in model:
            del rw[n]
            del model[n]
        elif op == "chain":
            over = {rng.choice(c.s.fields).name: 1 for _ in range(rng.randint(0, 1))}
            got = outcome(lambda: dict(collections.ChainMap(over, p)))
            want = {**model, **over}
            mon.check(got[0] == "ok" and {k: id(v) for k, v in got[1].items()} == {k: id(v) for k, v in want.items()},
                      f"chained: {short(got)}, want {short(want)}", hist)
        elif op == "eq":
            for what, o, want in (("itself", p, True), ("its items", dict(model), True), ("other proxy", rw, True),
                                  ("structure", x, True), ("more", {**model, "nope": 1}, False), ("none", None, False),
                                  ("items", list(model.items()), False),
                                  ("odd mapping", Odd(dict(model)), True)):
                got = outcome(lambda: (p == o, o == p, p != o))
                mon.check(got == ("ok", (want, want, not want)) or isinstance(o, Odd) and got[1][0] is want,
                          f"comparison with {what} gave {short(got)}", hist, model)
            if model:
                less = dict(model)
                less.pop(rng.choice(list(less)))
                mon.check(outcome(lambda: (p == less, less == p)) == ("ok", (False, False)), "equal to fewer items", hist)
        elif op == "struct":
            mon.check(set(x) == set(model) and all(x[k] is v for k, v in model.items()),
                      f"the structure holds {short(x)}, want {short(model)}", hist)
        elif op == "unknown":
            bad = rng.choice(["nope", "", "structs", "__values__", 0, None, n + "_"])
            for what, fn, want in (("item", lambda: p[bad], KeyError), ("set", lambda: set_item(rw, bad, 1), KeyError),
                                   ("pop", lambda: rw.pop(bad), KeyError), ("del", lambda: del_item(rw, bad), KeyError),
                                   ("update", lambda: rw.update({bad: 1}), KeyError)):
                mon.check(keyed(outcome(fn)) == ("err", want), f"{what} of unknown {bad!r}: {short(outcome(fn))}", hist)
            mon.check(p.get(bad, 7) == 7 and bad not in p and rw.pop(bad, 8) == 8, f"unknown {bad!r}", hist)
            expect_error(mon, lambda: set_item(ro, n, 1), "writing through the read-only proxy", hist, kind=TypeError)
            expect_error(mon, lambda: del_item(ro, n), "deleting through the read-only proxy", hist, kind=TypeError)
        else:
            continue
        mon.ev("proxy operations")
        mon.check({k: id(x.__values__[k]) for k in x} == {k: id(v) for k, v in model.items()},
                  f"after {op} {n} the structure holds {short(x)}, want {short(model)}", hist)
    mon.check(isinstance(ro, collections.abc.Mapping) and not isinstance(ro, collections.abc.MutableMapping)
              and isinstance(rw, collections.abc.MutableMapping), "kinds of the proxies", hist)
    mon.seen("proxy", [f.kind for f in c.s.fields], tuple(sig))


SCENARIOS = [
    Scenario("proxies", proxies, 2500),
    Scenario("sequence", sequence, 5000),
    Scenario("pairs", pairs, 5000),
]
_ = get_mapping
