"""C07: reported sizes and offsets equal the real ones."""
from .. import ref
from ..core import Scenario
from ..gen import Gen
from ..spec import ABSENT, F, walk
from ..util import Case, become, outcome, short, snapshot

PROPERTY = "C07"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: reported sizes and offsets compared with the spans of observed serializations"
LEVEL_NOTE = ("every reported number is compared with where the bytes really are in several serializations of the same "
              "declaration; declarations and values are generated")
RULE = ("an evaluation is one generated declaration with several sets of values; distinct ones differ in the structural "
        "signature of the declaration")
ASSUMPTIONS = [
    "where the bytes of a field are is computed by the reference encoder and confirmed against the dumped bytes",
    "the size attribute of a field is the size of its non-null values",
    "len() knows no context, so it is compared with a dump without context",
]
FLOORS = {"lengths of changing structures": 3000, "class sizes not reported": 3100, "class sizes reported": 1200, "expected sizes": 11000,
          "field sizes": 20000, "lengths": 6000, "lengths of loaded structures": 3400, "offsets reported": 9400,
          "parents of fixed size": 440, "sizes for all values": 2700, "sizes for all values unknown": 2000,
          "sizes for assigned values": 2600, "sizes for assigned values unknown": 2100,
          "sizes for given values": 2600, "sizes for given values unknown": 2100, "sizes for some values": 1100,
          "sizes from values": 1700, "sizes required": 880, "sizes that vary": 2900}

VAGUE = {"union", "nest", "arr"}  # what they hold may be of any size
PLAIN = {"int", "float", "ts", "uuid"}


def plainly_fixed(s):
    for f in s.fields:
        if "present" in f.o or ("null" in f.o and f.o["null"][0] == "raw"):
            return False
        if f.kind in PLAIN or (f.kind in ("bytes", "str") and isinstance(f.p.get("size"), int)):
            continue
        if f.kind == "nest" and plainly_fixed(f.p["struct"]) and "null" not in f.o:
            continue
        return False
    return True


def judge(mon, c, cases):
    total = c.cls.get_size()
    lens = set()
    for k in cases:
        data = k.inst().to_bytes(k.ctx)
        if data != k.data:
            mon.ev("skipped: bytes differ from the layout (C02's business)")
            return
        lens.add(len(data))
    if len(lens) > 1:
        mon.ev("sizes that vary")
        mon.check(total is None, f"get_size() gives {total}, but actual sizes are {sorted(lens)}", c.describe())
    if total is not None:
        mon.ev("class sizes reported")
        mon.check(lens == {total}, f"get_size() gives {total}, but actual sizes are {sorted(lens)}", c.describe())
    else:
        mon.ev("class sizes not reported")
    if plainly_fixed(c.s):
        mon.ev("sizes required")
        mon.check(total == ref.static_size(c.s), f"get_size() gives {total} for a structure of {ref.static_size(c.s)} "
                  "bytes made of fixed-size fields only", c.describe())
    if total is not None:
        st = ref.static_size(c.s)
        mon.check(st == total, f"get_size() gives {total}, but the layout admits other sizes (expected {st})",
                  c.describe())
    for f in c.s.fields:
        fld = getattr(c.cls, f.name)
        starts, sizes = set(), set()
        for k in cases:
            sp = k.span(f.name)
            if sp is not None:
                starts.add(sp[0])
                if k.full[f.name] is not None:
                    sizes.add(sp[1] - sp[0])
        if fld.offset is not None:
            mon.ev("offsets reported")
            mon.check(starts <= {fld.offset}, f"offset of {f.name} is reported as {fld.offset}, really {starts}",
                      c.describe())
            st = ref.static_offset(c.s, f.name)
            mon.check(st == fld.offset, f"offset of {f.name} is reported as {fld.offset}, the layout says "
                      f"{'it varies' if st is None else st}", c.describe())
        if isinstance(fld.size, int):
            mon.ev("field sizes")
            mon.check(sizes <= {fld.size}, f"size of {f.name} is reported as {fld.size}, really {sizes}", c.describe())
    # the declaring parent reports the same as the child for its fields
    if c.s.base:
        parent = c.b.cls(c.s.base)
        size = parent.get_size()
        if size is not None:
            first = c.s.own[0].name
            off = getattr(c.cls, first).offset
            mon.check(off == size, f"parent of {size} bytes, but the first own field is at {off}", c.describe())
            mon.check(ref.static_size(c.s.base) == size, f"parent reports {size} bytes", c.describe())
            mon.ev("parents of fixed size")


def structs(rng, mon, idx, **prof):
    c = Case(rng, mon, **prof)
    judge(mon, c, [c] + [c.more() for _ in range(4)])


def sized(rng, mon, idx):
    """Mostly fixed-size fields, so that numbers are reported, with a few that vary."""
    structs(rng, mon, idx, nulls=rng.choice([0, 0.15]), conds=rng.choice([0, 0.1]), eof=False, halts=False, unions=False,
            refs=rng.random() < 0.3, peek=False)


def lengths(rng, mon, idx):
    c = Case(rng, mon, ctx=None, ts=idx % 2 == 0)
    for k in (c, c.more(), c.more()):
        inst = k.inst(rng)
        n = outcome(len, inst)
        want = len(inst.to_bytes())
        mon.check(n == ("ok", want), f"len() gives {short(n[1])}, dumped {want} bytes", k.describe())
        mon.eq(len(inst.to_bytes()), want, "taking the length changed what is dumped")
        mon.ev("lengths")
        if k.unambiguous():
            loaded = k.cls.from_bytes(k.data)
            if not any(f.o.get("discard") for f in walk(k.s)):
                back = outcome(loaded.to_bytes)
                if back[0] == "ok":
                    n = outcome(len, loaded)
                    mon.check(n == ("ok", len(back[1])), f"len() of a loaded structure gives {short(n[1])}, "
                              f"dumped {len(back[1])} bytes", k.describe())
                    mon.ev("lengths of loaded structures")


def changing(rng, mon, idx):
    """Lengths of structures whose values change, in place or by assignment, after having been measured."""
    c = Case(rng, mon, ctx=None, conds=0.1, refs=rng.random() < 0.5, unions=rng.random() < 0.3, computed=0.6)
    fixed = {f.name for f in c.s.fields if {"const", "compute"} & set(f.o)}
    cur = dict(c.given)
    inst = c.inst()
    for _ in range(4):
        want = len(inst.to_bytes())
        n = outcome(len, inst)
        mon.check(n == ("ok", want), f"len() gives {short(n[1])}, dumped {want} bytes", repr(cur), c.describe())
        mon.ev("lengths of changing structures")
        new = c.more().given
        if any((n in new) != (n in cur) or n in new and new[n] != cur[n] for n in fixed):
            return
        kw = c.b.kwargs(c.s, new)
        for n in cur.keys() - new.keys():
            del inst[n]
        for n in new.keys() - fixed:
            become(inst, n, kw[n], rng.random() < 0.7)
        cur = dict(new)


def expected(rng, mon, idx):
    """Sizes worked out from given values."""
    c = Case(rng, mon, nulls=0, conds=0, peek=False, discards=0, unions=False)
    for k in (c, c.more()):
        values = {n: k.b.value(k.s.get(n), v) for n, v in k.full.items()}
        if any(v is ABSENT for v in k.full.values()):
            continue
        for f in k.s.fields:
            fld = getattr(k.cls, f.name)
            kind, n = outcome(fld.get_expected_size, values)
            a, b = k.span(f.name)
            if kind == "ok":
                mon.check(n == b - a, f"expected size of {f.name} is given as {n}, really {b - a}", k.describe())
                mon.ev("expected sizes")
        kind, n = outcome(k.cls.__binobj_struct__.get_size, values)
        if kind == "ok" and n is not None:
            mon.check(n == len(k.data), f"size for given values is {n}, really {len(k.data)}", k.describe())
            mon.ev("sizes from values")


def given(rng, mon, idx):
    """Sizes of structures for some or all of their values, with nulls, absent and computed fields."""
    c = Case(rng, mon, ctx=None, peek=False, conds=rng.choice([0, 0.25, 0.5]), nulls=rng.choice([0.1, 0.4]),
             unions=rng.random() < 0.3, refs=rng.random() < 0.7)
    size_of = c.cls.__binobj_struct__.get_size
    for k in (c, c.more(), c.more()):
        every = {n: k.b.value(k.s.get(n), v) for n, v in k.full.items()}
        for what, values in (("all", every), ("given", k.b.kwargs(k.s, k.given)), ("assigned", k.inst())):
            before = snapshot(values)
            kind, n = outcome(size_of, values)
            if kind == "err" and isinstance(n, KeyError) and what == "given" and any(
                    x not in values for f in k.s.fields if f.o.get("compute", ("",))[0] == "sum" for x in f.o["compute"][1]):
                mon.ev("sizes for values a computing function doesn't find")
                continue
            mon.check(kind == "ok", f"size for {what} values failed: {short(n)}", k.describe())
            mon.check(n is None or n == len(k.data), f"size for {what} values is {n}, really {len(k.data)}", k.describe())
            mon.check(snapshot(values) == before, "working out a size changed the values", k.describe())
            mon.ev(f"sizes for {what} values" + (" unknown" if n is None else ""))
            if n is None and what == "all":
                mon.check(any(f.kind in VAGUE for f in k.s.fields), "no size for given values, all of a known size",
                          k.describe())
        # without some of them: a size only if the rest can't change it
        some = {n: v for n, v in every.items() if rng.random() < 0.6}
        kind, n = outcome(size_of, some)
        if kind == "ok" and n is not None:
            try:
                full = ref.resolve(k.s, {x: k.full[x] for x in some}, None)
                want = len(ref.encode_struct(k.s, full, None)[0])
            except (ref.Rej, KeyError, TypeError):
                continue
            mon.check(n == want, f"size for {sorted(some)} is {n}, really {want}", k.describe())
            mon.ev("sizes for some values")


def lone(rng, mon, idx):
    """Sizes of fields that are in no structure."""
    g = Gen(rng)
    from ..build import Builder

    makers = [lambda: g.int_field("x"), lambda: g.float_field("x"), lambda: g.ts_field("x"), lambda: g.uuid_field("x"),
              lambda: g.bytes_field("x"), lambda: g.str_field("x", "str"), lambda: g.vli_field("x"),
              lambda: g.str_field("x", "strz")]
    for m in makers:
        f = m()
        fld = Builder().field(f, {})
        for _ in range(4):
            v = g.plain_value(f, {"__ctx__": None})
            n = len(fld.to_bytes(v))
            if isinstance(fld.size, int):
                mon.check(fld.size == n, f"stand-alone {f!r} reports size {fld.size}, dumps {n} bytes of {short(v)}")
                mon.ev("field sizes")
            mon.check(fld.has_fixed_size is (fld.size is not None and isinstance(fld.size, int)),
                      f"has_fixed_size of {f!r}")
        if f.kind in PLAIN:
            mon.check(fld.size == ref.plain_size(f), f"size of {f!r} is {fld.size}")
    comp = makers[rng.randrange(6)]()
    cnt = rng.randint(0, 5)
    f = F("arr", "a", {"comp": comp, "count": cnt})
    comp.name = None
    fld = Builder().field(f, {})
    n = len(fld.to_bytes([g.plain_value(comp, {"__ctx__": None}) for _ in range(cnt)]))
    if isinstance(fld.size, int):
        mon.check(fld.size == n, f"stand-alone {f!r} reports size {fld.size}, dumps {n} bytes")


SCENARIOS = [
    Scenario("structs", structs, 4000),
    Scenario("sized", sized, 7000),
    Scenario("lengths", lengths, 5000),
    Scenario("changing", changing, 2500),
    Scenario("expected", expected, 4000),
    Scenario("given", given, 4000),
    Scenario("lone", lone, 800),
]
