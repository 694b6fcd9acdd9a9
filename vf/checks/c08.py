"""C08: partial loading and single-field reads agree with full loading."""
from .. import ref
from ..core import Scenario
from ..spec import ABSENT, walk
from ..streams import RecStream
from ..util import Case, budget, mutate_bytes, outcome, short

PROPERTY = "C08"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: differential oracle between partial, single-field and full loads on recorded streams"
LEVEL_NOTE = ("every field of every generated structure is read on its own and as the end of a partial load, and every "
              "cut of the data is tried for open-ended partial loads; structures and data are sampled")
RULE = ("an evaluation is one generated declaration with one input; distinct ones differ in the structural signature of "
        "the declaration and the way the input was made")
ASSUMPTIONS = [
    "if an earlier field can't be decoded, reading a later one may fail or not, but must put the stream back",
]
FLOORS = {"longer encodings": 440, "open-ended partial loads": 17000, "open-ended partial loads refused": 290,
          "partial loads to a field": 16000, "positions restored after an error": 1600, "single-field reads": 16000,
          "single-field reads at a fixed offset": 6900, "single-field reads at a varying offset": 9300}


def leading(mon, c, trace, got, upto, what):
    """got holds exactly the leading fields of the trace, up to and including index upto."""
    want = {n: v for n, _, _, v in trace[:upto]}
    diff = ref.same_struct(c.s, want, got)
    mon.check(diff is None, f"{what}: {diff}", c.describe())
    extra = set(got) - set(want)
    mon.check(not extra, f"{what}: fields beyond the end are assigned: {extra}", c.describe())


def one(rng, mon, c, data, valid):
    prefix = rng.choice([b"", b"", b"\x7f", rng.randbytes(rng.randint(2, 9))])
    trace = []
    whole = c.decoded(data, 0, trace)
    if budget(whole):
        return
    values = {n: (v, a, b) for n, a, b, v in trace}
    full = outcome(c.cls.from_bytes, data, c.ctx, False)
    names = [f.name for f in c.s.fields]
    for i, f in enumerate(c.s.fields):
        st = RecStream(prefix + data, len(prefix))
        k, got = outcome(c.cls.get_field, st, f.name, c.ctx)
        what = f"get_field({f.name!r}) of {data.hex()}"
        mon.check(st.at == len(prefix), f"{what} leaves the stream at {st.at}, not {len(prefix)} "
                  f"({'after ' + short(got) if k == 'err' else 'successful'})", c.describe())
        if k == "err":
            mon.ev("positions restored after an error")
        if f.name in values:
            diff = ref.same(f, values[f.name][0], got, f.name) if k == "ok" else short(got)
            mon.check(diff is None, f"{what}: {diff}", c.describe())
            if full[0] == "ok" and not f.o.get("discard"):
                mon.check(ref.same(f, values[f.name][0], full[1][f.name], f.name) is None or k == "err",
                          f"{what} differs from the full load", c.describe())
            mon.ev("single-field reads")
            mon.ev("single-field reads at a fixed offset" if getattr(c.cls, f.name).offset is not None
                   else "single-field reads at a varying offset")
        # up to the field
        st = RecStream(prefix + data, len(prefix))
        k, got = outcome(c.cls.partial_load, st, f.name, c.ctx)
        what = f"partial_load(last_field={f.name!r}) of {data.hex()}"
        if f.name in values:
            mon.check(k == "ok", f"{what}: {short(got)}", c.describe())
            leading(mon, c, trace, got, i + 1, what)
            mon.eq(st.at, len(prefix) + values[f.name][2], f"{what}: stream position", c.describe())
            mon.ev("partial loads to a field")
        else:
            mon.check(k == "err", f"{what}: accepted, though the layout gives no values", c.describe())
    if valid:
        st = RecStream(prefix + data, len(prefix))
        k, got = outcome(c.cls.partial_load, st, None, c.ctx)
        mon.check(k == "ok", f"open-ended partial_load of complete data: {short(got)}", c.describe())
        leading(mon, c, trace, got, len(names), "open-ended partial_load of complete data")
        mon.eq(st.at, len(prefix) + len(data), "open-ended partial_load of complete data: stream position", c.describe())
    elif not isinstance(whole, ref.Rej) or whole.kind not in ("eof", "eof-or-decode"):
        # What isn't an incomplete field is refused, or loaded, like by a full load.
        st = RecStream(prefix + data, len(prefix))
        k, got = outcome(c.cls.partial_load, st, None, c.ctx)
        what = f"open-ended partial_load of {data.hex()}"
        if isinstance(whole, ref.Rej):
            mon.check(k == "err", f"{what}: accepted, though a full load fails with {whole}: {short(got)}", c.describe())
            mon.ev("open-ended partial loads refused")
        else:
            mon.check(k == "ok", f"{what}: {short(got)}", c.describe())
            leading(mon, c, trace, got, len(names), what)
    st = RecStream(data)
    k, got = outcome(c.cls.get_field, st, "no_such_field", c.ctx)
    mon.check(k == "err" and st.at == 0, "get_field of an unknown name", short(got))


def structs(rng, mon, idx, **prof):
    c = Case(rng, mon, **prof)
    if not c.unambiguous():
        return
    one(rng, mon, c, c.data, True)


def fixed(rng, mon, idx):
    """Many fields at fixed offsets, followed by ones that depend on them."""
    structs(rng, mon, idx, nulls=0.1, conds=0.1, maxfields=8, inherit=0.5)


def damaged(rng, mon, idx):
    c = Case(rng, mon)
    one(rng, mon, c, mutate_bytes(rng, c.data), False)


def longer(rng, mon, idx):
    """Integers in longer encodings than they're dumped with, constant ones too."""
    c = Case(rng, mon, consts=0.5, conds=0.1, nulls=0.1)
    data = c.longer(rng)
    if data == c.data or not c.unambiguous():
        return
    whole = c.decoded(data)
    if isinstance(whole, ref.Rej) or whole[1] != len(data):
        return
    one(rng, mon, c, data, True)
    mon.ev("longer encodings")


def open_ended(rng, mon, idx):
    """Data that ends anywhere; the load stops before the first incomplete field."""
    c = Case(rng, mon, maxfields=5)
    if not c.unambiguous():
        return
    textual = any(f.kind in ("str", "strz") for f in walk(c.s)) and any("null" in f.o for f in walk(c.s))
    cuts = range(len(c.data)) if len(c.data) < 120 else sorted(rng.sample(range(len(c.data)), 120))
    prefix = rng.choice([b"", b"", b"\x7f\x80"])
    for k in cuts:
        d = c.data[:k]
        trace = []
        want = c.decoded(d, 0, trace)
        if budget(want):
            continue
        st = RecStream(prefix + d, len(prefix))
        kind, got = outcome(c.cls.partial_load, st, None, c.ctx)
        what = f"open-ended partial_load of the first {k} of {len(c.data)} bytes ({d.hex()})"
        if isinstance(want, ref.Rej) and want.kind not in ("eof", "eof-or-decode"):
            continue
        if kind == "err" and isinstance(got, UnicodeError) and textual:
            continue
        mon.check(kind == "ok", f"{what}: {short(got)}", c.describe())
        leading(mon, c, trace, got, len(trace), what)
        end = trace[-1][2] if trace else 0
        mon.check(st.at == len(prefix) + end, f"{what}: stream is at {st.at - len(prefix)}, the first incomplete field "
                  f"starts at {end}", c.describe())
        mon.ev("open-ended partial loads")
        mon.seen(repr(c.s)[:150], len(trace))


SCENARIOS = [
    Scenario("structs", structs, 3500),
    Scenario("fixed", fixed, 2500),
    Scenario("damaged", damaged, 2500),
    Scenario("open_ended", open_ended, 1600),
    Scenario("longer", longer, 2500),
]
_ = ABSENT
