"""C09: partial dumps are exact prefixes of the full dump."""
import io

from .. import ref
from ..core import Scenario
from ..gen import refs_of
from ..spec import ABSENT, UNSET
from ..streams import RecStream
from ..util import Case, outcome, short, snapshot

PROPERTY = "C09"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: recorded output of partial dumps judged against the reference encoding of the prefix"
LEVEL_NOTE = ("for every generated structure each field is tried as the end of a partial dump, with all values and with "
              "some missing; structures and values are sampled")
RULE = ("an evaluation is one generated declaration and set of values, dumped up to each field and open-endedly with "
        "different fields missing; distinct ones differ in the declaration's structure and in which field is missing")
ASSUMPTIONS = ["fields that conditions, sizes, counts or deciders of others refer to are not the ones that are missing "
               "(apart from computed ones, which go missing with what they are computed from)"]
FLOORS = {"missing before the end": 21000, "open-ended partial dumps": 10000,
          "partial dumps before a wrong value": 1800, "partial dumps to a field": 27000, "stopped early": 6500}


def expected(c, given):
    """[(name, bytes or None if the field has no value)] with these values."""
    full = ref.resolve(c.s, given, c.ctx, partial=True)
    out = []
    for f in c.s.fields:
        if f.name not in full:
            out.append((f.name, None))
        elif full[f.name] is ABSENT:
            out.append((f.name, b""))
        else:
            try:
                out.append((f.name, ref.encode_field(f, full[f.name], full, c.ctx)))
            except KeyError:
                out.append((f.name, None))
    return out


def dump_into(rng, mon, inst, last, ctx):
    """Dump into the middle of a filled stream; (outcome, bytes written)."""
    pre, post = rng.choice([0, 0, 3]), rng.choice([0, 0, 4000])
    st = RecStream(b"\xaa" * pre + b"\xbb" * post, pre)
    args = [st] if last is None and rng.random() < 0.5 and ctx is None else [st, last, ctx]
    k = outcome(inst.partial_dump, *args)
    got = st.getvalue()
    n = st.at - pre
    mon.check(got[:pre] == b"\xaa" * pre, "bytes before the stream position were touched")
    if post:
        mon.check(got[pre + n:] == b"\xbb" * (post - n), "bytes after the end were touched", got[pre + n:][:50])
    else:
        mon.check(len(got) == pre + n, "more was written than the stream position tells")
    return k, got[pre:pre + n]


def names_given(c):
    return [n for n, v in c.given.items() if v is not UNSET]


def complete(rng, mon, idx):
    c = Case(rng, mon)
    for c in (c, c.more()):
        inst = c.inst(rng)
        before = snapshot(inst)
        for f in c.s.fields:
            k, got = dump_into(rng, mon, inst, f.name, c.ctx)
            want = c.data[:c.end_of(f.name)]
            mon.check(k[0] == "ok" and got == want, f"partial_dump up to {f.name} wrote {got.hex()} ({short(k[1])}), "
                      f"want {want.hex()}", c.describe())
            mon.ev("partial dumps to a field")
        k, got = dump_into(rng, mon, inst, None, c.ctx)
        mon.check(k[0] == "ok" and got == c.data, f"open-ended partial_dump of complete values wrote {got.hex()} "
                  f"({short(k[1])}), want {c.data.hex()}", c.describe())
        mon.ev("open-ended partial dumps")
        mon.eq(snapshot(inst), before, "partial_dump changed the structure", c.describe())
        mon.eq(inst.to_bytes(c.ctx), c.data, "full dump after partial ones differs", c.describe())


def incomplete(rng, mon, idx):
    c = Case(rng, mon, defaults=0.1, consts=0.1, discards=0.05)
    needed = {n for f in c.s.fields for role, n in refs_of(f)}
    for n in range(4):
        droppable = [x for x in names_given(c) if x not in needed and not {"const", "compute"} & set(c.s.get(x).o)]
        if not droppable:
            return
        drop = set(rng.sample(droppable, min(len(droppable), rng.choice([1, 1, 1, 2, 3]))))
        given = {k: v for k, v in c.given.items() if k not in drop}
        try:
            want = expected(c, given)
        except ref.Rej:  # the default of a dropped field is itself incomplete in this context
            continue
        if n % 2:
            inst = c.inst(given=given)
        else:
            inst = c.inst()
            for x in drop:
                del inst[x]
        lead = b""
        for name, b in want:
            if b is None:
                break
            lead += b
        k, got = dump_into(rng, mon, inst, None, c.ctx)
        mon.check(k[0] == "ok" and got == lead, f"open-ended partial_dump without {sorted(drop)} wrote {got.hex()} "
                  f"({short(k[1])}), want {lead.hex()}", c.describe())
        mon.ev("open-ended partial dumps")
        if any(b is None for _, b in want):
            mon.ev("stopped early")
            mon.seen(repr(c.s)[:150], sorted(drop))
        acc, broken = b"", False
        for name, b in want:
            if b is None:
                broken = True
            else:
                acc += b
            k, got = dump_into(rng, mon, inst, name, c.ctx)
            if broken:
                mon.check(k[0] == "err", f"partial_dump up to {name} succeeded without {sorted(drop)}", c.describe())
                mon.check(lead.startswith(got), f"failed partial_dump up to {name} wrote {got.hex()}, more than the "
                          f"fields before the missing one ({lead.hex()})", c.describe())
                mon.ev("missing before the end")
            else:
                mon.check(k[0] == "ok" and got == acc, f"partial_dump up to {name} without {sorted(drop)} wrote "
                          f"{got.hex()} ({short(k[1])}), want {acc.hex()}", c.describe())
                mon.ev("partial dumps to a field")
        # all that is missing can still be given
        for x in drop:
            inst[x] = c.b.value(c.s.get(x), c.given[x])
        st = io.BytesIO()
        inst.partial_dump(st, None, c.ctx)
        mon.eq(st.getvalue(), c.data, "partial_dump after giving the missing values", c.describe())


def later_bad(rng, mon, idx):
    """What comes after the named end is not even looked at, however wrong."""
    c = Case(rng, mon, computed=0, conds=0.1)
    fs = c.s.fields
    if len(fs) < 2:
        return
    k = rng.randrange(1, len(fs))
    bad = fs[k]
    if any(bad.name in f.o.get("compute", ("", "", ""))[1] for f in fs if "compute" in f.o):
        return
    if any(n == bad.name for f in fs for _, n in refs_of(f)):
        return
    inst = c.inst()
    try:
        inst[bad.name] = object()
    except Exception:  # noqa: BLE001  (constant)
        return
    for f in fs[:k]:
        o, got = dump_into(rng, mon, inst, f.name, c.ctx)
        want = c.data[:c.end_of(f.name)]
        mon.check(o[0] == "ok" and got == want, f"partial_dump up to {f.name} with a wrong value in {bad.name} wrote "
                  f"{got.hex()} ({short(o[1])})", c.describe())
        mon.ev("partial dumps before a wrong value")


SCENARIOS = [
    Scenario("complete", complete, 4500),
    Scenario("incomplete", incomplete, 4500),
    Scenario("later_bad", later_bad, 3000),
]
