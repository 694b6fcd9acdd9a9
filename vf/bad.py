"""Values that a field cannot represent."""
import copy
import datetime
import math

from . import ref
from .spec import ABSENT, S, UNSET


def bad_leaf(rng, g, f, v, env, ctx):
    """(label, value) pairs that are candidates for being refused; v is a valid value."""
    k, p = f.kind, f.p
    out = []
    if "null" not in f.o:
        out.append(("null", None))
    if k == "int":
        lo, hi = ((-(1 << (8 * p["size"] - 1)), (1 << (8 * p["size"] - 1)) - 1) if p["signed"]
                  else (0, (1 << 8 * p["size"]) - 1))
        out += [("range", hi + 1), ("range", lo - 1), ("range", hi + 1 + rng.getrandbits(40)),
                ("range", rng.choice([1, -1]) << (8 * p["size"] + rng.randint(0, 70))), ("range", 2 * hi + 1 - lo),
                ("type", "x"), ("type", 1.5)]
    elif k == "float":
        big = {2: 65520.0, 4: 3.5e38, 8: 10**309}[p["size"]]
        out += [("range", big), ("range", -big), ("range", big * rng.choice([2, 1000])), ("range", 10**5000),
                ("type", "x")]
        if p["size"] < 8:
            out.append(("range", 1.7e308))
    elif k == "ts":
        bits = 8 * p["size"]
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if p["signed"] else (0, (1 << bits) - 1)
        u = ref.UNITS[p["res"]]
        for n in (hi + 1, lo - 1, hi + rng.randint(1, 1 << 20) * u, lo - rng.randint(1, 1 << 20) * u):
            us = -(-n * 10**6 // u) if n > 0 else n * 10**6 // u
            try:
                dt = ref.EPOCH + datetime.timedelta(microseconds=us)
            except OverflowError:
                continue
            if not lo <= ref.ts_units(dt, p["res"]) <= hi:
                out.append(("range", dt if p["aware"] else dt.replace(tzinfo=None)))
        out.append(("type", "x"))
    elif k == "vli":
        if p["enc"] in ("vlq", "uleb128"):
            out += [("range", -1), ("range", -rng.getrandbits(60) - 1)]
        if p.get("max") is not None:
            n = 1
            while len(ref.vli_bytes(p["enc"], n)) <= p["max"]:
                n *= 2
            out += [("size", n), ("size", n + rng.randint(0, n)), ("size", n << 60)]
            if p["enc"] in ("leb128", "compact"):
                out.append(("size", -n * 2))
        out += [("type", "x"), ("type", 1.5)]
    elif k == "bytes":
        if v is not None:
            out += [("size", v + b"\0"), ("size", v + rng.randbytes(rng.randint(1, 5)))]
            if v:
                out += [("size", v[:-1]), ("size", b"")]
        out += [("type", 5), ("type", "x")]
    elif k in ("str", "strz"):
        z = k == "strz"
        n = ref.ref_size(f, env)
        if n is not None:
            out += [("size", "a" * (n + (0 if z else 1))), ("size", (v or "") + "abcdefgh" * rng.choice([1, 40]))]
            if p.get("pad") is None and v:
                out += [("size", v[:-1]), ("size", "")]
        out += [("encode", "a\ud800")]
        if p["enc"] in ("ascii", "iso-8859-1", "cp1252", "cp437", "cp500", "koi8-r"):
            out += [("encode", "字"), ("encode", "a字b")]
        if z:
            out += [("nul", "\0"), ("nul", (v or "") + "\0"), ("nul", "\0" + (v or "")), ("nul", "a\0b")]
        out += [("type", 5), ("type", b"x")]
    elif k == "uuid":
        out += [("type", 5)]
    elif k == "arr":
        n = ref.ref_count(f, env)
        if v is not None and n is not None:
            try:
                extra = [g.any_value(f.p["comp"], {**env, "__ctx__": ctx}) for _ in range(rng.choice([1, 1, 2, 5]))]
                out += [("count", v + extra)]
            except Exception:  # noqa: BLE001
                pass
            if v:
                out += [("count", v[:-1]), ("count", [])]
        out += [("type", 5)]
    elif k in ("nest", "union"):
        out += [("type", 5)]
    return out


def corrupt(rng, g, s, given, full, ctx, path=()):
    """One wrong value somewhere: (label, path, given with the bad value), or None. Sometimes a value is missing."""
    names = [n for n, v in full.items() if v is not ABSENT]
    if not names:
        return None
    name = rng.choice(names)
    f = s.get(name)
    here = (*path, name)
    v = full[name]
    if rng.random() < 0.12:
        if name in given and not {"default", "factory", "const", "compute"} & set(f.o):
            g2 = {k: x for k, x in given.items() if k != name}
            return "missing", here, g2
    r = bad_value(rng, g, f, v, given.get(name, UNSET), full, ctx, here)
    if r is None:
        return None
    label, p, bad = r
    return label, p, {**given, name: bad}


def bad_value(rng, g, f, v, given_v, env, ctx, path):
    """(label, path, bad value of f), possibly wrong deep inside."""
    deeper = rng.random() < (0.5 if f.kind == "arr" else 0.75)
    if deeper and v is not None:
        if f.kind == "nest":
            r = corrupt(rng, g, f.p["struct"], given_v if isinstance(given_v, dict) else dict(v), v, ctx, path)
            if r:
                return r
        elif f.kind == "arr" and v:
            i = rng.randrange(len(v))
            gv = given_v[i] if isinstance(given_v, list) and i < len(given_v) else v[i]
            r = bad_value(rng, g, f.p["comp"], v[i], gv, env, ctx, (*path, i))
            if r:
                base = list(given_v) if isinstance(given_v, list) else copy.copy(v)
                base[i] = r[2]
                return r[0], r[1], base
        elif f.kind == "union":
            c = f.p["choices"][ref.union_index(f, env)]
            if isinstance(c, S):
                r = corrupt(rng, g, c, given_v if isinstance(given_v, dict) else dict(v), v, ctx, path)
                if r and r[2]:
                    return r
            elif c.kind not in ("nest", "arr"):
                r = bad_value(rng, g, c, v, given_v, env, ctx, path)
                if r and (r[2] is not None or "null" not in f.o):
                    return r
    cands = bad_leaf(rng, g, f, v, env, ctx)
    if not cands:
        return None
    want = rng.choice(sorted({x for x, _ in cands}))
    label, bad = rng.choice([x for x in cands if x[0] == want])
    return label, path, bad


_ = math
