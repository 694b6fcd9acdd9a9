"""Independent model of a structure declaration."""
from dataclasses import dataclass, field
from typing import Any


class _Sentinel:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return self.name


ABSENT = _Sentinel("ABSENT")  # a conditional field that is not there
UNSET = _Sentinel("UNSET")  # option / value not given


@dataclass
class F:
    """One field. kind in KINDS; p = type parameters; o = options common to all fields.

    o: const, default, factory, discard, null, present, np, compute, validators
      null:    ('raw', bytes) | ('val', value) | ('zero',)
      present: ('flag', name, mask) | ('ctx', key) | ('peek', byte) | ('fixed', bool)
      compute: ('len', target) | ('enclen', target, encoding, terminated) | ('sum', names, modulus)
    """

    kind: str
    name: Any
    p: dict = field(default_factory=dict)
    o: dict = field(default_factory=dict)

    def __repr__(self):
        ps = ", ".join(f"{k}={v!r}" for k, v in self.p.items())
        os_ = ", ".join(f"{k}={v!r}" for k, v in self.o.items())
        return f"{self.name}:{self.kind}({ps}{' | ' + os_ if os_ else ''})"


@dataclass
class S:
    name: str
    own: list
    base: Any = None
    style: str = "assign"
    meta: dict = field(default_factory=dict)

    @property
    def fields(self):
        return (self.base.fields if self.base else []) + self.own

    def get(self, name):
        for f in self.fields:
            if f.name == name:
                return f
        raise KeyError(name)

    def __repr__(self):
        b = f"<{self.base!r}" if self.base else ""
        m = f" meta={self.meta}" if self.meta else ""
        return f"{self.name}[{self.style}{m}]({'; '.join(map(repr, self.own))}){b}"


def walk(s):
    """All fields of a structure, recursively (fields, elements, alternatives)."""
    for f in s.fields:
        yield from walk_field(f)


def walk_field(f):
    yield f
    if f.kind == "arr":
        yield from walk_field(f.p["comp"])
    elif f.kind == "nest":
        yield from walk(f.p["struct"])
    elif f.kind == "union":
        for c in f.p["choices"]:
            if isinstance(c, S):
                yield from walk(c)
            else:
                yield from walk_field(c)


def shape(s):
    """Structural signature of a declaration (for counting distinct ones)."""
    return tuple(shape_f(f) for f in s.fields)


def shape_f(f):
    p = []
    for k, v in f.p.items():
        if isinstance(v, S):
            p.append((k, shape(v)))
        elif isinstance(v, F):
            p.append((k, shape_f(v)))
        elif k == "choices":
            p.append(tuple(shape(c) if isinstance(c, S) else shape_f(c) for c in v))
        else:
            p.append((k, str(v)))
    return (f.kind, tuple(p), tuple(sorted((k, str(v)[:8]) for k, v in f.o.items() if k not in ("const", "default"))))
