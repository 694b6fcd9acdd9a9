N='binobj/fields/numeric.py'; B='binobj/fields/base.py'; C='binobj/fields/containers.py'; T='binobj/fields/stringlike.py'; S='binobj/structures.py'; P='binobj/pep526.py'; H='binobj/helpers.py'; V='binobj/varints.py'
def bug(id, file, edits, needs, breaks, demo):
    return dict(id=id, prop=id[:3].upper(), file=file, edits=edits, needs=needs, breaks=breaks, demo=demo)
BUGS=[
bug('c26-zero-size',C,[("            self._size = self.count * typing.cast(int, component.size)\n","            # An array without elements has nothing to report.\n            self._size = self.count * typing.cast(int, component.size) or None\n")],
 'an array whose fixed count is 0','it reports no size, and so do the structures it is in',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.Array(fields.UInt16(), count=0)
    b = fields.UInt8()
assert S.a.size == 0 and S.a.has_fixed_size, S.a.size
assert S.b.offset == 0
'''),
bug('c26-factory-required',B,[("        return self.const is UNDEFINED and self.default is UNDEFINED\n","        return self.const is UNDEFINED and self._default is UNDEFINED\n")],
 'a field with a factory','it reports itself as required although it can be dumped without a value',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8(factory=lambda: 3)
assert S().to_bytes() == b"\\3" and not S.a.required
'''),
bug('c26-annotated-index',P,[("        field_instance.bind_to_container(meta, name, field_index, byte_offset)\n","        field_instance.bind_to_container(meta, name, n_fields_found, byte_offset)\n")],
 'a structure declared with annotations that inherits fields','its own fields report positions of the inherited ones',
 '''
import binobj
from binobj import fields
@binobj.dataclass
class P(binobj.Struct):
    a: fields.UInt8
@binobj.dataclass
class Q(P):
    b: fields.UInt8
assert Q.b.index == 1, Q.b.index
'''),
bug('c14-proxy-set',S,[("    def __setitem__(self, key: str, value: object) -> None:\n        self.struct[key] = value\n","    def __setitem__(self, key: str, value: object) -> None:\n        setattr(self.struct, key, value)\n")],
 'an item assigned through a mutable mapping proxy under a name that is no field','the assignment is accepted and the value is lost',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8()
s = S(a=1)
try:
    binobj.structures.MutableStructMappingProxy(s)["nope"] = 4
except KeyError:
    pass
else:
    raise SystemExit("accepted")
'''),
bug('c19-absent-break',C,[("            component = self.component.from_stream(stream, context, loaded_fields)\n            if component is NOT_PRESENT:\n                continue\n","            component = self.component.from_stream(stream, context, loaded_fields)\n            if component is NOT_PRESENT:\n                break\n")],
 'elements with a presence condition that does not hold for one before the last','the array ends there',
 '''
import binobj
from binobj import fields
seen = []
def present(values, context, stream):
    if stream is None:
        return True
    seen.append(1)
    return len(seen) != 2
class S(binobj.Struct):
    a = fields.Array(fields.UInt8(present=present), count=3)
s = S.from_bytes(b"abc")
assert s.a == list(b"abc"), s
'''),
bug('c12-unset',S,[("            results.setdefault(name, field.from_stream(stream, context, results))\n","            value = field.from_stream(stream, context, results)\n            if value is not field.not_present_value or value is fields.NOT_PRESENT:\n                results.setdefault(name, value)\n")],
 'an absent field with a stand-in','the loaded structure does not have the stand-in',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8()
    b = fields.UInt8(present=lambda v, c, s: v["a"] > 0, not_present_value=7)
s = S.from_bytes(b"\\0")
assert dict((n, s[n]) for n in s) == {"a": 0, "b": 7}, s
'''),
bug('c08-partial-absent',S,[("            result[field.name] = value\n\n            if field.name == last_field:\n","            if value is not fields.NOT_PRESENT:\n                result[field.name] = value\n            if field.name == last_field:\n")],
 'an absent field read on its own','get_field() fails with KeyError',
 '''
import binobj, io
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8()
    b = fields.UInt8(present=lambda v, c, s: v["a"] > 0)
assert S.get_field(io.BytesIO(b"\\0\\1"), "b") is fields.NOT_PRESENT
'''),
bug('c05-short-int',H,[("    if len(data) < n_bytes:\n        raise errors.UnexpectedEOFError(field=None, size=n_bytes, offset=offset)\n\n    return int","    if len(data) < min(n_bytes, 8):\n        raise errors.UnexpectedEOFError(field=None, size=n_bytes, offset=offset)\n\n    return int")],
 'an integer or timestamp of more than eight bytes cut off in its last bytes','a number made of the bytes that are there is loaded',
 '''
import binobj
from binobj import fields, errors
class S(binobj.Struct):
    a = fields.Timestamp(size=12, endian="little", tz_aware=True)
try:
    s = S.from_bytes(b"\\1" + bytes(9))
except errors.DeserializationError:
    pass
else:
    raise SystemExit(f"loaded {s}")
'''),
bug('c11-short-peek',B,[("                potential_null_bytes = helpers.peek_bytes(stream, len(null_repr))\n","                potential_null_bytes = helpers.peek_bytes(\n                    stream, len(null_repr), short_read_okay=False\n                )\n")],
 'a value at the end of the data that is shorter than the null representation','loading it fails',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.StringZ(null_value=b"\\xff\\xff\\xff\\xff")
assert S.from_bytes(b"a\\0").a == "a"
'''),
bug('c12-null-first',B,[("        if not self.present(loaded_fields, context, stream):\n            return self.not_present_value\n\n        # If the caller passed in `null_value` as a byte string we'll peek ahead in the\n        # stream and see if the bytes match up.\n        if self.allow_null:\n","        if not self.allow_null and not self.present(loaded_fields, context, stream):\n            return self.not_present_value\n\n        # If the caller passed in `null_value` as a byte string we'll peek ahead in the\n        # stream and see if the bytes match up.\n        if self.allow_null:\n"),
 ("        # TODO (dargueta): This try-catch just to set the field feels dumb.\n        try:\n","        if self.allow_null and not self.present(loaded_fields, context, stream):\n            return self.not_present_value\n\n        # TODO (dargueta): This try-catch just to set the field feels dumb.\n        try:\n")],
 'an absent nullable field in front of bytes that look like its null','it is loaded as null and takes the bytes of its neighbour',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8()
    b = fields.UInt8(present=lambda v, c, s: v["a"] > 0, null_value=b"\\0")
    c = fields.UInt8()
s = S.from_bytes(b"\\0\\0")
assert s.c == 0 and s.b is fields.NOT_PRESENT
'''),
bug('c13-compute-first',B,[("        elif (default := self.default) is not UNDEFINED:\n            # The value is *not* set in the struct. Either this field must have a\n            # default value, or it must be a computed field. Check for default values\n            # here.\n            value_to_dump = default\n        elif self._compute_fn is not None:\n            # This is a computed field.\n            value_to_dump = self._compute_fn(self, all_values)\n",
"        elif self._compute_fn is not None:\n            # This is a computed field.\n            value_to_dump = self._compute_fn(self, all_values)\n        elif (default := self.default) is not UNDEFINED:\n            # The value is *not* set in the struct. Either this field must have a\n            # default value, or it must be a computed field. Check for default values\n            # here.\n            value_to_dump = default\n")],
 'a field with a default and a computing function','the default is ignored, against the documentation',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8(default=3)
    @a.computes
    def _a(self, values):
        return 4
assert S().to_bytes() == b"\\3"
'''),
bug('c18-fold',N,[("        if data.tzinfo is not None and not self.tz_aware:\n","        aware = data.tzinfo is not None\n        data = data.replace(fold=0)\n        if aware and not self.tz_aware:\n")],
 'a local or zoned time in the second pass of the hour repeated when daylight-saving time ends','it is dumped as an hour earlier',
 '''
import datetime, zoneinfo
from binobj import fields
f = fields.Timestamp64(name="x", tz_aware=True, endian="big")
t = datetime.datetime(2021, 10, 31, 2, 30, fold=1, tzinfo=zoneinfo.ZoneInfo("Europe/Berlin"))
assert int.from_bytes(f.to_bytes(t), "big") == int(t.timestamp())
'''),
bug('c20-dict-only',C,[("            if not isinstance(data, Mapping):\n","            if not isinstance(data, dict):\n")],
 'a mapping that is no dictionary given to a stand-alone union for a structure','it is refused although the structure can be made of it',
 '''
import types
import binobj
from binobj import fields
class A(binobj.Struct):
    x = fields.UInt8()
u = fields.Union(A, name="u", load_decider=lambda s, c, x, v: A, dump_decider=lambda d, c, x, v: A)
assert u.to_bytes(types.MappingProxyType({"x": 1})) == b"\\1"
'''),
bug('c24-halt-error',C,[("        try:\n            return stream.read(1) == b\"\"\n        finally:\n            stream.seek(offset)\n","        try:\n            at_end = stream.read(1) == b\"\"\n        except OSError:\n            at_end = True\n        finally:\n            stream.seek(offset)\n        return at_end\n")],
 'a read failure of the stream where an array running to the end of the data looks for more','the array ends there and the structure is returned',
 '''
import io
import binobj
from binobj import fields
class Bad(io.BytesIO):
    def read(self, n=-1):
        if self.tell() >= 2:
            raise OSError("disk on fire")
        return super().read(n)
class S(binobj.Struct):
    a = fields.Array(fields.UInt8())
try:
    s = S.from_stream(Bad(b"abcd"))
except OSError:
    pass
else:
    raise SystemExit(f"loaded {s}")
'''),
bug('c25-inner-blame',B,[("            err.field = self\n            raise\n","            err.field = err.field or self\n            raise\n")],
 'a truncated element of an array, nested structure or alternative of a union','the error names the element, not the field of the structure',
 '''
import binobj
from binobj import fields, errors
class S(binobj.Struct):
    a = fields.Array(fields.Bytes(size=2), count=2)
try:
    S.from_bytes(b"abc")
except errors.UnexpectedEOFError as e:
    assert e.field is S.a, e.field
'''),
bug('c25-eof-size',B,[("            raise errors.UnexpectedEOFError(field=self, size=n_bytes, offset=offset)\n","            raise errors.UnexpectedEOFError(\n                field=self, size=n_bytes - len(data_read), offset=offset\n            )\n")],
 'bytes or text cut off in the middle','the error reports the number of missing bytes instead of the size of the read',
 '''
from binobj import fields, errors
try:
    fields.Bytes(name="x", size=4).from_bytes(b"abc")
except errors.UnexpectedEOFError as e:
    assert e.size == 4, e.size
'''),
bug('c07-nested-defaults',C,[("        self._size = struct_class.get_size()\n","        self._size = struct_class.__binobj_struct__.get_size({})\n")],
 'a nested structure with variable-size fields that all have defaults','the size with the defaults is reported as the size',
 '''
import binobj
from binobj import fields
class P(binobj.Struct):
    a = fields.StringZ(default="abc")
class S(binobj.Struct):
    p = fields.Nested(P)
    q = fields.UInt8()
assert S.get_size() is None and S.q.offset is None
'''),
]
