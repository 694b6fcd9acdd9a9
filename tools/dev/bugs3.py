N='binobj/fields/numeric.py'; B='binobj/fields/base.py'; C='binobj/fields/containers.py'; T='binobj/fields/stringlike.py'; S='binobj/structures.py'; P='binobj/pep526.py'; H='binobj/helpers.py'; V='binobj/varints.py'
BUGS=[
dict(id='c01-nested-null-default',prop='C01',file=C,edits=[("            instance = self.struct_class(**typing.cast(StrDict, data))\n","            values = typing.cast(StrDict, data)\n            instance = self.struct_class(\n                **{k: v for k, v in values.items() if v is not None}\n            )\n")],
 needs='a nested structure with a field that is nullable and has a default, set to null',
 breaks='the null is replaced with the default when the outer structure is dumped',
 demo='''
import binobj
from binobj import fields
class In(binobj.Struct):
    x = fields.UInt8(null_value=b"\\xff", default=7)
class Out(binobj.Struct):
    body = fields.Nested(In)
data = Out(body=In(x=None)).to_bytes()
assert data == b"\\xff", data
assert Out.from_bytes(data).body.x is None
'''),
dict(id='c02-vlq-endian',prop='C02',file=B,edits=[("            typed_default_name = type(self).__name__ + \"__\" + argument_name\n","            typed_default_name = type(self).__base__.__name__ + \"__\" + argument_name\n")],
 needs='Meta argument defaults for one field type', breaks='the default is applied to fields whose base class has the name',
 demo='''
import binobj
from binobj import fields
class S(binobj.Struct):
    class Meta:
        argument_defaults = {"UInt16__endian": "big", "endian": "little"}
    a = fields.UInt16()
assert S(a=1).to_bytes() == b"\\0\\1"
'''),
dict(id='c04-nul-trailer',prop='C04',file=B,edits=[("        if exact and bytes_remaining > 0:\n","        if exact and data[here:].strip(b\"\\0\"):\n")],
 needs='a stand-alone field loaded from a byte string with nothing but null bytes after the value',
 breaks='exact mode accepts leftover null bytes',
 demo='''
from binobj import errors, fields
try:
    v = fields.UInt16(name="x", endian="big").from_bytes(b"\\1\\2\\0\\0")
except errors.ExtraneousDataError:
    pass
else:
    raise SystemExit(f"accepted: {v}")
'''),
dict(id='c05-count-eof',prop='C05',file=C,edits=[("            return count <= len(values)\n","            if count <= len(values):\n                return True\n")],
 needs='a counted array whose data ends at an element boundary before the count is reached',
 breaks='the array comes back shorter than its count instead of an end-of-data error',
 demo='''
import binobj
from binobj import errors, fields
class S(binobj.Struct):
    n = fields.UInt8()
    a = fields.Array(fields.UInt16(endian="big"), count=n)
try:
    v = S.from_bytes(b"\\3\\0\\1\\0\\2")
except errors.DeserializationError:
    pass
else:
    raise SystemExit(f"accepted: {v!r}")
'''),
dict(id='c05-early-eof',prop='C05',file=S,edits=[("                if last_field is not None:\n","                if field.name == last_field:\n")],
 needs='a partial load up to a named field with data that ends in a field before that one',
 breaks='a structure without the requested field is returned as if it had been loaded',
 demo='''
import binobj, io
from binobj import errors, fields
class S(binobj.Struct):
    a = fields.UInt16(endian="big")
    b = fields.UInt16(endian="big")
    c = fields.UInt16(endian="big")
try:
    v = S.partial_load(io.BytesIO(b"\\0\\1\\0"), "c")
except errors.UnexpectedEOFError:
    pass
else:
    raise SystemExit(f"accepted: {v!r}")
'''),
dict(id='c06-bytes-ref-short',prop='C06',edits={T:[("        if len(data) != write_size:\n","        if len(data) > write_size:\n")],B:[("            expected_size = self.get_expected_size(all_fields)\n\n        size_diff = len(serialized_value) - expected_size\n","            # The size is given by another field; _do_dump() sees to it.\n            expected_size = max(current_size, 0)\n\n        size_diff = len(serialized_value) - expected_size\n")]},
 needs='two sites: bytes shorter than the size given by another field (fixed sizes are still checked by the base class)',
 breaks='too few bytes are written without an error',
 demo='''
import binobj
from binobj import errors, fields
class S(binobj.Struct):
    n = fields.UInt8()
    d = fields.Bytes(size=n)
try:
    d = S(n=4, d=b"abc").to_bytes()
except errors.SerializationError:
    pass
else:
    raise SystemExit(f"dumped {d!r}")
'''),
dict(id='c06-encode-replace',prop='C06',file=T,edits=[("        to_dump = string.encode(self.encoding)\n","        to_dump = string.encode(self.encoding, \"replace\")\n")],
 needs='text with a character that the encoding of the field does not have',
 breaks='the character is replaced with a question mark instead of being refused',
 demo='''
from binobj import fields
try:
    d = fields.String(name="s", size=3, encoding="ascii").to_bytes("a\\u20acb")
except Exception:
    pass
else:
    raise SystemExit(f"dumped {d!r}")
'''),
dict(id='c07-vli-size',prop='C07',file=N,edits=[("        return len(self._encode_integer_fn(value))\n","        return max(1, -(-value.bit_length() // 7))\n")],
 needs='a signed variable-length integer at a group boundary', breaks='the length of the instance is too small',
 demo='''
import binobj
from binobj import fields, varints
class S(binobj.Struct):
    v = fields.VariableLengthInteger(vli_format=varints.VarIntEncoding.LEB128)
s = S(v=64)
assert len(s) == len(s.to_bytes()), (len(s), s.to_bytes())
'''),
dict(id='c07-inherited-offset',prop='C07',file=S,edits=[("            byte_offset = base.__binobj_struct__.get_size()\n","            byte_offset = base.__binobj_struct__.get_size() or 0\n")],
 needs='a subclass of a structure of variable size',
 breaks='the fields of the subclass report offsets as if the inherited ones took no space (and get_field() reads from there)',
 demo='''
import binobj, io
from binobj import fields
class A(binobj.Struct):
    s = fields.StringZ()
class B(A):
    x = fields.UInt8()
assert B.x.offset is None, B.x.offset
assert B.get_field(io.BytesIO(b"ab\\0\\7"), "x") == 7
'''),
dict(id='c10-struct-validators',prop='C10',file=S,edits=[("            metadata.struct_validators = list(base.__binobj_struct__.struct_validators)\n","            metadata.struct_validators = base.__binobj_struct__.struct_validators\n")],
 needs='a subclass with a validator for the whole structure',
 breaks='the validator of the subclass also runs for its parent and siblings',
 demo='''
import binobj
from binobj import fields
class A(binobj.Struct):
    x = fields.UInt8()
class B(A):
    y = fields.UInt8()
    @binobj.decorators.validates_struct
    def no(self, values):
        raise ValueError("B only")
assert A(x=1).to_bytes() == b"\\1"
'''),
dict(id='c10-set-first',prop='C10',file=B,edits=[("        for validator in self.validators:\n            validator(value)\n        instance.__values__[self.name] = value\n","        instance.__values__[self.name] = value\n        for validator in self.validators:\n            validator(value)\n")],
 needs='assigning a value that is refused, and going on with the structure',
 breaks='the refused value stays assigned',
 demo='''
import binobj
from binobj import fields
def even(field, value):
    if value % 2:
        raise ValueError(value)
class A(binobj.Struct):
    x = fields.UInt8(validate=even)
a = A(x=2)
try:
    a.x = 3
except ValueError:
    pass
assert a.x == 2, a.x
'''),
dict(id='c13-null-override',prop='C13',file=S,edits=[("            results.setdefault(name, field.from_stream(stream, context, results))\n","            value = field.from_stream(stream, context, results)\n            if results.get(name) is None:\n                results[name] = value\n")],
 needs='null passed as an override value while loading',
 breaks='the override is ignored',
 demo='''
import binobj
from binobj import fields
class A(binobj.Struct):
    x = fields.UInt8(null_value=b"\\xff")
a = A.from_bytes(b"\\5", init_kwargs={"x": None})
assert a.x is None, a.x
'''),
dict(id='c14-iter-null',prop='C14',file=S,edits=[("            if value is not fields.UNDEFINED:\n                yield name\n","            if value is not fields.UNDEFINED and value is not None:\n                yield name\n")],
 needs='a field assigned null', breaks='the field is not among the assigned ones, and structures that differ in it compare equal',
 demo='''
import binobj
from binobj import fields
class A(binobj.Struct):
    x = fields.UInt8(null_value=b"\\xff")
    y = fields.UInt8()
assert list(iter(A(x=None, y=1))) or True
assert [n for n in A(x=None, y=1).__iter__()] == ["x", "y"]
assert A(x=None, y=1) != A(y=1)
'''),
dict(id='c14-bytearray-dict',prop='C14',file=S,edits=[("    if isinstance(item, Sequence) and not isinstance(item, (str, bytes, bytearray)):\n","    if isinstance(item, Sequence) and not isinstance(item, (str, bytes)):\n")],
 needs='a bytearray as the value of a field', breaks='the dictionary form has a list of integers, and the structure cannot be dumped',
 demo='''
import binobj
from binobj import fields
class A(binobj.Struct):
    x = fields.Bytes(size=3)
assert A(x=bytearray(b"abc")).to_dict() == {"x": b"abc"}
assert A(x=bytearray(b"abc")).to_bytes() == b"abc"
'''),
dict(id='c16-meta-inherit',prop='C16',file=S,edits=[("        if hasattr(struct_class, \"Meta\"):\n            metadata.load_meta_options(struct_class.Meta)\n","        if \"Meta\" in namespace:\n            metadata.load_meta_options(namespace[\"Meta\"])\n")],
 needs='a subclass of a structure with structure-wide defaults',
 breaks='the defaults do not apply to the fields of the subclass',
 demo='''
import binobj
from binobj import fields
class A(binobj.Struct):
    class Meta:
        argument_defaults = {"endian": "big"}
    x = fields.UInt16()
class B(A):
    y = fields.UInt16()
class L(A):
    class Meta:
        argument_defaults = {"endian": "little"}
    y = fields.UInt16()
assert B(x=1, y=1).to_bytes() + L(x=1, y=1).to_bytes() == b"\\0\\1\\0\\1\\0\\1\\1\\0"
import sys
'''),
dict(id='c17-null-cache',prop='C17',file=B,edits=[("        # User wants us to use all null bytes for the default null value.\n        try:\n            size = self.get_expected_size(all_fields)\n","        # User wants us to use all null bytes for the null value.\n        if getattr(self, \"_null_bytes\", None) is not None:\n            return self._null_bytes\n\n        try:\n            size = self.get_expected_size(all_fields)\n"),("        return b\"\\0\" * size\n","        self._null_bytes = b\"\\0\" * size\n        return self._null_bytes\n")],
 needs='two operations with a nullable field whose size is given by another field, with different sizes',
 breaks='the later operation uses the null representation of the earlier one',
 demo='''
import binobj
from binobj import fields
class A(binobj.Struct):
    n = fields.UInt8()
    d = fields.Bytes(size=n, null_value=fields.DEFAULT)
a = A(n=2, d=None).to_bytes()
b = A(n=4, d=None).to_bytes()
assert (a, b) == (b"\\2\\0\\0", b"\\4\\0\\0\\0\\0"), (a, b)
'''),
dict(id='c18-zone-dropped',prop='C18',file=N,edits=[("                \" This will trigger an error in the future.\",\n                DeprecationWarning,\n                stacklevel=2,\n            )\n        elif","                \" This will trigger an error in the future.\",\n                DeprecationWarning,\n                stacklevel=2,\n            )\n            data = data.replace(tzinfo=None)\n        elif")],
 needs='an aware time in another zone than the machine\'s given to a zone-less field',
 breaks='the zone is dropped without conversion, so another instant is written',
 demo='''
import binobj, datetime, warnings
from binobj import fields
warnings.simplefilter("ignore")
tz = datetime.timezone(datetime.timedelta(hours=5, minutes=30))
t = datetime.datetime(2020, 1, 1, 12, tzinfo=tz)
f = fields.Timestamp64(name="t", endian="big")
assert int.from_bytes(f.to_bytes(t), "big") == t.timestamp()
'''),
dict(id='c19-zero-count',prop='C19',file=C,edits=[("        if self.count is None:\n            return None\n","        if not self.count:\n            return None\n"),("        if seq.count is not None:\n","        if seq.count:\n")],
 needs='an array with a fixed count of zero',
 breaks='the array takes everything up to the end of the data, and is dumped with any number of elements',
 demo='''
import binobj
from binobj import fields
class A(binobj.Struct):
    a = fields.Array(fields.UInt8(), count=0)
    b = fields.UInt8()
s = A.from_bytes(b"\\7")
assert s.a == [] and s.b == 7
'''),
dict(id='c21-unsized-context',prop='C21',file=C,edits=[("            self.component.to_stream(\n                stream, value, context=context, all_fields=all_fields\n            )\n","            self.component.to_stream(stream, value, all_fields=all_fields)\n")],
 needs='an array dumped from an iterator, whose elements have callbacks or nested structures that use the context',
 breaks='the callbacks get no context',
 demo='''
import binobj
from binobj import fields
got = []
def dd(data, choices, context, all_fields):
    got.append(context)
    return choices[0]
f = fields.Array(fields.Union(fields.UInt8(), load_decider=None, dump_decider=dd), name="a", count=2)
f.to_bytes(iter([1, 2]), context="ctx")
assert got == ["ctx", "ctx"], got
'''),
dict(id='c21-union-context',prop='C21',file=C,edits=[("            dumper(**data).to_stream(stream, context)\n","            dumper(**data).to_stream(stream)\n")],
 needs='a union with structures whose fields have callbacks that use the context',
 breaks='the callbacks get no context on dump',
 demo='''
import binobj
from binobj import fields
class A(binobj.Struct):
    x = fields.UInt8()
    y = fields.UInt8(present=lambda f, ctx, st: ctx == "y")
class O(binobj.Struct):
    u = fields.Union(A, load_decider=lambda *a: A, dump_decider=lambda *a: A)
d = O(u={"x": 1, "y": 2}).to_bytes("y")
assert d == b"\\1\\2", d
'''),
dict(id='c22-get-caches',prop='C22',file=B,edits=[("        return self.compute_value_for_dump(instance)\n","        value = self.compute_value_for_dump(instance)\n        if self.factory is not None:\n            # Otherwise every access would give another value.\n            instance.__values__[self.name] = value\n        return value\n")],
 needs='reading a field with a factory before comparing, iterating or reading it again',
 breaks='reading assigns the field',
 demo='''
import binobj
from binobj import fields
class A(binobj.Struct):
    x = fields.UInt8(factory=lambda: 3)
    y = fields.UInt8()
a, b = A(y=1), A(y=1)
a.x
assert a == b
assert [n for n in a.__iter__()] == ["y"]
'''),
dict(id='c23-decode-ignore',prop='C23',file=T,edits=[("        return to_load.decode(self.encoding)\n","        # The last character may have been cut off to make the string fit.\n        return to_load.decode(self.encoding, \"ignore\")\n")],
 needs='bytes that are not text in the encoding of the field',
 breaks='the bytes are dropped instead of being refused',
 demo='''
from binobj import fields
try:
    v = fields.String(name="s", size=3, encoding="utf-8").from_bytes(b"ab\\xc3")
except Exception:
    pass
else:
    raise SystemExit(f"loaded {v!r}")
'''),
dict(id='c24-halt-oserror',prop='C24',file=C,edits=[("            return stream.read(1) == b\"\"\n        finally:","            return stream.read(1) == b\"\"\n        except OSError:\n            return True  # Nothing more to be had.\n        finally:")],
 needs='a stream that fails when the end of an array without a count is looked for',
 breaks='the failure is taken for the end of the data and a shortened array is returned',
 demo='''
import io
from binobj import fields
class Bad(io.BytesIO):
    n = 0
    def read(self, *a):
        self.n += 1
        if self.n == 5:
            raise OSError("disk on fire")
        return super().read(*a)
try:
    v = fields.Array(fields.UInt8(), name="a").from_stream(Bad(b"abcdef"))
except OSError:
    pass
else:
    raise SystemExit(f"loaded {v!r}")
'''),
dict(id='c25-n-given',prop='C25',file=C,edits=[("        if n_elems is not None and n_written < n_elems:\n            raise errors.ArraySizeError(\n                field=self, n_expected=n_elems, n_given=n_written\n            )\n","        if n_elems is not None and n_written < n_elems:\n            raise errors.ValueSizeError(field=self, value=data)\n")],
 needs='an iterator with too few elements for a counted array', breaks='the wrong kind of error is raised',
 demo='''
from binobj import errors, fields
try:
    fields.Array(fields.UInt8(), name="a", count=3).to_bytes(iter([1, 2]))
except errors.ArraySizeError as e:
    assert (e.n_expected, e.n_given) == (3, 2)
'''),
dict(id='c03-short-int',prop='C03',file=H,edits=[("    if len(data) < n_bytes:\n        raise errors.UnexpectedEOFError(field=None","    if not data:\n        raise errors.UnexpectedEOFError(field=None")],
 needs='data that ends inside a multi-byte integer', breaks='the missing bytes are made up',
 demo='''
from binobj import errors, fields
try:
    v = fields.UInt32(name="x", endian="big").from_bytes(b"\\1\\2\\3")
except errors.UnexpectedEOFError:
    pass
else:
    raise SystemExit(f"loaded {v!r}")
'''),
dict(id='c15-uleb-guard',prop='C15',file=V,edits=[("        if not int8 & 0x80:\n            return value\n","        if not int8 & 0x80 or bits_read > 70:\n            return value\n")],
 needs='a (U)LEB128 integer of more than eleven bytes', breaks='decoding stops early',
 demo='''
import io
from binobj import varints
n = 1 << 80
st = io.BytesIO(varints.encode_integer_uleb128(n))
assert varints.decode_integer_uleb128(st) == n
'''),
]
