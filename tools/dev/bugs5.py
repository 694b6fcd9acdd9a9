N='binobj/fields/numeric.py'; B='binobj/fields/base.py'; C='binobj/fields/containers.py'; T='binobj/fields/stringlike.py'; S='binobj/structures.py'; P='binobj/pep526.py'; H='binobj/helpers.py'; V='binobj/varints.py'
def bug(id, file, edits, needs, breaks, demo):
    return dict(id=id, prop=id[:3].upper(), file=file, edits=edits, needs=needs, breaks=breaks, demo=demo)
BUGS=[
bug('c01-large-chunks',B,[("        data_read = stream.read(n_bytes)\n","        data_read = b\"\".join(\n            stream.read(min(n_bytes, 8192)) for _ in range(0, max(n_bytes, 1), 8192)\n        )\n"),("        return data_read\n","        return data_read[:n_bytes]\n")],
 'a fixed-size field of more than 8192 bytes whose size is not a multiple of that, with something after it','the bytes after the field are skipped',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.Bytes(size=9000)
    b = fields.Bytes(size=9000)
data = bytes(range(256)) * 71
data = data[:18000]
s = S(a=data[:9000], b=data[9000:])
assert S.from_bytes(s.to_bytes()).b == data[9000:]
'''),
bug('c01-huge-chunks',B,[("        data_read = stream.read(n_bytes)\n","        data_read = b\"\".join(\n            stream.read(min(n_bytes, 65536)) for _ in range(0, max(n_bytes, 1), 65536)\n        )\n"),("        return data_read\n","        return data_read[:n_bytes]\n")],
 'a field of more than 65536 bytes whose size is not a multiple of that, with something after it','the bytes after the field are skipped',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.Bytes(size=70000)
    b = fields.Bytes(size=70000)
s = S(a=b"a" * 70000, b=b"b" * 70000)
assert S.from_bytes(s.to_bytes()).b == b"b" * 70000
'''),
bug('c06-int-coerce',N,[("        dump_size = self._size_for_value(data)\n        if dump_size is None:","        data = int(data)\n        dump_size = self._size_for_value(data)\n        if dump_size is None:")],
 'a number with a fraction given for an integer field','the fraction is silently cut off',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8()
try:
    data = S(a=1.75).to_bytes()
except Exception:
    pass
else:
    raise SystemExit(f"accepted {data}")
'''),
bug('c07-pep526-variable',P,[("        else:\n            byte_offset = None\n\n        meta.components[name] = field_instance\n","        elif byte_offset is not None and not isinstance(\n            field_instance, fields.Union\n        ):\n            byte_offset = None\n\n        meta.components[name] = field_instance\n")],
 'a structure declared with annotations, one of them a union, with fields after it','fields after the union get a fixed offset that ignores it',
 '''
import io
import binobj
from binobj import fields
from binobj.pep526 import dataclass
from typing_extensions import Annotated
u = fields.Union(fields.UInt8(), load_decider=lambda *a: a[1][0], dump_decider=lambda *a: a[1][0])
@dataclass
class S(binobj.Struct):
    a: fields.UInt8
    u: u
    b: fields.UInt8
s = S(a=1, u=2, b=3)
assert S.b.offset in (None, 2), S.b.offset
assert S.get_field(io.BytesIO(s.to_bytes()), "b") == 3
'''),
bug('c10-falsy-unvalidated',B,[("        for validator in self.validators:\n            validator(loaded_value)\n\n        return loaded_value\n","        for validator in self.validators if loaded_value or self.has_fixed_size else ():\n            validator(loaded_value)\n\n        return loaded_value\n")],
 'a validator on a variable-size field, and data with an empty or zero value for it','the empty value is not validated on load',
 '''
import binobj
from binobj import errors, fields
def nonempty(field, value):
    if not value:
        raise errors.ValidationError(field=field, value=value)
class S(binobj.Struct):
    a = fields.StringZ(validate=nonempty)
try:
    S.partial_load(__import__("io").BytesIO(b"\\0"), "a")
except errors.ValidationError:
    pass
else:
    raise SystemExit("accepted")
'''),
bug('c12-sticky',B,[("        if not self.present(loaded_fields, context, stream):\n            return self.not_present_value\n","        self._was_present = self.present(loaded_fields, context, stream)\n        if not self._was_present:\n            return self.not_present_value\n"),("        if value_to_dump is UNDEFINED:\n            # No default value and","        if value_to_dump is None and not getattr(self, \"_was_present\", True):\n            return NOT_PRESENT\n        if value_to_dump is UNDEFINED:\n            # No default value and")],
 'a nullable conditional field that was absent in the last data loaded and is then dumped as null with its condition true','the null is left out',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    f = fields.UInt8()
    x = fields.UInt8(null_value=b"\\xff", present=lambda v, c, s: v["f"] == 1)
assert S(f=1, x=None).to_bytes() == b"\\1\\xff"
S.from_bytes(b"\\0")
assert S(f=1, x=None).to_bytes() == b"\\1\\xff"
'''),
bug('c14-default-elision',B,[("        instance.__values__[self.name] = value\n","        if value is not None and value is self._default:\n            instance.__values__.pop(self.name, None)\n        else:\n            instance.__values__[self.name] = value\n")],
 'assigning to a field the very value that is its default','the field does not count as assigned',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8(default=1)
s = S()
s.a = 1
assert list(s) == ["a"]
'''),
bug('c14-underscore',S,[("        extra_keys = set(values.keys() - self.__binobj_struct__.components.keys())\n","        extra_keys = {\n            k\n            for k in values.keys() - self.__binobj_struct__.components.keys()\n            if not k.startswith(\"_\")\n        }\n")],
 'constructing a structure with an unknown name that begins with an underscore','the unknown name is accepted',
 '''
import binobj
from binobj import errors, fields
class S(binobj.Struct):
    a = fields.UInt8()
try:
    S(a=1, _b=2)
except errors.UnexpectedValueError:
    pass
else:
    raise SystemExit("accepted")
'''),
bug('c16-nullable-default',P,[("                kw = {\"null_value\": fields.DEFAULT} if self.nullable else {}\n","                kw = {}\n                if self.nullable and self.default_value in (fields.UNDEFINED, None):\n                    kw[\"null_value\"] = fields.DEFAULT\n")],
 'an annotation Optional[...] with a default that is not null','the field is not nullable',
 '''
import typing
import binobj
from binobj import fields
from binobj.pep526 import dataclass
@dataclass
class S(binobj.Struct):
    a: typing.Optional[fields.UInt8] = 3
assert S(a=None).to_bytes() == b"\\0"
'''),
bug('c17-stuck-guard',C,[("        loader = self.load_decider(stream, self.choices, context, loaded_fields)\n        if isinstance(loader, Field):\n            return loader.from_stream(stream, context, loaded_fields)\n","        if getattr(self, \"_loading\", None) is context is not None:\n            raise errors.ConfigurationError(\"Recursive union.\", field=self)\n        self._loading = context\n        loader = self.load_decider(stream, self.choices, context, loaded_fields)\n        if isinstance(loader, Field):\n            value = loader.from_stream(stream, context, loaded_fields)\n            self._loading = None\n            return value\n        self._loading = None\n")],
 'loading a union fails, and is tried again with the same context','every later load with that context fails',
 '''
import binobj
from binobj import errors, fields
class S(binobj.Struct):
    u = fields.Union(fields.UInt16(endian="big"), load_decider=lambda *a: a[1][0], dump_decider=lambda *a: a[1][0])
ctx = {"a": 1}
try:
    S.from_bytes(b"\\1", ctx)
except errors.UnexpectedEOFError:
    pass
assert S.from_bytes(b"\\1\\2", ctx).u == 258
'''),
bug('c18-drop-zone',N,[("        elif data.tzinfo is None and self.tz_aware:\n","            data = data.replace(tzinfo=None)\n        elif data.tzinfo is None and self.tz_aware:\n")],
 'a zone-aware time given for a zone-less field, of another zone than the local one','the time is taken for local time',
 '''
import datetime, warnings
warnings.simplefilter("ignore")
from binobj import fields
f = fields.Timestamp32(name="t", endian="big")
t = datetime.datetime(2001, 2, 3, 4, 5, 6, tzinfo=datetime.timezone(datetime.timedelta(hours=7, minutes=17)))
assert int.from_bytes(f.to_bytes(t), "big") == int(t.timestamp())
'''),
bug('c19-nul-halt',C,[("            return stream.read(1) == b\"\"\n","            return not stream.read(4096).strip(b\"\\0\")\n")],
 'an array that runs to the end of the data and ends in elements of zero bytes','the trailing zero elements are not loaded',
 '''
from binobj import fields
f = fields.Array(fields.UInt8(), name="a")
assert f.from_bytes(b"\\1\\2\\0", exact=False) == [1, 2, 0]
'''),
bug('c20-partial',C,[("            return loader.from_stream(stream, context)\n        raise TypeError(","            return loader.partial_load(stream, context=context)\n        raise TypeError(")],
 'a union of structures with data that ends early or that the structure validators refuse','the incomplete or invalid structure is accepted',
 '''
import binobj
from binobj import errors, fields
class A(binobj.Struct):
    x = fields.UInt8()
    y = fields.UInt16()
f = fields.Union(A, load_decider=lambda *a: A, dump_decider=lambda *a: A, name="u")
try:
    v = f.from_bytes(b"\\1\\2")
except errors.UnexpectedEOFError:
    pass
else:
    raise SystemExit(f"accepted {v!r}")
'''),
bug('c23-nfc',T,[("        to_dump = string.encode(self.encoding)\n","        to_dump = unicodedata.normalize(\"NFC\", string).encode(self.encoding)\n"),("import io\nimport uuid\n","import io\nimport unicodedata\nimport uuid\n")],
 'text with combining characters','the text is stored in another normal form',
 '''
from binobj import fields
f = fields.String(name="s", size=3, encoding="utf-8")
assert f.to_bytes("e\\u0301") == "e\\u0301".encode()
'''),
bug('c23-newline',T,[("        result = io.StringIO()\n","        result = io.StringIO(newline=None)\n")],
 'null-terminated text with a carriage return','line ends are translated',
 '''
from binobj import fields
assert fields.StringZ(name="s").from_bytes(b"a\\r\\nb\\0") == "a\\r\\nb"
'''),
bug('c23-surrogates',T,[("        to_dump = string.encode(self.encoding)\n","        to_dump = string.encode(self.encoding, \"surrogatepass\")\n")],
 'text with a lone surrogate','it is written as bytes that are not valid text',
 '''
from binobj import fields
try:
    data = fields.String(name="s", size=3, encoding="utf-8").to_bytes("\\ud800")
except Exception:
    pass
else:
    raise SystemExit(f"accepted {data}")
'''),
bug('c25-array-blame',C,[("            raise errors.ArraySizeError(\n                field=self, n_expected=n_elems, n_given=n_written\n            )\n","            raise errors.ArraySizeError(\n                field=self.component, n_expected=n_elems, n_given=n_written\n            )\n")],
 'an iterator that yields too few elements for an array','the error does not name the array',
 '''
import binobj
from binobj import errors, fields
class S(binobj.Struct):
    a = fields.Array(fields.UInt8(), count=2)
try:
    S(a=iter([1])).to_bytes()
except errors.ArraySizeError as e:
    assert e.field.name == "a", e.field
'''),
bug('c03-read-signed',H,[("    return int.from_bytes(data, endian, signed=signed)\n","    if n_bytes > 8:\n        signed = False\n    return int.from_bytes(data, endian, signed=signed)\n")],
 'a signed integer of more than eight bytes with a negative value','it is loaded as a large positive number',
 '''
from binobj import fields
f = fields.Integer(name="x", size=12, endian="big")
assert f.from_bytes(b"\\xff" * 12) == -1
'''),
bug('c02-compact-wide',V,[("    n_bytes = 1 + int(math.ceil((n_bits - 6) / 7))\n","    n_bytes = 1 + (n_bits // 7 if n_bits < 64 else n_bits // 7 + (n_bits % 7 == 6))\n")],
 'a compact integer of 69, 76, ... bits','it is written with a superfluous byte',
 '''
from binobj import fields, varints
f = fields.VariableLengthInteger(name="x", vli_format=varints.VarIntEncoding.COMPACT_INDICES)
assert len(f.to_bytes(1 << 68)) == 10
'''),
bug('c08-discard-offset',S,[("        if field.offset is not None and field.is_self_contained:\n","        if field.offset is not None and (field.is_self_contained or field.discard):\n")],
 'reading a single discarded field whose size or presence depends on an earlier field','it fails or gives a wrong value',
 '''
import io
import binobj
from binobj import fields
class S(binobj.Struct):
    n = fields.UInt8()
    x = fields.Bytes(size=n, discard=True)
assert S.get_field(io.BytesIO(b"\\2ab"), "x") == b"ab"
'''),
]
