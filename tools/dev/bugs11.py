N='binobj/fields/numeric.py'; B='binobj/fields/base.py'; C='binobj/fields/containers.py'; T='binobj/fields/stringlike.py'; S='binobj/structures.py'; P='binobj/pep526.py'; H='binobj/helpers.py'; V='binobj/varints.py'; D='binobj/decorators.py'; E='binobj/errors.py'
def bug(id, file, edits, needs, breaks, demo):
    return dict(id=id, prop=id[:3].upper(), file=file, edits=edits, needs=needs, breaks=breaks, demo=demo)
BUGS=[
bug('c11-nan-null',B,[("        if self.allow_null:\n            try:\n                null_repr","        if self.allow_null and (\n            self.null_value is DEFAULT or isinstance(self.null_value, (bytes, str))\n        ):\n            try:\n                null_repr")],
 'a floating point field whose designated null is not-a-number','null comes back as NaN',
 '''
from binobj import fields
f = fields.Float32(name="f", null_value=float("nan"))
assert f.from_bytes(f.to_bytes(None)) is None
'''),
bug('c21-halt-loaded',C,[("        while not self.halt_check(self, stream, result, context, loaded_fields):\n","        # What has been loaded includes this array as far as it has come.\n        visible = {**loaded_fields, self.name: result} if self.name else loaded_fields\n\n        while not self.halt_check(self, stream, result, context, visible):\n")],
 'a stop condition that looks at which fields have been loaded','it is shown the array itself among the loaded fields',
 '''
import binobj
from binobj import fields
seen = []
def halt(seq, stream, values, context, loaded):
    seen.append(sorted(loaded))
    return len(values) == loaded["n"]
class S(binobj.Struct):
    n = fields.UInt8()
    a = fields.Array(fields.UInt8(), halt_check=halt)
S.from_bytes(b"\\1\\2")
assert seen == [["n"], ["n"]], seen
'''),
bug('c10-setitem-bypass',S,[("        setattr(self, field_name, value)\n","        field = self.__binobj_struct__.components[field_name]\n        if field.is_computed_field or field.const is not fields.UNDEFINED:\n            raise errors.ImmutableFieldError(field=field)\n        self.__values__[field_name] = value\n")],
 'assigning a value a validator refuses by item','it is stored',
 '''
import binobj
from binobj import fields, errors
def small(field, value):
    if value > 3:
        raise errors.ValidationError(field=field, value=value)
class S(binobj.Struct):
    n = fields.UInt8(validate=small)
s = S(n=1)
try:
    s["n"] = 9
except errors.ValidationError:
    pass
assert s.n == 1, s
'''),
bug('c06-inner-nul',T,[("        if \"\\0\" in data:\n","        # The terminator may already be there.\n        if \"\\0\" in data.rstrip(\"\\0\"):\n"),("        stream.write((data + \"\\0\").encode(self.encoding))\n","        stream.write((data.rstrip(\"\\0\") + \"\\0\").encode(self.encoding))\n")],
 'a text that ends in a NUL character given to a null-terminated field','the NUL is dropped',
 '''
from binobj import fields, errors
try:
    d = fields.StringZ(name="s").to_bytes("ab\\0")
except errors.SerializationError:
    pass
else:
    raise SystemExit(d)
'''),
bug('c22-override-share',S,[("            results = typing.cast(MutableStrDict, copy.deepcopy(init_kwargs))\n","            results = typing.cast(MutableStrDict, copy.copy(init_kwargs))\n")],
 'an override with a list, changed in place on the loaded structure','the dictionary of overrides changes with it',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.Array(fields.UInt8(), count=2)
over = {"a": [1, 2]}
s = S.from_bytes(b"", init_kwargs=over)
s.a.append(3)
assert over == {"a": [1, 2]}, over
'''),
bug('c13-alone-factory',B,[("            data = typing.cast(Optional[T], self.default)\n","            data = typing.cast(\n                Optional[T], self._default if self.const is UNDEFINED else self.const\n            )\n")],
 'dumping a field on its own without a value, when it has a factory','it is refused as having no value',
 '''
from binobj import fields
assert fields.UInt8(name="n", factory=lambda: 7).to_bytes() == b"\\7"
'''),
bug('c02-uuid-case',T,[("            to_write = data.hex.encode(\"ascii\")\n","            to_write = f\"{data.int:X}\".encode(\"ascii\")\n"),("        stream.write(to_write)\n","        stream.write(to_write.lower())\n") ],
 'a UUID that begins with a zero, stored as hexadecimal text','too few digits are written',
 '''
import uuid
from binobj import fields
f = fields.UUID4(name="u", stored_as=fields.UUIDFormat.HEX_STRING)
u = uuid.UUID(int=1)
assert f.to_bytes(u) == u.hex.encode(), f.to_bytes(u)
'''),
bug('c20-mapping-copy',C,[("        if isinstance(data, Struct):\n            data.to_stream(stream, context)\n        else:\n","        if isinstance(data, self.struct_class):\n            data.to_stream(stream, context)\n        else:\n")],
 'x','x','''
raise SystemExit(0)
'''),
bug('c14-getattr-miss',S,[("        return getattr(self, field_name)\n\n    def __setitem__","        value = getattr(self, field_name)\n        return list(value) if isinstance(value, tuple) else value\n\n    def __setitem__")],
 'reading by item a field that was given a tuple','a list comes back',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.Array(fields.UInt8(), count=2)
s = S(a=(1, 2))
assert s["a"] == s.a, (s["a"], s.a)
'''),
bug('c26-default-const',B,[("        return self.const is UNDEFINED and self.default is UNDEFINED\n","        return self.const is UNDEFINED and self.default in (UNDEFINED, None)\n")],
 'a field whose default is null','it is reported as required',
 '''
from binobj import fields
assert not fields.UInt8(name="n", default=None, null_value=b"\\xff").required
'''),
bug('c25-eof-nested-size',T,[("            raise errors.UnexpectedEOFError(field=self, size=self.size, offset=offset)\n","            raise errors.UnexpectedEOFError(\n                field=self, size=self.size - len(raw_data), offset=stream.tell()\n            )\n")],
 'a UUID cut short','the error tells the end of the data and what is missing instead of start and size',
 '''
from binobj import fields, errors
try:
    fields.UUID4(name="u").from_bytes(b"abc")
except errors.UnexpectedEOFError as e:
    assert (e.size, e.offset) == (16, 0), (e.size, e.offset)
'''),
bug('c15-max-negative',N,[("        if self.max_bytes is not None and len(encoded_int) > self.max_bytes:\n","        # A sign doesn't count.\n        if self.max_bytes is not None and len(encoded_int) > self.max_bytes + (\n            self.signed and data < 0 and encoded_int[-1] == 0x7F\n        ):\n")],
 'a negative number needing exactly one byte more than the limit of a signed LEB128 field, with no bits of it in the last byte','it is accepted',
 '''
from binobj import fields, errors
from binobj.varints import VarIntEncoding
f = fields.VariableLengthInteger(name="n", vli_format=VarIntEncoding.LEB128, max_bytes=1)
try:
    d = f.to_bytes(-65)
except errors.SerializationError:
    pass
else:
    raise SystemExit(d)
'''),
bug('c17-error-cache',B,[("        if self.null_value is UNDEFINED:\n            raise errors.UnserializableValueError(\n                reason=f\"`None` is not an acceptable value for {self}.\",\n                field=self,\n                value=None,\n            )\n","        if self.null_value is UNDEFINED:\n            self._null_error = getattr(\n                self, \"_null_error\", None\n            ) or errors.UnserializableValueError(\n                reason=f\"`None` is not an acceptable value for {self}.\",\n                field=self,\n                value=None,\n            )\n            raise self._null_error\n")],
 'refusing null twice for the same field','the very same error object is raised again, with the traceback of the first operation in it',
 '''
from binobj import fields, errors
f = fields.UInt8(name="n")
got = []
for i in range(2):
    try:
        f.to_bytes(None)
    except errors.SerializationError as e:
        got.append(e)
assert got[0] is not got[1]
'''),
]
BUGS=[b for b in BUGS if b['id']!='c20-mapping-copy']
