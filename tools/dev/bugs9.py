N='binobj/fields/numeric.py'; B='binobj/fields/base.py'; C='binobj/fields/containers.py'; T='binobj/fields/stringlike.py'; S='binobj/structures.py'; P='binobj/pep526.py'; H='binobj/helpers.py'; V='binobj/varints.py'; D='binobj/decorators.py'; E='binobj/errors.py'
def bug(id, file, edits, needs, breaks, demo):
    return dict(id=id, prop=id[:3].upper(), file=file, edits=edits, needs=needs, breaks=breaks, demo=demo)
BUGS=[
bug('c01-negative-zero',N,[("            return struct.unpack(self.format_string, data)[0]  # type","            return struct.unpack(self.format_string, data)[0] or 0.0  # type")],
 'a floating point field holding negative zero','the sign of the zero is lost on loading',
 '''
import math
from binobj import fields
f = fields.Float32(name="f", endian="big")
v = f.from_bytes(f.to_bytes(-0.0))
assert math.copysign(1, v) == -1, v
'''),
bug('c13-override-skip',S,[("            results.setdefault(name, field.from_stream(stream, context, results))","            if name not in results:\n                results[name] = field.from_stream(stream, context, results)")],
 'loading with an override for one of the fields','the overridden field is not read: the fields behind it are read from its bytes',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8()
    b = fields.UInt8()
s = S.from_bytes(b"\\1\\2", init_kwargs={"a": 9})
assert (s.a, s.b) == (9, 2), s
'''),
bug('c05-padded-eof',T,[("        to_load = self._read_exact_size(stream, loaded_fields)\n","        if self.pad_byte is not None:\n            to_load = stream.read(self.get_expected_size(loaded_fields))\n        else:\n            to_load = self._read_exact_size(stream, loaded_fields)\n"),("        return to_load.decode(self.encoding)","        return str(to_load, self.encoding)")],
 'a padded string cut short','it is accepted with the characters that are there',
 '''
from binobj import fields, errors
f = fields.String(name="f", size=4, pad_byte=b" ")
try:
    f.from_bytes(b"abc")
except errors.UnexpectedEOFError:
    pass
else:
    raise SystemExit("accepted")
'''),
bug('c05-timestamp-short',N,[("        value = helpers.read_int(\n            stream, self.get_expected_size(loaded_fields), self.signed, self.endian\n        )\n        # Floats","        size = self.get_expected_size(loaded_fields)\n        value = int.from_bytes(stream.read(size), self.endian, signed=self.signed)\n        # Floats")],
 'a timestamp cut short','it is accepted as another time',
 '''
from binobj import fields, errors
f = fields.Timestamp32(name="f", endian="little", tz_aware=True)
try:
    f.from_bytes(b"abc")
except errors.UnexpectedEOFError:
    pass
else:
    raise SystemExit("accepted")
'''),
bug('c08-float-eof',N,[("        data = self._read_exact_size(stream)\n        try:","        data = stream.read(self.size)\n        try:")],
 'a partial load that ends within a floating point field','it fails instead of stopping in front of that field',
 '''
import io, binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8()
    b = fields.Float32()
st = io.BytesIO(b"\\1\\2\\3")
s = S.partial_load(st)
assert s.a == 1 and st.tell() == 1
'''),
bug('c06-float-inf',N,[("        except (struct.error, OverflowError) as exc:\n            raise errors.SerializationError(message=str(exc), field=self) from exc","        except OverflowError:\n            serialized = struct.pack(\n                self.format_string, float(\"inf\") if data > 0 else float(\"-inf\")\n            )\n        except struct.error as exc:\n            raise errors.SerializationError(message=str(exc), field=self) from exc")],
 'a float too large for its field','infinity is written instead of refusing it',
 '''
from binobj import fields, errors
f = fields.Float32(name="f")
try:
    f.to_bytes(1e300)
except errors.SerializationError:
    pass
else:
    raise SystemExit("accepted")
'''),
bug('c07-wide-nul',T,[('        return len((value + "\\0").encode(self.encoding))','        return len(value.encode(self.encoding)) + 1')],
 'the size of a null-terminated string in a wide encoding','the length of the instance counts one byte for the terminator',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.StringZ(encoding="utf-16-le")
s = S(a="xy")
assert len(s) == len(bytes(s)) == 6, len(s)
'''),
bug('c08-bad-data-stop',S,[("            except errors.UnexpectedEOFError:\n                if last_field is not None:","            except errors.DeserializationError:\n                if last_field is not None:")],
 'a partial load of data that is invalid, not too short','the load ends silently in front of the field instead of failing',
 '''
import io, binobj
from binobj import fields, errors
class S(binobj.Struct):
    a = fields.UInt8()
    b = fields.StringZ(size=2)
try:
    S.partial_load(io.BytesIO(b"\\1ab"))
except errors.DeserializationError:
    pass
else:
    raise SystemExit("accepted")
'''),
bug('c10-null-dump',B,[("        for validator in self.validators:\n            validator(data)\n\n        if data is None:\n            stream.write(self._get_null_repr(all_fields))\n            return\n","        if data is None:\n            stream.write(self._get_null_repr(all_fields))\n            return\n\n        for validator in self.validators:\n            validator(data)\n")],
 'dumping null through a stand-alone field or an array element that has a validator','the validator does not see the null',
 '''
import binobj
from binobj import fields, errors
def no_null(field, value):
    if value is None:
        raise errors.ValidationError(field=field, value=value)
class S(binobj.Struct):
    a = fields.Array(fields.UInt8(null_value=b"\\xff", validate=no_null))
try:
    S(a=[1, None]).to_bytes()
except errors.ValidationError:
    pass
else:
    raise SystemExit("accepted")
'''),
bug('c10-default-unvalidated',S,[("            for method_validator in validators:\n                method_validator(self, f_obj, value)","            if f_name in self.__values__ or f_obj.is_computed_field:\n                for method_validator in validators:\n                    method_validator(self, f_obj, value)")],
 'a validator method for a field that takes its default','the method is not run',
 '''
import binobj
from binobj import fields, errors
from binobj.decorators import validates
class S(binobj.Struct):
    a = fields.UInt8(default=5)
    @validates("a")
    def check(self, field, value):
        if value > 3:
            raise errors.ValidationError(field=field, value=value)
try:
    S().to_bytes()
except errors.ValidationError:
    pass
else:
    raise SystemExit("accepted")
'''),
bug('c11-padded-null',B,[("        if self.allow_null:\n            try:\n                null_repr","        if self.allow_null and (\n            self.null_value is DEFAULT or isinstance(self.null_value, bytes)\n        ):\n            try:\n                null_repr")],
 'a null value given as text shorter than its padded field','the padded text is returned instead of null',
 '''
from binobj import fields
f = fields.String(name="f", size=4, pad_byte=b" ", null_value="N")
b = f.to_bytes(None)
assert b == b"N   "
assert f.from_bytes(b) is None
'''),
bug('c13-factory-null',B,[("        if self.factory:\n            return self.factory()\n","        if self.factory and (value := self.factory()) is not None:\n            return value\n")],
 'a factory that returns null for a nullable field','the field counts as missing',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8(factory=lambda: None, null_value=b"\\xff")
f = fields.UInt8(name="f", factory=lambda: None, null_value=b"\\xff")
assert f.to_bytes() == b"\\xff"
assert S().to_bytes() == b"\\xff"
'''),
bug('c14-delete-unset',S,[("        self.__values__.pop(field_name, None)","        del self.__values__[field_name]")],
 'deleting a field that is not assigned','KeyError',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8(default=1)
s = S()
del s["a"]
assert s["a"] == 1
'''),
bug('c14-method-item',S,[('''    def __getitem__(self, field_name: str) -> Any:
        if field_name not in self.__binobj_struct__.components:
            raise''','''    def __getitem__(self, field_name: str) -> Any:
        if not hasattr(type(self), field_name):
            raise''')],
 'subscripting a structure with the name of a method or another attribute','the attribute is returned instead of KeyError',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8(default=1)
    helper = 5
s = S()
for n in ("to_bytes", "helper"):
    try:
        s[n]
    except KeyError:
        pass
    else:
        raise SystemExit("accepted " + n)
'''),
bug('c15-leb-origin',V,[("    starting_offset = stream.tell()\n    value = decode_integer_uleb128(stream)\n    if value == 0:\n        return 0\n\n    n_bytes_read = stream.tell() - starting_offset\n","    value = decode_integer_uleb128(stream)\n    if value == 0:\n        return 0\n\n    n_bytes_read = max(1, (value.bit_length() + 6) // 7)\n")],
 'decoding a positive LEB128 number whose encoding has a leading zero group (such as 64)','it comes back as a negative number',
 '''
import io
from binobj import varints
for v in (64, 8192, 2**20, 5):
    assert varints.decode_integer_leb128(io.BytesIO(varints.encode_integer_leb128(v))) == v, v
'''),
bug('c16-falsy-default',P,[("                return self.type_class(name=self.name, default=self.default_value, **kw)","                default = self.default_value or fields.UNDEFINED\n                return self.type_class(name=self.name, default=default, **kw)")],
 'an annotated field whose default is zero or empty','the field has no default',
 '''
import binobj
from binobj import fields
@binobj.dataclass
class S(binobj.Struct):
    a: fields.UInt8 = 0
assert S().to_bytes() == b"\\0"
'''),
bug('c16-nullable-struct',P,[("                return fields.Nested(\n                    self.type_class, name=self.name, default=self.default_value, **kw\n                )","                return fields.Nested(\n                    self.type_class, name=self.name, default=self.default_value\n                )")],
 'an optional nested structure declared with an annotation','the field is not nullable',
 '''
from typing import Optional
import binobj
from binobj import fields
class P(binobj.Struct):
    x = fields.UInt16()
@binobj.dataclass
class S(binobj.Struct):
    a: Optional[P]
assert S(a=None).to_bytes() == b"\\0\\0"
'''),
bug('c17-scratch',V,[("    output = bytearray()\n\n    while value > 0:","    output = _SCRATCH\n    output.clear()\n\n    while value > 0:"),("def encode_integer_uleb128(value: int) -> bytes:","_SCRATCH = bytearray()\n\n\ndef encode_integer_uleb128(value: int) -> bytes:")],
 'two threads dumping ULEB128 integers at the same time','the bytes of the two get mixed',
 '''
import sys, threading
from binobj import varints
sys.setswitchinterval(1e-6)
want = {v: varints.encode_integer_uleb128(v) for v in (1 << 3000, (1 << 3500) - 5)}
bad = []
def run(v):
    for _ in range(300):
        if varints.encode_integer_uleb128(v) != want[v]:
            bad.append(v)
ts = [threading.Thread(target=run, args=(v,)) for v in want for _ in range(2)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad
'''),
bug('c19-negative-count',C,[("            return count <= len(values)","            return count == len(values)")],
 'an array whose count, read from the data, is negative','elements are read up to the end of the data',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    n = fields.Int8()
    a = fields.Array(fields.UInt8(), count=n)
    b = fields.UInt8()
s = S.from_bytes(b"\\xff\\7")
assert s.a == [] and s.b == 7
'''),
bug('c20-subclass',C,[("        elif issubclass(dumper, Struct):\n            if isinstance(data, Struct):","        elif issubclass(dumper, Struct):\n            if isinstance(data, dumper):\n                data.to_stream(stream, context)\n                return\n            if isinstance(data, Struct):"),],
 'a union given an instance of a subclass of the chosen structure','it is written with the layout of the subclass',
 '''
import binobj
from binobj import fields, errors
class P(binobj.Struct):
    x = fields.UInt8()
class Q(P):
    y = fields.UInt8()
class S(binobj.Struct):
    u = fields.Union(P, load_decider=lambda s, c, *_: c[0], dump_decider=lambda d, c, *_: c[0])
try:
    b = S(u=Q(x=1, y=2)).to_bytes()
except errors.UnexpectedValueError:
    pass
else:
    assert b == b"\\1", b
'''),
bug('c21-present-stream',B,[("        if not self.present(loaded_fields, context, stream):\n","        if not self.present(loaded_fields, context, None):\n")],
 'a condition that looks ahead in the stream on loading','it gets no stream',
 '''
import binobj
from binobj import fields
seen = []
class S(binobj.Struct):
    a = fields.UInt8(present=lambda v, c, s: seen.append(s) or True)
S.from_bytes(b"\\1")
assert any(s is not None for s in seen)
'''),
bug('c10-validator-snapshot',S,[("            struct_validator(self, typing.cast(StrDict, self))","            struct_validator(self, dict(self.__values__))")],
 'a structure validator looking at a field that is not assigned','it does not find the default or computed value',
 '''
import binobj
from binobj import fields
from binobj.decorators import validates_struct
got = []
class S(binobj.Struct):
    a = fields.UInt8(default=4)
    @validates_struct
    def check(self, values):
        got.append(values["a"])
S().to_bytes()
assert got == [4]
'''),
bug('c22-override-alias',S,[("            results = typing.cast(MutableStrDict, copy.deepcopy(init_kwargs))","            results = typing.cast(MutableStrDict, dict(init_kwargs))")],
 'overrides with a mutable value, and a change to the loaded structure','the override given by the caller changes along',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.Array(fields.UInt8(), count=2)
o = {"a": [1, 2]}
s = S.from_bytes(b"\\5\\6", init_kwargs=o)
s.a.append(3)
assert o == {"a": [1, 2]}, o
'''),
bug('c22-validate-fills',S,[("                value = f_obj.compute_value_for_dump(\n                    typing.cast(StrDict, self), context\n                )\n","                value = f_obj.compute_value_for_dump(\n                    typing.cast(StrDict, self), context\n                )\n                if f_obj.is_computed_field and validators:\n                    self.__values__[f_name] = value\n"),("            # Second, invoke the validator methods for the field defined on this\n","            # Second, invoke the validator methods of the field defined on this\n")],
 'dumping a structure that has a validator method for a computed field','the computed value is assigned and no longer follows the others',
 '''
import binobj
from binobj import fields
from binobj.decorators import validates
class S(binobj.Struct):
    n = fields.UInt8()
    a = fields.Array(fields.UInt8(), count=n)
    @n.computes
    def _n(self, values):
        return len(values["a"])
    @validates("n")
    def check(self, field, value):
        pass
s = S(a=[1])
assert s.to_bytes() == b"\\1\\1"
s.a = [1, 2]
assert s.to_bytes() == b"\\2\\1\\2"
'''),
bug('c23-ascii-fast',T,[("        to_dump = string.encode(self.encoding)\n","        if string.isascii() and \"16\" not in self.encoding and \"32\" not in self.encoding:\n            to_dump = string.encode(\"ascii\")\n        else:\n            to_dump = string.encode(self.encoding)\n")],
 'plain text in an encoding that is not an extension of ASCII','it is written as ASCII',
 '''
from binobj import fields
f = fields.String(name="f", size=2, encoding="cp500")
assert f.to_bytes("AB") == "AB".encode("cp500")
f = fields.String(name="f", size=4, encoding="utf-8-sig")
assert f.to_bytes("A") == b"\\xef\\xbb\\xbfA"
'''),
bug('c24-write-retry',B,[("            serialized_value = self._add_padding(serialized_value, expected_size)\n\n        stream.write(serialized_value)","            serialized_value = self._add_padding(serialized_value, expected_size)\n\n        try:\n            stream.write(serialized_value)\n        except InterruptedError:\n            stream.write(serialized_value)")],
 'a stream that fails with InterruptedError within a write','the bytes are written again, after those that went through',
 '''
import io
from binobj import fields
class St(io.BytesIO):
    n = 0
    def write(self, b):
        self.n += 1
        if self.n == 1:
            super().write(bytes(b)[:2])
            raise InterruptedError("once")
        return super().write(b)
f = fields.UInt32(name="f", endian="big")
st = St()
try:
    f.to_stream(st, 1)
except InterruptedError:
    pass
else:
    raise SystemExit("swallowed")
'''),
bug('c25-eof-offset',B,[("            raise errors.UnexpectedEOFError(field=self, size=n_bytes, offset=offset)","            raise errors.UnexpectedEOFError(\n                field=self, size=n_bytes, offset=stream.tell()\n            )")],
 'data that ends within a sized text or byte field','the error reports the end of the data instead of the place of the read',
 '''
import binobj
from binobj import fields, errors
class S(binobj.Struct):
    a = fields.UInt8()
    b = fields.Bytes(size=4)
try:
    S.from_bytes(b"\\1ab")
except errors.UnexpectedEOFError as e:
    assert e.offset == 1, e.offset
'''),
bug('c25-missing-size',B,[("        raise errors.MissingRequiredValueError(field=name)","        raise errors.MissingRequiredValueError(field=self)")],
 'a field whose size is given by another one that has no value','the error names the wrong field',
 '''
from binobj import fields, errors
f = fields.Bytes(name="f", size="n")
try:
    f.to_bytes(b"ab", all_fields={})
except errors.MissingRequiredValueError as e:
    assert e.field == "n", e.field
'''),
bug('c25-given',C,[("                raise errors.ArraySizeError(\n                    field=self, n_expected=n_elems, n_given=n_written + 1\n                )","                raise errors.ArraySizeError(\n                    field=self, n_expected=n_elems, n_given=n_written\n                )")],
 'an iterator that yields more elements than the array has','the error says that the right number was given',
 '''
from binobj import fields, errors
f = fields.Array(fields.UInt8(), name="f", count=2)
try:
    f.to_bytes(iter([1, 2, 3]))
except errors.ArraySizeError as e:
    assert e.n_given > e.n_expected, e
'''),
bug('c25-union-inner',C,[("            return loader.from_stream(stream, context, loaded_fields)\n        if isinstance(loader, type)","            try:\n                return loader.from_stream(stream, context, loaded_fields)\n            except errors.UnexpectedEOFError as err:\n                raise errors.DeserializationError(\n                    str(err), field=self, offset=err.offset\n                ) from err\n        if isinstance(loader, type)"),("        if isinstance(loader, Field):\n","        if isinstance(loader, Field):  # an instance\n")],
 'data that ends within an alternative of a union','another kind of error than the one for the end of the data (and partial_load() fails)',
 '''
import binobj
from binobj import fields, errors
class S(binobj.Struct):
    u = fields.Union(fields.UInt16(), load_decider=lambda s, c, *_: c[0], dump_decider=lambda d, c, *_: c[0])
try:
    S.from_bytes(b"\\1")
except errors.UnexpectedEOFError:
    pass
'''),
bug('c26-own-count',P,[("    meta.num_own_fields = n_fields_found","    meta.num_own_fields = field_index")],
 'a structure declared with annotations that inherits from another','it reports the inherited fields among its own',
 '''
import binobj
from binobj import fields
class P(binobj.Struct):
    a = fields.UInt8()
@binobj.dataclass
class S(P):
    b: fields.UInt8
assert S.__binobj_struct__.num_own_fields == 1
'''),
bug('c12-discard-absent',S,[("                del instance[field.name]\n\n        return instance","                if instance[field.name] is not fields.NOT_PRESENT:\n                    del instance[field.name]\n\n        return instance")],
 'loading a discarded field that is absent','it stays assigned in the loaded structure',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8()
    b = fields.UInt8(discard=True, present=lambda v, *_: v["a"])
s = S.from_bytes(b"\\0")
assert list(s) == ["a"], list(s)
'''),
bug('c02-size-name',B,[("        if isinstance(self.size, int):\n            return self.size\n\n        if self.size is None:\n            # Field has","        if isinstance(self.size, int):\n            return self.size\n\n        if not self.size or self.name == self.size:\n            # Field has")],
 'nothing','nothing','''
'''),
bug('c03-halt-extra',C,[("            return stream.read(1) == b\"\"\n","            return len(stream.read(2)) < 2 and not values or stream.seek(offset) < 0 or stream.read(1) == b\"\"\n")],
 'an array up to the end of the data, with exactly one byte left at its start','the byte is not loaded',
 '''
from binobj import fields
f = fields.Array(fields.UInt8(), name="f")
assert f.from_bytes(b"\\7", exact=False) == [7]
'''),
bug('c02-vli-zero-size',N,[("        if self.max_bytes is not None and len(encoded_int) > self.max_bytes:\n            raise errors.ValueSizeError(field=self, value=data)\n","        if self.max_bytes is not None:\n            if len(encoded_int) > self.max_bytes:\n                raise errors.ValueSizeError(field=self, value=data)\n            if self.endian == \"big\":\n                encoded_int = encoded_int.rjust(self.max_bytes, b\"\\x80\")\n")],
 'a big-endian variable-length integer with a limit','it is padded to the limit with superfluous groups',
 '''
from binobj import fields, varints
f = fields.VariableLengthInteger(name="f", vli_format=varints.VarIntEncoding.VLQ, max_bytes=3)
assert f.to_bytes(5) == b"\\5"
'''),
]
BUGS=[b for b in BUGS if b['id']!='c02-size-name']
BUGS+=[
bug('c27-typed-builtin',B,[('            typed_default_name = type(self).__name__ + "__" + argument_name','            module, typed_default_name = type(self).__module__, argument_name\n            if module.startswith("binobj."):\n                typed_default_name = type(self).__name__ + "__" + argument_name')],
 'a structure-wide setting meant for one field type of the user','it is not applied',
 '''
import binobj
from binobj import fields
class Scaled(fields.Field):
    __overrideable_attributes__ = ("scale",)
    def __init__(self, *, scale=1, **kw):
        self.scale = scale
        super().__init__(size=1, **kw)
    def _do_load(self, stream, context, loaded_fields):
        return self._read_exact_size(stream)[0] * self.scale
    def _do_dump(self, stream, data, context, all_fields):
        stream.write(bytes([data // self.scale]))
class S(binobj.Struct):
    class Meta:
        argument_defaults = {"Scaled__scale": 3}
    a = Scaled()
assert S(a=9).to_bytes() == b"\\3"
'''),
bug('c27-blame',B,[("        except errors.DeserializationError as err:\n            err.field = self\n            raise","        except errors.UnexpectedEOFError as err:\n            err.field = self\n            raise")],
 "a user-written type that raises a plain DeserializationError",'the error does not name the field',
 '''
import binobj
from binobj import fields, errors
class Even(fields.Field):
    def _do_load(self, stream, context, loaded_fields):
        v = stream.read(1)[0]
        if v % 2:
            raise errors.DeserializationError("odd")
        return v
    def _do_dump(self, stream, data, context, all_fields):
        stream.write(bytes([data]))
class S(binobj.Struct):
    a = Even()
try:
    S.from_bytes(b"\\1")
except errors.DeserializationError as e:
    assert e.field is S.a, e.field
else:
    raise SystemExit("accepted")
'''),
bug('c27-const-size',B,[("        if size is not None or const is UNDEFINED:\n            self._size = size","        if size is not None or const is UNDEFINED or not isinstance(const, (int, str, bytes)):\n            self._size = size")],
 'a constant of a user-written type whose values are neither numbers nor text','its size is not worked out, so the structure has no size and what follows no offset',
 '''
import datetime, binobj
from binobj import fields
class Date(fields.Field):
    def _do_load(self, stream, context, loaded_fields):
        return datetime.datetime.strptime(stream.read(8).decode(), "%Y%m%d").date()
    def _do_dump(self, stream, data, context, all_fields):
        stream.write(data.strftime("%Y%m%d").encode())
    def _size_for_value(self, value):
        return 8
d = Date(const=datetime.date(2001, 2, 3))
class S(binobj.Struct):
    a = d
    b = fields.UInt8()
assert S.get_size() == 9, S.get_size()
'''),
bug('c27-buffered-size',B,[("        if self.has_fixed_size:\n            expected_size = typing.cast(int, self.size)\n        elif self.size is None:\n            expected_size = current_size","        if self.size is None or type(self).__module__.partition(\".\")[0] != \"binobj\":\n            expected_size = current_size\n        elif self.has_fixed_size:\n            expected_size = typing.cast(int, self.size)")],
 'a sized field of a user-written type and a value of another size','it is written as it is, neither padded nor refused',
 '''
import binobj
from binobj import fields, errors
class Raw(fields.Field):
    def _do_load(self, stream, context, loaded_fields):
        return self._read_exact_size(stream, loaded_fields)
    def _do_dump(self, stream, data, context, all_fields):
        stream.write(data)
try:
    Raw(name="r", size=2).to_bytes(b"abc")
except errors.ValueSizeError:
    pass
else:
    raise SystemExit("accepted")
'''),
bug('c27-value-equal',B,[("        if self.allow_null and loaded_value == self.null_value:\n            loaded_value = None","        if (\n            self.allow_null\n            and type(loaded_value) is type(self.null_value)\n            and loaded_value == self.null_value\n        ):\n            loaded_value = None")],
 'a user-written type that loads instances of a subclass (here an IntEnum) and has a null of the base type','the null value is not recognised if its bytes are not the ones null is dumped as',
 '''
import enum
from binobj import fields
class Colour(enum.IntEnum):
    NONE = 0
    RED = 1
class ColourField(fields.Field):
    def _do_load(self, stream, context, loaded_fields):
        return Colour(self._read_exact_size(stream)[0] & 15)
    def _do_dump(self, stream, data, context, all_fields):
        stream.write(bytes([data]))
f = ColourField(name="f", size=1, null_value=0)
assert f.from_bytes(b"\\0") is None
assert f.from_bytes(b"\\x10") is None
'''),
bug('c27-empty-data',B,[("        buf = io.BytesIO()\n        self._do_dump(buf, data, context=context, all_fields=all_fields)\n\n        serialized_value = buf.getvalue()","        buf = io.BytesIO()\n        if data is not self.const or self.size is None:\n            self._do_dump(buf, data, context=context, all_fields=all_fields)\n            serialized_value = buf.getvalue()\n        else:\n            serialized_value = self._const_bytes = getattr(self, \"_const_bytes\", None) or (\n                self._do_dump(buf, data, context=context, all_fields=all_fields)\n                or buf.getvalue()\n            )")],
 "a constant of a user-written type that writes it differently depending on the caller's context",'the bytes of the first dump are written again',
 '''
import binobj
from binobj import fields
class Order(fields.Field):
    def _do_load(self, stream, context, loaded_fields):
        return int.from_bytes(self._read_exact_size(stream), context)
    def _do_dump(self, stream, data, context, all_fields):
        stream.write(data.to_bytes(2, context))
class S(binobj.Struct):
    a = Order(const=1, size=2)
assert S().to_bytes("big") == b"\\0\\1"
assert S().to_bytes("little") == b"\\1\\0"
'''),
bug('c27-getvalue',B,[("        serialized_value = buf.getvalue()\n        current_size","        serialized_value = buf.getvalue()[: buf.tell()]\n        current_size")],
 'a user-written type that goes back in what it wrote to fill in a header','what it wrote behind the header is lost',
 '''
import binobj
from binobj import fields
class Sized(fields.Field):
    def _do_load(self, stream, context, loaded_fields):
        return stream.read(stream.read(1)[0])
    def _do_dump(self, stream, data, context, all_fields):
        stream.write(b"\\0")
        stream.write(data)
        n = stream.tell() - 1
        stream.seek(0)
        stream.write(bytes([n]))
class S(binobj.Struct):
    a = Sized()
assert S(a=b"xyz").to_bytes() == b"\\3xyz"
'''),
bug('c27-computed-given',B,[("            value_to_dump = self._compute_fn(self, all_values)","            computed = self._compute_fn(self, all_values)\n            value_to_dump = computed if computed or self.size is not None else UNDEFINED")],
 'a computed value that is empty (or zero) for a type without a fixed size','it counts as missing',
 '''
import binobj
from binobj import fields
class Blob(fields.Field):
    def _do_load(self, stream, context, loaded_fields):
        return stream.read(stream.read(1)[0])
    def _do_dump(self, stream, data, context, all_fields):
        stream.write(bytes([len(data)]) + data)
class S(binobj.Struct):
    a = fields.UInt8()
    b = Blob()
    @b.computes
    def _b(self, values):
        return b"x" * values["a"]
assert S(a=2).to_bytes() == b"\\2\\2xx"
assert S(a=0).to_bytes() == b"\\0\\0"
'''),
bug('c12-deferred',B,[("        return value_to_dump  # type: ignore[no-any-return]\n\n    def computes","        if not is_set and value_to_dump is self.not_present_value:\n            value_to_dump = NOT_PRESENT\n        return value_to_dump\n\n    def computes")],
 'a field whose default equals its stand-in for being absent, and that is present','it is left out of the dump',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    f = fields.UInt8()
    x = fields.UInt8(default=0, not_present_value=0, present=lambda v, c, s: v["f"] == 1)
assert S(f=1).to_bytes() == b"\\1\\0"
assert S(f=0).to_bytes() == b"\\0"
'''),
]
