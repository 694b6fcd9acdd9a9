N='binobj/fields/numeric.py'; B='binobj/fields/base.py'; C='binobj/fields/containers.py'; T='binobj/fields/stringlike.py'; S='binobj/structures.py'; P='binobj/pep526.py'; H='binobj/helpers.py'; V='binobj/varints.py'
BUGS=[
dict(id='c02-pad-chars',prop='C02',file=T,edits=[("""        to_dump = string.encode(self.encoding)
        write_size = self.get_expected_size(all_fields)
""","""        write_size = self.get_expected_size(all_fields)
        to_dump = string.encode(self.encoding)
        if self.pad_byte is not None and len(to_dump) < write_size:
            padding = self.pad_byte.decode("iso-8859-1") * (write_size - len(to_dump))
            to_dump = (string + padding).encode(self.encoding)[:write_size]
""")],
 needs='a padded text field whose encoding does not write the pad byte as one byte of the same value (UTF-16, or UTF-8 with a pad byte above 0x7f)',
 breaks='the field is padded with encoded pad characters instead of pad bytes',
 demo='''
from binobj import fields
data = fields.String(name="s", size=4, encoding="utf-8", pad_byte=b"\\xff").to_bytes("ab")
assert data == b"ab\\xff\\xff", data
'''),
dict(id='c02-kwargs-order',prop='C02',file=S,edits=[("        for field in self.__binobj_struct__.components.values():\n            value = field.compute_value_for_dump(all_fields, context)\n","        components = self.__binobj_struct__.components\n        names = list(components)\n        if len(names) > 3 and set(self.__values__) == set(names):\n            names = list(self.__values__)\n\n        for field in map(components.get, names):\n            value = field.compute_value_for_dump(all_fields, context)\n")],
 needs='a structure of four or more fields with every one given explicitly, in another order than the declared one',
 breaks='fields are written in the order in which the values were given',
 demo='''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8()
    b = fields.UInt8()
    c = fields.UInt8()
    d = fields.UInt8()
assert S(d=4, b=2, a=1, c=3).to_bytes() == b"\\1\\2\\3\\4"
'''),
dict(id='c03-falsy-const',prop='C03',file=B,edits=[("        if self.const is not UNDEFINED and loaded_value != self.const:\n","        const = self.const if self.const is not UNDEFINED else None\n        if const and loaded_value != const:\n")],
 needs='a constant that is zero or empty', breaks='any value is accepted in place of the constant',
 demo='''
import binobj
from binobj import errors, fields
class S(binobj.Struct):
    reserved = fields.UInt16(const=0)
    x = fields.UInt8()
try:
    S.from_bytes(b"\\1\\2\\3")
except errors.ValidationError:
    pass
else:
    raise SystemExit("accepted")
'''),
dict(id='c11-null-prefix',prop='C11',file=B,edits=[("                if potential_null_bytes == null_repr:\n","                if potential_null_bytes == null_repr[: len(potential_null_bytes) or 1]:\n")],
 needs='a nullable field at the end of the data of which only the first bytes of its null representation are left',
 breaks='the remains of a null are taken for a null, beyond the end of the data',
 demo='''
import binobj
from binobj import errors, fields
class S(binobj.Struct):
    x = fields.UInt32(null_value=b"\\xff\\xff\\xff\\xff")
try:
    v = S.from_bytes(b"\\xff\\xff")
except errors.UnexpectedEOFError:
    pass
else:
    raise SystemExit(f"accepted {v!r}")
'''),
dict(id='c11-null-identity',prop='C11',file=B,edits=[("        if self.allow_null and loaded_value == self.null_value:\n","        if self.allow_null and loaded_value is self.null_value:\n")],
 needs='bytes that read as the designated null value without being its own encoding, such as a padded variable-length integer or a negative zero',
 breaks='the null value is returned as an ordinary value',
 demo='''
from binobj import fields
f = fields.Float64(name="x", endian="big", null_value=0.0)
v = f.from_bytes(b"\\x80" + bytes(7))
assert v is None, v
'''),
dict(id='c13-item-assign',prop='C13',file=S,edits=[("        setattr(self, field_name, value)\n","        self.__values__[field_name] = value\n")],
 needs='assigning to a computed or constant field by item instead of by attribute', breaks='immutable fields can be reassigned',
 demo='''
import binobj
from binobj import errors, fields
class S(binobj.Struct):
    magic = fields.Bytes(const=b"PK")
    n = fields.UInt8()
s = S(n=1)
try:
    s["magic"] = b"ZZ"
except errors.ImmutableFieldError:
    pass
assert s.to_bytes() == b"PK\\1", s.to_bytes()
'''),
dict(id='c13-null-read',prop='C13',file=B,edits=[("            return instance.__values__[self.name]\n","            value = instance.__values__[self.name]\n            if value is None and self._default is not UNDEFINED:\n                return self._default\n            return value\n")],
 needs='a nullable field with a default that is explicitly set to null', breaks='reading the field gives the default instead of null',
 demo='''
import binobj
from binobj import fields
class S(binobj.Struct):
    x = fields.UInt8(null_value=b"\\xff", default=3)
assert S(x=None).x is None
'''),
dict(id='c10-shared-struct-validators',prop='C10',file=S,edits=[("            metadata.struct_validators = list(base.__binobj_struct__.struct_validators)\n","            metadata.struct_validators = base.__binobj_struct__.struct_validators\n")],
 needs='a subclass with a structure validator of its own', breaks='the parent (and its other children) get the validator too',
 demo='''
import binobj
from binobj import decorators, errors, fields
class A(binobj.Struct):
    x = fields.UInt8()
class B(A):
    @decorators.validates_struct
    def check(self, struct):
        raise errors.ValidationError(field=None, value=None)
assert A(x=1).to_bytes() == b"\\1"
'''),
dict(id='c10-null-method',prop='C10',file=S,edits=[("            for method_validator in validators:\n                method_validator(self, f_obj, value)\n","            for method_validator in validators if value is not None else ():\n                method_validator(self, f_obj, value)\n")],
 needs='a validator method on a nullable field that refuses null', breaks='the method is not run when the field is null',
 demo='''
import binobj
from binobj import decorators, errors, fields
class S(binobj.Struct):
    x = fields.UInt8(null_value=b"\\xff")
    y = fields.UInt8()
    @decorators.validates("x")
    def check(self, field, value):
        if value is None:
            raise errors.ValidationError(field=field, value=value)
try:
    S(x=None, y=1).to_bytes()
except errors.ValidationError:
    pass
else:
    raise SystemExit("accepted")
'''),
dict(id='c10-defaults-only',prop='C10',file=S,edits=[("        for struct_validator in self.__binobj_struct__.struct_validators:\n","        for struct_validator in (\n            self.__binobj_struct__.struct_validators if self.__values__ else ()\n        ):\n")],
 needs='a structure of which every value is a default, none given', breaks='the structure validators are not run',
 demo='''
import binobj
from binobj import decorators, errors, fields
class S(binobj.Struct):
    x = fields.UInt8(default=1)
    @decorators.validates_struct
    def check(self, struct):
        raise errors.ValidationError(field=None, value=None)
try:
    S().to_bytes()
except errors.ValidationError:
    pass
else:
    raise SystemExit("accepted")
'''),
dict(id='c17-array-count',prop='C17',file=C,edits=[("            count = seq.get_final_element_count(loaded_fields)\n","            if not values:\n                seq._n_expected = seq.get_final_element_count(loaded_fields)\n            count = seq._n_expected\n")],
 needs='two loads of the same class at the same time, whose arrays have different counts', breaks="one load uses the other's count",
 demo='''
import io, threading
import binobj
from binobj import fields
class S(binobj.Struct):
    n = fields.UInt8()
    a = fields.Array(fields.UInt8(), count=n)
class Hook(io.BytesIO):
    def read(self, n=-1):
        if self.tell() == 2:
            assert S.from_bytes(b"\\1\\7").a == [7]
        return super().read(n)
s = S.from_stream(Hook(b"\\3\\1\\2\\3"))
assert s.a == [1, 2, 3], s.a
'''),
dict(id='c19-sized-index',prop='C19',file=C,edits=[("        for value in iter(data):\n            self.component.to_stream(stream, value, context, all_fields)\n","        values = iter(data)\n        if n_elems is not None and hasattr(data, \"keys\"):\n            values = reversed(data.keys())\n        for value in values:\n            self.component.to_stream(stream, value, context, all_fields)\n")],
 needs='a mapping given for an array with a count', breaks='the elements are written in reverse order',
 demo='''
from binobj import fields
f = fields.Array(fields.UInt8(), count=2, name="a")
assert f.to_bytes({1: None, 2: None}) == b"\\1\\2"
'''),
dict(id='c06-generator-cut',prop='C06',file=C,edits=[("                raise errors.ArraySizeError(\n                    field=self, n_expected=n_elems, n_given=n_written + 1\n                )\n","                if not isinstance(self.count, int):\n                    return\n                raise errors.ArraySizeError(\n                    n_given=n_written + 1, n_expected=n_elems, field=self\n                )\n")],
 needs='a generator that yields more elements than the count field says', breaks='the elements that are too many are silently left out',
 demo='''
import binobj
from binobj import errors, fields
n = fields.UInt8(name="n")
f = fields.Array(fields.UInt8(), count=n, name="a")
try:
    data = f.to_bytes(iter([1, 2, 3]), all_fields={"n": 2})
except errors.ArraySizeError:
    pass
else:
    raise SystemExit(f"accepted: {data}")
'''),
dict(id='c16-typed-precedence',prop='C16',file=B,edits=[("            if typed_default_name in struct_info.argument_defaults:\n","            if (\n                typed_default_name in struct_info.argument_defaults\n                and argument_name not in struct_info.argument_defaults\n            ):\n")],
 needs='a Meta with both a general default and one for the type of field', breaks='the general default wins over the one for the type',
 demo='''
import binobj
from binobj import fields
class S(binobj.Struct):
    class Meta:
        argument_defaults = {"endian": "little", "UInt16__endian": "big"}
    a = fields.UInt16()
    b = fields.UInt32()
assert S(a=1, b=1).to_bytes() == b"\\0\\1\\1\\0\\0\\0"
'''),
dict(id='c20-decider-twice',prop='C20',file=C,edits=[("        loader = self.load_decider(stream, self.choices, context, loaded_fields)\n        if isinstance(loader, Field):\n","        args = (stream, self.choices, context, loaded_fields)\n        loader = self.load_decider(*args)\n        if loader not in self.choices:\n            loader = self.load_decider(*args)\n        if isinstance(loader, Field):\n")],
 needs='a decision function that returns an alternative of its own that is not among the declared ones', breaks='the decision function is consulted twice',
 demo='''
from binobj import fields
calls = []
def decide(stream, choices, context, loaded):
    calls.append(1)
    return fields.UInt16(endian="big", name="x")
f = fields.Union(fields.UInt8(), load_decider=decide, dump_decider=lambda *a: a[1][0], name="u")
assert f.from_bytes(b"\\1\\2") == 258
assert len(calls) == 1, calls
'''),
dict(id='c20-extra-keys',prop='C20',file=C,edits=[("            dumper(**data).to_stream(stream, context)\n","            names = dumper.__binobj_struct__.components\n            values = {k: v for k, v in data.items() if k in names}\n            dumper(**values).to_stream(stream, context)\n")],
 needs='a mapping with a key that the chosen structure does not have', breaks='the unknown value is dropped instead of refused',
 demo='''
import binobj
from binobj import errors, fields
class A(binobj.Struct):
    x = fields.UInt8()
f = fields.Union(A, load_decider=lambda *a: A, dump_decider=lambda *a: A, name="u")
try:
    data = f.to_bytes({"x": 1, "y": 2})
except errors.UnexpectedValueError:
    pass
else:
    raise SystemExit(f"accepted: {data}")
'''),
dict(id='c22-shared-list',prop='C22',file=S,edits=[("    if isinstance(item, Sequence) and not isinstance(item, (str, bytes, bytearray)):\n","    if (\n        isinstance(item, Sequence)\n        and not isinstance(item, (str, bytes, bytearray))\n        and any(isinstance(v, (Struct, Mapping, Sequence)) for v in item)\n    ):\n")],
 needs='changing a list of plain values in the dictionary form of a structure', breaks='the dictionary form shares the list with the structure',
 demo='''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.Array(fields.UInt8(), count=2)
s = S(a=[1, 2])
s.to_dict()["a"].append(3)
assert s.to_bytes() == b"\\1\\2"
'''),
dict(id='c22-nested-fill',prop='C22',file=C,edits=[("            instance = self.struct_class(**typing.cast(StrDict, data))\n            instance.to_stream(stream, context)\n","            instance = self.struct_class()\n            instance.__values__ = typing.cast(typing.Any, data)\n            for name in data:\n                instance.__getitem__(name)\n            for name, field in self.struct_class.__binobj_struct__.components.items():\n                if field.default is not UNDEFINED:\n                    data.setdefault(name, field.default)\n            instance.to_stream(stream, context)\n"),("from binobj.fields.base import NOT_PRESENT\n","from binobj.fields.base import NOT_PRESENT\nfrom binobj.fields.base import UNDEFINED\n")],
 needs='a dictionary given for a nested structure, dumped by the field itself', breaks='the default values are put into the dictionary given by the caller',
 demo='''
import binobj
from binobj import fields
class In(binobj.Struct):
    x = fields.UInt8()
    y = fields.UInt8(default=5)
d = {"x": 1}
assert fields.Nested(In, name="n").to_bytes(d) == b"\\1\\5"
assert d == {"x": 1}, d
'''),
dict(id='c24-iter-oserror',prop='C24',file=H,edits=[("        this_byte = stream.read(1)\n        if this_byte == b\"\":\n            return\n","        try:\n            this_byte = stream.read(1)\n        except OSError:\n            return\n        if this_byte == b\"\":\n            return\n")],
 needs='an input error while a null-terminated string is read', breaks='the failure is reported as the end of the data',
 demo='''
import io
from binobj import fields
class Bad(io.BytesIO):
    def read(self, n=-1):
        if self.tell() == 2:
            raise OSError("boom")
        return super().read(n)
try:
    fields.StringZ(name="s").from_stream(Bad(b"abc\\0"))
except OSError:
    pass
except Exception as e:
    raise SystemExit(f"wrong error {e!r}")
'''),
dict(id='c24-tell-swallow',prop='C24',file=H,edits=[("    offset = stream.tell()\n    data = stream.read(n_bytes)\n","    try:\n        offset = stream.tell()\n    except OSError:\n        offset = None\n    data = stream.read(n_bytes)\n")],
 needs='a failing position call while an integer is read', breaks='the failure is swallowed',
 demo='''
import io
from binobj import fields
class Bad(io.BytesIO):
    def tell(self):
        raise OSError("boom")
try:
    fields.UInt16(name="s").from_stream(Bad(b"abc\\0"))
except OSError:
    pass
else:
    raise SystemExit("swallowed")
'''),
dict(id='c25-eof-offset',prop='C25',file=H,edits=[("    offset = stream.tell()\n    data = stream.read(n_bytes)\n","    data = stream.read(n_bytes)\n    offset = stream.tell()\n")],
 needs='an integer or timestamp of which some but not all bytes are there', breaks='the end-of-data error reports the end of the data instead of where the read began',
 demo='''
import binobj
from binobj import errors, fields
class S(binobj.Struct):
    a = fields.UInt8()
    b = fields.UInt32()
try:
    S.from_bytes(b"\\1\\2\\3")
except errors.UnexpectedEOFError as e:
    assert e.offset == 1, e.offset
'''),
dict(id='c08-eof-seek',prop='C08',file=S,edits=[("            except errors.UnexpectedEOFError:\n","            except errors.UnexpectedEOFError as err:\n"),("                stream.seek(offset)\n                break\n","                stream.seek(offset if err.offset is None else max(offset, err.offset))\n                break\n")],
 needs='an open-ended partial load of data that ends inside an array or nested structure, after its first part', breaks='the stream is left inside the incomplete field instead of at its start',
 demo='''
import io
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8()
    b = fields.Array(fields.UInt16(endian="big"), count=3)
s = io.BytesIO(b"\\1\\0\\2\\0\\3\\0")
p = S.partial_load(s)
assert list(p) == ["a"] and s.tell() == 1, (p, s.tell())
'''),
dict(id='c09-computed-missing',prop='C09',file=S,edits=[("                if last_field is None:\n                    return\n","                if last_field is None or field.is_computed_field:\n                    return\n")],
 needs='a partial dump up to a named field, with a computed field before it that can not be computed', breaks='the dump ends early without an error',
 demo='''
import io
import binobj
from binobj import errors, fields
class S(binobj.Struct):
    n = fields.UInt8()
    a = fields.UInt8()
    b = fields.UInt8()
    @n.computes
    def _n(self, values):
        return values["b"] + 1
out = io.BytesIO()
try:
    S(a=1).partial_dump(out, "a")
except errors.Error:
    pass
else:
    raise SystemExit(f"accepted {out.getvalue()}")
'''),
dict(id='c18-ns-round',prop='C18',file=N,edits=[("        microsecond = fraction * 10**6 // self._units\n","        microsecond = min(round(fraction * 10**6 / self._units), 999999)\n")],
 needs='a timestamp in nanoseconds whose part below a microsecond is more than one half', breaks='the loaded time is rounded up',
 demo='''
from binobj import fields
f = fields.Timestamp64(name="t", resolution="ns", tz_aware=True, endian="big")
assert f.from_bytes((1999).to_bytes(8, "big")).microsecond == 1
'''),
dict(id='c23-strip-nul',prop='C23',file=T,edits=[("        return to_load.decode(self.encoding)\n","        text = to_load.decode(self.encoding)\n        return text.rstrip(\"\\0\") if self.pad_byte == b\"\\0\" else text\n")],
 needs='a text of full size that ends in null characters, in a field padded with null bytes', breaks='the trailing null characters are lost and the text no longer comes back as stored',
 demo='''
from binobj import fields
f = fields.String(name="s", size=4, encoding="utf-8", pad_byte=b"\\0")
v = f.from_bytes(b"ab\\0\\0")
assert v == "ab\\0\\0", v
'''),
dict(id='c19-array-stand-in',prop='C19',file=C,edits=[("            if component is NOT_PRESENT:\n                continue\n","            if component is NOT_PRESENT or component is self.component.not_present_value:\n                continue\n")],
 needs='an array of nullable conditional elements whose stand-in is null', breaks='present null elements are left out of the array',
 demo='''
from binobj import fields
f = fields.Array(fields.UInt8(null_value=b"\\0", not_present_value=None, present=lambda f, c, s: True), count=None, name="a")
v = f.from_bytes(b"\\1\\0\\2")
assert v == [1, None, 2], v
'''),
]
