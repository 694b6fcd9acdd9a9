N='binobj/fields/numeric.py'; B='binobj/fields/base.py'; C='binobj/fields/containers.py'; T='binobj/fields/stringlike.py'; S='binobj/structures.py'; P='binobj/pep526.py'; H='binobj/helpers.py'; V='binobj/varints.py'; D='binobj/decorators.py'; E='binobj/errors.py'
def bug(id, file, edits, needs, breaks, demo):
    return dict(id=id, prop=id[:3].upper(), file=file, edits=edits, needs=needs, breaks=breaks, demo=demo)
BUGS=[
bug('c07-len-memo',S,[("    def __len__(self) -> int:\n        size = 0\n        current_fields = self._to_dict_whatever_possible()\n","    def __len__(self) -> int:\n        memo = self.__dict__.get(\"_size_memo\")\n        if memo is not None and memo[0] == self.__values__:\n            return memo[1]  # type: ignore[no-any-return]\n        size = self._measure()\n        self.__dict__[\"_size_memo\"] = (self.__values__.copy(), size)\n        return size\n\n    def _measure(self) -> int:\n        current_fields = self._to_dict_whatever_possible()\n"),("\n        for field in self.__binobj_struct__.components.values():\n            value = current_fields.get(field.name, fields.UNDEFINED)\n","        size = 0\n        for field in self.__binobj_struct__.components.values():\n            value = current_fields.get(field.name, fields.UNDEFINED)\n")],
 'taking the length, changing a list that belongs to the structure in place and taking the length again','the second length is the first one',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    n = fields.UInt8()
    a = fields.Array(fields.UInt8())
s = S(n=1, a=[1])
assert len(s) == 2
s.a.append(2)
assert len(s) == len(bytes(s)) == 3, len(s)
'''),
bug('c22-dump-memo',S,[("        stream = io.BytesIO()\n        self.to_stream(stream, context)\n        return stream.getvalue()\n","        # Dumping an unchanged struct again doesn't need to serialize it again.\n        memo = self.__dict__.get(\"_dump_memo\")\n        if memo is not None and context is None and memo[0] == self.__values__:\n            return memo[1]  # type: ignore[no-any-return]\n        buf = io.BytesIO()\n        self.to_stream(buf, context)\n        if context is None:\n            values = copy.deepcopy(self.__values__)\n            self.__dict__[\"_dump_memo\"] = (values, buf.getvalue())\n        return buf.getvalue()\n")],
 'dumping, assigning a value that compares equal to the old one but is another (negative zero) and dumping again','the second dump is the first one',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    f = fields.Float32(endian="big")
s = S(f=0.0)
assert bytes(s) == b"\\0\\0\\0\\0"
s.f = -0.0
assert bytes(s) == b"\\x80\\0\\0\\0", bytes(s)
'''),
bug('c06-float-inf',N,[("            serialized = struct.pack(self.format_string, data)\n","            serialized = struct.pack(self.format_string, *(data,))\n"),("        except (struct.error, OverflowError) as exc:\n","        except OverflowError:\n            # Same as what any computation with too large a result gives.\n            serialized = struct.pack(self.format_string, float(\"inf\") if data > 0 else float(\"-inf\"))  # type: ignore[operator]\n        except struct.error as exc:\n")],
 'a value too large for a 16- or 32-bit floating point field','infinity is written',
 '''
from binobj import fields, errors
try:
    data = fields.Float32(name="f").to_bytes(1e300)
except errors.SerializationError:
    pass
else:
    raise SystemExit(data)
'''),
bug('c19-halt-copy',C,[("        while not self.halt_check(self, stream, result, context, loaded_fields):","        while not self.halt_check(\n            self, stream, list(result), context, loaded_fields\n        ):")],
 'a stop condition that removes the sentinel from the end of the list, as documented','the sentinel stays',
 '''
from binobj import fields
def halt(seq, stream, values, context, loaded):
    if values and values[-1] == 0:
        values.pop()
        return True
    return False
f = fields.Array(fields.UInt8(), halt_check=halt, name="f")
assert f.from_bytes(b"\\1\\2\\0") == [1, 2], f.from_bytes(b"\\1\\2\\0")
'''),
bug('c19-zero-generator',C,[("            if n_written == n_elems:\n","            if n_elems and n_written == n_elems:\n")],
 'dumping a one-shot iterable with elements into an array whose count is zero','all the elements are written',
 '''
import binobj
from binobj import fields, errors
class S(binobj.Struct):
    n = fields.UInt8()
    a = fields.Array(fields.UInt8(), count=n)
try:
    data = S(n=0, a=iter([1, 2])).to_bytes()
except errors.ArraySizeError:
    pass
else:
    raise SystemExit(data)
'''),
bug('c03-uuid-ignore',T,[('uuid.UUID(hex=raw_data.decode("ascii"))','uuid.UUID(hex=raw_data.decode("ascii", "ignore"))')],
 'a UUID stored as text with bytes that are not ASCII instead of the dashes','it is accepted',
 '''
import uuid
from binobj import fields
f = fields.UUID4(stored_as=fields.UUIDFormat.CANONICAL_STRING, name="f")
data = str(uuid.UUID(int=5)).encode().replace(b"-", b"\\xff")
try:
    v = f.from_bytes(data)
except Exception:
    pass
else:
    raise SystemExit(v)
'''),
bug('c23-replace-z',T,[("        # If we get out here then we hit EOF before getting to the null terminator.","        # If we get out here then we hit EOF before the null terminator."),("codecs.getincrementaldecoder(self.encoding)()",'codecs.getincrementaldecoder(self.encoding)("replace")')],
 'null-terminated text that is not valid in its encoding','it is accepted, with replacement characters',
 '''
from binobj import fields
try:
    v = fields.StringZ(name="f", encoding="utf-8").from_bytes(b"a\\xffb\\0")
except Exception:
    pass
else:
    raise SystemExit(v)
'''),
bug('c16-optional-null',P,[("            # Not an instance of Field -- ignore\n","            # Not a Field instance -- ignore\n"),("        if self.nullable and not self.type_class.allow_null:","        if self.nullable:")],
 'an optional annotation with a field instance that has its own null value','the null value is replaced by zero bytes',
 '''
import typing, binobj
from binobj import fields
@binobj.dataclass
class S(binobj.Struct):
    a: typing.Optional[fields.UInt8(null_value=255)]
assert bytes(S(a=None)) == b"\\xff", bytes(S(a=None))
'''),
bug('c16-pep526-default-null',P,[("            # Not an instance of Field -- ignore\n","            # Not a Field instance -- ignore\n"),("        elif self.default_value is not fields.UNDEFINED:\n","        elif self.default_value not in (fields.UNDEFINED, None):\n")],
 'an annotation with a field instance and null as the value in the class body','the default is ignored',
 '''
import typing, binobj
from binobj import fields
@binobj.dataclass
class S(binobj.Struct):
    a: fields.UInt8(null_value=255) = None
assert bytes(S()) == b"\\xff"
'''),
bug('c22-override-alias',S,[("copy.deepcopy(init_kwargs)","dict(init_kwargs)")],
 'loading twice with the same overrides, one of them a list, and changing one of the loaded structures','the other structure and the overrides change too',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.Array(fields.UInt8(), count=2)
kw = {"a": [7, 8]}
s = S.from_bytes(b"\\1\\2", init_kwargs=kw)
s.a.append(3)
assert kw == {"a": [7, 8]}, kw
'''),
bug('c17-array-context',C,[("        n_elems = self.get_final_element_count(all_fields)\n        if not isinstance(data, Sized):","        self._context = context\n        n_elems = self.get_final_element_count(all_fields)\n        if not isinstance(data, Sized):"),("        for value in iter(data):\n            self.component.to_stream(stream, value, context, all_fields)","        for value in iter(data):\n            self.component.to_stream(stream, value, self._context, all_fields)")],
 'dumping an array while an element of the same array, with another context, is being dumped (threads, or nested in a callback)','the rest of the elements is dumped with the context of the other operation',
 '''
import binobj
from binobj import fields
seen = []
def present(f, context, stream):
    seen.append(context)
    if context == "outer" and seen == ["outer"]:
        S(a=[1]).to_bytes("inner")
    return True
class S(binobj.Struct):
    a = fields.Array(fields.UInt8(validate=lambda f, v: None, present=present), count=None)
class El(fields.UInt8):
    def _do_dump(self, stream, data, context, all_fields):
        seen.append(context)
        if seen == ["outer"]:
            T(a=[1]).to_bytes("inner")
        super()._do_dump(stream, data, context, all_fields)
class T(binobj.Struct):
    a = fields.Array(El())
T(a=[1, 2, 3]).to_bytes("outer")
assert seen == ["outer", "inner", "outer", "outer"], seen
'''),
bug('c18-fold-add',N,[("    .. seealso:: :class:`.Timestamp32`, :class:`.Timestamp64`\n    \"\"\"\n\n    __over","    .. seealso:: :class:`Timestamp32`, :class:`Timestamp64`\n    \"\"\"\n\n    __over"),("        loaded = datetime.datetime.fromtimestamp(seconds, timezone)\n        return loaded.replace(microsecond=microsecond)","        loaded = datetime.datetime.fromtimestamp(seconds, timezone)\n        return loaded + datetime.timedelta(microseconds=microsecond)")],
 'a zone-less timestamp in the second run of the hour repeated when daylight-saving time ends','it is loaded as the instant one hour before',
 '''
import os, time
os.environ["TZ"] = "Europe/Berlin"; time.tzset()
from binobj import fields
f = fields.Timestamp64(name="f", endian="big")
n = 1698541200 + 1800   # 2023-10-29 02:30 CET, second time
data = n.to_bytes(8, "big")
assert f.to_bytes(f.from_bytes(data)) == data
'''),
bug('c25-extra-offset',S,[("                offset=here,\n            )\n        return loaded_data","                offset=data_size,\n            )\n        return loaded_data")],
 'leftover data in exact mode','the error reports the end of the data instead of where the leftover starts',
 '''
import binobj
from binobj import fields, errors
class S(binobj.Struct):
    a = fields.UInt8()
try:
    S.from_bytes(b"\\1\\2\\3")
except errors.ExtraneousDataError as e:
    assert e.offset == 1, e.offset
'''),
bug('c14-eq-order',S,[("        return other_values == self_values","        return list(other_values.items()) == list(self_values.items()) or (\n            isinstance(other, dict) and other_values == self_values\n        )")],
 'comparing two structures whose fields were assigned in another order','they differ',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8()
    b = fields.UInt8()
assert S(a=1, b=2) == S(b=2, a=1)
'''),
bug('c14-item-cache',S,[("        return getattr(self, field_name)\n","        # The value of a field that isn't assigned comes from the descriptor.\n        values = self.__values__\n        return values[field_name] if values.get(field_name) else getattr(self, field_name, None)\n")],
 'reading an unassigned field without a default with item access','null instead of an error',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8()
try:
    v = S()["a"]
except Exception:
    pass
else:
    raise SystemExit(repr(v))
'''),
bug('c10-const-null',B,[("        if self.const is not UNDEFINED and loaded_value != self.const:","        if loaded_value is not None and self.const not in (UNDEFINED, loaded_value):")],
 'a nullable constant whose null value, not given as bytes, is read','null is accepted in place of the constant',
 '''
from binobj import fields, errors
f = fields.UInt8(const=3, null_value=0, name="f")
try:
    v = f.from_bytes(b"\\0")
except errors.ValidationError:
    pass
else:
    raise SystemExit(repr(v))
'''),
bug('c11-null-endian',B,[("            null_repr = buf.getvalue()\n","            null_repr = buf.getvalue()\n            if self.index is None and self.name:\n                return null_repr\n")],
 'a nullable padded text as an array element or alternative, with a null value shorter than its size','null is written without its padding',
 '''
from binobj import fields
f = fields.String(size=4, pad_byte=b" ", null_value="-", name="f")
a = fields.Array(f, count=2, name="a")
assert a.to_bytes([None, None]) == b"-   -   ", a.to_bytes([None, None])
'''),
bug('c13-context-dict',S,[("        This is used when a :class:`Struct` is","        This is used when a :class:`Struct` is") if 0 else ("        # Try dumping all the fields we can first.\n","        # Try all the fields we can first.\n"),("        dct = self._to_dict_whatever_possible(context)\n        dct.update(","        dct = self._to_dict_whatever_possible()\n        dct.update(")],
 'a condition that looks at the context','the fields are resolved as if there was no context',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8(present=lambda f, c, s: bool(c), default=3)
assert S().to_dict(context=True) == {"a": 3}, S().to_dict(context=True)
assert S().to_bytes(True) == b"\\3"
'''),
bug('c12-present-truth',B,[("        if not self.present(loaded_fields, context, stream):\n            return self.not_present_value","        if self.present(loaded_fields, context, stream) is False:\n            return self.not_present_value")],
 'a condition that gives a falsy value other than False','the field is read though it is absent',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    flags = fields.UInt8()
    a = fields.UInt8(present=lambda f, c, s: f["flags"] & 1)
s = S.from_bytes(b"\\0")
'''),
bug('c21-choices-list',C,[("        loader = self.load_decider(stream, self.choices, context, loaded_fields)\n","        loader = self.load_decider(stream, self.choices, context, dict(loaded_fields))\n        if isinstance(loader, Field) and loader.name is None:\n            loaded_fields = {}\n")],
 'an alternative without a name of its own that refers to another field of the structure','the alternative is loaded without the values of the other fields',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    n = fields.UInt8()
    u = fields.Union(fields.Array(fields.UInt8(), count="n"), load_decider=lambda s, c, x, f: c[0], dump_decider=lambda d, c, x, f: c[0])
assert S.from_bytes(b"\\2\\5\\6").u == [5, 6]
'''),
bug('c15-compact-padded',V,[("            value = int8 & 0x3F\n","            value = int8 & (0x3F if int8 & 0x80 else 0x7F)\n")],
 'a negative compact number of one byte','its sign bit is taken as part of the number',
 '''
from binobj import fields, varints
f = fields.VariableLengthInteger(vli_format=varints.VarIntEncoding.COMPACT_INDICES, name="f")
assert f.from_bytes(b"\\x45") == -5, f.from_bytes(b"\\x45")
'''),
bug('c15-leb-top',V,[("    if n_bits_read > n_value_bits:\n        return value\n","    if n_bits_read > n_value_bits or n_value_bits % 56 == 0:\n        return value\n")],
 'a negative signed LEB128 number of eight bytes','it is read as a positive one',
 '''
from binobj import fields, varints
f = fields.VariableLengthInteger(vli_format=varints.VarIntEncoding.LEB128, name="f")
v = -(1 << 55)
assert f.from_bytes(f.to_bytes(v)) == v, f.from_bytes(f.to_bytes(v))
'''),
bug('c24-iter-eof-none',H,[('        if this_byte == b"":\n            return\n','        if not this_byte:\n            if n_read:\n                # Nothing available right now, maybe later.\n                this_byte = stream.read(1)\n            if not this_byte:\n                return\n')],
 'a stream whose end moves between two reads of null-terminated text','what comes after the end of the data is taken as part of the text',
 '''
import io
from binobj import fields
class St(io.BytesIO):
    def read(self, n=-1):
        d = super().read(n)
        if not d:
            self.write(b"b\\0"); self.seek(-2, 2)
        return d
try:
    v = fields.StringZ(name="f").from_stream(St(b"a"))
except Exception:
    pass
else:
    raise SystemExit(v)
'''),
bug('c26-default-copy',B,[("        if no default is defined" if 0 else "            If no default is defined but ``const`` is, this property returns the value\n","            If no default is defined but ``const`` is, this property returns the one\n"),("        if self.factory:\n            return self.factory()\n        return self._default","        if self.factory:\n            return self.factory()\n        if self._default is None and self.const is UNDEFINED and not self.allow_null:\n            return UNDEFINED\n        return self._default")],
 'a default of null on a field that is not nullable','the field reports that it has no default and that it is required',
 '''
from binobj import fields
f = fields.UInt8(default=None, name="f")
assert f.default is None and not f.required
'''),
bug('c09-nested-context',S,[("                # Caller wants us to dump up to and including ``last_field`` so we need\n","                # Caller wants a dump up to and including ``last_field`` so we need\n"),("            value = recursive_to_dicts(all_fields[field.name], True, context)\n            if value is not fields.NOT_PRESENT:\n                field.to_stream(stream, value, context, all_fields)","            value = recursive_to_dicts(all_fields[field.name], True, context)\n            if value is not fields.NOT_PRESENT:\n                field.to_stream(stream, value, context, dict(self.__values__))")],
 'a partial dump of a structure whose size or count field is computed','the fields that refer to the computed one do not find it',
 '''
import io, binobj
from binobj import fields
class S(binobj.Struct):
    n = fields.UInt8()
    a = fields.Array(fields.UInt8(), count=n)
    b = fields.UInt8()
    @n.computes
    def _n(self, f):
        return len(f["a"])
st = io.BytesIO()
S(a=[1, 2]).partial_dump(st)
assert st.getvalue() == b"\\2\\1\\2", st.getvalue()
'''),
bug('c27-size-hook-none',B,[("        if size is None:\n            raise errors.UndefinedSizeError(field=self)\n        return size\n","        if not size:\n            raise errors.UndefinedSizeError(field=self)\n        return size\n")],
 'a field type whose size hook gives zero for a value','the size is reported as unknown',
 '''
import binobj
from binobj import fields
class F(fields.Field):
    def _do_load(self, stream, context, loaded_fields): return stream.read()
    def _do_dump(self, stream, data, context, all_fields): stream.write(data)
    def _size_for_value(self, value): return len(value)
assert F(name="f").get_expected_size({"f": b""}) == 0
'''),
]
