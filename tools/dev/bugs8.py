N='binobj/fields/numeric.py'; B='binobj/fields/base.py'; C='binobj/fields/containers.py'; T='binobj/fields/stringlike.py'; S='binobj/structures.py'; P='binobj/pep526.py'; H='binobj/helpers.py'; V='binobj/varints.py'
def bug(id, file, edits, needs, breaks, demo):
    return dict(id=id, prop=id[:3].upper(), file=file, edits=edits, needs=needs, breaks=breaks, demo=demo)
BUGS=[
bug('c09-null-missing',S,[("            if field.name not in all_fields:\n                # Field is missing","            if all_fields.get(field.name) is None:\n                # Field is missing")],
 'a partial dump with a field that is null','the null counts as a missing value: the dump stops before it, or fails',
 '''
import io, binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8(null_value=b"\\xff")
    b = fields.UInt8()
st = io.BytesIO()
S(a=None, b=2).partial_dump(st)
assert st.getvalue() == b"\\xff\\2", st.getvalue()
st = io.BytesIO()
S(a=None, b=2).partial_dump(st, "a")
assert st.getvalue() == b"\\xff", st.getvalue()
'''),
bug('c09-nested-discard',S,[("            value = recursive_to_dicts(all_fields[field.name], True, context)\n","            value = recursive_to_dicts(all_fields[field.name], context=context)\n")],
 'a partial dump of a structure nesting another with a discarded field','the value given for the discarded field is lost: the dump fails or writes another value',
 '''
import io, binobj
from binobj import fields
class P(binobj.Struct):
    pad = fields.UInt8(discard=True, default=7)
    x = fields.UInt8()
class S(binobj.Struct):
    p = fields.Nested(P)
    q = fields.UInt8()
st = io.BytesIO()
S(p=P(pad=1, x=2), q=3).partial_dump(st)
assert st.getvalue() == b"\\1\\2\\3", st.getvalue()
'''),
bug('c04-overrides-exact',S,[("        if exact and (here < ","        if exact and not init_kwargs and (here < ")],
 'loading from bytes with override values','bytes left over are accepted in exact mode',
 '''
import binobj
from binobj import fields, errors
class S(binobj.Struct):
    a = fields.UInt8()
try:
    S.from_bytes(b"\\1\\2", init_kwargs={"a": 3})
except errors.ExtraneousDataError:
    pass
else:
    raise SystemExit("accepted")
'''),
bug('c04-field-null-exact',B,[("        if exact and bytes_remaining > 0:\n","        if exact and loaded_data is not None and bytes_remaining > 0:\n")],
 'a stand-alone field loading a null that is followed by more','the leftover bytes are accepted in exact mode',
 '''
from binobj import fields, errors
f = fields.UInt8(name="f", null_value=b"\\xff\\xff")
try:
    f.from_bytes(b"\\xff\\xff\\xff")
except errors.ExtraneousDataError:
    pass
else:
    raise SystemExit("accepted")
'''),
bug('c18-signed-wrap',N,[("                self.get_expected_size(all_fields), self.endian, signed=self.signed\n            )\n        except (ValueError, OverflowError) as err:\n            # https","                self.get_expected_size(all_fields),\n                self.endian,\n                signed=self.signed or timestamp < 0,\n            )\n        except (ValueError, OverflowError) as err:\n            # https")],
 'an instant before the epoch in an unsigned field','it is written as a two\'s complement and read back as a time in the far future',
 '''
import datetime
from binobj import fields, errors
f = fields.Timestamp32(name="f", signed=False, tz_aware=True)
try:
    f.to_bytes(datetime.datetime(1960, 1, 1, tzinfo=datetime.timezone.utc))
except errors.UnserializableValueError:
    pass
else:
    raise SystemExit("accepted")
'''),
bug('c15-limit-bits',N,[("        if self.max_bytes is not None and len(encoded_int) > self.max_bytes:\n","        if self.max_bytes is not None and data.bit_length() > 7 * self.max_bytes:\n")],
 'an integer of a signed scheme whose sign bit needs one more byte than is allowed','it is written with more bytes than the limit',
 '''
from binobj import fields, errors, varints
f = fields.VariableLengthInteger(name="f", vli_format=varints.VarIntEncoding.LEB128, max_bytes=1)
try:
    f.to_bytes(100)
except errors.ValueSizeError:
    pass
else:
    raise SystemExit("accepted")
'''),
bug('c03-array-const',B,[("        if self.const is not UNDEFINED and loaded_value != self.const:\n","        if (\n            self.const is not UNDEFINED\n            and self.index is not None\n            and loaded_value != self.const\n        ):\n")],
 'a constant that is an element of an array or an alternative of a union','any other value is accepted on load',
 '''
import binobj
from binobj import fields, errors
class S(binobj.Struct):
    a = fields.Array(fields.UInt8(const=7), count=2)
assert S.from_bytes(b"\\7\\7").a == [7, 7]
try:
    S.from_bytes(b"\\7\\x08")
except errors.ValidationError:
    pass
else:
    raise SystemExit("accepted")
'''),
bug('c06-sized-pad',B,[("    def _add_padding(self, serialized: bytes, to_size: int) -> bytes:  # noqa: ARG002\n","    def _add_padding(self, serialized: bytes, to_size: int) -> bytes:\n        if not isinstance(self.size, int):\n            return serialized.ljust(to_size, b\"\\0\")\n")],
 'a value shorter than the size another field gives for it (arrays, unions, structures with a size)','it is filled up with zero bytes without permission',
 '''
import binobj
from binobj import fields, errors
class S(binobj.Struct):
    n = fields.UInt8()
    a = fields.Array(fields.UInt8(), count=2, size=n)
assert S(n=2, a=[1, 2]).to_bytes() == b"\\2\\1\\2"
try:
    out = S(n=4, a=[1, 2]).to_bytes()
except errors.ValueSizeError:
    pass
else:
    raise SystemExit(out)
'''),
bug('c06-nested-extra',C,[("            instance = self.struct_class(**typing.cast(StrDict, data))\n            instance.to_stream(stream, context)\n","            names = self.struct_class.__binobj_struct__.components\n            values = {k: v for k, v in typing.cast(StrDict, data).items() if k in names}\n            self.struct_class(**values).to_stream(stream, context)\n")],
 'a nested structure given as a dictionary with a key that is none of its fields','the value is silently left out instead of refused',
 '''
import binobj
from binobj import fields, errors
class P(binobj.Struct):
    x = fields.UInt8()
class S(binobj.Struct):
    p = fields.Nested(P)
try:
    S(p={"x": 1, "y": 2}).to_bytes()
except errors.UnexpectedValueError:
    pass
else:
    raise SystemExit("accepted")
'''),
bug('c12-nested-load-context',C,[("        return self.struct_class.from_stream(stream, context)\n","        return self.struct_class.from_stream(stream)\n")],
 'a field inside a nested structure whose presence depends on the caller\'s context','on load the condition is evaluated without the context',
 '''
import binobj
from binobj import fields
class P(binobj.Struct):
    x = fields.UInt8(present=lambda v, ctx, s: bool(ctx))
class S(binobj.Struct):
    p = fields.Nested(P)
    q = fields.UInt8()
s = S.from_bytes(b"\\1\\2", context={"yes": 1})
assert s.p.x == 1 and s.q == 2
'''),
bug('c12-bool-condition',B,[("        if not self.present(loaded_fields, context, stream):\n            return self.not_present_value\n","        if self.present(loaded_fields, context, stream) is False:\n            return self.not_present_value\n")],
 'a presence condition that answers with a value (a flag bit, None) instead of a bool','on load only False itself counts as absent',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    flags = fields.UInt8()
    x = fields.UInt8(present=lambda v, *_: v["flags"] & 4, not_present_value=None)
assert S.from_bytes(b"\\3").x is None
'''),
bug('c19-halt-bool',C,[("        while not self.halt_check(self, stream, result, context, loaded_fields):\n","        while self.halt_check(self, stream, result, context, loaded_fields) is not True:\n")],
 'a stop condition that answers with a value instead of a bool','the array isn\'t ended',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.Array(fields.UInt8(), halt_check=lambda seq, st, vals, ctx, lf: vals and vals[-1] & 0x80)
    b = fields.UInt8()
assert S.from_bytes(b"\\1\\x80\\2").a == [1, 0x80]
'''),
bug('c26-vli-signed',N,[("        super().__init__(endian=format_endianness, signed=format_signedness, **kwargs)\n","        super().__init__(endian=format_endianness, **kwargs)\n        self.format_is_signed = format_signedness\n")],
 'a variable-length integer of an unsigned scheme','it reports itself as signed',
 '''
from binobj import fields, varints
f = fields.VariableLengthInteger(vli_format=varints.VarIntEncoding.ULEB128)
assert f.signed is False
assert fields.VariableLengthInteger(vli_format=varints.VarIntEncoding.LEB128).signed is True
'''),
bug('c10-same-name',S,[("            # struct.\n            metadata.struct_validators.append(item)\n","            # struct.\n            names = {v.__name__ for v in metadata.struct_validators}\n            if item.__name__ not in names:\n                metadata.struct_validators.append(item)\n")],
 'a structure with a whole-structure validator named like one of its parent','only the parent\'s validator runs',
 '''
import binobj
from binobj import fields, errors
from binobj.decorators import validates_struct
class A(binobj.Struct):
    a = fields.UInt8()
    @validates_struct
    def check(self, values):
        pass
class B(A):
    b = fields.UInt8()
    @validates_struct
    def check(self, values):
        if values["b"] == 2:
            raise errors.ValidationError(field=B.b, value=2)
try:
    B.from_bytes(b"\\1\\2")
except errors.ValidationError:
    pass
else:
    raise SystemExit("accepted")
'''),
bug('c07-nested-empty',C,[("        self._size = struct_class.get_size()\n","        self._size = struct_class.get_size() or None\n")],
 'a nested structure that is always empty','no size is reported for it, nor for the structures it is in',
 '''
import binobj
from binobj import fields
class E(binobj.Struct):
    a = fields.Array(fields.UInt8(), count=0)
class S(binobj.Struct):
    e = fields.Nested(E)
    b = fields.UInt8()
assert E.get_size() == 0
assert S.get_size() == 1, S.get_size()
'''),
bug('c21-partial-dump-context',S,[("                field.to_stream(stream, value, context, all_fields)\n            if field.name == last_field:\n                return\n","                field.to_stream(stream, value, all_fields=all_fields)\n            if field.name == last_field:\n                return\n")],
 'a partial dump of a union (or nested conditional field) that uses the context','the deciders and conditions are called without the context',
 '''
import io, binobj
from binobj import fields
seen = []
class S(binobj.Struct):
    u = fields.Union(fields.UInt8(), load_decider=lambda s, c, x, v: c[0], dump_decider=lambda d, c, x, v: (seen.append(x), c[0])[1])
S(u=1).partial_dump(io.BytesIO(), context="mine")
assert seen == ["mine"], seen
'''),
bug('c23-bom-strip',T,[("        return to_load.decode(self.encoding)\n","        return to_load.decode(self.encoding).lstrip(\"\\ufeff\")\n")],
 'sized text in a Unicode encoding starting with U+FEFF','the character is lost on load',
 '''
from binobj import fields
f = fields.String(name="f", size=4, encoding="utf-16-le")
s = "\\ufeffa"
assert f.from_bytes(f.to_bytes(s)) == s
'''),
bug('c13-default-none',B,[("        elif (default := self.default) is not UNDEFINED:\n","        elif (default := self.default) is not UNDEFINED and default is not None:\n")],
 'a nullable field with None as its default','the default isn\'t used; the value counts as missing',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8(default=None, null_value=b"\\xff")
assert S().to_bytes() == b"\\xff"
assert S().a is None
'''),
bug('c17-shared-decoder',T,[("        super().__init__(**kwargs)\n\n    @override\n    def bind_to","        super().__init__(**kwargs)\n        self._decoders: dict[str, codecs.IncrementalDecoder] = {}\n\n    @override\n    def bind_to"),("        decoder = codecs.getincrementaldecoder(self.encoding)()\n","        if self.encoding not in self._decoders:\n            self._decoders[self.encoding] = codecs.getincrementaldecoder(\n                self.encoding\n            )()\n        decoder = self._decoders[self.encoding]\n        decoder.reset()\n")],
 'the same null-terminated string field of a multi-byte encoding loaded by two interleaved operations','the operations see parts of each other\'s characters',
 '''
import io, binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.StringZ(encoding="utf-8")
class Nosy(io.BytesIO):
    def read(self, n=-1):
        if self.tell() == 1:
            assert S.from_bytes(b"x\\0").a == "x"
        return super().read(n)
assert S.from_stream(Nosy("\\u00e9\\0".encode())).a == "\\u00e9"
'''),
bug('c05-tail-element',C,[("        offset = stream.tell()\n        try:\n            return stream.read(1) == b\"\"\n","        offset = stream.tell()\n        n_bytes = (seq.component.has_fixed_size and seq.component.size) or 1\n        try:\n            return len(stream.read(n_bytes)) < n_bytes\n")],
 'an array running to the end of the data that is cut off inside an element','the incomplete element is silently left out',
 '''
import io, binobj
from binobj import fields, errors
class S(binobj.Struct):
    a = fields.Array(fields.UInt16())
try:
    s = S.from_stream(io.BytesIO(b"\\1\\2\\3"))
except errors.UnexpectedEOFError:
    pass
else:
    raise SystemExit(str(s))
'''),
bug('c24-peek-swallow',H,[("    here = stream.tell()\n    try:\n        data = stream.read(count)\n    finally:\n        stream.seek(here)\n","    here = stream.tell()\n    try:\n        data = stream.read(count)\n    except OSError:\n        # Whoever reads this for real will find out.\n        data = b\"\"\n    finally:\n        stream.seek(here)\n")],
 'a read that fails once, while looking for a null','the failure is swallowed and loading goes on',
 '''
import io, binobj
from binobj import fields
class Once(io.BytesIO):
    failed = False
    def read(self, n=-1):
        if not self.failed:
            self.failed = True
            raise OSError("timeout")
        return super().read(n)
class S(binobj.Struct):
    a = fields.UInt8(null_value=b"\\xff")
try:
    S.from_stream(Once(b"\\1"))
except OSError:
    pass
else:
    raise SystemExit("loaded")
'''),
bug('c14-eq-common',S,[("        other_values = recursive_to_dicts({n: other[n] for n in other})\n        return other_values == self_values\n","        other_values = recursive_to_dicts({n: other[n] for n in other})\n        return len(other_values) == len(self_values) and all(\n            other_values.get(n) == v for n, v in self_values.items()\n        )\n")],
 'two structures of which each has a field assigned that the other has not, one of them null','they compare equal',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8(null_value=b"\\xff")
    b = fields.UInt8(null_value=b"\\xff")
assert S(a=None) != S(b=None)
assert S(a=None) != S(b=1)
'''),
bug('c16-typed-subclass',B,[("            typed_default_name = type(self).__name__ + \"__\" + argument_name\n","            typed_default_name = next(\n                (\n                    key\n                    for c in type(self).__mro__\n                    if (key := c.__name__ + \"__\" + argument_name)\n                    in struct_info.argument_defaults\n                ),\n                argument_name,\n            )\n")],
 'a structure-wide default for one field type, and a field of a type derived from it','the default is applied to the derived type as well',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    class Meta:
        argument_defaults = {"Int16__endian": "big", "endian": "little"}
    a = fields.Int16()
    b = fields.UInt16()
assert S(a=1, b=1).to_bytes() == b"\\0\\1\\1\\0", S(a=1, b=1).to_bytes()
'''),
bug('c25-set-order',B,[("        if self._compute_fn or self.const is not UNDEFINED:\n            raise errors.ImmutableFieldError(field=self)\n\n        for validator in self.validators:\n            validator(value)\n","        for validator in self.validators:\n            validator(value)\n\n        if self._compute_fn or self.const is not UNDEFINED:\n            raise errors.ImmutableFieldError(field=self)\n")],
 'assignment to an immutable field that has a validator refusing the value','the validator\'s error is raised instead of the one about the immutable field',
 '''
import binobj
from binobj import fields, errors
def no(f, v):
    if v != 1:
        raise errors.ValidationError(field=f, value=v)
class S(binobj.Struct):
    a = fields.UInt8(const=1, validate=no)
s = S()
try:
    s.a = 5
except errors.ImmutableFieldError:
    pass
'''),
bug('c22-index-mutates',S,[("                results = typing.cast(MutableStrDict, copy.deepcopy(init_kwargs))\n","XX")],'','',''),
bug('c11-null-const-size',B,[("        return b\"\\0\" * size\n","        return b\"\\0\" * (size or 1)\n")],
 'a null with default representation in a field whose size is 0','a byte is written for it and expected on load',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    n = fields.UInt8()
    b = fields.Bytes(size=n, null_value=fields.DEFAULT)
assert S(n=0, b=None).to_bytes() == b"\\0"
'''),
bug('c20-load-decider-peek',C,[("        loader = self.load_decider(stream, self.choices, context, loaded_fields)\n","        offset = stream.tell()\n        loader = self.load_decider(stream, self.choices, context, loaded_fields)\n        stream.seek(offset)\n")],
 'a load decider that consumes a tag byte','the stream is put back, so that the alternative is read from the tag on',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    u = fields.Union(fields.UInt8(), fields.UInt16(endian="big"), load_decider=lambda s, c, x, v: c[s.read(1)[0]], dump_decider=lambda d, c, x, v: c[0])
s = S.from_bytes(b"\\1\\2\\3")
assert s.u == 0x203, s.u
'''),
bug('c01-nested-struct-identity',S,[("    if isinstance(item, Sequence) and not isinstance(item, (str, bytes, bytearray)):\n        return [recursive_to_dicts(v, keep_discardable, context) for v in item]\n","    if isinstance(item, Sequence) and not isinstance(item, (str, bytes, bytearray)):\n        return [recursive_to_dicts(v, context=context) for v in item]\n")],
 'an array of structures with discarded fields that were given values','the values given for them are lost on dump',
 '''
import binobj
from binobj import fields
class P(binobj.Struct):
    pad = fields.UInt8(discard=True, default=7)
    x = fields.UInt8()
class S(binobj.Struct):
    a = fields.Array(fields.Nested(P), count=1)
assert S(a=[P(pad=1, x=2)]).to_bytes() == b"\\1\\2", S(a=[P(pad=1, x=2)]).to_bytes()
'''),
bug('c02-wide-pad',T,[("            to_dump += self.pad_byte * -size_diff\n","            width = len(\"\\0\".encode(self.encoding))\n            to_dump += self.pad_byte.rjust(width, b\"\\0\") * (-size_diff // width)\n")],
 'padded text in an encoding with several bytes per character','it is padded with other bytes than the declared one',
 '''
from binobj import fields
f = fields.String(name="f", size=6, encoding="utf-16-le", pad_byte=b" ")
assert f.to_bytes("a") == b"a\\0    ", f.to_bytes("a")
'''),
bug('c08-discard-get',S,[("            if field.discard:\n                result.pop(field.name, None)\n\n        return cls(**result)\n","            if field.discard and field.name != last_field:\n                result.pop(field.name, None)\n\n        return cls(**result)\n")],
 'a partial load that ends with a discarded field','the discarded field has a value after it',
 '''
import io, binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8()
    pad = fields.UInt8(discard=True)
s = S.partial_load(io.BytesIO(b"\\1\\2"), "pad")
assert "pad" not in s and dict(s.__values__) == {"a": 1}
'''),
]
BUGS=[b for b in BUGS if b['id'] not in ['c09-null-missing', 'c09-nested-discard', 'c04-overrides-exact', 'c18-signed-wrap', 'c12-bool-condition', 'c21-partial-dump-context', 'c13-default-none', 'c17-shared-decoder', 'c11-null-const-size', 'c01-nested-struct-identity', 'c08-discard-get', 'c22-index-mutates', 'c20-load-decider-peek', 'c24-peek-swallow', 'c06-sized-pad']]
BUGS+=[
bug('c18-float-detour',N,[("is not zone-aware but the timestamp ({data}) has a time zone.\"\n                \" This will trigger an error in the future.\",\n                DeprecationWarning,\n                stacklevel=2,\n            )\n","is not zone-aware but the timestamp ({data}) has a time zone.\"\n                \" It is taken as local time. This will trigger an error in the future.\",\n                DeprecationWarning,\n                stacklevel=2,\n            )\n            data = datetime.datetime.fromtimestamp(data.timestamp())\n")],
 'a zone-aware time far from the epoch in a field of microsecond resolution that is not zone-aware','it goes through floating point and changes by a microsecond',
 """
import datetime, warnings
warnings.simplefilter("ignore")
from binobj import fields
f = fields.Timestamp64(name="f", resolution="us", endian="big")
t = datetime.datetime(8999, 12, 31, 1, 2, 3, 654321, tzinfo=datetime.timezone.utc)
want = (t - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)) // datetime.timedelta(microseconds=1)
for us in range(0, 1000000, 99991):
    assert int.from_bytes(f.to_bytes(t.replace(microsecond=us)), "big") == want - 654321 + us
"""),
bug('c09-name-identity',S,[("            if field.name == last_field:\n                return\n\n    @classmethod\n    def get_size","            if field.name is last_field:\n                return\n\n    @classmethod\n    def get_size")],
 'a partial dump up to a field whose name is another string object (read from a file, put together)','the dump goes on to the end',
 """
import io, binobj
from binobj import fields
class S(binobj.Struct):
    first = fields.UInt8()
    second = fields.UInt8()
st = io.BytesIO()
S(first=1, second=2).partial_dump(st, "-first"[1:])
assert st.getvalue() == b"\\1", st.getvalue()
"""),
bug('c09-skip-missing',S,[("                if last_field is None:\n                    return\n                # Caller","                if field.discard:\n                    continue\n                elif last_field is None:\n                    return\n                # Caller")],
 'an open-ended partial dump where a discarded field has no value','it is skipped and the fields after it are written in its place',
 """
import io, binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8()
    pad = fields.UInt8(discard=True)
    b = fields.UInt8()
st = io.BytesIO()
S(a=1, b=2).partial_dump(st)
assert st.getvalue() == b"\\1", st.getvalue()
"""),
bug('c13-falsy-factory',B,[("            return self.factory()\n","            return self.factory() or self._default\n")],
 'a factory whose result is falsy','the result is not used; the value counts as missing',
 """
import binobj
from binobj import fields
f = fields.Bytes(name="f", factory=lambda: b"")
assert f.to_bytes() == b"" if False else f.default == b"", f.default
class S(binobj.Struct):
    a = fields.UInt8(factory=lambda: 0)
assert S().a == 0 and S().to_bytes() == b"\\0"
"""),
bug('c20-load-restore',C,[("        loader = self.load_decider(stream, self.choices, context, loaded_fields)\n","        offset = stream.tell()\n        choices = self.choices\n        loader = self.load_decider(stream, choices, context, loaded_fields)\n        stream.seek(offset)\n")],
 'a load decider that consumes a tag byte','the stream is put back, so that the alternative is read from the tag on',
 """
import binobj
from binobj import fields
class S(binobj.Struct):
    u = fields.Union(fields.UInt8(), fields.UInt16(endian="big"), load_decider=lambda s, c, x, v: c[s.read(1)[0]], dump_decider=lambda d, c, x, v: c[0])
s = S.from_bytes(b"\\1\\2\\3")
assert s.u == 0x203, s.u
"""),
bug('c24-peek-once',H,[("    try:\n        data = stream.read(count)\n    finally:\n        stream.seek(here)\n","    try:\n        data = _read_available(stream, count)\n    finally:\n        stream.seek(here)\n"),("def peek_bytes(","def _read_available(stream: BinaryIO, count: int) -> bytes:\n    try:\n        return stream.read(count)\n    except OSError:\n        # Whoever reads this for real will find out.\n        return b\"\"\n\n\ndef peek_bytes(")],
 'a read that fails once, while looking for a null','the failure is swallowed and loading goes on',
 """
import io, binobj
from binobj import fields
class Once(io.BytesIO):
    failed = False
    def read(self, n=-1):
        if not self.failed:
            self.failed = True
            raise OSError("timeout")
        return super().read(n)
class S(binobj.Struct):
    a = fields.UInt8(null_value=b"\\xff")
try:
    S.from_stream(Once(b"\\1"))
except OSError:
    pass
else:
    raise SystemExit("loaded")
"""),
bug('c06-sized-pad',B,[("    def _add_padding(self, serialized: bytes, to_size: int) -> bytes:  # noqa: ARG002\n","    def _add_padding(self, serialized: bytes, to_size: int) -> bytes:\n        if not isinstance(self.size, int):\n            return serialized.ljust(to_size, b\"\\0\")\n")],
 'a value shorter than the size another field gives for it (arrays, unions with a size)','it is filled up with zero bytes without permission',
 """
import binobj
from binobj import fields, errors
class S(binobj.Struct):
    n = fields.UInt8()
    a = fields.Union(fields.UInt8(), size=n, load_decider=lambda s, c, x, v: c[0], dump_decider=lambda d, c, x, v: c[0])
assert S(n=1, a=1).to_bytes() == b"\\1\\1"
try:
    out = S(n=2, a=1).to_bytes()
except errors.ValueSizeError:
    pass
else:
    raise SystemExit(out)
"""),
]

