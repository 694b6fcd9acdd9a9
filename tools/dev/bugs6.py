N='binobj/fields/numeric.py'; B='binobj/fields/base.py'; C='binobj/fields/containers.py'; T='binobj/fields/stringlike.py'; S='binobj/structures.py'; P='binobj/pep526.py'; H='binobj/helpers.py'; V='binobj/varints.py'
def bug(id, file, edits, needs, breaks, demo):
    return dict(id=id, prop=id[:3].upper(), file=file, edits=edits, needs=needs, breaks=breaks, demo=demo)
BUGS=[
bug('c06-int-coerce',N,[("        dump_size = self._size_for_value(data)\n        if dump_size is None:","        data = int(data)\n        if (dump_size := self._size_for_value(data)) is None:")],
 'a number with a fraction given for an integer field','the fraction is silently cut off',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8()
try:
    data = S(a=1.75).to_bytes()
except Exception:
    pass
else:
    raise SystemExit(f"accepted {data}")
'''),
bug('c03-read-signed',H,[("    return int.from_bytes(data, endian, signed=signed)\n","    return int.from_bytes(data, endian, signed=signed and n_bytes <= 8)\n")],
 'a signed integer of more than eight bytes with a negative value','it is loaded as a large positive number',
 '''
from binobj import fields
f = fields.Integer(name="x", size=12, endian="big")
assert f.from_bytes(b"\\xff" * 12) == -1
'''),
bug('c17-union-loader',C,[("        loader = self.load_decider(stream, self.choices, context, loaded_fields)\n        if isinstance(loader, Field):\n            return loader.from_stream(stream, context, loaded_fields)\n        if isinstance(loader, type) and issubclass(loader, Struct):\n            return loader.from_stream(stream, context)\n",
"        self._loader = loader = self.load_decider(\n            stream, self.choices, context, loaded_fields\n        )\n        if isinstance(loader, Field):\n            return self._loader.from_stream(stream, context, loaded_fields)\n        if isinstance(loader, type) and issubclass(loader, Struct):\n            return self._loader.from_stream(stream, context)\n")],
 'two threads that load unions of the same class with different alternatives, switched between the decision and its use','the alternative of the other thread is used',
 '''
import sys, threading
import binobj
from binobj import fields
A, B = fields.UInt8(), fields.Bytes(size=1)
class Slow(type(A)):
    pass
class S(binobj.Struct):
    k = fields.UInt8()
    u = fields.Union(A, B, load_decider=lambda s, c, ctx, v: c[v["k"]], dump_decider=lambda d, c, ctx, v: c[v["k"]])
bad = []
hold = threading.local()
lock = threading.Semaphore(0)
def trace(frame, event, arg):
    if frame.f_code.co_name != "_do_load" or "choices" not in frame.f_code.co_names:
        return None if event == "call" and frame.f_code.co_name not in ("from_bytes", "from_stream", "_do_load") else trace
    if event == "line" and "loader" in frame.f_locals and not hold.done:
        hold.done = True
        other = threading.Thread(target=run, args=(1,))
        other.start()
        other.join()
    return trace
def run(k):
    hold.done = k == 1
    v = S.from_bytes(bytes([k, 65])).u
    if v != (65, b"A")[k]:
        bad.append((k, v))
hold.done = False
sys.settrace(trace)
try:
    hold.done = False
    v = S.from_bytes(b"\\0A").u
finally:
    sys.settrace(None)
assert v == 65 and not bad, (v, bad)
'''),
bug('c18-drop-zone',N,[("        if data.tzinfo is not None and not self.tz_aware:\n            warnings","        if not self.tz_aware:\n            if data.tzinfo is None:\n                pass\n            else:\n                data = data.replace(tzinfo=None)\n            warnings") if 0 else
 ("                \" This will trigger an error in the future.\",\n                DeprecationWarning,\n                stacklevel=2,\n            )\n        elif data.tzinfo is None and self.tz_aware:\n","                \" This will trigger an error in the future.\",\n                DeprecationWarning,\n                2,\n            )\n            data = data.replace(tzinfo=None)\n        elif data.tzinfo is None and self.tz_aware:\n")],
 'a zone-aware time given for a zone-less field, of another zone than the local one','the time is taken for local time',
 '''
import datetime, warnings
warnings.simplefilter("ignore")
from binobj import fields
f = fields.Timestamp32(name="t", endian="big")
t = datetime.datetime(2001, 2, 3, 4, 5, 6, tzinfo=datetime.timezone(datetime.timedelta(hours=7, minutes=17)))
assert int.from_bytes(f.to_bytes(t), "big") == int(t.timestamp())
'''),
bug('c03-uleb-wrap',V,[("        value |= (int8 & 0x7F) << bits_read\n        bits_read += 7\n","        value |= (int8 & 0x7F) << min(bits_read, 127)\n        bits_read += 7\n")],
 'a little-endian base-128 integer of more than 19 bytes','a wrong value is returned',
 '''
from binobj import fields, varints
f = fields.VariableLengthInteger(name="x", vli_format=varints.VarIntEncoding.ULEB128)
assert f.from_bytes(f.to_bytes(1 << 150)) == 1 << 150
'''),
bug('c15-vlq-limit',V,[("        value = (value << 7) | (int8 & 0x7F)\n        if int8 & 0x80 == 0:\n            return value\n","        value = (value << 7) | (int8 & 0x7F)\n        if int8 & 0x80 == 0 or value.bit_length() > 128:\n            return value\n")],
 'a VLQ integer of more than 128 bits','decoding stops before the last byte',
 '''
from binobj import fields, varints
f = fields.VariableLengthInteger(name="x", vli_format=varints.VarIntEncoding.VLQ)
assert f.from_bytes(f.to_bytes(1 << 150), exact=False) == 1 << 150
'''),
bug('c21-get-field-context',S,[("                return field.from_stream(stream, context, {})\n","                return field.from_stream(stream, loaded_fields={})\n")],
 'reading one field at a fixed offset that holds a structure whose callbacks use the context','the context is lost',
 '''
import io
import binobj
from binobj import fields
seen = []
class In(binobj.Struct):
    a = fields.UInt8(present=lambda v, c, s: (seen.append(c), True)[1])
class S(binobj.Struct):
    x = fields.UInt8()
    n = fields.Array(fields.Nested(In), count=1)
S.x.offset
class T(binobj.Struct):
    n = fields.Union(fields.UInt8(), load_decider=lambda *a: a[1][0], dump_decider=lambda *a: a[1][0])
ctx = object()
S.get_field(io.BytesIO(b"\\1\\2"), "n", ctx)
assert all(c is ctx for c in seen), seen
'''),
bug('c21-raw-values',S,[("            results.setdefault(name, field.from_stream(stream, context, results))\n","            read[name] = field.from_stream(stream, context, read)\n            results.setdefault(name, read[name])\n"),
 ("            results = {}\n\n        for name, field","            results = {}\n        read: MutableStrDict = {}\n\n        for name, field")],
 'a load with an overriding value for a field that a later field depends on','callbacks, sizes and counts see what was read and not the value that the field gets',
 '''
import binobj
from binobj import fields
seen = []
class S(binobj.Struct):
    k = fields.UInt8()
    a = fields.UInt8(present=lambda v, c, s: (seen.append(v["k"]), True)[1])
assert S.from_bytes(b"\\1\\2", init_kwargs={"k": 9}).k == 9
assert seen[0] == 9, seen
'''),
bug('c22-shared-overrides',S,[("            results = typing.cast(MutableStrDict, copy.deepcopy(init_kwargs))\n","            results = typing.cast(MutableStrDict, dict(init_kwargs))\n")],
 'a load with a mutable overriding value, which is changed afterwards','the loaded structure shares it with the caller',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.Array(fields.UInt8(), count=2)
over = {"a": [3, 4]}
s = S.from_bytes(b"\\1\\2", init_kwargs=over)
s.a.append(5)
assert over == {"a": [3, 4]}, over
'''),
bug('c24-getfield-restore',S,[("            loaded_data = cls._partial_load_values(stream, name, context)\n        finally:\n            stream.seek(original_offset)\n        return loaded_data[name]\n","            loaded_data = cls._partial_load_values(stream, name, context)\n        except errors.Error:\n            stream.seek(original_offset)\n            raise\n        stream.seek(original_offset)\n        return loaded_data[name]\n")],
 'a stream failure (not an error of the library) while a field behind a variable one is read','the stream is left in the middle of the record',
 '''
import io
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.StringZ()
    b = fields.UInt32()
class Bad(io.BytesIO):
    def read(self, n=-1):
        if self.tell() >= 3:
            raise OSError("disk")
        return super().read(n)
st = Bad(b"a\\0bcdefgh")
st.seek(1)
st = Bad(b"xab\\0bcdefgh"); st.seek(1)
try:
    S.get_field(st, "b")
except OSError:
    pass
assert st.tell() == 1, st.tell()
'''),
bug('c05-uuid-text',T,[("        if len(raw_data) < self.size:\n            raise errors.UnexpectedEOFError(field=self","        if len(raw_data) < min(self.size, 32):\n            raise errors.UnexpectedEOFError(field=self")],
 'the last field of a structure is a UUID in canonical text form, given without its hyphens at the end of the data','it is accepted although four bytes are missing',
 '''
from binobj import errors, fields
f = fields.UUID4(name="u", stored_as=fields.UUIDFormat.CANONICAL_STRING)
try:
    v = f.from_bytes(b"0123456789abcdef0123456789abcdef")
except errors.UnexpectedEOFError:
    pass
else:
    raise SystemExit(f"accepted as {v}")
'''),
bug('c07-strz-terminator',T,[("        return len((value + \"\\0\").encode(self.encoding))\n","        return len(value.encode(self.encoding)) + len(\"\\0\".encode(self.encoding))\n")],
 'the length of an instance with a null-terminated string in a byte-order-marked or stateful encoding','it is too large',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.StringZ(encoding="utf-16")
s = S(a="abc")
assert len(s) == len(s.to_bytes())
'''),
bug('c04-absent-exact',B,[("        if exact and bytes_remaining > 0:\n","        if exact and bytes_remaining > 0 and loaded_data is not NOT_PRESENT:\n")],
 'a stand-alone field that is absent, loaded in exact mode from data','the data is silently ignored',
 '''
from binobj import errors, fields
f = fields.UInt8(name="a", present=lambda v, c, s: False)
try:
    v = f.from_bytes(b"\\1")
except errors.ExtraneousDataError:
    pass
else:
    raise SystemExit(f"accepted as {v}")
'''),
bug('c22-get-factory',B,[("        return self.compute_value_for_dump(instance)\n","        value = self.compute_value_for_dump(instance)\n        if self.factory is not None:\n            instance.__values__[self.name] = value\n        return value\n")],
 'reading a field with a factory before it was assigned, then comparing or iterating','reading assigns the field',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8(factory=lambda: 3)
s = S()
assert s.a == 3
assert list(s) == [] and s == S(), list(s)
'''),
bug('c08-partial-seek',S,[("                stream.seek(offset)\n                break\n","                stream.seek(offset - stream.tell(), 1)\n                break\n")] if 0 else
 [("            except errors.UnexpectedEOFError:\n","            except (errors.UnexpectedEOFError, errors.ValidationError):\n")],
 'a partial load of a structure whose data violates a constant or a validator','it stops silently instead of failing',
 '''
import io
import binobj
from binobj import errors, fields
class S(binobj.Struct):
    a = fields.UInt8()
    b = fields.UInt8(const=7)
try:
    s = S.partial_load(io.BytesIO(b"\\1\\2"))
except errors.ValidationError:
    pass
else:
    raise SystemExit(f"gave {s}")
'''),
bug('c19-not-present-counted',C,[("            if component is NOT_PRESENT:\n                continue\n            result.append(component)\n","            if component is NOT_PRESENT and self.count is None:\n                continue\n            result.append(component)\n")],
 'an array with a count whose elements are conditional and absent','placeholders are loaded as elements',
 '''
from binobj import fields
n = [0]
def present(v, c, s):
    n[0] += 1
    return n[0] % 2 == 0
f = fields.Array(fields.UInt8(present=present), count=2, name="a")
assert f.from_bytes(b"\\1\\2", exact=False) == [1, 2]
'''),
bug('c11-null-size',B,[("            return b\"\\0\" * self.get_expected_size(all_fields)\n","            return bytes(self.get_expected_size(all_fields) or 1)\n")],
 'a null of a field whose size is given by another field as zero','a byte is written for it',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    n = fields.UInt8()
    a = fields.Bytes(size=n, null_value=fields.DEFAULT)
    b = fields.UInt8()
assert S(n=0, a=None, b=1).to_bytes() == b"\\0\\1"
'''),
bug('c16-typed-defaults',B,[("            typed_default_name = type(self).__name__ + \"__\" + argument_name\n","            typed_default_name = type(self).__qualname__ + \"__\" + argument_name\n")],
 'a structure-wide default for one field type, when that type is defined within a function or class','the default is ignored',
 '''
import binobj
from binobj import fields
class Outer:
    class Mine(fields.UInt16):
        pass
class S(binobj.Struct):
    class Meta:
        argument_defaults = {"Mine__endian": "big"}
    a = Outer.Mine()
class T(binobj.Struct):
    class Meta:
        argument_defaults = {"Mine__endian": "little"}
    a = Outer.Mine()
assert S(a=1).to_bytes() == b"\\0\\1" and T(a=1).to_bytes() == b"\\1\\0"
'''),
bug('c12-len-absent',B,[("        if value_to_dump is NOT_PRESENT or not self.present(all_values, context, None):\n","        if value_to_dump is NOT_PRESENT or not (\n            self.const is not UNDEFINED or self.present(all_values, context, None)\n        ):\n")],
 'a conditional constant field whose condition does not hold','it is written all the same',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    k = fields.UInt8()
    m = fields.Bytes(const=b"MAGIC", present=lambda v, c, s: v["k"] == 1)
    z = fields.UInt8()
assert S(k=0, z=2).to_bytes() == b"\\0\\2"
'''),
bug('c20-union-null-choice',C,[("        if isinstance(dumper, Field):\n            dumper.to_stream(stream, data, context, all_fields)\n","        if isinstance(dumper, Field):\n            stream.write(dumper.to_bytes(data, context))\n")],
 'dumping a union whose chosen alternative takes its size or count from another field','it fails, or ignores the other field',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    n = fields.UInt8()
    u = fields.Union(fields.Bytes(size=n), load_decider=lambda *a: a[1][0], dump_decider=lambda *a: a[1][0])
assert S(n=2, u=b"ab").to_bytes() == b"\\2ab"
'''),
bug('c02-guid-text',T,[("            to_write = data.hex.encode(\"ascii\")\n","            to_write = b\"%032x\" % (data.int & ~(0xF << 76) | (4 << 76) if data.version == 4 else data.int & (1 << 127) - 1 | data.int >> 127 << 127)\n")] if 0 else
 [("            to_write = data.hex.encode(\"ascii\")\n","            to_write = f\"{data.int:x}\".rjust(32, \"0\" if data.int >> 124 else \" \").encode(\"ascii\")\n")],
 'a UUID in hexadecimal form whose first digit is zero','it is written with a blank',
 '''
import uuid
from binobj import fields
f = fields.UUID4(name="u", stored_as=fields.UUIDFormat.HEX_STRING)
u = uuid.UUID("01234567-89ab-4def-8123-456789abcdef")
assert f.to_bytes(u) == u.hex.encode(), f.to_bytes(u)
'''),
bug('c13-deleted-computed',S,[("        self.__values__.pop(field_name, None)\n","        if not self.__binobj_struct__.components[field_name].is_computed_field:\n            self.__values__.pop(field_name, None)\n")],
 'deleting a computed field that was loaded or given','it keeps the old value',
 '''
import binobj
from binobj import fields
class S(binobj.Struct):
    n = fields.UInt8()
    a = fields.Bytes(size=n)
    @n.computes
    def _n(self, v):
        return len(v["a"])
s = S.from_bytes(b"\\2ab")
del s["n"]
s.a = b"xyz"
assert s.n == 3, s.n
'''),
bug('c09-partial-null',S,[("            if field.name not in all_fields:\n","            if all_fields.get(field.name) is None:\n")] if 0 else
 [("            if field.name == last_field:\n                return\n","            if field.index == len(all_fields) - 1 or field.name == last_field:\n                return\n")],
 'a partial dump of a structure in which a field after the named one has a value but one between has none','it ends early',
 '''
import io
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8()
    b = fields.UInt8()
    c = fields.UInt8()
out = io.BytesIO()
try:
    S(a=1, c=3).partial_dump(out, "c")
except Exception:
    pass
else:
    raise SystemExit(f"no error: {out.getvalue()}")
'''),
]
