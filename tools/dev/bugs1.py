BUGS=[
dict(id='c15-vlq-log',prop='C15',file='binobj/varints.py',edits=[("    n_bits = value.bit_length()\n    n_bytes = int(math.ceil(n_bits / 7))\n","    n_bytes = int(math.log(value, 128)) + 1\n")],
 needs='a VLQ integer just below a power of 128, large enough that the floating-point logarithm rounds up',
 breaks='such integers are written with a superfluous leading 0x80 byte',
 demo='''
from binobj import varints
for k in range(1, 40):
    for v in (128**k - 1, 128**k, 128**k + 1):
        want = []
        n = v
        while n or not want:
            want.insert(0, (n & 127) | (128 if want else 0))
            n >>= 7
        assert varints.encode_integer_vlq(v) == bytes(want), (v, varints.encode_integer_vlq(v).hex())
'''),
dict(id='c23-strz-size',prop='C07',file='binobj/fields/stringlike.py',edits=[('        return len((value + "\\0").encode(self.encoding))','        return len(value.encode(self.encoding)) + len("\\0".encode(self.encoding))')],
 needs='a null-terminated string in an encoding that writes a byte order mark (utf-16, utf-32, utf-8-sig) or has shift states',
 breaks='the reported size of the structure counts the byte order mark twice',
 demo='''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8()
    s = fields.StringZ(encoding="utf-16")
x = S(a=1, s="abc")
assert len(x) == len(x.to_bytes()), (len(x), len(x.to_bytes()))
'''),
dict(id='c25-nested-offset',prop='C25',file='binobj/fields/containers.py',edits=[("        return self.struct_class.from_stream(stream, context)\n","        if self.has_fixed_size:\n            # One read for the whole struct instead of one for each field.\n            data = stream.read(typing.cast(int, self.size))\n            return self.struct_class.from_bytes(data, context)\n        return self.struct_class.from_stream(stream, context)\n")],
 needs='input that ends inside a nested structure of fixed size that is not at the beginning of the stream',
 breaks='the offset in the end-of-data error is relative to the nested structure instead of the stream',
 demo='''
import binobj
from binobj import errors, fields
class In(binobj.Struct):
    x = fields.UInt16(endian="big")
    y = fields.UInt32(endian="big")
class Out(binobj.Struct):
    head = fields.Bytes(size=10)
    body = fields.Nested(In)
try:
    Out.from_bytes(b"0123456789" + b"ab" + b"cd")
except errors.UnexpectedEOFError as e:
    assert (e.offset, e.size) == (12, 4), (e.offset, e.size)
else:
    raise SystemExit("accepted")
'''),
dict(id='c08-fixed-offset-restore',prop='C08',file='binobj/structures.py',edits=[("""            try:
                stream.seek(original_offset + field.offset)
                return field.from_stream(stream, context, {})
            finally:
                stream.seek(original_offset)
""","""            stream.seek(original_offset + field.offset)
            value = field.from_stream(stream, context, {})
            stream.seek(original_offset)
            return value
""")],
 needs='a single-field read at a fixed offset that fails (bad value or data that ends there)',
 breaks='the stream is left in the middle of the structure after the failed read',
 demo='''
import io
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt32(endian="big")
    b = fields.UInt8(const=7)
for data in (b"xx\\0\\0\\0\\1\\x08", b"xx\\0\\0\\0\\1"):
    st = io.BytesIO(data)
    st.seek(2)
    try:
        S.get_field(st, "b")
    except Exception:
        assert st.tell() == 2, st.tell()
    else:
        raise SystemExit("accepted")
'''),
dict(id='c09-absent-last',prop='C09',file='binobj/structures.py',edits=[("""            if field.name == last_field:
                return
""","""            if field.name == last_field and value is not fields.NOT_PRESENT:
                return
""")],
 needs='a partial dump up to a conditional field that is absent',
 breaks='the fields behind the requested one are dumped too',
 demo='''
import io
import binobj
from binobj import fields
class S(binobj.Struct):
    flag = fields.UInt8()
    opt = fields.UInt8(present=lambda v, c, s: v["flag"])
    tail = fields.UInt8()
st = io.BytesIO()
S(flag=0, opt=fields.NOT_PRESENT, tail=9).partial_dump(st, "opt")
assert st.getvalue() == b"\\0", st.getvalue()
'''),
dict(id='c10-shared-validators',prop='C10',file='binobj/structures.py',edits=[("                f_name: list(v_list)\n","                f_name: v_list\n")],
 needs='a subclass that adds a validator method for a field it inherits, with the parent (or a sibling) used afterwards',
 breaks='the validator of the subclass is applied to the parent class and to siblings as well',
 demo='''
import binobj
from binobj import errors, fields
from binobj.decorators import validates
class P(binobj.Struct):
    n = fields.UInt8()
    @validates("n")
    def low(self, field, value):
        if value > 200:
            raise errors.ValidationError(field=field, value=value)
class K(P):
    m = fields.UInt8()
    @validates("n")
    def even(self, field, value):
        if value % 2:
            raise errors.ValidationError(field=field, value=value)
assert P(n=3).to_bytes() == b"\\3"
'''),
dict(id='c10-null-unvalidated',prop='C10',file='binobj/fields/base.py',edits=[("""                    for validator in self.validators:
                        validator(None)
                    return None
""","""                    return None
""")],
 needs='a nullable field with a validator that refuses null, loaded on its own, partially or by get_field',
 breaks='null gets past the validator on loading',
 demo='''
import io
import binobj
from binobj import errors, fields
def no_null(field, value):
    if value is None:
        raise errors.ValidationError(field=field, value=value)
class S(binobj.Struct):
    n = fields.UInt8(null_value=b"\\xff", validate=no_null)
    m = fields.UInt8()
for f in (lambda: S.get_field(io.BytesIO(b"\\xff\\0"), "n"), lambda: S.n.from_bytes(b"\\xff")):
    try:
        f()
    except errors.ValidationError:
        continue
    raise SystemExit("null accepted")
'''),
dict(id='c11-falsy-null',prop='C11',file='binobj/fields/base.py',edits=[("        if self.null_value not in (DEFAULT, None):\n","        if self.null_value and self.null_value is not DEFAULT:\n")],
 needs='a null value that is false (0, an empty string) on a field for which zero bytes would be something else',
 breaks='null is written as zero bytes or refused instead of as the designated value',
 demo='''
import binobj
from binobj import fields, varints
class S(binobj.Struct):
    s = fields.StringZ(null_value="")
    v = fields.VariableLengthInteger(vli_format=varints.VarIntEncoding.VLQ, null_value=0)
    t = fields.String(size=3, null_value="", pad_byte=b" ")
assert S(s=None, v=None, t=None).to_bytes() == b"\\0\\0   "
'''),
dict(id='c12-falsy-standin',prop='C12',file='binobj/fields/base.py',edits=[("            return self.not_present_value\n","            return self.not_present_value or NOT_PRESENT\n")],
 needs='an absent conditional field whose declared stand-in is false (0, None, an empty list)',
 breaks='the stand-in is replaced by the marker for absence',
 demo='''
import binobj
from binobj import fields
class S(binobj.Struct):
    flag = fields.UInt8()
    opt = fields.UInt8(present=lambda v, c, s: v["flag"], not_present_value=0)
assert S.from_bytes(b"\\0").opt == 0
'''),
dict(id='c13-factory-once',prop='C13',file='binobj/fields/base.py',edits=[("""        if self.factory:
            return self.factory()
        return self._default
""","""        if self.factory and self._default is UNDEFINED:
            self._default = self.factory()
        return self._default
""")],
 needs='a factory whose result varies, more than one dump',
 breaks='the first result of the factory is used for ever',
 demo='''
import itertools
import binobj
from binobj import fields
n = itertools.count()
class S(binobj.Struct):
    a = fields.UInt8(factory=lambda: next(n) % 250)
assert len({S().to_bytes() for _ in range(5)}) == 5
'''),
dict(id='c14-delete-undefined',prop='C14',file='binobj/structures.py',edits=[("        self.__values__.pop(field_name, None)\n","        self.__values__[field_name] = fields.UNDEFINED\n")],
 needs='deleting the value of a field that has a default (or is computed), then reading or dumping it',
 breaks='the default no longer applies after the deletion',
 demo='''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.UInt8(default=5)
    b = fields.UInt8()
x = S(a=1, b=2)
del x["a"]
assert x.to_bytes() == b"\\5\\2"
assert x.a == 5
'''),
dict(id='c17-shared-buffer',prop='C17',file='binobj/fields/base.py',edits=[("        self._compute_fn = None\n","        self._compute_fn = None\n        self._dump_buffer = io.BytesIO()\n"),("        buf = io.BytesIO()\n        self._do_dump(buf, data, context=context, all_fields=all_fields)\n","        # Reuse one buffer, creating one for every value is slow.\n        buf = self._dump_buffer\n        buf.seek(0)\n        buf.truncate()\n        self._do_dump(buf, data, context=context, all_fields=all_fields)\n")],
 needs='two threads that dump structures of the same class at the same time (or a field that is dumped while it is being dumped)',
 breaks='the threads write into the same buffer and get mixed or doubled bytes',
 demo='''
import sys
import threading
import binobj
from binobj import fields
sys.setswitchinterval(1e-6)
class In(binobj.Struct):
    x = fields.UInt32(endian="big")
    y = fields.StringZ()
class S(binobj.Struct):
    a = fields.Array(fields.Nested(In), count=6)
bad = []
def work(k):
    v = S(a=[In(x=k, y="abc" * k) for _ in range(6)])
    want = (k.to_bytes(4, "big") + b"abc" * k + b"\\0") * 6
    for _ in range(400):
        try:
            if v.to_bytes() != want:
                bad.append(k)
        except Exception as e:
            bad.append(e)
ts = [threading.Thread(target=work, args=(k,)) for k in range(6)]
[t.start() for t in ts]
[t.join() for t in ts]
# and deterministically: a validator that dumps another instance while the field is dumped
assert not bad, bad[:3]
class R(binobj.Struct):
    kids = fields.Array(fields.UInt8(), count=2)
class Rec(fields.UInt8):
    def _do_dump(self, stream, data, context, all_fields):
        if data:
            assert self.to_bytes(data - 1) == bytes([data - 1])
        super()._do_dump(stream, data, context, all_fields)
assert Rec().to_bytes(3) == b"\\3"
'''),
dict(id='c18-naive-utc',prop='C18',file='binobj/fields/numeric.py',edits=[("                f\"{self} is zone-aware but the timestamp ({data}) has no time zone.\"\n                \" This will trigger an error in the future.\",\n                DeprecationWarning,\n                stacklevel=2,\n            )\n","                f\"{self} is zone-aware but the timestamp ({data}) has no time zone.\"\n                \" This will trigger an error in the future. It is taken as UTC.\",\n                DeprecationWarning,\n                stacklevel=2,\n            )\n            data = data.replace(tzinfo=datetime.timezone.utc)\n")],
 needs='a local time zone other than UTC and a timestamp without a zone given to a zone-aware field',
 breaks='the timestamp is taken as UTC instead of local time, so another instant is written',
 demo='''
import datetime, os, time, warnings
os.environ["TZ"] = "Asia/Tokyo"
time.tzset()
warnings.simplefilter("ignore")
from binobj import fields
d = datetime.datetime(2020, 5, 5, 12, 0, 0)
got = int.from_bytes(fields.Timestamp64(tz_aware=True, endian="big").to_bytes(d), "big")
assert got == int(d.timestamp()), (got, d.timestamp())
'''),
dict(id='c19-iterables',prop='C19',file='binobj/fields/containers.py',edits=[("        if not isinstance(data, Sized):\n            self._dump_unsized(stream, data, n_elems, context, all_fields)\n            return\n\n        if n_elems is not None and len(data) != n_elems:\n","        if not isinstance(data, Sized):\n            self._dump_unsized(stream, data, n_elems, context, all_fields)\n            return\n\n        if n_elems and len(data) != n_elems:\n")],
 needs='an array whose declared count is zero (fixed, or held by another field) given a list with elements',
 breaks='the elements are written although the count says there are none',
 demo='''
import binobj
from binobj import errors, fields
class S(binobj.Struct):
    n = fields.UInt8()
    a = fields.Array(fields.UInt8(), count=n)
try:
    out = S(n=0, a=[1, 2]).to_bytes()
except errors.ArraySizeError:
    pass
else:
    raise SystemExit(repr(out))
'''),
dict(id='c20-dump-bypass',prop='C20',file='binobj/fields/containers.py',edits=[("            dumper.to_stream(stream, data, context, all_fields)\n","            dumper._do_dump(stream, data, context, all_fields)\n")],
 needs='a union alternative with its own null value, validator or size whose value is dumped',
 breaks='null, validation and size of the chosen alternative are bypassed on dumping',
 demo='''
import binobj
from binobj import errors, fields
def low(field, value):
    if value > 10:
        raise errors.ValidationError(field=field, value=value)
class S(binobj.Struct):
    u = fields.Union(fields.UInt8(validate=low), load_decider=lambda *a: a[1][0], dump_decider=lambda *a: a[1][0])
try:
    S(u=11).to_bytes()
except errors.ValidationError:
    pass
else:
    raise SystemExit("accepted")
'''),
dict(id='c21-nested-dict-context',prop='C21',file='binobj/fields/containers.py',edits=[("            instance.to_stream(stream, context)\n","            stream.write(bytes(instance))\n")],
 needs='a nested structure (at any depth) with a callback that looks at the context on dumping',
 breaks='callbacks within nested structures get no context',
 demo='''
import binobj
from binobj import fields
class In(binobj.Struct):
    a = fields.UInt8(present=lambda v, c, s: c is not None and c["on"])
class Out(binobj.Struct):
    x = fields.Nested(In)
assert Out(x={"a": 3}).to_bytes({"on": True}) == b"\\3"
'''),
dict(id='c22-init-kwargs-shared',prop='C22',file='binobj/structures.py',edits=[("            results = typing.cast(MutableStrDict, copy.deepcopy(init_kwargs))\n","            results = typing.cast(MutableStrDict, dict(init_kwargs))\n")],
 needs='loading with init_kwargs that hold a mutable value, then changing the loaded structure',
 breaks='the value is shared between the caller and everything loaded with it',
 demo='''
import binobj
from binobj import fields
class S(binobj.Struct):
    a = fields.Array(fields.UInt8(), count=2)
    b = fields.UInt8()
kw = {"a": [1, 2]}
x = S.from_bytes(b"\\7\\7\\1", init_kwargs=kw)
x.a.append(9)
assert kw == {"a": [1, 2]}, kw
'''),
dict(id='c23-strz-bom',prop='C23',file='binobj/fields/stringlike.py',edits=[('        stream.write((data + "\\0").encode(self.encoding))\n','        stream.write(data.encode(self.encoding) + "\\0".encode(self.encoding))\n')],
 needs='a null-terminated string in an encoding with a byte order mark or with shift states',
 breaks='the terminator is written with another byte order mark, which ends up in the loaded text',
 demo='''
from binobj import fields
for enc in ("utf-16", "utf-32", "utf-8-sig", "iso2022_kr"):
    f = fields.StringZ(encoding=enc)
    assert f.to_bytes("ab") == "ab\\0".encode(enc), enc
'''),
dict(id='c24-swallowed',prop='C24',file='binobj/structures.py',edits=[("            except errors.UnexpectedEOFError:\n","            except (errors.UnexpectedEOFError, OSError):\n")],
 needs='a stream that fails with an OSError during an open-ended partial load',
 breaks='the failure is taken as the end of the data and a partial structure is returned',
 demo='''
import io
import binobj
from binobj import fields
class Bad(io.BytesIO):
    def read(self, *a):
        if self.tell() >= 2:
            raise OSError("disk on fire")
        return super().read(*a)
class S(binobj.Struct):
    a = fields.UInt16()
    b = fields.UInt16()
try:
    S.partial_load(Bad(b"abcd"))
except OSError:
    pass
else:
    raise SystemExit("swallowed")
'''),
dict(id='c05-short-hex-uuid',prop='C05',file='binobj/fields/stringlike.py',edits=[("        if len(raw_data) < self.size:\n","        if not raw_data:\n")],
 needs='input that ends within a UUID',
 breaks='the load fails with a ValueError of the uuid module instead of a deserialization error',
 demo='''
from binobj import errors, fields
for how in fields.UUIDFormat:
    try:
        fields.UUID4(stored_as=how).from_bytes(b"0123456")
    except errors.DeserializationError:
        pass
'''),
]
