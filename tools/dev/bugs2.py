BUGS=[
dict(id='c25-nested-offset',prop='C25',file='binobj/fields/containers.py',edits=[("        return self.struct_class.from_stream(stream, context)\n","        if not self.has_fixed_size:\n            return self.struct_class.from_stream(stream, context)\n\n        # One read for the whole struct instead of one for each field.\n        data = stream.read(typing.cast(int, self.size))\n        return self.struct_class.from_bytes(data, context)\n")],
 needs='input that ends inside a nested structure of fixed size that is not at the beginning of the stream',
 breaks='the offset in the end-of-data error is relative to the nested structure instead of the stream',
 demo='''
import binobj
from binobj import errors, fields
class In(binobj.Struct):
    x = fields.UInt16(endian="big")
    y = fields.UInt32(endian="big")
class Out(binobj.Struct):
    head = fields.Bytes(size=10)
    body = fields.Nested(In)
try:
    Out.from_bytes(b"0123456789" + b"ab" + b"cd")
except errors.UnexpectedEOFError as e:
    assert (e.offset, e.size) == (12, 4), (e.offset, e.size)
else:
    raise SystemExit("accepted")
'''),
]
