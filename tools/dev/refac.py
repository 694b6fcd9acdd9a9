import pathlib
def sub(f, *es):
    p=pathlib.Path('/tmp/rf')/f; s=p.read_text()
    for o,n in es:
        assert s.count(o)==1,(f,s.count(o),o)
        s=s.replace(o,n)
    p.write_text(s)
H='binobj/helpers.py';B='binobj/fields/base.py';C='binobj/fields/containers.py';T='binobj/fields/stringlike.py';S='binobj/structures.py';N='binobj/fields/numeric.py';V='binobj/varints.py';P='binobj/pep526.py'
sub(H,("""    n_read = 0

    while max_bytes is None or n_read < max_bytes:
        this_byte = stream.read(1)
        if this_byte == b"":
            return
        yield this_byte
        n_read += 1
""","""    remaining = max_bytes
    for this_byte in iter(lambda: stream.read(1), b""):
        yield this_byte
        if remaining is not None:
            remaining -= 1
            if remaining <= 0:
                break
"""),("""    data = stream.read(n_bytes)
    if len(data) < n_bytes:
        raise errors.UnexpectedEOFError(field=None, size=n_bytes, offset=offset)

    return int.from_bytes(data, endian, signed=signed)
""","""    data = stream.read(n_bytes)
    complete = len(data) >= n_bytes
    if complete:
        return int.from_bytes(data, endian, signed=signed)
    raise errors.UnexpectedEOFError(field=None, size=n_bytes, offset=offset)
"""))
sub(V,("""    value = 0
    bits_read = 0

    while True:
        int8 = _read_uint8(stream)
        value |= (int8 & 0x7F) << bits_read
        bits_read += 7

        if not int8 & 0x80:
            return value
""","""    groups = []
    more = True
    while more:
        int8 = _read_uint8(stream)
        groups.append(int8 & 0x7F)
        more = bool(int8 & 0x80)

    return sum(group << (7 * i) for i, group in enumerate(groups))
"""),("""    starting_offset = stream.tell()
    value = decode_integer_uleb128(stream)
    if value == 0:
        return 0

    n_bytes_read = stream.tell() - starting_offset
    n_bits_read = n_bytes_read * 7
""","""    n_bits_read = 0
    value = 0
    while True:
        int8 = _read_uint8(stream)
        value |= (int8 & 0x7F) << n_bits_read
        n_bits_read += 7
        if int8 < 0x80:
            break
    if value == 0:
        return 0
"""))
sub(T,("""        result = io.StringIO()
""","""        result = []
"""),("""            if chars.endswith("\\0"):
                result.write(chars[:-1])
                return result.getvalue()
            result.write(chars)
""","""            result.append(chars)
            if chars[-1:] == "\\0":
                return "".join(result)[:-1]
"""),("""        size_diff = len(to_dump) - write_size
        if size_diff > 0:
""","""        size_diff = len(to_dump) - write_size
        if size_diff == 0:
            return to_dump
        if size_diff > 0:
"""))
sub(C,("""        result: list[Optional[T]] = []
        while not self.halt_check(self, stream, result, context, loaded_fields):
            component = self.component.from_stream(stream, context, loaded_fields)
            if component is NOT_PRESENT:
                continue
            result.append(component)

        return result
""","""        result: list[Optional[T]] = []
        while True:
            if self.halt_check(self, stream, result, context, loaded_fields):
                return result
            element = self._load_element(stream, context, loaded_fields)
            if element is not NOT_PRESENT:
                result.append(element)

    def _load_element(self, stream, context, loaded_fields):
        return self.component.from_stream(
            stream, context=context, loaded_fields=loaded_fields
        )
"""),("""        n_elems = self.get_final_element_count(all_fields)
        if not isinstance(data, Sized):
            self._dump_unsized(stream, data, n_elems, context, all_fields)
            return

        if n_elems is not None and len(data) != n_elems:
            raise errors.ArraySizeError(
                field=self, n_expected=n_elems, n_given=len(data)
            )

        for value in iter(data):
            self.component.to_stream(stream, value, context, all_fields)
""","""        n_elems = self.get_final_element_count(all_fields)
        if isinstance(data, Sized):
            n_given = len(data)
            if n_elems is not None and n_given != n_elems:
                raise errors.ArraySizeError(
                    field=self, n_expected=n_elems, n_given=n_given
                )
            for value in data:
                self.component.to_stream(
                    stream, value, all_fields=all_fields, context=context
                )
        else:
            self._dump_unsized(stream, data, n_elems, context, all_fields)
"""),("""        if isinstance(data, Struct):
            data.to_stream(stream, context)
        else:
            instance = self.struct_class(**typing.cast(StrDict, data))
            instance.to_stream(stream, context)
""","""        if not isinstance(data, Struct):
            data = self.struct_class(**typing.cast(StrDict, data))
        stream.write(data.to_bytes(context))
"""))
sub(S,("""        for field in self.__binobj_struct__.components.values():
            value = field.compute_value_for_dump(all_fields, context)
            if value is not fields.NOT_PRESENT:
                field.to_stream(stream, value, context=context, all_fields=all_fields)
""","""        for field in self.__binobj_struct__.components.values():
            self._dump_one(field, stream, context, all_fields)

    @staticmethod
    def _dump_one(field, stream, context, all_fields):
        value = field.compute_value_for_dump(all_fields, context)
        if value is fields.NOT_PRESENT:
            return
        field.to_stream(stream, value, context, all_fields)
"""),("""            results.setdefault(name, field.from_stream(stream, context, results))
""","""            loaded = field.from_stream(stream, context, results)
            if name not in results:
                results[name] = loaded
"""),("""        stream = io.BytesIO(data)
        loaded_data = cls.from_stream(stream, context, init_kwargs)

        here = stream.tell()
""","""        with io.BytesIO(data) as stream:
            loaded_data = cls.from_stream(stream, context, init_kwargs)
            here = stream.tell()
            total = len(stream.getbuffer())

"""),("""        data_size = stream.seek(0, io.SEEK_END)
""","""        data_size = total
"""),("""        for name, value in self.__values__.items():
            if value is not fields.UNDEFINED:
                yield name
""","""        return iter(
            [n for n, value in self.__values__.items() if value is not fields.UNDEFINED]
        )
"""),("""            self.__values__.pop(field_name, None)
""" if False else """        self.__values__.pop(field_name, None)
""","""        if field_name in self.__values__:
            del self.__values__[field_name]
"""))
sub(B,("""        if not self.present(loaded_fields, context, stream):
            return self.not_present_value
""","""        is_present = bool(self.present(loaded_fields, context, stream))
        if is_present:
            return self._load_present(stream, context, loaded_fields)
        return self.not_present_value

    def _load_present(self, stream, context, loaded_fields):
        \"\"\"Load a field that is there.\"\"\"
"""),("""        serialized_value = buf.getvalue()
        current_size = len(serialized_value)
        if self.has_fixed_size:
            expected_size = typing.cast(int, self.size)
        elif self.size is None:
            expected_size = current_size
        else:
            expected_size = self.get_expected_size(all_fields)
""","""        serialized_value = buf.getvalue()
        if self.size is None:
            expected_size = len(serialized_value)
        else:
            expected_size = self.get_expected_size(all_fields)
"""))
sub(N,("""        seconds, fraction = divmod(value, self._units)
        microsecond = fraction * 10**6 // self._units
""","""        seconds = value // self._units
        microsecond = (value - seconds * self._units) * 10**6 // self._units
"""))
