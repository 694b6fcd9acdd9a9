exec(open('/tmp/refac.py').read().split("sub(H,")[0])
sub(S,("""        for field in self.__binobj_struct__.components.values():
            value = field.compute_value_for_dump(all_fields, context)
            if value is not fields.NOT_PRESENT:
                field.to_stream(stream, value, context=context, all_fields=all_fields)
""","""        buffer = io.BytesIO()
        for field in self.__binobj_struct__.components.values():
            value = field.compute_value_for_dump(all_fields, context)
            if value is not fields.NOT_PRESENT:
                field.to_stream(buffer, value, context=context, all_fields=all_fields)
        stream.write(buffer.getvalue())
"""),("""        if field.offset is not None and field.is_self_contained:
            try:
                stream.seek(original_offset + field.offset)
                return field.from_stream(stream, context, {})
            finally:
                stream.seek(original_offset)
""",""),("""        for f_name, validators in self.__binobj_struct__.field_validators.items():
            f_obj = self.__binobj_struct__.components[f_name]
""","""        meta = self.__binobj_struct__
        for f_name, f_obj in meta.components.items():
            if f_name not in meta.field_validators:
                continue
            validators = meta.field_validators[f_name]
"""))
sub(B,("""                potential_null_bytes = helpers.peek_bytes(stream, len(null_repr))
                if potential_null_bytes == null_repr:
""","""                start = stream.tell()
                is_null = stream.read(len(null_repr)) == null_repr
                stream.seek(start)
                if is_null:
"""),("""                    stream.seek(len(null_repr), os.SEEK_CUR)
""","""                    stream.seek(start + len(null_repr))
"""),("""        for validator in self.validators:
            validator(data)

        if data is None:
            stream.write(self._get_null_repr(all_fields))
            return
""","""        self._run_validators(data)

        if data is None:
            null_repr = self._get_null_repr(all_fields)
            stream.write(null_repr)
            return
"""),("""    def _add_padding(self, serialized""","""    def _run_validators(self, value):
        for validator in self.validators:
            validator(value)

    def _add_padding(self, serialized"""),("""        self.validators = [
            functools.partial(v, self) for v in m_iter.always_iterable(validate)
        ]
""","""        self.validators = []
        for function in m_iter.always_iterable(validate):
            self.validators.append(functools.partial(function, self))
"""))
sub(T,("""        raw_data = stream.read(self.size)
        if len(raw_data) < self.size:
            raise errors.UnexpectedEOFError(field=self, size=self.size, offset=offset)
""","""        del offset
        raw_data = self._read_exact_size(stream, loaded_fields)
"""))
sub(C,("""        offset = stream.tell()
        try:
            return stream.read(1) == b""
        finally:
            stream.seek(offset)
""","""        return not helpers.peek_bytes(stream, 1)
"""),("from binobj import errors\n","from binobj import errors\nfrom binobj import helpers\n"),
("""        dumper = self.dump_decider(data, self.choices, context, all_fields)
        if isinstance(dumper, Field):
            dumper.to_stream(stream, data, context, all_fields)
        elif issubclass(dumper, Struct):
""","""        dumper = self.dump_decider(data, self.choices, context, all_fields)
        if isinstance(dumper, Field):
            stream.write(dumper.to_bytes(data, context, all_fields))
        elif issubclass(dumper, Struct):
"""))
sub(V,("""    for i in range(n_bytes - 1, 0, -1):
        buf[i] = 0x80 | (value & 0x7F)
        value >>= 7

    buf[0] = 0x80 | sign_bit | (value & 0x3F)
""","""    for i in reversed(range(1, n_bytes)):
        value, group = divmod(value, 128)
        buf[i] = 128 + group

    buf[0] = 0x80 | sign_bit | value
"""))
