"""Recording and fault-injecting binary streams."""
import io


class InjectedFault(OSError):
    pass


class RecStream(io.RawIOBase):
    """In-memory stream logging every call; optionally fails at the k-th call."""

    def __init__(self, data=b"", pos=0, fail_at=None, fail_kinds=None):
        super().__init__()
        self.buf = io.BytesIO(bytes(data))
        self.buf.seek(pos)
        self.log = []
        self.fail_at = fail_at
        self.fail_kinds = fail_kinds
        self.ncalls = 0
        self.fault = None

    def _tick(self, kind):
        if self.fail_kinds and kind not in self.fail_kinds:
            return
        self.ncalls += 1
        if self.fail_at is not None and self.ncalls == self.fail_at:
            self.fault = InjectedFault(f"injected at call {self.ncalls} ({kind})")
            raise self.fault

    def read(self, n=-1):
        self._tick("read")
        at = self.buf.tell()
        d = self.buf.read(n)
        self.log.append(("read", at, n, d))
        return d

    def readinto(self, b):
        d = self.read(len(b))
        b[: len(d)] = d
        return len(d)

    def write(self, b):
        self._tick("write")
        at = self.buf.tell()
        n = self.buf.write(b)
        self.log.append(("write", at, n, bytes(b)))
        return n

    def seek(self, off, whence=0):
        self._tick("seek")
        at = self.buf.tell()
        r = self.buf.seek(off, whence)
        self.log.append(("seek", at, r, (off, whence)))
        return r

    def tell(self):
        self._tick("tell")
        return self.buf.tell()

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    # not counted, for the oracle
    @property
    def at(self):
        return self.buf.tell()

    def getvalue(self):
        return self.buf.getvalue()

    def kinds(self):
        return [e[0] for e in self.log]
