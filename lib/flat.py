"""A FlatBuffer reader of our own (shares nothing with the package or flatbuffers)."""
import struct

FORMATS = {"u8": "<B", "i8": "<b", "u16": "<H", "i16": "<h", "u32": "<I", "i32": "<i",
           "u64": "<Q", "i64": "<q", "f32": "<f", "f64": "<d"}


class T:
    """a table"""

    def __init__(self, buf, at):
        self.buf, self.at = buf, at
        vt = at - struct.unpack_from("<i", buf, at)[0]
        size, = struct.unpack_from("<H", buf, vt)
        self.slots = struct.unpack_from(f"<{(size - 4) // 2}H", buf, vt + 4)

    @classmethod
    def root(cls, buf):
        return cls(buf, struct.unpack_from("<I", buf, 0)[0])

    def where(self, k):
        off = self.slots[k] if k < len(self.slots) else 0
        return self.at + off if off else None

    def num(self, k, kind, default=None):
        p = self.where(k)
        return default if p is None else struct.unpack_from(FORMATS[kind], self.buf, p)[0]

    def follow(self, p):
        return p + struct.unpack_from("<I", self.buf, p)[0]

    def table(self, k):
        p = self.where(k)
        return None if p is None else T(self.buf, self.follow(p))

    def tables(self, k):
        p = self.where(k)
        if p is None:
            return []
        v = self.follow(p)
        n, = struct.unpack_from("<I", self.buf, v)
        return [T(self.buf, self.follow(v + 4 + 4 * i)) for i in range(n)]

    def text(self, k, default=None):
        p = self.where(k)
        if p is None:
            return default
        v = self.follow(p)
        n, = struct.unpack_from("<I", self.buf, v)
        return bytes(self.buf[v + 4:v + 4 + n]).decode("utf-8")
