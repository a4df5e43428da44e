"""C19: the FlatBuffer reader returns what was written, and the default when absent."""
import enum
import io
import struct

from lib import sut
from lib.mon import HarnessError, SutFailure
from lib.rngspec import rng_for

RULE = ("one case = one field read of one generated buffer (random schema, values and layout), "
        "compared with the value written or the default; distinct = distinct (layout, field kind, "
        "present or absent, width, position, way of reading, kind of buffer) and values")
REQUIRED = ["reads:int", "reads:float", "reads:enum", "reads:string", "reads:object", "reads:array",
            "reads:vec3f", "absent", "absent_default", "sequential", "by_position", "dumps",
            "written_by_own_writer", "written_by_flatbuffers", "shared_vtables", "short_vtables",
            "nested_depth_3", "empty_arrays", "present_default_value", "extreme_values",
            "far_vtables", "padding_skips",
            "large:string", "large:array", "large:table", "large:buffer", "large:depth"]
ASSUMPTIONS = ["buffers are well-formed: offsets lie inside the buffer, scalars are aligned, strings "
               "are UTF-8; absent arrays read as empty lists (the reader takes no default for them)"]
INTS = {"U8": ("<B", 0, 255), "I8": ("<b", -128, 127), "U16": ("<H", 0, 65535),
        "I16": ("<h", -32768, 32767), "U32": ("<I", 0, 2**32 - 1), "I32": ("<i", -2**31, 2**31 - 1),
        "U64": ("<Q", 0, 2**64 - 1), "I64": ("<q", -2**63, 2**63 - 1)}
FLOATS = {"F32": "<f", "F64": "<d"}
SIZE = {k: struct.calcsize(v[0]) for k, v in INTS.items()} | {"F32": 4, "F64": 8}


class Colour(enum.IntEnum):
    RED = 0
    GREEN = 1
    BLUE = 7


def jobs(tier, seed):
    quick = tier == "quick"
    out = []
    for shard in range(3 if quick else 8):
        out.append({"func": "roundtrip", "mode": "numpy", "shard": shard,
                    "n": 9000 if quick else 40_000})
    for shard in range(5):
        out.append({"func": "large", "mode": "numpy", "shard": shard, "n": 2 if quick else 20})
    out.append({"func": "roundtrip", "mode": "numba", "shard": 99, "n": 300 if quick else 6000})
    return out


# --- generated data ----------------------------------------------------------

def scalar(r, kind):
    if kind in INTS:
        _, lo, hi = INTS[kind]
        return r.choice((lo, hi, 0, 1, r.randint(lo, hi), r.randint(lo, hi), 0))
    if kind == "F32":
        v = r.choice((0.0, 1.0, -1.0, r.uniform(-1e6, 1e6), 3.4e38, 1e-40, float("inf")))
        return struct.unpack("<f", struct.pack("<f", v))[0]
    return r.choice((0.0, 1.0, -2.5, r.uniform(-1e300, 1e300), 5e-324, float("-inf")))


def text(r):
    n = r.choice((0, 1, 2, 3, 4, 5, 7, 8, 30, 200))
    pool = "aZ 09_\u00e9\u00df\u0416\u30dd\u30b1\u30e2\u30f3\u2640\U0001f600\x00\n"
    return "".join(r.choice(pool) for _ in range(n))


def node(r, depth):
    """a table: list of (kind, value or None)"""
    fields = []
    for _ in range(r.choice((0, 1, 2, 3, 5, 8, 12, 20))):
        kind = r.choice(tuple(INTS) + tuple(FLOATS) + ("str", "enum", "call", "vec", "pad")
                        + (("obj", "arr") if depth > 0 else ()) * 2)
        present = r.random() < 0.7
        if kind == "pad":
            # a field the reader skips
            fields.append((kind, (r.choice(("U8", "I32", "U64")), 77) if present else None))
            continue
        if not present:
            fields.append((kind, None))
        elif kind in SIZE:
            fields.append((kind, scalar(r, kind)))
        elif kind == "str":
            fields.append((kind, text(r)))
        elif kind == "enum":
            fields.append((kind, int(r.choice(list(Colour)))))
        elif kind == "call":
            fields.append((kind, r.choice((0, 1))))
        elif kind == "vec":
            fields.append((kind, tuple(None if r.random() < 0.15 else scalar(r, "F32")
                                       for _ in range(3))))
        elif kind == "obj":
            fields.append((kind, node(r, depth - 1)))
        else:
            # some arrays hold the same schema's table several times
            kids = [node(r, depth - 1) for _ in range(r.choice((0, 1, 2, 3, 6)))]
            if kids and r.random() < 0.3:
                kids += [kids[0]] * 2
            fields.append((kind, kids))
    return fields


def vec_fields(v):
    return [("F32", x) for x in v]


# --- our own writer: any layout the format allows ----------------------------

class Writer:
    """lays blobs (vtables, tables, vectors, strings) out in a random order"""

    def __init__(self, r, mon):
        self.r, self.mon = r, mon
        self.vtables = {}
        self.blobs = []

    def add(self, blob):
        self.blobs.append(blob)
        return len(self.blobs) - 1

    def table(self, fields):
        """-> blob index; scalars are stored in random order with random padding"""
        r = self.r
        items = []
        for k, (kind, value) in enumerate(fields):
            if value is None:
                continue
            if kind == "pad":
                kind, value = value
            if kind in SIZE:
                fmt = INTS[kind][0] if kind in INTS else FLOATS[kind]
                items.append((k, struct.pack(fmt, value), None))
            elif kind in ("enum", "call"):
                items.append((k, struct.pack("<b", value), None))
            elif kind == "str":
                items.append((k, None, self.string(value)))
            elif kind == "vec":
                items.append((k, None, self.table(vec_fields(value))))
            elif kind == "obj":
                items.append((k, None, self.table(value)))
            elif kind == "arr":
                made = {}
                kids = []
                for kid in value:
                    if id(kid) not in made:
                        made[id(kid)] = self.table(kid)
                    kids.append(made[id(kid)])
                items.append((k, None, self.vector(kids)))
        r.shuffle(items)
        body = bytearray(4)
        slots = {}
        refs = []
        for k, raw, ref in items:
            n = 4 if raw is None else len(raw)
            if r.random() < 0.3:
                body += b"\xee" * r.randrange(1, 9)
            # the table itself starts on a multiple of 8, so this aligns the field
            body += b"\xee" * (-len(body) % n)
            slots[k] = len(body)
            if raw is None:
                refs.append((len(body), ref))
                raw = b"\0\0\0\0"
            body += raw
        count = max(slots, default=-1) + 1
        if count < len(fields):
            self.mon.count("short_vtables")
            if r.random() < 0.5:
                count = len(fields)
        vt = [slots.get(k, 0) for k in range(count)]
        vt_key = (tuple(vt), len(body))
        if vt_key in self.vtables and r.random() < 0.8:
            vt_index = self.vtables[vt_key]
            self.mon.count("shared_vtables")
        else:
            vt_index = self.add(("vt", struct.pack(f"<{2 + count}H", 4 + 2 * count, len(body), *vt),
                                 [], None))
            self.vtables[vt_key] = vt_index
        return self.add(("table", body, refs, vt_index))

    def string(self, value):
        raw = value.encode("utf-8")
        return self.add(("data", bytearray(struct.pack("<I", len(raw)) + raw + b"\0"), [], None))

    def vector(self, kids):
        body = bytearray(struct.pack("<I", len(kids)) + b"\0\0\0\0" * len(kids))
        return self.add(("data", body, [(4 + 4 * i, k) for i, k in enumerate(kids)], None))

    def finish(self, root):
        """offsets to tables, vectors and strings are unsigned: parents come first"""
        r = self.r
        order = [i for i, b in enumerate(self.blobs) if b[0] != "vt"][::-1]
        for i, b in enumerate(self.blobs):
            if b[0] == "vt":
                # a vtable may lie anywhere, before or after its tables
                order.insert(r.randrange(len(order) + 1), i)
        out = bytearray(4)
        if r.random() < 0.3:
            out += b"IDNT"
        at = {}
        for i in order:
            kind, body, _, _ = self.blobs[i]
            align = 8 if kind == "table" else 4 if kind == "data" else 2
            out += b"\xdd" * (-len(out) % align)
            if r.random() < 0.2:
                out += b"\xdd" * (8 * r.randrange(1, 4))
            if r.random() < 0.003:
                out += b"\xdd" * 66_000
                self.mon.count("far_vtables")
            at[i] = len(out)
            out += body
        for i, (kind, _, refs, vt) in enumerate(self.blobs):
            for where, ref in refs:
                delta = at[ref] - (at[i] + where)
                if delta <= 0:
                    raise HarnessError("backward offset")
                struct.pack_into("<I", out, at[i] + where, delta)
            if kind == "table":
                struct.pack_into("<i", out, at[i], at[i] - at[vt])
        struct.pack_into("<I", out, 0, at[root])
        return bytes(out)


def write_with_flatbuffers(fields):
    import flatbuffers
    b = flatbuffers.Builder(64)
    b.ForceDefaults(True)
    prepend = {"U8": b.PrependUint8, "I8": b.PrependInt8, "U16": b.PrependUint16,
               "I16": b.PrependInt16, "U32": b.PrependUint32, "I32": b.PrependInt32,
               "U64": b.PrependUint64, "I64": b.PrependInt64, "F32": b.PrependFloat32,
               "F64": b.PrependFloat64}

    def table(fields):
        refs = {}
        for k, (kind, value) in enumerate(fields):
            if value is None:
                continue
            if kind == "str":
                refs[k] = b.CreateString(value)
            elif kind == "vec":
                refs[k] = table(vec_fields(value))
            elif kind == "obj":
                refs[k] = table(value)
            elif kind == "arr":
                kids = [table(kid) for kid in value]
                b.StartVector(4, len(kids), 4)
                for kid in reversed(kids):
                    b.PrependUOffsetTRelative(kid)
                refs[k] = b.EndVector()
        b.StartObject(len(fields))
        for k, (kind, value) in enumerate(fields):
            if value is None:
                continue
            if k in refs:
                b.PrependUOffsetTRelative(refs[k])
            else:
                if kind == "pad":
                    kind, value = value
                prepend[{"enum": "I8", "call": "I8"}.get(kind, kind)](value)
            b.Slot(k)
        return b.EndObject()
    b.Finish(table(fields))
    return bytes(b.Output())


# --- reading back -------------------------------------------------------------

DEFAULTS = {"str": ("none", ""), "enum": (Colour.BLUE, None), "call": (None, False)}


class Judge:
    def __init__(self, mon, fbo, r, label, kind):
        self.mon, self.fbo, self.r = mon, fbo, r
        self.label, self.buffer_kind = label, kind

    def same(self, got, want, what, kind, value, k, how):
        mon = self.mon
        name = {"str": "string", "obj": "object", "arr": "array", "vec": "vec3f", "enum": "enum",
                "call": "enum"}.get(kind, "int" if kind in INTS else "float")
        mon.count("reads:" + name)
        mon.count(how)
        mon.count("absent", value is None)
        mon.count("extreme_values", kind in INTS and value in INTS[kind][1:])
        mon.case((self.label, kind, value is None, min(k, 30), how, self.buffer_kind,
                  value if kind in SIZE or kind == "str" else None))
        ok = type(got) is type(want) and got == want
        if not ok:
            mon.violate(f"{what} of kind {kind} differs from what was written", got=got, want=want,
                        field=k, layout=self.label, how=how)
        return ok

    def check(self, obj, fields, depth=0):
        """obj is a freshly built object of the class under test"""
        mon, r, fbo = self.mon, self.r, self.fbo
        mon.count("nested_depth_3", depth >= 3)
        sequential = r.random() < 0.6
        k = -1
        while k + 1 < len(fields):
            k += 1
            kind, value = fields[k]
            how = "sequential" if sequential else "by_position"
            if kind == "pad":
                if sequential:
                    # skip this and every padding field that follows in one call
                    n = 1
                    while k + n < len(fields) and fields[k + n][0] == "pad":
                        n += 1
                    with mon.sut(f"read_init_padding({n})"):
                        obj.read_init_padding(n)
                    mon.count("padding_skips")
                    k += n - 1
                continue
            self.field(obj, k, kind, value, sequential, how, depth)
        if not sequential and fields and r.random() < 0.5:
            # any order, and again
            for k in r.sample(range(len(fields)), len(fields)):
                kind, value = fields[k]
                if kind not in ("pad", "obj", "arr"):
                    self.field(obj, k, kind, value, False, "by_position", depth)

    def field(self, obj, k, kind, value, sequential, how, depth):
        mon, r, fbo = self.mon, self.r, self.fbo
        pos = 4 + 2 * k
        init = "init_" if sequential else ""
        where = () if sequential else (pos,)
        what = f"read_{init}{kind}"
        if kind in SIZE:
            default = r.choice((None, 0, 5, -1)) if kind in INTS else r.choice((None, 0.0, 1.5))
            use = default is not None or r.random() < 0.5
            name = "int" if kind in INTS else "float"
            fn = f"read_{init}{name}"
            with mon.sut(f"{fn}({kind}) of field {k}"):
                call = getattr(obj, fn)
                tag = getattr(fbo, kind)
                if sequential:
                    got = call(tag, default=default) if use and r.random() < 0.5 else (
                        call(tag, default) if use else call(tag))
                else:
                    got = call(tag, pos, default=default) if use else call(tag, pos)
            want = default if value is None else value
            mon.count("absent_default", value is None and default is not None)
            mon.count("present_default_value", value is not None and value == default)
            if kind in FLOATS and value is not None:
                got = float(got)
            elif value is not None:
                got = int(got)
            self.same(got, want, fn, kind, value, k, how)
        elif kind in ("enum", "call"):
            default = r.choice(DEFAULTS[kind])
            fn = f"read_{init}int_enum"
            conv = Colour if kind == "enum" else bool
            with mon.sut(f"{fn} of field {k}"):
                got = getattr(obj, fn)(fbo.I8, *where, conv, default=default)
            mon.count("absent_default", value is None and default is not None)
            self.same(got, default if value is None else conv(value), fn, kind, value, k, how)
        elif kind == "str":
            default = r.choice((None, "", "none"))
            fn = f"read_{init}string"
            with mon.sut(f"{fn} of field {k}"):
                got = getattr(obj, fn)(*where, default=default)
            mon.count("absent_default", value is None and default is not None)
            self.same(got, default if value is None else value, fn, kind, value, k, how)
        elif kind == "vec":
            default = r.choice((None, None, (0.0, 0.0, 0.0)))
            fn = f"read_{init}vec3f"
            with mon.sut(f"{fn} of field {k}"):
                got = getattr(obj, fn)(*where, default=default)
                if value is not None:
                    one = (got.x, got.y, got.z)
                    got = got.as_tuple()
            if value is None:
                self.same(got, default, fn, kind, value, k, how)
            else:
                self.same(tuple(got), value, fn, kind, value, k, how)
                mon.same(one, value, "members of a vector differ", field=k)
        elif kind == "obj":
            default = r.choice((None, "absent"))
            fn = f"read_{init}object"
            with mon.sut(f"{fn} of field {k}"):
                got = getattr(obj, fn)(fbo.FlatBufferObject, *where, default=default)
            if value is None:
                self.same(got, default, fn, kind, value, k, how)
            else:
                self.same(type(got), fbo.FlatBufferObject, fn, kind, value, k, how)
                self.check(got, value, depth + 1)
        else:
            fn = f"read_{init}object_array"
            with mon.sut(f"{fn} of field {k}"):
                got = getattr(obj, fn)(fbo.FlatBufferObject, *where)
                n = len(got)
            if self.same(n, len(value or ()), fn, kind, value, k, how):
                mon.count("empty_arrays", n == 0)
                for kid, fields in zip(got, value or ()):
                    self.check(kid, fields, depth + 1)


def roundtrip(mon, job):
    fbo = sut.load(mon, "data.fbs.flatbuffer_object")
    r = rng_for(job, "fbs", job["shard"])
    for i in range(job["n"]):
        if mon.too_many:
            return
        fields = node(r, r.choice((0, 1, 2, 3, 4) if i % 5 == 0 else (0, 1, 2)))
        one(mon, r, fbo, fields, i)


def one(mon, r, fbo, fields, i):
    """write the table, read every field back"""
    if r.random() < 0.6:
        w = Writer(r, mon)
        data = w.finish(w.table(fields))
        mon.count("written_by_own_writer")
        label = "own"
    else:
        data = write_with_flatbuffers(fields)
        mon.count("written_by_flatbuffers")
        label = "flatbuffers"
    buf = bytearray(data) if i % 2 else data
    try:
        with mon.sut("root object"):
            obj = fbo.FlatBufferObject(buf)
        Judge(mon, fbo, r, label, type(buf).__name__).check(obj, fields)
        stream = io.BytesIO()
        with mon.sut("dump_binary"):
            obj.dump_binary(stream)
    except SutFailure:
        return
    mon.count("dumps")
    mon.expect(stream.getvalue() == data and bytes(buf) == data,
               "dumping does not write the buffer back unchanged", layout=label,
               size=len(data))
    if i < 3:
        mon.sample({"fields": len(fields), "bytes": len(data), "layout": label})


def large(mon, job):
    """lengths, offsets and positions beyond one and two bytes"""
    fbo = sut.load(mon, "data.fbs.flatbuffer_object")
    r = rng_for(job, "large", job["shard"])
    for i in range(job["n"]):
        if mon.too_many:
            return
        fields = node(r, 1)
        size = r.randrange(1 << 16, 1 << 17)
        which = (i + job["shard"]) % 5
        if which == 0:
            extra = [("str", text(r) + "\u30dd" * size), ("str", text(r))]
            mon.count("large:string")
        elif which == 1:
            kid = node(r, 0)[:2]
            extra = [("arr", [kid] * size), ("arr", [node(r, 0) for _ in range(300)])]
            mon.count("large:array")
        elif which == 2:
            extra = [f for _ in range(60) for f in node(r, 0)][:400]
            mon.count("large:table")
        elif which == 3:
            extra = [("str", "x" * ((1 << 24) + size)), ("obj", node(r, 2))]
            mon.count("large:buffer")
        else:
            # a chain of objects
            extra = node(r, 0)
            for _ in range(60):
                extra = node(r, 0) + [("obj", extra)]
            mon.count("large:depth")
        cut = r.randrange(len(fields) + 1)
        one(mon, r, fbo, fields[:cut] + extra + fields[cut:], i)


def finalize(results, tier, seed, scratch):
    return {}
