"""C25: record classes keep the layout they declare, in the interpreter and in compiled code.

Random record classes (scalars, unused bytes, arrays, nested records, arrays of
records, to three levels) are declared with the package's decorator; the oracle is
the bytes themselves: every field's offset follows from the declaration alone."""
import math
import re
import struct
from typing import Annotated

import numpy as np

from lib import sut
from lib.mon import SutFailure
from lib.rngspec import edge_int, rng_for

RULE = ("one case = one record class read, written and copied row by row, each leaf compared with "
        "the bytes at the offset its declaration implies, or one array attribute of a user's "
        "class; distinct = distinct (layout, operation, row, indices, value)")
REQUIRED = ["layouts", "nested_records", "arrays_of_records", "grids", "unused", "bools", "floats",
            "compiled_reads", "compiled_writes", "interpreted_reads", "interpreted_writes",
            "copies", "kept_in_class", "made_inside", "readonly_arrays", "dimensions",
            "dataclass_values", "columns", "cells", "refused_writes"]
ASSUMPTIONS = ["field types are numpy dtypes or record classes, arrays have at least one element; "
               "floats compared as values of their own width; no "
               "arrays of booleans in records, which numba does not have"]

SCALARS = {"U8": "<B", "U16": "<H", "U32": "<I", "U64": "<Q", "F32": "<f", "BOOL8": "<?",
           "i1": "<b", "<i2": "<h", "<i4": "<i", "<i8": "<q", "<f8": "<d"}
# numba itself has no arrays of booleans inside records
ELEMENTS = [k for k in SCALARS if k != "BOOL8"]
INTS = {"U8": (0, 8), "U16": (0, 16), "U32": (0, 32), "U64": (0, 64), "i1": (1, 8),
        "<i2": (1, 16), "<i4": (1, 32), "<i8": (1, 64)}


def jobs(tier, seed):
    grow = 1 if tier == "quick" else 12
    out = [{"func": "layouts", "mode": "numba", "shard": k, "n": 14 * grow} for k in range(7)]
    out.append({"func": "layouts", "mode": "numpy", "shard": 9, "n": 250 * grow})
    for mode in ("numba", "numpy"):
        out.append({"func": "arrays", "mode": mode,
                    "n": (12 if mode == "numba" else 60) * grow})
        out.append({"func": "shipped", "mode": mode, "n": 40 * grow})
    return out


class Scalar:
    def __init__(self, kind):
        self.kind, self.fmt = kind, SCALARS[kind]
        self.size = struct.calcsize(self.fmt)

    def leaves(self):
        yield "", (), self, lambda idx: 0

    def __repr__(self):
        return self.kind


class Array:
    def __init__(self, of, n):
        self.of, self.n, self.size = of, n, of.size * n

    def leaves(self):
        for path, dims, leaf, where in self.of.leaves():
            yield "[{}]" + path, (self.n,) + dims, leaf, (
                lambda idx, w=where: idx[0] * self.of.size + w(idx[1:]))

    def __repr__(self):
        return f"{self.of!r}*{self.n}"


class Record:
    def __init__(self, fields):
        self.fields = fields
        self.size = sum(f.size for _, f in fields)

    def offsets(self):
        at = 0
        for name, f in self.fields:
            yield name, f, at
            at += f.size

    def leaves(self):
        for name, f, at in self.offsets():
            for path, dims, leaf, where in f.leaves():
                yield f".{name}{path}", dims, leaf, lambda idx, a=at, w=where: a + w(idx)

    def __repr__(self):
        return "{" + ", ".join(f"{n}: {f!r}" for n, f in self.fields) + "}"


def random_record(r, mon, depth=0):
    fields, used = [], set()
    for _ in range(r.randrange(1 if depth else 2, 4 if depth else 6)):
        name = r.choice("abcdefghklmpqrs") + r.choice(("", "_1", "level", "_Z"))
        if name in used:
            continue
        used.add(name)
        k = r.random()
        if k < 0.45 or (depth == 2 and k < 0.7):
            f = Scalar(r.choice(list(SCALARS)))
        elif k < 0.58:
            f = Array(Scalar(r.choice(ELEMENTS)), r.randrange(1, 6))
        elif k < 0.66:
            f = Array(Array(Scalar(r.choice(ELEMENTS)), r.randrange(1, 4)),
                      r.randrange(1, 4))
            mon.count("grids")
        elif k < 0.72:
            name, f = "_" + name, Array(Scalar("U8"), r.randrange(1, 6))
            f.unused = True
            mon.count("unused")
        elif depth == 2:
            f = Scalar("U16")
        elif k < 0.86:
            f = random_record(r, mon, depth + 1)
            mon.count("nested_records")
        else:
            f = Array(random_record(r, mon, depth + 1), r.randrange(1, 5))
            mon.count("arrays_of_records")
        fields.append((name, f))
    return Record(fields)


def declare(util, rec, name="Made", first=()):
    """the class a user would write"""
    def kind(s):
        return getattr(util, s.kind) if s.kind.isupper() or s.kind[-1].isdigit() and \
            s.kind[0] in "UFB" else np.dtype(s.kind)

    def dtype_of(f, label):
        if isinstance(f, Scalar):
            return kind(f)
        if isinstance(f, Record):
            return declare(util, f, label)
        return util.dtype_array(dtype_of(f.of, label), f.n)

    notes = {}
    for k, (n, f) in enumerate(rec.fields):
        if getattr(f, "unused", False):
            notes[n] = util.unused_bytes(f.n)
        elif isinstance(f, Array) and (isinstance(f.of, Record) or k % 2):
            notes[n] = Annotated[list, dtype_of(f, f"{name}_{n}")]
        else:
            notes[n] = dtype_of(f, f"{name}_{n}")
    return util.dtype_dataclass(type(name, (), {"__annotations__": notes, "__module__": __name__}))


def value(r, leaf):
    if leaf.kind == "BOOL8":
        return r.random() < 0.5
    if leaf.kind == "F32":
        return struct.unpack("<f", struct.pack("<f", r.choice((0.0, 1.5, -0.1, r.gauss(0, 1e3)))))[0]
    if leaf.kind == "<f8":
        return r.choice((0.0, -1.25, 0.1, r.gauss(0, 1e9)))
    signed, bits = INTS[leaf.kind]
    v = edge_int(r, bits)
    return v - (1 << bits) if signed and v >> (bits - 1) else v


def fill(r, buf, rec, rows):
    """every leaf of every row a random value"""
    for path, dims, leaf, where in rec.leaves():
        for row in range(rows):
            for flat in range(math.prod(dims)):
                idx = np.unravel_index(flat, dims) if dims else ()
                struct.pack_into(leaf.fmt, buf, row * rec.size + where(tuple(map(int, idx))),
                                 value(r, leaf))


def chosen_leaves(r, rec, k):
    every = list(rec.leaves())
    return every if len(every) <= k else r.sample(every, k)


def group(leaf):
    """(column, conversion) the drivers move the leaf through"""
    if leaf.kind in ("F32", "<f8"):
        return "f", "np.float64"
    if leaf.kind == "BOOL8" or not INTS[leaf.kind][0]:
        return "u", "np.uint64"
    return "s", "np.int64"


NP = {"U8": "np.uint8", "U16": "np.uint16", "U32": "np.uint32", "U64": "np.uint64",
      "i1": "np.int8", "<i2": "np.int16", "<i4": "np.int32", "<i8": "np.int64",
      "F32": "np.float32", "<f8": "np.float64", "BOOL8": "bool"}


def random_style(r, mon, path):
    # numpy gives an array of records by key without attribute access
    style = r.choice(("", "", "column", "key" if path.count(".") == 1 else ""))
    mon.count("columns", style == "column")
    return style + " commas" if "][" in path and r.random() < 0.4 else style


def sources(leaves, styles):
    """reader, writer and copier over the leaves, as a user would write them"""
    read = ["def read(table, rows, which, at, u, s, f):",
            "    for n in range(rows.shape[0]):",
            "        row = table[rows[n]]"]
    write = ["def write(table, rows, which, at, u, s, f):",
             "    for n in range(rows.shape[0]):",
             "        row = table[rows[n]]"]
    for k, ((path, dims, leaf, _), style) in enumerate(zip(leaves, styles)):
        expr = path.format(*(f"at[n, {d}]" for d in range(len(dims))))
        if "commas" in style:
            # several dimensions in one subscript
            expr = expr.replace("][", ", ")
        head = re.match(r"\.(\w+)", expr).group()
        if "column" in style:
            expr = f"table{head}[rows[n]]" + expr[len(head):]
        elif "key" in style:
            expr = f"row['{head[1:]}']" + expr[len(head):]
        else:
            expr = "row" + expr
        col, conv = group(leaf)
        word = "if" if k == 0 else "elif"
        read += [f"        {word} which[n] == {k}:", f"            {col}[n] = {conv}({expr})"]
        write += [f"        {word} which[n] == {k}:",
                  f"            {expr} = {NP[leaf.kind]}({col}[n])"]
    copy = ["def copy(table, a, b):", "    table[a] = table[b]"]
    ns = {"np": np}
    for lines in (read, write, copy):
        exec("\n".join(lines) + "\n", ns)  # noqa: S102
    return ns["read"], ns["write"], ns["copy"]


def plan(r, leaves, rows, n):
    which = np.array([r.randrange(len(leaves)) for _ in range(n)], np.int64)
    row = np.array([r.randrange(rows) for _ in range(n)], np.int64)
    at = np.zeros((n, 6), np.int64)
    for k in range(n):
        for d, size in enumerate(leaves[which[k]][1]):
            at[k, d] = r.randrange(size)
    return row, which, at, np.zeros(n, np.uint64), np.zeros(n, np.int64), np.zeros(n, np.float64)


def one_layout(mon, r, util, comp, numba, rec):
    rows = r.randrange(1, 6)
    text = repr(rec)
    with mon.sut(f"declare {text}", layout=text):
        cls = declare(util, rec)
        dtype = cls.dtype
        got = [(n, dtype.fields[n][1], dtype.fields[n][0].itemsize) for n in dtype.names]
    want = [(n, at, f.size) for n, f, at in rec.offsets()]
    mon.count("layouts")
    if not mon.same((got, dtype.itemsize), (want, rec.size),
                    "a record's fields are not packed in the order declared", layout=text):
        return
    buf = bytearray(rec.size * rows)
    fill(r, buf, rec, rows)
    model = bytearray(buf)
    with mon.sut(f"view bytes as {text}", layout=text):
        table = np.frombuffer(buf, dtype).view(np.recarray)
    leaves = chosen_leaves(r, rec, 10 if numba else 40)
    styles = [random_style(r, mon, leaf[0]) for leaf in leaves]
    mon.count("bools", sum(leaf[2].kind == "BOOL8" for leaf in leaves))
    mon.count("floats", sum(leaf[2].kind in ("F32", "<f8") for leaf in leaves))
    slow = sources(leaves, styles)
    ways = {"interpreted": slow}
    if numba:
        with mon.sut(f"compile users of {text}", layout=text):
            ways["compiled"] = tuple(comp.optional_njit(f) for f in slow)
    holder = None
    if numba or r.random() < 0.3:
        with mon.sut(f"keep {text} in a class", layout=text):
            @comp.optional_jitclass
            class Holder:
                """a user's class that keeps a table"""

                table: comp.array_type(dtype)

                def __init__(self, table):
                    self.table = table

            holder = Holder(table)
    for step in range(6):
        for way, (read, write, copy) in ways.items():
            args = plan(r, leaves, rows, 24)
            row, which, at, u, s, f = args
            where, idx = [], []
            for k in range(len(which)):
                path, dims, leaf, offset = leaves[which[k]]
                idx.append(tuple(int(v) for v in at[k, :len(dims)]))
                where.append(int(row[k]) * rec.size + offset(idx[-1]))
            cols = {"u": u, "s": s, "f": f}
            source = table
            if holder is not None and r.random() < 0.5:
                with mon.sut(f"{text}: table kept in a class", layout=text):
                    source = holder.table
                    if way == "interpreted":
                        source = source.view(np.recarray)
                mon.count("kept_in_class")
            with mon.sut(f"{way} read of {text}", layout=text):
                read(source, *args)
            for k in range(len(which)):
                path, dims, leaf, _ = leaves[which[k]]
                (want,) = struct.unpack_from(leaf.fmt, model, where[k])
                got = cols[group(leaf)[0]][k]
                mon.case((text, way, "read", int(row[k]), path, idx[k], want))
                if got != want:
                    mon.violate(f"{way} code reads another value than the record holds",
                                layout=text, field=path, indices=idx[k], row=int(row[k]),
                                got=got.item(), want=want)
                    return
            mon.count(f"{way}_reads", len(which))
            for k in range(len(which)):
                leaf = leaves[which[k]][2]
                v = value(r, leaf)
                cols[group(leaf)[0]][k] = v
                struct.pack_into(leaf.fmt, model, where[k], v)
                mon.case((text, way, "write", int(row[k]), leaves[which[k]][0], idx[k], v))
            with mon.sut(f"{way} write of {text}", layout=text):
                write(source, *args)
            mon.count(f"{way}_writes", len(which))
            if bytes(buf) != bytes(model):
                off = next(i for i in range(len(buf)) if buf[i] != model[i])
                mon.violate(f"{way} code writes other bytes than the fields it names",
                            layout=text, row=off // rec.size, byte=off % rec.size,
                            writes=[(int(row[k]), leaves[which[k]][0], idx[k])
                                    for k in range(len(which))])
                return
            if rows > 1:
                a, b = r.randrange(rows), r.randrange(rows)
                with mon.sut(f"{way} copy of a {text}", layout=text):
                    copy(table, a, b)
                model[a * rec.size:(a + 1) * rec.size] = \
                    bytes(model[b * rec.size:(b + 1) * rec.size])
                mon.count("copies")
                if bytes(buf) != bytes(model):
                    mon.violate(f"{way} code copies a record inexactly", layout=text,
                                rows=(a, b))
                    return
    if numba:
        made_inside(mon, r, comp, rec, dtype, leaves, styles, text)
    instance(mon, r, cls, rec, text)
    mon.sample({"layout": text, "size": rec.size})


def made_inside(mon, r, comp, rec, dtype, leaves, styles, text):
    """tables allocated by compiled code, as EncounterAreaLA does"""
    record = np.dtype((np.record, dtype))
    n = r.randrange(1, 5)
    with mon.sut(f"make a table of {text} in compiled code", layout=text):
        @comp.optional_jitclass
        class Maker:
            """a user's class that makes its table"""

            table: comp.array_type(dtype)

            def __init__(self, count):
                self.table = np.zeros(count, dtype=record)

        made = Maker(n).table
        got = (made.shape, made.dtype.itemsize, made.tobytes())
    mon.count("made_inside")
    mon.same(got, ((n,), rec.size, bytes(rec.size * n)),
             "a table made in compiled code has another size than its records", layout=text)


def instance(mon, r, cls, rec, text):
    """the decorated class is still a dataclass"""
    values = [object() for _ in rec.fields]
    with mon.sut(f"make a {text} object", layout=text):
        if r.random() < 0.5:
            obj = cls(*values)
        else:
            obj = cls(**{n: v for (n, _), v in zip(rec.fields, values)})
        got = [getattr(obj, n) for n, _ in rec.fields]
    mon.count("dataclass_values")
    mon.expect(all(a is b for a, b in zip(got, values)),
               "an object of a record class does not hold the values given", layout=text)


def layouts(mon, job):
    util, comp = sut.load(mon, "data.util", "compilation")
    r = rng_for(job, "layouts")
    numba = sut.use_numba()
    for _ in range(job["n"]):
        if mon.too_many:
            return
        try:
            one_layout(mon, r, util, comp, numba, random_record(r, mon))
        except SutFailure:
            continue


def toucher(comp, dims):
    ns = {}
    exec(f"def touch(grid):\n    grid[{', '.join('0' * dims)}] = 1\n", ns)  # noqa: S102
    return comp.optional_njit(ns["touch"])


def arrays(mon, job):
    """array attributes of a user's class: element types, dimensions, read-only ones"""
    comp, util = sut.load(mon, "compilation", "data.util")
    r = rng_for(job, "arrays")
    kinds = ("u1", "<u2", "<u4", "<u8", "i1", "<i2", "<i4", "<i8", "<f4", "<f8", "?")
    for _ in range(job["n"]):
        dims, kind = r.randrange(1, 4), r.choice(kinds)
        layout = r.choice(("C", "C", "F", "A") if dims > 1 else ("C", "A"))
        readonly = r.random() < 0.5
        style = r.randrange(2)
        text = f"array_type({kind}, {dims}, {layout!r}, readonly={readonly})"
        # numba takes a single row or column for C order
        shape = tuple(r.randrange(2 if layout == "F" else 1, 5) for _ in range(dims))
        cells, element = (), np.dtype(kind)
        if layout == "C" and kind != "?" and r.random() < 0.4:
            # each element itself a small array
            cells = tuple(r.randrange(1, 4) for _ in range(r.randrange(1, 3)))
            with mon.sut("dtype_array"):
                for side in reversed(cells):
                    element = util.dtype_array(element, side)
            text = f"{text} of {cells} cells"
            mon.count("cells")
        shape += cells
        data = np.frombuffer(bytes(r.getrandbits(1 if kind == "?" else 7) for _ in range(
            math.prod(shape) * np.dtype(kind).itemsize)), kind).reshape(shape)
        given = np.array(data, order="F" if layout == "F" else "C")
        given.flags.writeable = not readonly
        try:
            with mon.sut(f"class with an {text}"):
                t = comp.array_type(element, ndim=dims, layout=layout, readonly=readonly) \
                    if style or cells else \
                    comp.array_type(np.dtype(kind).type, dims, layout, readonly)
                touch = toucher(comp, len(shape))

                @comp.optional_jitclass({"grid": t, "total": np.uint32})
                class Keeper:
                    """keeps an array"""

                    def __init__(self, grid):
                        self.grid = grid
                        self.total = grid.size

                    def flat(self, out):
                        """every element in order"""
                        k = 0
                        for v in self.grid.flat:
                            out[k] = v
                            k += 1
                        return self.total

                    def touch(self):
                        """write the first element"""
                        touch(self.grid)

                kept = Keeper(given)
                out = np.zeros(data.size, kind)
                total = int(kept.flat(out))
                back = np.array(kept.grid)
            mon.case((text, shape, data.tobytes()))
            mon.count("readonly_arrays", readonly)
            mon.count("dimensions", dims > 1)
            mon.same((total, out.tobytes(), back.shape, back.tobytes()),
                     (data.size, data.tobytes(), shape, data.tobytes()),
                     f"a class with an {text} holds other elements", shape=shape)
            refused = False
            with mon.sut(f"write to an {text}"):
                try:
                    kept.touch()
                except Exception as e:  # noqa: BLE001
                    if not readonly:
                        raise
                    refused = True
            mon.count("refused_writes", refused)
            if readonly:
                mon.same((refused, given.tobytes()), (True, data.tobytes()),
                         f"a read-only {text} was written to", shape=shape)
            else:
                want = np.array(data)
                want.flat[0] = 1
                mon.same(given.tobytes(), want.tobytes(),
                         f"a write to an {text} changed other elements", shape=shape)
        except SutFailure:
            continue


SHIPPED = {
    "encounter_area_3": ("Slot3", "EncounterArea3"), "encounter_area_la": ("SlotLA",)}


def shipped(mon, job):
    """the package's own record classes written in one kind of code and read in the other"""
    util, comp = sut.load(mon, "data.util", "compilation")
    area3, areala = sut.load(mon, "data.encounter.encounter_area_3",
                             "data.encounter.encounter_area_la")
    personal = sut.load(mon, "data.personal.personal_info")
    r = rng_for(job, "shipped")
    slot3 = Record([("min_level", Scalar("U8")), ("max_level", Scalar("U8")),
                    ("species", Scalar("U16"))])
    fields = [("location", Scalar("U16"))]
    for rate, groups in (("land_rate", (("land", 12),)), ("water_rate", (("water", 5),)),
                         ("rock_rate", (("rock", 5),)),
                         ("fish_rate", (("fish_old", 2), ("fish_good", 3), ("fish_super", 5)))):
        fields.append((rate, Scalar("U8")))
        fields += [(g, Array(slot3, n)) for g, n in groups]
    slotla = Record([("species", Scalar("U16"))] + [
        (n, Scalar("U8")) for n in ("gender", "form", "min_level", "max_level", "guaranteed_ivs")]
        + [("base_probability", Scalar("U32")), ("is_alpha", Scalar("U8")),
           ("time_multipliers", Array(Scalar("F32"), 4)),
           ("weather_multipliers", Array(Scalar("F32"), 9))])
    todo = [(area3.Slot3, slot3), (area3.EncounterArea3, Record(fields)), (areala.SlotLA, slotla)]
    for cls, rec in todo:
        text = cls.__name__
        fields = {n: (at, f.size) for n, f, at in rec.offsets()}
        with mon.sut(f"layout of {text}"):
            got = {n: (cls.dtype.fields[n][1], cls.dtype.fields[n][0].itemsize)
                   for n in cls.dtype.names}
        # read and written by name: only what each name holds matters, not where it lies
        if not mon.same(sorted((n, s) for n, (_, s) in got.items()),
                        sorted((n, s) for n, (_, s) in fields.items()),
                        f"{text} does not have the fields its callers use"):
            continue
        every = list(rec.leaves())
        for _ in range(2 if sut.use_numba() else 4):
            leaves = r.sample(every, min(len(every), 8))
            slow = sources(leaves, [random_style(r, mon, leaf[0]) for leaf in leaves])
            table = np.zeros(3, cls.dtype).view(np.recarray)
            try:
                with mon.sut(f"compile users of {text}"):
                    fast = tuple(comp.optional_njit(f) for f in slow)
                exchange(mon, r, text, table, leaves, slow, fast, job["n"])
            except SutFailure:
                break
    # every generation's personal information: no field overlaps another
    for name in sorted(vars(personal)):
        cls = getattr(personal, name)
        if not (name.startswith("PersonalInfo") and isinstance(cls, type)
                and isinstance(vars(cls).get("dtype"), np.dtype)):
            continue
        spans = sorted((cls.dtype.fields[n][1], cls.dtype.fields[n][0].itemsize, n)
                       for n in cls.dtype.names)
        mon.case(("personal", name))
        mon.count("layouts")
        at = 0
        for off, size, n in spans:
            if not mon.same(off, at, f"{name}.{n} overlaps its neighbour or leaves a gap"):
                break
            at = off + size


def exchange(mon, r, text, table, leaves, slow, fast, n):
    """write in one kind of code, read in both"""
    shadow = {}
    for step in range(6):
        args = plan(r, leaves, len(table), n)
        row, which, at, u, s, f = args
        cols = {"u": u, "s": s, "f": f}
        keys = []
        for k in range(n):
            path, dims, leaf, _ = leaves[which[k]]
            keys.append((int(row[k]), path, tuple(int(v) for v in at[k, :len(dims)])))
            v = value(r, leaf)
            cols[group(leaf)[0]][k] = v
            shadow[keys[-1]] = v
        with mon.sut(f"write {text} records"):
            (slow if step % 2 else fast)[1](table, *args)
        for way, (read, _, _) in (("interpreted", slow), ("compiled", fast)):
            u[:], s[:], f[:] = 0, 0, 0
            with mon.sut(f"{way} read of {text} records"):
                read(table, *args)
            mon.count("interpreted_reads" if way == "interpreted" else "compiled_reads", n)
            for k in range(n):
                got = cols[group(leaves[which[k]][2])[0]][k]
                mon.case((text, way, keys[k], shadow[keys[k]]))
                if got != shadow[keys[k]]:
                    mon.violate(f"{way} code reads another value from a {text} than was written",
                                field=keys[k], got=got.item(), want=shadow[keys[k]])
                    raise SutFailure(text)
