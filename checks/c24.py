"""C24: compiled callers get what interpreted callers get.

Users write their own loops and compile them.  The same caller source is run by
the interpreter and compiled by numba, on the same objects, with arguments typed
as documented, as wider integers, as Python ints and as literals in the source,
and the results are compared with each other and with the models."""
import numpy as np

from lib import gen3json, sut, workload
from lib import gen3model as g3
from lib.mon import HarnessError, SutFailure
from lib.rngspec import ALL_SPECS, edge_int, lcg_spec, plain, rng_for
from lib.workload import norm, state_values

RULE = ("one case = one program (object, operations, arguments and their types) run by a "
        "compiled caller, an interpreted caller or both in turn on one object, each result "
        "compared with the integer model or with the interpreted caller's; distinct = distinct "
        "programs")
REQUIRED = ["compiled_ops", "interpreted_ops", "handovers", "arg:doc", "arg:wide", "arg:int",
            "arg:literal", "built_inside", "kept_in_list", "kept_in_class", "const_jump",
            "const_rand", "list_reads", "hashes", "searches", "slot_choices", "lookups",
            "utilities", "float_draws", "float_sums", "field_types", "errors_raised"]
ASSUMPTIONS = ["arguments are in range; their integer type may be wider than documented"]

LITERALS = {"advance": (0, 1, 7, 700), "jump": (0, 1, 9, 0x7FFFFFFF, 12345),
            "shuffle": ()}
BOUNDS = (1, 2, 3, 25, 100, 255, 1000, 65535)


def jobs(tier, seed):
    quick = tier == "quick"
    grow = 1 if quick else 30
    out = []
    for shard in range(4):
        out.append({"func": "generators", "mode": "numba", "shard": shard, "of": 4,
                    "n": 40 * grow, "classes": 3 if quick else 99})
    out.append({"func": "generators", "mode": "numpy", "shard": 0, "of": 1, "n": 8 * grow,
                "classes": 99})
    out.append({"func": "lists", "mode": "numba", "n": 3 if quick else 20, "reps": 12 * grow})
    out.append({"func": "holders", "mode": "numba", "n": 25 * grow})
    out.append({"func": "constants", "mode": "numba", "n": 4 if quick else 60})
    out.append({"func": "functions", "mode": "numba", "n": 400 * grow})
    out.append({"func": "hashes", "mode": "numba", "n": 30 * grow})
    out.append({"func": "searches", "mode": "numba", "n": 60 * grow})
    out.append({"func": "slots", "mode": "numba", "n": 300 * grow})
    out.append({"func": "semantics", "mode": "numba", "n": 30 * grow})
    return out


def doc_types(spec, op, r):
    """numpy types of the arguments, as documented"""
    best = None
    for _ in range(400):
        args = op.args(r)
        # the longest form: numba's classes take no default arguments in compiled code
        if all(isinstance(a, np.generic) for a in args) and (
                best is None or len(args) > len(best)):
            best = [type(a) for a in args]
    if best is not None:
        return best
    raise HarnessError(f"{spec.name}.{op.name}: no typed arguments")


def caller(spec, r):
    """source of a loop over every operation of the class, one branch for every way of
    giving the arguments, and the table (operation, how, argument types or literal)"""
    branches = []
    for op in spec.ops:
        types = doc_types(spec, op, r)
        forms = [("doc", types)]
        if types and sut.use_numba():
            forms += [("wide", None), ("int", None)]
        for how, t in forms:
            names = [f"{'abcd'[k]}[i]" for k in range(len(types))]
            if how == "doc":
                args = [f"np.{x.__name__}({n})" for x, n in zip(t, names)]
            elif how == "wide":
                signed = types and types[0] is np.int32
                args = [f"np.int64({n})" if signed else n for n in names]
            else:
                args = [f"np.int64({n})" for n in names]
            branches.append((op, how, types, None, ", ".join(args)))
        if len(types) == 1:
            width = np.dtype(types[0]).itemsize * 8
            pool = LITERALS.get(op.name, BOUNDS if op.name.startswith("next") else (1, 5, 77777))
            for v in r.sample(pool, min(2, len(pool))):
                if v < 1 << width:
                    branches.append((op, "literal", types, v, str(v)))
    lines = ["def drive(rng, code, a, b, c, d, out):",
             "    for i in range(code.shape[0]):",
             "        k = code[i]"]
    for j, (op, how, types, lit, args) in enumerate(branches):
        lines.append(f"        {'if' if j == 0 else 'elif'} k == {j}:")
        call = f"rng.{op.name}({args})"
        if op.check:
            # as a user would store them, whatever the sign of a Python int
            lines.append(f"            out[i] = np.uint64({call})")
        else:
            lines.append(f"            {call}")
            lines.append("            out[i] = np.uint64(0)")
    ns = {"np": np}
    exec("\n".join(lines) + "\n", ns)  # noqa: S102
    return ns["drive"], branches


def program(r, branches, length, model):
    """-> (codes, argument columns, arguments, expected results)"""
    want = []
    codes, cols = np.zeros(length, np.int64), [np.zeros(length, np.uint64) for _ in range(4)]
    plainargs = []
    for i in range(length):
        while True:
            j = r.randrange(len(branches))
            op, how, types, lit, _ = branches[j]
            # on a block edge "the next block" depends on how the edge was reached
            if op.name == "shuffle" and getattr(model, "index", 1) in (0, 624):
                continue
            if op.name in ("re_init", "advance", "jump", "shuffle") and r.random() < 0.6:
                continue
            args = (lit,) if lit is not None else plain(op.args(r))
            if len(args) > len(types):
                continue
            while len(args) < len(types):
                # the documented default of the second word
                args += (0x82A2B175229D6A5B,)
            if how == "int" and any(v >= 1 << 63 for v in args):
                continue
            break
        codes[i] = j
        for k, v in enumerate(args):
            cols[k][i] = np.uint64(v & (1 << 64) - 1)
        plainargs.append(args)
        v = op.model(model, *args)
        want.append(int(v) & (1 << 64) - 1 if op.check else 0)
    return codes, cols, plainargs, want


def compiled(mon, fn, label):
    comp = sut.load(mon, "compilation")
    with mon.sut(f"compile a caller of {label}"):
        return comp.optional_njit(fn)


def one_program(mon, r, spec, cls, fast, slow, branches, ways):
    seeds = spec.seeds(r)
    length = r.randrange(20, 60)
    label = f"{spec.name}{plain(seeds)}"
    model = spec.model(*plain(seeds))
    codes, cols, args, want = program(r, branches, length, model)
    shown = [f"{branches[int(j)][0].name}{a} as {branches[int(j)][1]}" for j, a in
             zip(codes, args)]
    for way in ways:
        out = np.zeros(length, np.uint64)
        with mon.sut(f"{label}: {way} caller", program=shown):
            obj = cls(*seeds)
            if way == "compiled":
                fast(obj, codes, *cols, out)
            elif way == "interpreted":
                with np.errstate(over="ignore"):
                    slow(obj, codes, *cols, out)
            else:
                at = 0
                while at < length:
                    end = min(length, at + r.randrange(1, 12))
                    part = (codes[at:end], *(c[at:end] for c in cols), out[at:end])
                    if r.random() < 0.5:
                        fast(obj, *part)
                    else:
                        with np.errstate(over="ignore"):
                            slow(obj, *part)
                    mon.count("handovers")
                    at = end
        mon.count(f"{way if way != 'both' else 'compiled'}_ops", length)
        for j in codes:
            mon.count("arg:" + branches[int(j)][1])
        mon.case((label, way, shown))
        got = [int(v) for v in out]
        if got != want:
            k = next(i for i in range(length) if got[i] != want[i])
            mon.violate(f"{spec.name}: {shown[k].split('(')[0]} gives a {way} caller another "
                        "value", at=k, call=shown[k], got=got[k], want=want[k], seed=plain(seeds),
                        program=shown[:k + 1][-25:])
            return False
        if spec.observe:
            with mon.sut(f"{label}: state after a {way} caller"):
                got = spec.observe[0](obj)
            if norm(got) != norm(spec.observe[1](model)):
                mon.violate(f"{spec.name}: another state after a {way} caller", got=got,
                            want=spec.observe[1](model), program=shown[-25:])
                return False
    return True


def made_classes(mon, r, n):
    """classes of the public factories"""
    lcrng = sut.load(mon, "lcrng")
    out = []
    for k in range(n):
        width = (32, 64)[k % 2]
        mult, add = edge_int(r, width) | 1, edge_int(r, width)
        dist, kind = r.choice((("mod", "MODULO"), ("recip", "RECIPROCAL_DIVISION"))) \
            if width == 32 else ("mulshift", "MULTIPLICATION_SHIFT")
        with mon.sut(f"factory-made LCRNG {mult:#x} {add:#x} {kind}"):
            cls = getattr(lcrng, f"lcrng{width}_init")(
                add=add, mult=mult,
                distribution=getattr(lcrng, f"LCRNG{width}RandomDistribution")[kind])(
                    type("Made", (getattr(lcrng, f"LCRNG{width}"),), {"__annotations__": {}}))
        out.append((lcg_spec(f"made{width}({mult:#x},{add:#x},{kind})", width, mult, add, dist),
                    cls))
    return out


def generators(mon, job):
    r = rng_for(job, "generators")
    rr = rng_for({"seed": job["seed"]}, "order")
    pairs = workload.classes(mon, ALL_SPECS)
    # every family in every run, the LCRNG classes in turn
    fixed = [p for p in pairs if p[0].module != "lcrng"]
    turn = [p for p in pairs if p[0].module == "lcrng"]
    rr.shuffle(turn)
    pairs = fixed + turn
    mine = [p for i, p in enumerate(pairs) if i % job["of"] == job["shard"]][:job["classes"]]
    try:
        mine += made_classes(mon, r, 1 if job["classes"] < 99 else 6)
    except SutFailure:
        pass
    ways = ("compiled", "interpreted", "both") if sut.use_numba() else ("interpreted",)
    for spec, cls in mine:
        drive, branches = caller(spec, r)
        try:
            fast = compiled(mon, drive, spec.name)
            for n in range(job["n"]):
                if mon.too_many or not one_program(mon, r, spec, cls, fast, drive, branches,
                                                   ways):
                    break
        except SutFailure:
            continue
        mon.count("callers")


# --- objects inside containers, classes and functions of the user ------------------
def holders(mon, job):
    import numba as nb
    r = rng_for(job, "holders")
    comp = sut.load(mon, "compilation")
    pairs = workload.classes(mon, ALL_SPECS)
    others = [p for p in pairs if p[0].module != "lcrng"]
    lcgs = [p for p in pairs if p[0].module == "lcrng"]
    for spec, cls in others[:] + r.sample(lcgs, 2):
        if mon.too_many:
            return
        try:
            one_holder(mon, r, job, nb, comp, spec, cls)
        except SutFailure:
            continue


def one_holder(mon, r, job, nb, comp, spec, cls):
    types = doc_types(spec, spec.by_name["re_init"], r)
    names = ["s0", "s1", "s2", "s3"][:len(types)]
    typed = ", ".join(f"np.{t.__name__}({n})" for t, n in zip(types, names))
    src = f"""
def build({", ".join(names)}):
    return cls({typed})

def run({", ".join(names)}, out):
    rng = build({", ".join(names)})
    for i in range(out.shape[0]):
        out[i] = rng.next()
    return rng

def many({", ".join(names)}, k, out):
    items = comp.TypedList()
    for j in range(k):
        items.append(build({", ".join(names)}))
    # the j-th is advanced j draws first
    for j in range(k):
        for _ in range(j):
            items[j].next()
    n = 0
    for i in range(out.shape[0] // k):
        for j in range(k):
            out[n] = items[j].next()
            n += 1

@comp.optional_jitclass
class Holder:
    rng: cls
    drawn: np.uint64

    def __init__(self, rng):
        self.rng = rng
        self.drawn = np.uint64(0)

    def draw(self):
        self.drawn += np.uint64(1)
        return self.rng.next()

def hold(h, out):
    for i in range(out.shape[0]):
        out[i] = h.draw()
"""
    ns = {"np": np, "cls": cls, "comp": comp}
    label = spec.name
    with mon.sut(f"{label}: user classes and functions around it"):
        exec(src, ns)  # noqa: S102
        ns["build"] = comp.optional_njit(ns["build"])
        run, many, hold = (comp.optional_njit(ns[k]) for k in ("run", "many", "hold"))
    nxt = spec.by_name["next"]
    for rep in range(job["n"]):
        seeds = plain(spec.seeds(r))
        while len(seeds) != len(types):
            seeds = plain(spec.seeds(r))
        args = [np.uint64(s) for s in seeds]
        model = spec.model(*seeds)
        n = r.choice((1, 5, 40, 700 if "Twister" in label else 40))
        want = [nxt.model(model) for _ in range(n + 10)]
        out = np.zeros(n, np.uint64)
        with mon.sut(f"{label}{seeds}: built and used inside a compiled function"):
            rng = run(*args, out)
            later = [int(rng.next()) for _ in range(10)]
        mon.count("built_inside")
        mon.case((label, seeds, "inside", n))
        mon.same([int(v) for v in out] + later, want,
                 f"{label}: built inside compiled code, it draws other values", seed=seeds)
        k = r.randrange(1, 5)
        out = np.zeros(k * 6, np.uint64)
        with mon.sut(f"{label}{seeds}: {k} of them in a list"):
            many(*args, k, out)
        model = spec.model(*seeds)
        stream = [nxt.model(model) for _ in range(6 + k)]
        mon.count("kept_in_list")
        mon.case((label, seeds, "list", k))
        mon.same([int(v) for v in out], [stream[i + j] for i in range(6) for j in range(k)],
                 f"{label}: kept in a list of compiled code, it draws other values", seed=seeds)
        out = np.zeros(12, np.uint64)
        with mon.sut(f"{label}{seeds}: field of a user's class"):
            rng = cls(*(t(s) for t, s in zip(types, seeds)))
            h = ns["Holder"](rng)
            first = int(h.draw())
            hold(h, out)
            outside = int(rng.next())
            last = int(h.draw())
            drawn = int(h.drawn)
        model = spec.model(*seeds)
        stream = [nxt.model(model) for _ in range(15)]
        mon.count("kept_in_class")
        mon.case((label, seeds, "class"))
        mon.same([first] + [int(v) for v in out] + [outside, last, drawn],
                 stream + [14], f"{label}: held by a user's class, it draws other values",
                 seed=seeds)


# --- pre-compiled constants ----------------------------------------------------------
def constants(mon, job):
    comp = sut.load(mon, "compilation")
    r = rng_for(job, "constants")
    pairs = workload.classes(mon, [s for s in ALL_SPECS if s.module == "lcrng"])
    try:
        pairs = r.sample(pairs, min(job["n"], len(pairs))) + made_classes(mon, r, 2)
    except SutFailure:
        pass
    for spec, cls in pairs:
        w = 32 if "next_u16" in spec.by_name else 64
        dist = spec.by_name.get("next_rand")
        for _ in range(max(1, job["n"] // 4)):
            adv = edge_int(r, w) & (1 << 63) - 1
            bound = r.choice(BOUNDS)
            label = f"{spec.name}: const_jump({adv:#x}), const_rand({bound})"
            try:
                with mon.sut(f"{label} used by a compiled function"):
                    jump = cls.const_jump(adv)
                    ns = {"jump": jump, "np": np}
                    src = ("def f(rng, out):\n    for i in range(0, out.shape[0], 2):\n"
                           "        out[i] = jump(rng)\n        out[i + 1] = rng.seed\n")
                    exec(src, ns)  # noqa: S102
                    f = comp.optional_njit(ns["f"])
                    out = np.zeros(12, np.uint64)
                    seed = edge_int(r, w)
                    rng = cls((np.uint32 if w == 32 else np.uint64)(seed))
                    f(rng, out)
                model = spec.model(seed)
                want = []
                for _ in range(6):
                    want += [model.jump(adv)] * 2
                mon.count("const_jump")
                mon.case((label, seed, "jump"))
                mon.same([int(v) for v in out], want,
                         f"{spec.name}: a constant jump lands elsewhere in compiled code",
                         adv=adv, seed=seed)
                if dist is None:
                    continue
                with mon.sut(f"{label} used by a compiled function"):
                    rand = cls.const_rand(bound)
                    ns = {"rand": rand, "np": np}
                    src = ("def f(rng, out):\n    for i in range(out.shape[0]):\n"
                           f"        out[i] = rand(rng) if i % 2 else rng.next_rand({bound})\n")
                    exec(src, ns)  # noqa: S102
                    f = comp.optional_njit(ns["f"])
                    out = np.zeros(40, np.uint64)
                    seed = edge_int(r, w)
                    rng = cls((np.uint32 if w == 32 else np.uint64)(seed))
                    f(rng, out)
                model = spec.model(seed)
                mon.count("const_rand")
                mon.case((label, seed, "rand"))
                mon.same([int(v) for v in out], [dist.model(model, bound) for _ in range(40)],
                         f"{spec.name}: a constant-bound draw differs in compiled code",
                         bound=bound, seed=seed)
            except SutFailure:
                continue


# --- cached lists -----------------------------------------------------------------
def lists(mon, job):
    comp, rng_list = sut.load(mon, "compilation", "rng_list")
    r = rng_for(job, "lists")
    combos = workload.list_combos()
    for spec, meth, t, _ in r.sample(combos, job["n"]):
        (_, cls), = workload.classes(mon, [spec])
        size = 1 << r.randrange(0, 7)
        types = doc_types(spec, spec.by_name["re_init"], r)
        label = f"RNGList({spec.name}.{meth}, {t.__name__}, {size})"
        args = ", ".join(f"np.{x.__name__}(seeds[{k}])" for k, x in enumerate(types))
        src = f"""
def f(seeds, code, arg, out):
    lst = made(cls({args}))
    for i in range(code.shape[0]):
        k = code[i]
        out[i] = 0
        if k == 0:
            out[i] = lst.get_value()
        elif k == 1:
            lst.advance(arg[i])
        elif k == 2:
            lst.advance(np.uint32(arg[i]))
        elif k == 3:
            lst.advance_state()
        elif k == 4:
            lst.advance_states(arg[i] % np.uint64(50) + np.uint64(1))
        elif k == 5:
            lst.advance_states(3)
        elif k == 6:
            lst.advance(5)
        else:
            lst.re_init()
"""
        try:
            with mon.sut(f"{label}: a compiled caller"):
                made = rng_list.build_rnglist(rng_class=cls, next_function_name=meth,
                                              state_type=t, size=size)
                ns = {"np": np, "made": made, "cls": cls}
                exec(src, ns)  # noqa: S102
                f = comp.optional_njit(ns["f"])
            for _ in range(job["reps"]):
                seeds = plain(spec.seeds(r))
                if len(seeds) != len(types):
                    continue
                n = 250
                code = np.array([r.choice((0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7 if r.random() < 0.2
                                           else 0)) for _ in range(n)], np.int64)
                arg = np.array([r.choice((0, 1, size, size - 1, r.randrange(3 * size),
                                          edge_int(r, 32))) for _ in range(n)], np.uint64)
                out = np.zeros(n, np.uint64)
                with mon.sut(f"{label} over {seeds}: compiled caller"):
                    f(np.array(seeds, np.uint64), code, arg, out)
                model = spec.model(*seeds)
                draw = spec.by_name[meth].model
                win = [draw(model) for _ in range(size)]
                ptr, want = 0, []
                for k, v in zip(code.tolist(), arg.tolist()):
                    val = 0
                    if k == 0:
                        val, ptr = win[ptr], (ptr + 1) % size
                        mon.count("list_reads")
                    elif k in (1, 2, 6):
                        ptr = (ptr + (5 if k == 6 else v)) % size
                    elif k in (3, 4, 5):
                        m = 1 if k == 3 else v % 50 + 1 if k == 4 else 3
                        win = (win + [draw(model) for _ in range(m)])[-size:]
                        ptr = 0
                    else:
                        win, ptr = [draw(model) for _ in range(size)], 0
                    want.append(val)
                mon.case((label, seeds, code.tolist()))
                got = [int(x) for x in out]
                if got != want:
                    k = next(i for i in range(n) if got[i] != want[i])
                    mon.violate(f"{label}: a compiled caller reads another value", at=k,
                                got=got[k], want=want[k], seed=seeds,
                                history=list(zip(code.tolist(), arg.tolist()))[:k + 1][-20:])
                    break
        except SutFailure:
            continue


# --- functions ----------------------------------------------------------------------
def functions(mon, job):
    """bit utilities, hashes and Gen 3 formulas called from compiled loops"""
    comp, util, g3util, fnv = sut.load(mon, "compilation", "util", "gen3.util", "fnv")
    r = rng_for(job, "functions")
    u32, u64 = (lambda: edge_int(r, 32)), (lambda: edge_int(r, 64))
    table = [
        (util, "change_endian_u32", ("uint32",), (u32,)),
        (util, "rotate_left_u32", ("uint32", "uint8"), (u32, lambda: r.randrange(1, 32))),
        (util, "rotate_right_u32", ("uint32", "uint8"), (u32, lambda: r.randrange(1, 32))),
        (util, "rotate_left_u64", ("uint64", "uint8"), (u64, lambda: r.randrange(1, 64))),
        (util, "rotate_right_u64", ("uint64", "uint8"), (u64, lambda: r.randrange(1, 64))),
        (util, "compute_stat", ("uint16", "uint8", "uint8"),
         (lambda: r.randrange(4, 547), lambda: r.randrange(25), lambda: r.randrange(1, 6))),
        (g3util, "get_gender", ("uint32", "uint8"),
         (u32, lambda: r.choice((0, 31, 63, 127, 191, 225, 254, 255)))),
        (g3util, "get_shiny", ("uint32", "uint16"), (u32, lambda: edge_int(r, 16))),
        (g3util, "unown_check", ("uint32", "uint8"), (u32, lambda: r.randrange(28))),
    ]
    for mod, name, types, makers in table:
        fn = getattr(mod, name)
        n = job["n"]
        cols = [np.array([m() for _ in range(n)], np.uint64) for m in makers]
        if name == "get_shiny":
            near = np.array([r.randrange(20) if r.random() < 0.6 else r.getrandbits(16)
                             for _ in range(n)], np.uint64)
            cols[1] = ((cols[0] >> np.uint64(16)) ^ cols[0] ^ near) & np.uint64(0xFFFF)
        try:
            with mon.sut(f"{name} by an interpreted caller"):
                want = [int(fn(*(getattr(np, t)(c[i]) for t, c in zip(types, cols))))
                        for i in range(n)]
            for how in ("doc", "wide", "int"):
                args = ", ".join({"doc": f"np.{t}(x{k}[i])", "wide": f"x{k}[i]",
                                  "int": f"np.int64(x{k}[i])"}[how]
                                 for k, t in enumerate(types))
                if how == "int" and "uint64" in types:
                    continue
                names = ", ".join(f"x{k}" for k in range(len(types)))
                ns = {"np": np, "fn": fn}
                exec(f"def f({names}, out):\n    for i in range(out.shape[0]):\n"  # noqa: S102
                     f"        out[i] = fn({args})\n", ns)
                out = np.zeros(n, np.uint64)
                with mon.sut(f"{name} by a compiled caller ({how})"):
                    comp.optional_njit(ns["f"])(*cols, out)
                mon.count("utilities", n)
                mon.count("arg:" + how, n)
                mon.bulk(n, len({tuple(int(c[i]) for c in cols) for i in range(n)}))
                bad = [i for i in range(n) if int(out[i]) != want[i]]
                if bad:
                    i = bad[0]
                    mon.violate(f"{name}: a compiled caller ({how}) gets another value",
                                args=[int(c[i]) for c in cols], got=int(out[i]), want=want[i])
        except SutFailure:
            continue
    # strings
    ns = {"np": np, "h0": fnv.fnv1_64, "h1": fnv.fnv1a_64, "hx": util.hex_32}
    exec("def f(text):\n    return h0(text), h1(text)\n"  # noqa: S102
         "def g(v):\n    return hx(np.uint32(v))\n", ns)
    with mon.sut("hashes and hex by a compiled caller"):
        f, g = comp.optional_njit(ns["f"]), comp.optional_njit(ns["g"])
    for _ in range(60):
        text = "".join(chr(r.randrange(128)) for _ in range(r.choice((0, 1, 8, 40))))
        v = edge_int(r, 32)
        try:
            with mon.sut(f"hashes of {text!r}, hex of {v:#x}"):
                got = [int(x) for x in f(text)] + [str(g(np.uint64(v)))]
                want = [int(fnv.fnv1_64(text)), int(fnv.fnv1a_64(text)),
                        str(util.hex_32(np.uint32(v)))]
        except SutFailure:
            continue
        mon.count("utilities")
        mon.case((text, v))
        mon.same(got, want, "a compiled caller gets another hash or text", text=text, value=v)


def hashes(mon, job):
    """Gen 5 initial seeds searched by a compiled loop"""
    comp, sha1, enums = sut.load(mon, "compilation", "sha1", "enums")
    r = rng_for(job, "hashes")
    src = """
def f(game, language, ds, mac, soft, vframe, gx, timer, vcount, y, m, d, w, button, out):
    obj = SHA1(game, language, ds, mac, soft, vframe, gx)
    obj.set_timer0(timer, vcount)
    obj.set_date(y, m, d, w)
    obj.set_button(button)
    alpha = obj.precompute()
    n = 0
    for h in range(0, 24, 5):
        for s in range(0, 60, 17):
            obj.set_time(h, (h * 7) % 60, s)
            out[n] = obj.hash_seed(alpha)
            n += 1
"""
    ns = {"np": np, "SHA1": sha1.SHA1}
    exec(src, ns)  # noqa: S102
    f = compiled(mon, ns["f"], "SHA1")
    for i in range(job["n"]):
        g, la = enums.Game[r.choice(workload.GAMES)], enums.Language[r.choice(workload.LANGUAGES)]
        vals = [int(g), int(la), r.randrange(3), edge_int(r, 48), bool(r.randrange(2)),
                r.randrange(256), r.randrange(256), edge_int(r, 16), r.randrange(256),
                2000 + r.randrange(100), r.randrange(1, 13), r.randrange(1, 32), r.randrange(7),
                edge_int(r, 32)]
        doc = [np.uint32, np.uint8, np.uint8, np.uint64, bool, np.uint8, np.uint8, np.uint32,
               np.uint8, np.uint16, np.uint8, np.uint8, np.uint8, np.uint32]
        if i % 2:
            args = [t(v) for t, v in zip(doc, vals)]
        else:
            args = vals
        mon.count("arg:" + ("doc" if i % 2 else "int"))
        a, b = np.zeros(20, np.uint64), np.zeros(20, np.uint64)
        try:
            with mon.sut(f"SHA1{tuple(vals)}: compiled and interpreted callers"):
                f(*args, a)
                ns["f"](*[t(v) for t, v in zip(doc, vals)], b)
        except SutFailure:
            continue
        mon.count("hashes", 40)
        mon.case(tuple(vals))
        mon.same([int(x) for x in a], [int(x) for x in b],
                 "a compiled caller gets other initial seeds", profile=vals)


# --- Gen 3 and Legends Arceus ---------------------------------------------------------
def searches(mon, job):
    comp, wild, enums, enc, personal, ea, lcrng = sut.load(
        mon, "compilation", "gen3.wild_generator_3", "enums", "data.encounter", "data.personal",
        "gen3.encounter_area_3", "lcrng")
    r = rng_for(job, "searches")
    src = """
def search(table, k, method, etype, lead, game, tid, sid, seed, delay, first, count, out):
    gen = Wild(method, etype, lead, game, tid, sid)
    n = 0
    for s in gen.generate(seed, delay, first, count, table[k]):
        out[n, 0] = s.advance
        out[n, 1] = s.pid
        out[n, 2] = s.species
        out[n, 3] = s.form
        out[n, 4] = s.ability
        out[n, 5] = s.ability_index
        out[n, 6] = s.level
        out[n, 7] = s.shiny
        out[n, 8] = s.nature
        out[n, 9] = s.gender
        out[n, 10] = s.hidden_power
        out[n, 11] = s.hidden_power_strength
        out[n, 12] = s.characteristic
        for i in range(6):
            out[n, 13 + i] = s.ivs[i]
            out[n, 19 + i] = s.stats[i]
        n += 1
    return n

def parts(table, k, game, etype, lead, seed, out):
    area = table[k]
    rng = Rng(seed)
    infos = info_table(game)
    slots = modified(area, etype, lead, game, infos)
    out[0] = rate(area, etype)
    out[1] = safari(area, game)
    out[2] = len(slots)
    for i in range(6):
        slot = hslot_lead(area, rng, etype, lead, slots)
        out[3 + 4 * i] = slot.species
        out[4 + 4 * i] = slot.min_level
        if slot.min_level <= slot.max_level:
            out[5 + 4 * i] = level(slot, rng, lead == 26)
        out[6 + 4 * i] = infos[slot.species & 0x7FF]["hp"]
    return rng.seed
"""
    ns = {"np": np, "Wild": wild.WildGenerator3, "Rng": lcrng.PokeRNGMod,
          "info_table": personal.get_info_table_3, "modified": ea.get_modified_slots,
          "rate": ea.get_encounter_rate, "safari": ea.is_rse_safari_zone,
          "hslot_lead": ea.calculate_hslot_lead, "level": ea.calculate_level}
    exec(src, ns)  # noqa: S102
    search, parts = compiled(mon, ns["search"], "Gen 3 searches"), compiled(
        mon, ns["parts"], "Gen 3 helpers")
    data = {}
    for i in range(job["n"]):
        game = r.choice(list(gen3json.FILES) + ["EMERALD"] * 3)
        if game not in data:
            data[game] = workload.areas_of(mon, game, enums, enc)
        areas, real = data[game]
        e = r.choice(list(g3.ENCOUNTERS))
        name, _, rate = g3.ENCOUNTERS[e]
        k = r.choice([k for k, a in enumerate(areas) if a.rates[rate] and all(
            s[0] <= s[1] for s in a.slots[name])])
        lead = r.choice((255, 25, 26, 27, 28, 32, r.randrange(25)))
        method = int(enums.Method[r.choice(("METHOD_1", "METHOD_2", "METHOD_4"))])
        g = int(enums.Game[game])
        tid, sid, seed = edge_int(r, 16), edge_int(r, 16), edge_int(r, 32)
        first, delay, count = r.randrange(2000), r.randrange(50), r.randrange(1, 9)
        label = f"{game} area {k} type {e} lead {lead}"
        out = np.zeros((12, 25), np.uint64)
        try:
            with mon.sut(f"search {label}: compiled caller"):
                n = search(real, k, np.uint8(method), np.uint8(e), np.uint8(lead), np.uint8(g),
                           np.uint16(tid), np.uint16(sid), np.uint32(seed), np.uint32(delay),
                           np.uint32(first), np.uint32(count), out)
            with mon.sut(f"search {label}: interpreted caller"):
                gen = wild.WildGenerator3(np.uint8(method), np.uint8(e), np.uint8(lead),
                                          np.uint8(g), np.uint16(tid), np.uint16(sid))
                want = [state_values(s) for s in gen.generate(
                    np.uint32(seed), np.uint32(delay), np.uint32(first), np.uint32(count),
                    real[k])]
            got = [[int(v) for v in row] for row in out[:n]]
            mon.count("searches")
            mon.case((label, seed, first, count, tid, sid))
            mon.same(got, want, "a compiled caller gets other encounters", search=label,
                     seed=seed, first=first, delay=delay, count=count)
            a, b = np.zeros(28, np.uint64), np.zeros(28, np.uint64)
            with mon.sut(f"helpers {label}: compiled and interpreted callers"):
                x = int(parts(real, k, np.uint8(g), np.uint8(e), np.uint8(lead), np.uint32(seed),
                              a))
                with np.errstate(over="ignore"):
                    y = int(ns["parts"](real, k, np.uint8(g), np.uint8(e), np.uint8(lead),
                                        np.uint32(seed), b))
            mon.count("lookups")
            mon.same([x] + a.tolist(), [y] + b.tolist(), "a compiled caller of the Gen 3 helpers "
                     "gets other values", call=label, seed=seed)
        except SutFailure:
            continue


def slots(mon, job):
    comp, enc, enums = sut.load(mon, "compilation", "data.encounter", "enums")
    r = rng_for(job, "slots")
    src = """
def f(tables, keys, draws, time, weather, out):
    for i in range(keys.shape[0]):
        area = tables[keys[i]]
        s = area.calc_slot(draws[i], time[i], weather[i])
        out[i, 0] = s.species
        out[i, 1] = s.form
        out[i, 2] = s.min_level
        out[i, 3] = s.max_level
        out[i, 4] = s.is_alpha
        out[i, 5] = s.guaranteed_ivs
        out[i, 6] = area.table_id
"""
    ns = {"np": np}
    exec(src, ns)  # noqa: S102
    f = compiled(mon, ns["f"], "calc_slot")
    for area in enums.LAArea:
        tabs = enc.ENCOUNTER_INFORMATION_LA.get(area)
        if tabs is None:
            continue
        keys = sorted(int(k) for k in tabs.keys())
        n = job["n"]
        want, col = [], [[], [], [], []]
        for _ in range(n):
            k, x, t, w = r.choice(keys), np.float32(r.random()), r.randrange(4), r.randrange(9)
            if x >= 1:
                x = np.float32(0.5)
            rec = np.asarray(tabs[np.uint64(k)].slots)
            total = (rec["base_probability"] * rec["time_multipliers"][:, t]
                     * rec["weather_multipliers"][:, w]).sum()
            if not total > 0:
                continue
            for c, v in zip(col, (k, x, t, w)):
                c.append(v)
        m = len(col[0])
        out = np.zeros((m, 7), np.uint64)
        cols = (np.array(col[0], np.uint64), np.array(col[1], np.float32),
                np.array(col[2], np.int64), np.array(col[3], np.int64))
        try:
            with mon.sut(f"calc_slot over area {int(area)}: compiled caller"):
                f(tabs, *cols, out)
            with mon.sut(f"calc_slot over area {int(area)}: interpreted caller"):
                for k, x, t, w in zip(*col):
                    tab = tabs[np.uint64(k)]
                    s = tab.calc_slot(x, t, w)
                    want.append([int(s.species), int(s.form), int(s.min_level), int(s.max_level),
                                 int(s.is_alpha), int(s.guaranteed_ivs), int(tab.table_id)])
        except SutFailure:
            continue
        mon.count("slot_choices", m)
        mon.bulk(m, len(set(zip(col[0], map(float, col[1]), col[2], col[3]))))
        got = [[int(v) for v in row] for row in out]
        if got != want:
            i = next(i for i in range(m) if got[i] != want[i])
            mon.violate("calc_slot gives a compiled caller another slot", area=int(area),
                        table=col[0][i], draw=float(col[1][i]), time=col[2][i],
                        weather=col[3][i], got=got[i], want=want[i])


# --- the meaning of the caller's own code ------------------------------------------
FLOATS = (("xorshift", "Xorshift128", "rng.next_float_randrange(np.float32(lo), np.float32(hi))"),)

KAHAN = """
def f(rng, scale, out):
    total = np.float64(0.0)
    rest = np.float64(0.0)
    for i in range(out.shape[0]):
        # draws of very different sizes, added with their rounding error kept
        v = np.float64(rng.next()) * scale[i % scale.shape[0]]
        out[i] = v
        y = v - rest
        t = total + y
        rest = (t - total) - y
        total = t
    plain = np.float64(0.0)
    for i in range(out.shape[0]):
        plain += out[i]
    odd = 0
    nan = np.float64(0.0) * np.inf
    for i in range(out.shape[0]):
        w = out[i] if i % 3 else nan
        if w != w:
            odd += 1
        if -w * 0.0 == 0.0:
            odd += 2
    return total, plain, rest, odd

def divide(rng, by):
    return np.int64(np.uint64(rng.next()) >> np.uint64(1)) // by
"""

FIELDS = ("uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32",
          "float64", "bool_")


def semantics(mon, job):
    """what a caller computes of the draws: floats summed in order, NaN, errors, fields"""
    comp, xor = sut.load(mon, "compilation", "xorshift")
    r = rng_for(job, "semantics")
    pairs = [p for p in workload.classes(mon, ALL_SPECS)]
    for spec, cls in r.sample(pairs, 3):
        ns = {"np": np}
        exec(KAHAN, ns)  # noqa: S102
        try:
            f = compiled(mon, ns["f"], f"sums over {spec.name}")
            div = compiled(mon, ns["divide"], f"quotients over {spec.name}")
            for _ in range(job["n"]):
                seeds = spec.seeds(r)
                n = r.choice((1, 8, 33, 64, 500))
                scale = np.array([10.0 ** r.randrange(-12, 12) * r.choice((1, -1))
                                  for _ in range(7)])
                a, b = np.zeros(n), np.zeros(n)
                with mon.sut(f"{spec.name}{plain(seeds)}: sums of draws"):
                    got = [float(v) for v in f(cls(*seeds), scale, a)]
                    with np.errstate(all="ignore"):
                        want = [float(v) for v in ns["f"](cls(*seeds), scale, b)]
                mon.count("float_sums")
                mon.case((spec.name, plain(seeds), n, scale.tolist()))
                mon.same([got, a.tolist()], [want, b.tolist()], f"{spec.name}: a compiled caller "
                         "of the package's decorator sums its draws differently",
                         seed=plain(seeds))
            raised = False
            with mon.sut(f"{spec.name}: a caller divides by zero"):
                obj = cls(*spec.seeds(r))
                try:
                    div(obj, np.int64(0))
                except ZeroDivisionError:
                    raised = True
                seven = int(div(cls(*seeds), np.int64(7)))
                model = spec.by_name["next"].model(spec.model(*plain(seeds)))
            mon.same(seven, (model >> 1) // 7, f"{spec.name}: quotient of a draw")
            mon.count("errors_raised")
            mon.expect(raised, "a compiled caller that divides by zero gets no ZeroDivisionError")
        except SutFailure:
            continue
    try:
        float_draws(mon, r, comp, xor, job["n"])
        fields(mon, r, comp)
    except SutFailure:
        pass


def float_draws(mon, r, comp, xor, n):
    for _, name, call in FLOATS:
        ns = {"np": np}
        exec(f"def f(rng, lo, hi, out):\n    for i in range(out.shape[0]):\n"  # noqa: S102
             f"        out[i] = {call}\n", ns)
        f = compiled(mon, ns["f"], f"float draws of {name}")
        for _ in range(n):
            seeds = [np.uint32(r.getrandbits(32)) for _ in range(4)]
            lo, hi = sorted(np.float32(r.uniform(-1000, 1000)) for _ in range(2))
            a, b = np.zeros(40, np.float32), np.zeros(40, np.float32)
            with mon.sut(f"{name}: float draws by both callers"):
                f(getattr(xor, name)(*seeds), np.float64(lo), np.float64(hi), a)
                ns["f"](getattr(xor, name)(*seeds), lo, hi, b)
            mon.count("float_draws", 80)
            mon.case((name, plain(seeds), float(lo), float(hi)))
            tol = 8 * max(abs(float(lo)), abs(float(hi))) * 2.0 ** -23
            mon.expect(bool(np.all(np.abs(a.astype(np.float64) - b) <= tol)),
                       f"{name}: float draws of a compiled caller differ", got=a.tolist()[:5],
                       want=b.tolist()[:5])


def fields(mon, r, comp):
    """a user's class with a field of every type, declared in the class or in a spec"""
    for style in ("annotation", "spec", "keyword"):
        decl = {f"f_{t}": getattr(np, t) for t in FIELDS}
        with mon.sut("types of the fields of a user's class"):
            arrays = {"a_row": comp.array_type(np.uint32),
                      "a_grid": comp.array_type(np.float32, ndim=2),
                      "a_const": comp.array_type(np.int16, readonly=True),
                      "t_pair": comp.unituple_type(np.uint16, 2)}
        params = list(decl) + list(arrays)
        body = "".join(f"        self.{p} = {p}\n" for p in params)
        ann = "".join(f"    {p}: types['{p}']\n" for p in params) if style == "annotation" else ""
        src = (f"class Rec:\n{ann}    def __init__(self, {', '.join(params)}):\n{body}"
               "    def total(self):\n        return " +
               " + ".join(f"np.float64(self.{p})" for p in decl) + " + np.float64(self.a_row[-1])"
               " + np.float64(self.a_grid[1, 2]) + np.float64(self.a_const[0])"
               " + np.float64(self.t_pair[1])\n"
               "def use(rec):\n    rec.a_row[0] = np.uint32(77)\n    return rec.total()\n")
        ns = {"np": np, "types": {**decl, **arrays}}
        exec(src, ns)  # noqa: S102
        spec = {**decl, **arrays}
        with mon.sut(f"a user's class with fields of every type, by {style}"):
            cls = comp.optional_jitclass(ns["Rec"]) if style == "annotation" else \
                comp.optional_jitclass(spec)(ns["Rec"]) if style == "spec" else \
                comp.optional_jitclass(spec=spec)(ns["Rec"])
            use = comp.optional_njit(ns["use"])
        for _ in range(20):
            vals = []
            for t in FIELDS:
                if t == "bool_":
                    vals.append(np.bool_(r.randrange(2)))
                elif t.startswith("float"):
                    vals.append(getattr(np, t)(r.choice((0.1, 1e-30, 3e30, r.random()))))
                else:
                    i = np.iinfo(t)
                    vals.append(getattr(np, t)(r.choice((i.min, i.max, r.randint(int(i.min),
                                                                               int(i.max))))))
            row = np.array([r.getrandbits(32) for _ in range(5)], np.uint32)
            grid = np.array([[r.random() for _ in range(3)] for _ in range(2)], np.float32)
            const = np.array([r.randrange(-9, 9), 5], np.int16)
            const.flags.writeable = False
            pair = (np.uint16(r.getrandbits(16)), np.uint16(r.getrandbits(16)))
            with mon.sut(f"a user's class with fields of every type, by {style}: use"):
                rec = cls(*vals, row, grid, const, pair)
                got = [getattr(rec, p) for p in decl]
                got += [int(rec.a_row[1]), float(rec.a_grid[0, 2]), int(rec.a_const[1]),
                        int(rec.t_pair[0])]
                sums = [float(use(rec)), float(rec.total()), int(row[0])]
            want = [v.item() for v in vals] + [int(row[1]), float(grid[0, 2]), 5, int(pair[0])]
            # added in the order of the source, in doubles
            total = np.float64(vals[0])
            for v in vals[1:] + [row[-1], grid[1, 2], const[0], pair[1]]:
                total = total + np.float64(v)
            mon.count("field_types", len(vals) + 4)
            mon.case((style, [str(v) for v in vals], row.tolist()))
            mon.same([norm(g) for g in got], [norm(w) for w in want],
                     f"a field of a user's class ({style}) holds another value", types=FIELDS)
            mon.same(sums, [float(total)] * 2 + [77], f"a user's class ({style}) in compiled code "
                     "computes another sum")
