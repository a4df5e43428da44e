"""C23: the mode switch is honoured and degrades safely when numba is missing.

Fresh interpreters are started under every setting of the mode variable, with numba
installed and really not installed, importing the package's modules in many orders;
each reports the mode it is in, what it loaded, what it logged and what it offers."""
import json
import os
import subprocess

import numpy as np

from lib import orch, sut, workload
from lib.mon import HarnessError, SutFailure
from lib.rngspec import rng_for

RULE = ("one case = one fresh interpreter (mode variable, numba installed or not, order of imports) "
        "whose mode, loaded modules, log records, public names and kinds of objects are judged, or "
        "one program of the whole API run without numba and compared with its run where numba is "
        "installed, or one decorator form compared between the modes; distinct = distinct such "
        "configurations, programs and forms")
REQUIRED = ["interpreters", "mode:compiled", "mode:numpy", "mode:fallback", "mode:numpy, no numba",
            "warned", "silent", "first_imports", "orders", "names_compared",
            "kinds_compared", "decorator_forms", "no_numba_events", "no_numba_programs",
            "flips", "stderr_warnings"]
ASSUMPTIONS = ["numba is missing means: not installed (no module, no metadata); an installed but "
               "broken numba is outside the property",
               "imports run in one thread (two threads importing a package and its submodule for "
               "the first time can run into CPython's deadlock detection)",
               "names of the package's own helpers that exist in compiled mode only "
               "(compilation.convert_spec, the code that emits the compiled SFMT shuffle) are not "
               "public"]
with open(os.path.join(orch.HERE, "lib", "api.json"), encoding="utf-8") as _f:
    API = json.load(_f)
# ordinary and surprising values; None: not set
VALUES = [None, "TRUE", "FALSE", "true", "True", "", "0", "1", "TRUE ", " TRUE", "TRUE\n", "T", "YES",
          "ON", "NUMBA", "TRUEE", "tRUE", "FALSE TRUE", "\"TRUE\"", "\u0422RUE", "TRUE\u200b"]

PLAN = [["generators", 24], ["factories", 1], ["constants", 1], ["lists", 2], ["hashes", 12],
        ["utilities", 200], ["searches", 24], ["parts", 30], ["tables", 1], ["slots", 20]]


def jobs(tier, seed):
    quick = tier == "quick"
    out = [{"func": "settings", "mode": None, "shard": s, "shards": 2, "extra": 4 if quick else 120}
           for s in range(2)]
    for mode in ("numba", "numpy"):
        for s in range(3 if mode == "numba" else 1):
            out.append({"func": "orders", "mode": None, "value": mode, "shard": s,
                        "shards": 3 if mode == "numba" else 1,
                        "firsts": (5 if mode == "numba" else 99) if quick else 99,
                        "n": (2 if mode == "numba" else 8) if quick else 60})
        out.append({"func": "decorators", "mode": mode, "n": 4 if quick else 40})
    plan = PLAN if quick else [[a, n * (1 if a == "tables" else 10)] for a, n in PLAN]
    for k in range(1 if quick else 4):
        for name, mode, bare in (("with", "numpy", False), ("without", "numpy", True),
                                 ("fallback", None, True)):
            out.append({"func": "program", "mode": mode, "no_numba": bare, "plan": plan, "shard": k,
                        "keep": True, "name": f"program{k}-{name}", "pair": k, "side": name,
                        "env": {"NPP_USE_NUMBA": None} if mode is None else None})
    return out


# --- fresh interpreters ---------------------------------------------------------------
class Probes:
    def __init__(self, mon):
        self.mon = mon
        self.dir = os.path.abspath("probe")
        self.site = orch.bare_site(os.path.join(self.dir, "site"))
        self.n = 0

    def run(self, value, installed, spec, what):
        """-> report of a fresh interpreter, judged for everything but its names"""
        mon = self.mon
        self.n += 1
        src, dst = (os.path.join(self.dir, f"{self.n}.{e}") for e in ("in", "out"))
        with open(src, "w", encoding="utf-8") as f:
            json.dump(spec, f)
        env = orch.worker_env(self.dir, None)
        if value is not None:
            env["NPP_USE_NUMBA"] = value
        env["PYTHONUTF8"] = "1"
        flags = []
        if not installed:
            env["PYTHONPATH"] += ":" + self.site
            flags = ["-S"]
        mon.at(f"fresh interpreter: NPP_USE_NUMBA={value!r}, numba installed: {installed}, {what}")
        try:
            p = subprocess.run([orch.PYTHON, *flags, os.path.join(orch.HERE, "lib", "modeprobe.py"),
                                src, dst], env=env, cwd=self.dir, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
        except subprocess.TimeoutExpired:
            mon.violate("importing the package does not finish", value=value, installed=installed,
                        imports=spec["order"])
            return None
        text = p.stdout.decode("utf-8", "replace")
        if not os.path.exists(dst):
            mon.violate("the interpreter died while importing the package", value=value,
                        installed=installed, rc=p.returncode, output=text[-1500:], what=what)
            return None
        with open(dst, encoding="utf-8") as f:
            rep = json.load(f)
        os.unlink(src)
        os.unlink(dst)
        if rep["present"] != installed or rep["early"]:
            raise HarnessError(f"numba present: {rep['present']}, loaded: {rep['early']}")
        rep["output"] = text
        self.judge(rep, value, installed, spec, what)
        return rep

    def judge(self, rep, value, installed, spec, what):
        mon = self.mon
        asked = value is None or value == "TRUE"
        compiled = asked and installed
        w = {"value": value, "installed": installed, "what": what}
        mon.count("interpreters")
        mon.count("mode:" + ("compiled" if compiled else "fallback" if asked else "numpy" if installed
                             else "numpy, no numba"))
        mon.case((value, installed, json.dumps(spec)))
        for name, err, trace in rep["errors"][:2]:
            mon.violate(f"importing {name} failed: {err}", trace=trace, order=spec["order"], **w)
        mon.expect(rep["use_numba"] in (True, False) and bool(rep["use_numba"]) == compiled,
                   "the mode is not the one the setting selects", got=rep["use_numba"],
                   want=compiled, **w)
        if not compiled:
            mon.expect(not rep["loaded"], "numba was imported in numpy-only mode",
                       order=spec["order"], **w)
        about = [r for r in rep["records"] if "numba" in r[2].lower()]
        if asked and not installed:
            if spec.get("handler", True):
                mon.count("warned")
                mon.expect(about, "no warning was logged although compiled mode was asked for and "
                           "numba is missing", records=rep["records"], **w)
            else:
                mon.count("stderr_warnings")
                mon.expect("numba" in rep["output"].lower(), "the warning does not reach the "
                           "standard error when logging is not set up", output=rep["output"], **w)
        else:
            mon.count("silent")
            mon.expect(not about, "a warning about numba was logged although none was due",
                       records=rep["records"], **w)
        self.kinds(rep, compiled, w)

    def kinds(self, rep, compiled, w):
        """what is offered is of the kind of the mode"""
        mon = self.mon
        for m, names in rep["names"].items():
            for n, (kind, _) in names.items():
                ref = API.get(m, {}).get(n)
                if ref is None:
                    continue
                mon.count("kinds_compared")
                if not compiled:
                    mon.expect(kind not in ("jitclass", "dispatcher"),
                               f"{m}.{n} is compiled in numpy-only mode", kind=kind, **w)
                elif ref[0] in ("jitclass", "dispatcher"):
                    mon.expect(kind in ("jitclass", "dispatcher"),
                               f"{m}.{n} is not compiled in compiled mode", kind=kind, **w)

    def names(self, rep, other, who):
        """public names (and members of classes) offered by both or by neither"""
        mon = self.mon
        for m, ref in API.items():
            a, b = rep["names"].get(m), other["names"].get(m)
            if a is None and b is None:
                continue
            for n, (kind, members) in ref.items():
                mon.count("names_compared")
                if (a is None or n not in a) != (b is None or n not in b):
                    mon.violate(f"{m}.{n} is offered in one mode only", modes=who,
                                first=a is not None and n in a)
                    continue
                if a is None or n not in a:
                    continue
                for x in members:
                    mon.count("names_compared")
                    mon.expect((x in a[n][1]) == (x in b[n][1]),
                               f"{m}.{n}.{x} is offered in one mode only", modes=who,
                               first=x in a[n][1])


def full(names):
    return [sut.PKG + ("." + n if n else "") for n in names]


def modules(mon):
    """every module of the package, by its files"""
    root = os.path.join(sut.REPO, sut.PKG)
    found = []
    for where, dirs, files in os.walk(root):
        dirs[:] = sorted(d for d in dirs if d not in ("__pycache__", "resources"))
        base = [sut.PKG] + [x for x in os.path.relpath(where, root).split(os.sep) if x != "."]
        for f in sorted(files):
            if f == "__init__.py":
                found.append(".".join(base))
            elif f.endswith(".py"):
                found.append(".".join(base + [f[:-3]]))
    if len(found) < 20:
        raise HarnessError(f"modules of the package: {found}")
    return found


def settings(mon, job):
    """every value of the variable, numba installed or not"""
    r = rng_for(job, "settings")
    p = Probes(mon)
    values = list(VALUES)
    for _ in range(job["extra"]):
        k = r.randrange(3)
        if k == 0:
            values.append("".join(r.choice("TRUEtrue") for _ in range(4)))
        elif k == 1:
            values.append("".join(chr(r.randrange(32, 127)) for _ in range(r.randrange(1, 9))))
        else:
            s = list("TRUE")
            s.insert(r.randrange(5), chr(r.randrange(33, 127)))
            values.append("".join(s))
    values += [None, "TRUE"] * 3
    cases = [(v, i) for v in values for i in (True, False)]
    for k, (value, installed) in enumerate(cases):
        if k % job["shards"] != job["shard"] or mon.too_many:
            continue
        light = k % 5
        order = full(r.sample(["mersenne_twister", "enums", "data.util", "xorshift", "compilation"],
                              2) if light else ["data", "lcrng", "sha1", "gen3.state", "rng_list"])
        # a change of the variable after the first import changes nothing
        spec = {"order": full([""]), "then": order} if r.random() < 0.5 else {"order": order}
        if r.random() < 0.4 and "then" in spec:
            spec["flip"] = r.choice(("TRUE", "FALSE"))
            mon.count("flips")
        rep = p.run(value, installed, spec, "settings")
        if k < 4 and rep:
            mon.sample({"NPP_USE_NUMBA": value, "numba installed": installed,
                        "compiled": rep["use_numba"], "numba loaded": rep["loaded"],
                        "records": rep["records"]})
        if (value is None or value == "TRUE") and not installed:
            p.run(value, installed, dict(spec, handler=False), "logging not set up")


def orders(mon, job):
    """every module imported first, random orders; names of both modes"""
    r = rng_for(job, "orders")
    p = Probes(mon)
    value = job["value"]
    setting = {"numba": ("TRUE", None), "numpy": ("FALSE", "no", "true")}[value]
    every = modules(mon)
    there = (True,) if value == "numba" else (True, False)
    mine = [m for k, m in enumerate(every) if k % job["shards"] == job["shard"]]
    r.shuffle(mine)
    for name in mine[:job["firsts"]]:
        if mon.too_many:
            return
        mon.count("first_imports")
        p.run(r.choice(setting), r.choice(there), {"order": [name]}, f"{name} first")
    reference = p.run("FALSE", True, {"order": every}, "all modules")
    for _ in range(job["n"]):
        if mon.too_many:
            return
        some = list(every)
        r.shuffle(some)
        mon.count("orders")
        installed = r.choice(there)
        rep = p.run(r.choice(setting), installed, {"order": some}, "all modules in a random order")
        if rep and reference:
            p.names(rep, reference, [value + ("" if installed else " without numba"), "numpy"])
    if value == "numpy":
        # compiled mode asked for, not there: all that numpy-only mode offers
        for v in ("TRUE", None):
            some = list(every)
            r.shuffle(some)
            rep = p.run(v, False, {"order": some}, "all modules, numba missing")
            if rep and reference:
                p.names(rep, reference, ["fallback", "numpy"])


# --- decorators ----------------------------------------------------------------------
def functions(r):
    """plain functions of two uint32 arguments, in several shapes"""
    a, b = np.uint32(r.getrandbits(32) | 1), np.uint32(r.getrandbits(32))

    def mix(x, y):
        return np.uint32(np.uint32(x * a) ^ np.uint32(y + b))

    def loop(x, y):
        total = np.uint32(0)
        for i in range(y & np.uint32(15)):
            total = np.uint32(np.uint32(total * a) + x)
        return total

    def branch(x, y):
        if x > y:
            return np.uint32(x - y)
        return np.uint32(x ^ b)

    def table(x, y):
        out = np.zeros(4, np.uint32)
        for i in range(4):
            out[i] = np.uint32(x + np.uint32(i)) ^ y
        return out[0] ^ out[3]
    return [mix, loop, branch, table]


def plain_class(r, hints):
    k = np.uint32(r.getrandbits(32))
    if hints:
        class Counter:
            """a counter"""
            state: np.uint32
            steps: np.uint64

            def __init__(self, state):
                self.state = state
                self.steps = np.uint64(0)

            def step(self, n):
                """step"""
                self.state = np.uint32(self.state + n) ^ k
                self.steps += np.uint64(1)
                return self.state
    else:
        class Counter:
            """a counter"""

            def __init__(self, state):
                self.state = state
                self.steps = np.uint64(0)

            def step(self, n):
                """step"""
                self.state = np.uint32(self.state + n) ^ k
                self.steps += np.uint64(1)
                return self.state
    return Counter


def decorators(mon, job):
    r = rng_for(job, "decorators")
    comp = sut.load(mon, "compilation")
    compiled = job["mode"] == "numba"
    on, oj = comp.optional_njit, comp.optional_jitclass
    u32 = np.uint32

    def sig():
        return comp.return_type(u32, (u32, u32))
    forms = [
        ("@optional_njit", lambda f: on(f)),
        ("@optional_njit()", lambda f: on()(f)),
        ("@optional_njit(None)", lambda f: on(None)(f)),
        ("@optional_njit(signature)", lambda f: on(sig())(f)),
        ("@optional_njit([signature])", lambda f: on([sig()])(f)),
        ("@optional_njit(signature, locals)", lambda f: on(sig(), locals={"x": u32})(f)),
        ("@optional_njit(locals=...)", lambda f: on(locals={"x": u32})(f)),
        ("optional_njit(f, locals)", lambda f: on(f, locals={"y": u32})),
        ("@optional_njit(nogil=True)", lambda f: on(nogil=True)(f)),
        ("optional_njit(f, nogil=True)", lambda f: on(f, nogil=True)),
        ("optional_njit(signature_or_function=f)", lambda f: on(signature_or_function=f)),
        ("@optional_njit(signature, inline)", lambda f: on(sig(), inline="always")(f)),
    ]

    def spec():
        return {"state": u32, "steps": np.uint64}
    kinds = [
        ("@optional_jitclass", True, lambda c: oj(c)),
        ("@optional_jitclass()", True, lambda c: oj()(c)),
        ("@optional_jitclass(None)", True, lambda c: oj(None)(c)),
        ("@optional_jitclass({...})", False, lambda c: oj(spec())(c)),
        ("@optional_jitclass(spec={...})", False, lambda c: oj(spec=spec())(c)),
        ("@optional_jitclass(cls_or_spec={...})", False, lambda c: oj(cls_or_spec=spec())(c)),
        ("optional_jitclass(cls, {...})", False, lambda c: oj(c, spec())),
        ("optional_jitclass(cls, spec={...})", False, lambda c: oj(c, spec=spec())),
        ("optional_jitclass(cls, spec of one field)", True,
         lambda c: oj(c, spec={"state": u32})),
        ("@optional_jitclass(spec=one field)", True, lambda c: oj(spec={"state": u32})(c)),
    ]
    log = []
    for rnd in range(job["n"]):
        fs = functions(r)
        for name, deco in forms:
            for f in fs if rnd == 0 else [r.choice(fs)]:
                if mon.too_many:
                    return
                args = [(u32(r.getrandbits(32)), u32(r.getrandbits(32))) for _ in range(6)]
                want = [int(f(*a)) & 0xFFFFFFFF for a in args]
                mon.count("decorator_forms")
                mon.case((name, f.__name__, rnd))
                try:
                    with mon.sut(f"{name} on {f.__name__}"):
                        g = deco(f)
                        got = [int(g(*a)) & 0xFFFFFFFF for a in args]
                        again = [int(g(*a)) & 0xFFFFFFFF for a in args]
                except SutFailure:
                    continue
                mon.same(got, want, f"{name}: the decorated function computes something else",
                         function=f.__name__, args=args)
                mon.same(again, want, f"{name}: the decorated function computes something else "
                         "when called again", function=f.__name__, args=args)
                mon.same(g.__name__, f.__name__, f"{name}: name of the decorated function")
                mon.expect(hasattr(g, "py_func") == compiled,
                           f"{name}: kind of the decorated function", compiled=compiled)
                log.append((name, f.__name__, got))
        for name, hints, deco in kinds:
            if mon.too_many:
                return
            if rnd and r.random() < 0.5:
                continue
            start = u32(r.getrandbits(32))
            steps = [u32(r.getrandbits(32)) for _ in range(5)]
            cls = plain_class(r, hints)
            ref = cls(start)
            want = [int(ref.step(n)) for n in steps]
            mon.count("decorator_forms")
            mon.case((name, rnd))
            try:
                with mon.sut(f"{name} on a class"):
                    made = deco(cls)
                    one, two = made(start), made(start)
                    got = [int(one.step(n)) for n in steps]
                    end = (int(one.state), int(one.steps), int(two.state), int(two.steps))
            except SutFailure:
                continue
            mon.same(got, want, f"{name}: the decorated class computes something else")
            mon.same(end, (want[-1], 5, int(start), 0), f"{name}: attributes of decorated objects")
            mon.same(made.__name__, "Counter", f"{name}: name of the decorated class")
            mon.expect(hasattr(made, "class_type") == compiled, f"{name}: kind of the decorated "
                       "class", compiled=compiled)
            log.append((name, "class", got))
    # containers of the mode
    with mon.sut("TypedDict, TypedList"):
        d = comp.TypedDict(np.uint64, np.uint32)
        for k in range(50):
            d[np.uint64(k * k)] = u32(k)
        mon.same([int(d[np.uint64(k * k)]) for k in range(50)], list(range(50)), "TypedDict")
        mon.same(sorted(int(k) for k in d), [k * k for k in range(50)], "keys of a TypedDict")
        mon.expect(np.uint64(3) not in d and np.uint64(4) in d, "membership in a TypedDict")
        lst = comp.TypedList([u32(k) for k in range(9)])
        lst.append(u32(77))
        mon.same([int(x) for x in lst], list(range(9)) + [77], "TypedList")
    mon.sample({"forms": [f[0] for f in forms + kinds], "results": log[:2]})


# --- works in full without numba --------------------------------------------------------
def program(mon, job):
    import importlib.util
    import sys
    bare = job["no_numba"]
    if (importlib.util.find_spec("numba") is None) != bare:
        raise HarnessError("numba is " + ("installed" if bare else "missing"))
    workload.run(mon, rng_for(dict(job, name="x"), "program"), job["plan"])
    mon.expect("numba" not in sys.modules, "numba was imported in numpy-only mode by using the "
               "package")
    mon.evaluations = 0
    if job["side"] != "without":
        mon.distinct.clear()


def finalize(results, tier, seed, scratch):
    pairs = {}
    for i, job in enumerate(jobs(tier, seed)):
        if job["func"] == "program":
            pairs.setdefault(job["pair"], {})[job["side"]] = (
                os.path.join(scratch, f"job{i}", workload.LOG), results[i])
    violations, events, programs = [], 0, 0
    for sides in pairs.values():
        ref, res = sides["with"]
        if res["status"] != "ok":
            continue
        for side in ("without", "fallback"):
            path, mine = sides[side]
            if mine["status"] != "ok":
                continue
            n, diffs = workload.diff(ref, path)
            events += n
            programs += mine["counters"].get("scenarios", 0)
            for where, la, lb in diffs[:2]:
                violations.append({
                    "message": f"results without numba differ in {where}: with: {la[:200]} | "
                               f"without: {lb[:200]}", "job": mine["name"],
                    "witness": {"program": where, "with": la, "without": lb}})
    return {"violations": violations, "evaluations": events,
            "counters": {"no_numba_events": events, "no_numba_programs": programs}}
