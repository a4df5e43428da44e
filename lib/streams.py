"""Position-tracking monitor for the stream generators.

A program is a list of calls (next / advance / shuffle / previous / re_init) run
on a real object - inside compiled code under numba, as plain Python otherwise -
whose draws are recorded; the oracle follows the absolute position those calls
stand for and reads the expected values off the reference stream."""
import signal

import numpy as np

from . import models, sut
from .mon import SutFailure

NEXT, ADVANCE, SHUFFLE, PREVIOUS, REINIT, TEMPER = range(6)


def driver(kinds, argc):
    """run(rng, kinds, args, seeds, out) for the operations in `kinds`"""
    src = ["def run(rng, kinds, args, seeds, out):",
           "    for i in range(kinds.shape[0]):",
           "        k = kinds[i]",
           "        if k == 0:",
           "            out[i] = rng.next()"]
    if ADVANCE in kinds:
        src += ["        elif k == 1:", "            rng.advance(args[i])"]
    if SHUFFLE in kinds:
        src += ["        elif k == 2:", "            rng.shuffle()"]
    if PREVIOUS in kinds:
        src += ["        elif k == 3:", "            out[i] = rng.previous()"]
    if REINIT in kinds:
        inner = ", ".join(f"seeds[args[i], {j}]" for j in range(argc))
        src += ["        elif k == 4:", f"            rng.re_init({inner})"]
    if TEMPER in kinds:
        src += ["        elif k == 5:", "            out[i] = rng.temper()"]
    ns = {}
    exec("\n".join(src) + "\n", ns)
    if sut.use_numba():
        import numba
        return numba.njit(ns["run"])
    return ns["run"]


class Family:
    """one generator class, its reference streams and its block size"""

    def __init__(self, name, cls, seed_dtype, argc, seed_of, stream, kinds, weights, advances,
                 adv_dtype, block=None, span=40_000):
        self.name, self.cls, self.dtype, self.argc = name, cls, seed_dtype, argc
        self.seed_of = seed_of
        self.stream, self.kinds, self.weights = stream, kinds, weights
        self.advances, self.block, self.span = advances, block, span
        self.adv_dtype = adv_dtype
        self.run = driver(kinds, argc)

    def make(self, seed):
        return self.cls(*(self.dtype(v) for v in seed))


def program(r, fam, seeds, length, span):
    """-> kinds, args, expected [(index, seed number, position)]"""
    kinds, args, expect = [], [], []
    # what a shuffle does on a block edge is settled only directly after seeding
    # ("fresh": it starts the first block), after the last draw of a block ("drawn":
    # it starts the next one) and after another shuffle ("shuffled")
    which, pos, edge = 0, 0, "fresh"
    for i in range(length):
        k = r.choices(fam.kinds, fam.weights)[0]
        a = 0
        if k == ADVANCE:
            a = fam.advances(r)
        if edge == "drawn" and r.random() < 0.3:
            k = SHUFFLE
        if k == SHUFFLE and fam.block and pos % fam.block == 0 and edge is None:
            k = NEXT
        if k in (PREVIOUS, TEMPER) and pos == 0:
            k = NEXT
        step = {NEXT: 1, ADVANCE: a, SHUFFLE: 2 * (fam.block or 1)}.get(k, 0)
        if pos + step >= span:
            k = REINIT
        kinds.append(k)
        if k == NEXT:
            expect.append((i, which, pos))
            pos += 1
            edge = "drawn" if fam.block and pos % fam.block == 0 else None
        elif k == ADVANCE:
            pos += a
            edge = None
        elif k == SHUFFLE:
            if fam.block is None:
                pos += 1
            elif pos % fam.block:
                pos += fam.block - pos % fam.block
            elif edge == "shuffled":
                pos += fam.block
            edge = "shuffled"
        elif k == PREVIOUS:
            pos -= 1
            expect.append((i, which, pos))
            edge = None
        elif k == TEMPER:
            expect.append((i, which, pos - 1))
        else:
            which = (which + r.randrange(1, len(seeds))) % len(seeds)
            a, pos, edge = which, 0, "fresh"
        args.append(a)
    return kinds, args, expect


NAMES = ("next", "advance", "shuffle", "previous", "re_init", "temper")


def show(kinds, args, upto, n=14):
    lo = max(0, upto - n)
    return [(NAMES[kinds[i]], args[i]) if kinds[i] in (ADVANCE, REINIT) else NAMES[kinds[i]]
            for i in range(lo, min(len(kinds), upto + 1))]


def programs(mon, r, fam, count, length, span):
    """run `count` programs; False after a violation"""
    for p in range(count):
        seeds = [fam.seed_of(r) for _ in range(3)]
        kinds, args, expect = program(r, fam, seeds, length, span)
        streams = [fam.stream(s, 0, span) for s in seeds]
        out = np.zeros(length, np.uint64)
        try:
            with mon.sut(f"{fam.name}{seeds[0]}: program of {length} calls"):
                rng = fam.make(seeds[0])
                # a zero step count inside a call is drawn from uint32/uint64 data
                fam.run(rng, np.array(kinds, np.int64), np.array(args, fam.adv_dtype),
                        np.array(seeds, fam.dtype).reshape(len(seeds), fam.argc), out)
        except SutFailure:
            return False
        mon.case((fam.name, seeds, kinds, args))
        mon.count("program_calls", length)
        for k in fam.kinds:
            mon.count("calls:" + NAMES[k], kinds.count(k))
        mon.count("draws_compared", len(expect))
        idx = np.array([e[0] for e in expect])
        want = np.array([streams[w][q] for _, w, q in expect], np.uint64)
        bad = np.nonzero(out[idx] != want)[0]
        if len(bad):
            i, which, pos = expect[int(bad[0])]
            mon.violate(f"{fam.name}: draw at position {pos} of the stream differs from the "
                        f"reference", seed=seeds[which], position=pos, got=int(out[i]),
                        want=int(want[int(bad[0])]), calls=show(kinds, args, i))
            return False
        if p < 2:
            mon.sample({"class": fam.name, "seed": seeds[0], "calls": show(kinds, args, 10)}, 4)
    return True


def sweep(mon, r, fam, count, start, length):
    """`length` draws from each of many seeds"""
    kinds = np.zeros(length, np.int64)
    args = np.zeros(length, fam.adv_dtype)
    if start:
        kinds[0], args[0] = ADVANCE, start
    rng = None
    for _ in range(count):
        seed = fam.seed_of(r)
        out = np.zeros(length, np.uint64)
        try:
            with mon.sut(f"{fam.name}{seed}: {length} draws from position {start}"):
                if rng is None or r.random() < 0.3:
                    rng = fam.make(seed)
                else:
                    rng.re_init(*(fam.dtype(v) for v in seed))
                fam.run(rng, kinds, args, np.zeros((1, fam.argc), fam.dtype), out)
        except SutFailure:
            return False
        first = 1 if start else 0
        want = fam.stream(seed, start, length - first)
        mon.case((fam.name, seed, start, length))
        mon.count("draws_compared", length - first)
        bad = np.nonzero(out[first:] != want)[0]
        if len(bad):
            k = int(bad[0])
            mon.violate(f"{fam.name}: draw at position {start + k} of the stream differs from "
                        "the reference", seed=seed, position=start + k, got=int(out[first + k]),
                        want=int(want[k]), after=f"advance({start})" if start else "seeding")
            return False
    return True


def long_advances(mon, r, fam):
    """advances whose distance needs more than 16 bits"""
    ns = [65535, 65536, 65537, 98304 + r.randrange(32768)]
    if sut.use_numba():
        ns += [131072 + r.randrange(1 << 20), (1 << 24) + r.randrange(1 << 20)]
    for n in ns:
        huge_advance(mon, fam, fam.seed_of(r), r.randrange(40), n)


def far_advance(mon, r, fam, make_model, width, step, wide):
    """compiled advances by distances around and beyond 31 and 32 bits, against powers of
    the step's matrix"""
    todo = [0x80000000 + r.getrandbits(r.choice((4, 20))), 0xFFFF0000 + r.getrandbits(16)]
    if wide:
        todo.append((1 << 32) + r.getrandbits(r.choice((4, 20))))
    if mon.job["tier"] != "thorough":
        todo = todo[mon.job["which"]:mon.job["which"] + 1]
    elif mon.job["which"]:
        return
    for n in todo:
        seed, pre = fam.seed_of(r), r.randrange(5)
        model = make_model(seed)
        models.linear_jump(model, width, lambda m=model: step(m), pre + n)
        mon.count("far_advances")
        huge_advance(mon, fam, seed, pre, n,
                     want=np.array([model.next() for _ in range(5)], np.uint64),
                     dtype=np.uint64 if n >> 32 else None)


class _Late(BaseException):
    pass


def huge_advance(mon, fam, seed, pre, n, limit=None, want=None, dtype=None):
    """advance by n, then compare draws.  With a limit (numpy mode, where a correct
    huge advance needs hours) only an advance that returns in time is judged."""
    out = np.zeros(5, np.uint64)
    label = f"{fam.name}{seed}: {pre} draws, then advance({n})"

    def late(*_):
        raise _Late()
    done = True
    try:
        with mon.sut(label):
            rng = fam.make(seed)
            for _ in range(pre):
                rng.next()
            try:
                if limit:
                    old = signal.signal(signal.SIGALRM, late)
                    signal.setitimer(signal.ITIMER_REAL, limit)
                try:
                    rng.advance((dtype or fam.adv_dtype)(n))
                finally:
                    if limit:
                        signal.setitimer(signal.ITIMER_REAL, 0)
                        signal.signal(signal.SIGALRM, old)
            except _Late:
                done = False
            if done:
                for i in range(5):
                    out[i] = int(rng.next())
    except SutFailure:
        return
    mon.case((fam.name, seed, pre, n))
    mon.count("huge_advances")
    if not done:
        mon.count("huge_advances_still_running_at_limit")
        return
    if want is None:
        want = fam.stream(seed, pre + n, 5)
    if out.tolist() != want.tolist():
        mon.violate(f"{fam.name}: advance({n}) after {pre} draws is not {n} discarded draws",
                    seed=seed, got=out.tolist(), want=want.tolist())
