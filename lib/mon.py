"""Worker-side monitor: counts what was observed, journals the operation in
progress, captures failures of the code under test, and writes a result file.

A worker is started by lib/orch.py as
    python worker.py JOB.json RESULT.json JOURNAL
and runs one job (one module function, one mode) against /repo's working tree.
"""
import contextlib
import json
import mmap
import os
import struct
import sys
import traceback
import zlib


class SutFailure(Exception):
    """the code under test failed inside a monitored operation"""


class Monitor:
    MAX_VIOLATIONS = 25

    def __init__(self, job, journal_path):
        self.job = job
        self.counters = {}
        self.evaluations = 0
        self.distinct = set()
        self.distinct_extra = 0
        self.samples = []
        self.violations = []
        self.notes = []
        self.data = {}
        self.sut_depth = 0
        with open(journal_path, "r+b") as f:
            self._j = mmap.mmap(f.fileno(), 4096)
        self._seq = 0

    # --- journal -------------------------------------------------------
    def at(self, text):
        """record what is about to run (survives a crash of this process)"""
        self._seq += 1
        raw = text.encode("utf-8", "replace")[:4000]
        self._j[16:16 + len(raw)] = raw
        self._j[0:16] = struct.pack("<QQ", self._seq, len(raw))

    # --- counting ------------------------------------------------------
    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + int(n)

    def case(self, key=None, n=1):
        """one evaluated case; key (hashable/repr-able) makes it distinct"""
        self.evaluations += n
        if key is not None and len(self.distinct) < 3_000_000:
            if not isinstance(key, int):
                raw = repr(key).encode()
                key = (zlib.crc32(raw) << 32) | zlib.adler32(raw)
            self.distinct.add(key)

    def bulk(self, evaluations, distinct):
        """cases evaluated by a bulk sweep, `distinct` counted on the data"""
        self.evaluations += int(evaluations)
        self.distinct_extra += int(distinct)

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    def note(self, text):
        if len(self.notes) < 50:
            self.notes.append(text)

    # --- verdicts ------------------------------------------------------
    def violate(self, message, **witness):
        self.count("violations_raw")
        if len(self.violations) < self.MAX_VIOLATIONS:
            self.violations.append(
                {"message": message, "job": self.job.get("name"),
                 "witness": jsonable(witness)})

    def expect(self, cond, message, **witness):
        if not cond:
            self.violate(message, **witness)
        return bool(cond)

    def same(self, got, want, message, **witness):
        try:
            ok = got == want
        except Exception:  # noqa: BLE001
            ok = False
        if not ok:
            self.violate(message, got=got, want=want, **witness)
        return bool(ok)

    @property
    def too_many(self):
        return len(self.violations) >= self.MAX_VIOLATIONS

    @contextlib.contextmanager
    def sut(self, text, **witness):
        """an in-domain use of the code under test: an exception is a violation"""
        self.at(text)
        try:
            yield
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except HarnessError:
            raise
        except BaseException as exc:  # noqa: BLE001
            self.violate(
                f"operation failed: {text}: {type(exc).__name__}: {str(exc)[:400]}",
                traceback=traceback.format_exc()[-3000:], **witness)
            raise SutFailure(text) from exc

    def result(self):
        return {
            "name": self.job.get("name"), "counters": self.counters,
            "evaluations": self.evaluations,
            "distinct": len(self.distinct) + self.distinct_extra,
            "samples": self.samples, "violations": self.violations,
            "notes": self.notes, "data": self.data,
        }


class HarnessError(Exception):
    """the harness, not the code under test, is at fault"""


def jsonable(obj, depth=0):
    import numpy as np  # noqa: PLC0415
    if depth > 6:
        return repr(obj)[:200]
    if isinstance(obj, (str, bool, type(None))):
        return obj
    if isinstance(obj, int):
        return obj if abs(obj) < 2**53 else hex(obj)
    if isinstance(obj, float):
        return obj if obj == obj and abs(obj) != float("inf") else repr(obj)
    if isinstance(obj, np.generic):
        return jsonable(obj.item(), depth + 1)
    if isinstance(obj, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(obj.items())[:60]}
    if isinstance(obj, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(obj)[:60]]
    if isinstance(obj, np.ndarray):
        return jsonable(obj.ravel()[:40].tolist(), depth + 1)
    return repr(obj)[:500]
