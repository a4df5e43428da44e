"""Writes lib/api.json: the public names both modes offer (run on the reference tree)."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from lib import orch  # noqa: E402

CODE = """
import importlib, json, pkgutil, sys, types
sys.path.append(%r)
from lib import sut, modeprobe
sut.install_once()
p = importlib.import_module(sut.PKG)
mods = sorted(m.name for m in pkgutil.walk_packages(p.__path__, p.__name__ + '.'))
out = {}
for name in mods:
    mod = importlib.import_module(name)
    here = out[name[len(sut.PKG) + 1:]] = {}
    for n in dir(mod):
        v = getattr(mod, n)
        if n.startswith('_') or isinstance(v, types.ModuleType):
            continue
        kind = modeprobe.kind_of(v)
        home = str(getattr(v, '__module__', ''))
        if kind in ('class', 'function') and not home.startswith(sut.PKG):
            continue
        if kind == 'value' and (not n.isupper() and n != 'SlotLA_dtype'
                                or n in ('TYPE_CHECKING', 'USE_NUMBA', 'U8', 'U16', 'U32',
                                         'U64', 'F32', 'BOOL8', 'PRNG')):
            continue
        package = hasattr(mod, '__path__')
        if kind != 'value' and home != name and not (package and home.startswith(name)):
            continue    # a name imported for the module's own use
        here[n] = [kind, modeprobe.members(v)]
json.dump(out, open(sys.argv[1], 'w'))
"""


def main():
    got = []
    with tempfile.TemporaryDirectory() as d:
        for mode in ("numba", "numpy"):
            env = orch.worker_env(d, mode)
            path = os.path.join(d, mode)
            subprocess.run([orch.PYTHON, "-c", CODE % HERE, path], env=env, check=True)
            with open(path, encoding="utf-8") as f:
                got.append(json.load(f))
    a, b = got
    api = {m: {n: [k, b[m][n][1]] for n, (k, _) in sorted(a[m].items()) if n in b[m]}
           for m in sorted(a)}
    with open(os.path.join(HERE, "lib", "api.json"), "w", encoding="utf-8") as f:
        json.dump(api, f, indent=0, sort_keys=True)
        f.write("\n")
    print({m: len(v) for m, v in api.items()})


main()
