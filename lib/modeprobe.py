"""Imports the package in a fresh interpreter and reports what it sees (C23).

python [-S] modeprobe.py SPEC.json OUT.json
SPEC: {"order": [module, ...], "handler": bool}"""
import json
import logging
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.append(HERE)
sys.dont_write_bytecode = True
from lib import nopyc, sut  # noqa: E402
nopyc.install(os.path.realpath(sut.REPO))
nopyc.install(sut.REPO)
import importlib  # noqa: E402
import importlib.util  # noqa: E402


class Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.seen = []

    def emit(self, record):
        self.seen.append([record.levelno, record.name, record.getMessage()])


def kind_of(obj):
    """how a public object is built"""
    if hasattr(obj, "class_type"):
        return "jitclass"
    if hasattr(obj, "py_func"):
        return "dispatcher"
    if isinstance(obj, type):
        return "class"
    return "function" if callable(obj) else "value"


def members(obj):
    """public methods and properties of a class"""
    if hasattr(obj, "class_type"):
        t = obj.class_type
        names = set(t.jit_methods) | set(t.jit_props) | set(t.jit_static_methods)
    elif isinstance(obj, type):
        names = {n for n in dir(obj) if callable(getattr(obj, n, None))
                 or isinstance(getattr(obj, n, None), property)}
    else:
        return []
    return sorted(n for n in names if not n.startswith("_"))


def main():
    with open(sys.argv[1], encoding="utf-8") as f:
        spec = json.load(f)
    out = {"errors": [], "present": importlib.util.find_spec("numba") is not None,
           "early": "numba" in sys.modules}
    records = Records()
    if spec.get("handler", True):
        logging.getLogger().addHandler(records)
    sut.install_once()

    def load(name):
        try:
            importlib.import_module(name)
        except BaseException as exc:  # noqa: BLE001
            import traceback
            out["errors"].append([name, f"{type(exc).__name__}: {str(exc)[:300]}",
                                  traceback.format_exc()[-1500:]])
    for name in spec["order"]:
        load(name)
    # the mode must not be read again
    if spec.get("flip"):
        os.environ["NPP_USE_NUMBA"] = spec["flip"]
    for name in spec.get("then", []):
        load(name)
    opt = sys.modules.get(sut.PKG + ".options")
    out["use_numba"] = getattr(opt, "USE_NUMBA", None)
    out["loaded"] = "numba" in sys.modules
    out["records"] = [r for r in records.seen if r[0] >= logging.WARNING]
    names = {}
    for name, mod in sorted(sys.modules.items()):
        if name != sut.PKG and not name.startswith(sut.PKG + "."):
            continue
        if not getattr(mod, "__file__", None):
            continue    # data directories
        if not os.path.realpath(mod.__file__).startswith(os.path.realpath(sut.REPO) + os.sep):
            out["errors"].append([name, "imported from " + mod.__file__, ""])
        names[name[len(sut.PKG) + 1:]] = {
            n: [kind_of(getattr(mod, n)), members(getattr(mod, n))
                if str(getattr(getattr(mod, n), "__module__", "")).startswith(sut.PKG)
                or hasattr(getattr(mod, n), "class_type") else []]
            for n in dir(mod) if not n.startswith("_")}
    out["names"] = names
    with open(sys.argv[2], "w", encoding="utf-8") as f:
        json.dump(out, f)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
