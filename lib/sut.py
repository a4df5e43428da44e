"""Import the code under test from /repo (worker side)."""
import importlib
import importlib.resources
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "numba_pokemon_prngs"


def install_resource_stub(mon=None):
    """resources/encount/la/spawner_names.json is not part of this copy of the
    repository (DESIGN.md, "Environment"): when, and only when, the package asks
    for a file of that name that does not exist, serve an empty table."""
    real = importlib.resources.read_text

    def read_text(package, resource, *args, **kwargs):
        try:
            return real(package, resource, *args, **kwargs)
        except FileNotFoundError:
            if str(resource).endswith("spawner_names.json"):
                return "{}"
            raise

    importlib.resources.read_text = read_text


def load(mon, *names):
    """import package modules; failing to import is a failure of the package"""
    install_once()
    mods = []
    for name in names:
        full = PKG + ("." + name if name else "")
        with mon.sut(f"import {full} (NPP_USE_NUMBA={os.environ.get('NPP_USE_NUMBA')})"):
            mods.append(importlib.import_module(full))
    root = sys.modules[PKG]
    where = os.path.realpath(root.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        from .mon import HarnessError
        raise HarnessError(f"package imported from {where}, not from {REPO}")
    return mods if len(mods) > 1 else mods[0]


_done = False


def install_once():
    global _done
    if not _done:
        install_resource_stub()
        _done = True


def use_numba():
    return sys.modules[PKG + ".options"].USE_NUMBA
