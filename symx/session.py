"""Loads a harness twice: transformed (symbolic) and native (replay)."""
import importlib
import os
import sys

REPO = os.environ.get('XIGT_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def native_setup():
    sys.dont_write_bytecode = True
    for p in (VERIF, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)


def native(name):
    native_setup()
    return importlib.import_module('harness.' + name)


def symbolic(name):
    from .transform import Loader
    from . import stubs
    sys.setrecursionlimit(12000)
    ld = Loader({'xigt': REPO, 'harness': VERIF})
    stubs.install(ld)
    return ld, ld.load('harness.' + name)
