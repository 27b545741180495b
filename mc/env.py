"""Imports the code under test from the working tree of the repository.

The checks never use an installed copy: /repo/src is put first on sys.path and
the origin of the imported package is asserted.  The package's version file is
generated by the build and ignored by git; when it is missing (a bare checkout)
a stand-in is provided, since the library only re-exports the string.
"""
import importlib.util
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")


def load(x64):
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    src = os.path.join(REPO, "src")
    sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    import jax

    jax.config.update("jax_enable_x64", bool(x64))
    if not os.path.exists(os.path.join(src, "astrodynx", "_version.py")):
        m = types.ModuleType("astrodynx._version")
        m.version = m.__version__ = "0.0.0"
        m.version_tuple = m.__version_tuple__ = (0, 0, 0)
        sys.modules["astrodynx._version"] = m
    import astrodynx

    where = os.path.realpath(astrodynx.__file__)
    assert where.startswith(os.path.realpath(src) + os.sep), where
    return astrodynx
