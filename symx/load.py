"""Loads the real package from /repo's working tree for symbolic execution."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


def prepare_env():
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)


def load(symbolic_constants=True, patch=True):
    """Import every module of the package (fresh), with symbolic c, G, k_e.
    Returns a namespace of the symbolic constants."""
    import importlib
    import pathlib
    from . import funcs as F
    from .quantity import SymQuantity
    prepare_env()
    for n in [n for n in sys.modules if n == "einsteinpy" or n.startswith("einsteinpy.")]:
        del sys.modules[n]
    import warnings
    warnings.simplefilter("ignore")
    ns = {}
    const = importlib.import_module("einsteinpy.constant")
    assert os.path.realpath(const.__file__).startswith(os.path.realpath(REPO) + "/"), const.__file__
    if symbolic_constants:
        for name, sym in (("c", "c"), ("G", "G"), ("coulombs_const", "ke"), ("Cosmo_Const", "Lambda0")):
            real = getattr(const, name)
            v = F.real(sym, positive=True, sample=float(real.value))
            setattr(const, name, SymQuantity(v, real.unit))
            ns[sym] = v
    root = pathlib.Path(REPO) / "src"
    for f in sorted((root / "einsteinpy").rglob("*.py")):
        parts = f.relative_to(root).with_suffix("").parts
        if parts[-1] == "__init__":
            parts = parts[:-1]
        importlib.import_module(".".join(parts))
    if patch:
        from .nproxy import patch_modules
        ns["_undo"] = patch_modules()
    return ns
