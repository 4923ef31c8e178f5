"""python run.py Cxx  -- run one property check."""
import importlib
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    prop = sys.argv[1]
    from symx import load
    load.prepare_env()
    from symx.harness import Run
    name = f"checks.{prop.lower()}"
    mod = importlib.import_module(name)
    r = Run(prop, mod.CASES, module=name, level=getattr(mod, "LEVEL", "other"))
    code = r.main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
