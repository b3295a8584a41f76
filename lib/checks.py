"""Entry point: python3 lib/checks.py PROPERTY TIER"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
REG = {}


def _load():
    import importlib, glob
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "chk_*.py"))):
        m = importlib.import_module(os.path.basename(f)[:-3])
        REG.update(m.CHECKS)


if __name__ == "__main__":
    _load()
    vf.main(REG)
