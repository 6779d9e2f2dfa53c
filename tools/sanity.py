"""setup: check that the pieces the checks need are importable (nothing is built or written)"""
import os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, here)
sys.path.append(os.path.join(here, "vendor"))
import hypothesis, numpy, scipy, pyscf  # noqa
print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__, "pyscf", pyscf.__version__)
