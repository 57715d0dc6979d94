#!/opt/venv/bin/python
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
if "--self-test" in sys.argv:
    import symx, z3, numpy
    from symx import core, loader, nd, npshim, shims
    x = z3.Int("x")
    s = z3.Solver()
    s.add(x * x == 49, x > 0)
    assert s.check() == z3.sat and s.model()[x].as_long() == 7
    print("z3", z3.get_version_string(), "numpy", numpy.__version__)
    sys.exit(0)
from symx import runner
sys.exit(runner.main())
