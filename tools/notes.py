# per-check wording of the manifest (read by gen_manifest.py)
_BASE = "symbolic execution of the real Python source (re-read from /repo on every run) over z3: every branch decision and every assertion is a solver query over all values within the bounds; counterexamples are replayed on the real package before they are reported, and so is one witness per path"
_ALL = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C34 C35 C36 C37 C38 C39 C40 C41 C42 C43 C44 C45 C46".split()
TECH.update({p: _BASE for p in _ALL})
_REAL = "; real arithmetic is decided by rewriting to rational functions modulo the defining equations of roots, sines and exponentials, by bounds on the resulting polynomials, and by z3's nonlinear solver for the rest"
for _p in "C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C34 C41 C44".split():
    TECH[_p] = _BASE + _REAL
TECH["C31"] += "; the point the minimiser returns is symbolic (stand-in for scipy.optimize.minimize)"
TECH["C35"] = _BASE + _REAL + "; every variate of the random generator is an unknown of its range"
TECH["C36"] = _BASE + "; the order of a parallel loop's iterations is symbolic, and each iteration's reads and writes are recorded and compared pairwise for conflicts"
TECH["C38"] = _BASE + "; the jets FastJet answers with are symbolic (stand-in for the compiled clustering)"
TECH["C40"] = _BASE + "; what is handed to tabulate is recorded (stand-in for the layout)"
_INT = "Bounded model checking: holds for every value of the symbolic inputs within the sizes of the evidence's bounds. Integers are exact (with numpy's wrap-around at the array's width). Models of numpy, scipy, pandas and mcpid are trusted, and cross-checked by replaying every path's witness on the real libraries."
_FLT = "Bounded model checking: holds for every value of the symbolic inputs within the sizes of the evidence's bounds. Floats are decided as reals with NaN and infinities apart: rounding is outside the claim. Models of numpy, numba and scipy are trusted, and cross-checked by replaying every path's witness on the real libraries. Queries the solver leaves open within the time limit are counted in the evidence (checks_undecided) and not claimed."
NOTE.update({p: _FLT if p in "C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C34 C35 C36 C41 C42 C43 C44".split() else _INT for p in _ALL})
NOTE["C38"] = NOTE["C38"] + " FastJet itself is not encoded: its answers are unknowns constrained by its documented contract."
NOTE["C12"] = NOTE["C12"] + " The PDG table is the installed mcpid data; codes are chosen from a list, not arbitrary."
