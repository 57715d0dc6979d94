"""Rational functions modulo the equations that define roots and unit vectors.

A z3 real term is brought to num/den, both polynomials with rational coefficients over atoms
(uninterpreted constants and other opaque terms), where quotients are expanded, the square of a root
is replaced by its radicand and the square of a sine by one minus that of the cosine. Every rewriting
uses an equation that holds on the path, so two terms with the same normal form are equal there.
"""
from fractions import Fraction
import math
from math import isqrt
import z3

MAX_TERMS = 400
ONE = {(): Fraction(1)}


class TooBig(Exception):
    pass


def clash(r1, b1, r2, b2):
    """can no number x satisfy both x r1 b1 and x r2 b2"""
    if "ne" in (r1, r2):
        return {r1, r2} == {"ne", "eq"} and b1 == b2
    los = [(b, r == "gt") for r, b in ((r1, b1), (r2, b2)) if r in ("gt", "ge", "eq")]
    his = [(b, r == "lt") for r, b in ((r1, b1), (r2, b2)) if r in ("lt", "le", "eq")]
    return any(lo > hi or (lo == hi and (s or t)) for lo, s in los for hi, t in his)


class Ring:
    def __init__(self):
        self.ids = {}        # z3 id -> atom number
        self.atoms = []      # z3 terms
        self.square = {}     # atom -> polynomial its square equals
        self.quot = {}       # atom -> (num, den) rational function it equals
        self.memo = {}
        self.keep = []
        self.nonneg = set()  # atoms known not to be negative
        self.facts, self.n_facts, self.largest = {}, 0, {}
        self.flip = {}       # for unit pairs: the atom kept -> the atom eliminated

    # ------------------------------------------------ atoms
    def atom(self, t):
        i = self.ids.get(t.get_id())
        if i is None:
            i = len(self.atoms)
            self.ids[t.get_id()] = i
            self.atoms.append(t)
        return i

    def define_root(self, s, x):
        """s*s == x, s >= 0"""
        r = self.of(x)
        if r is None:
            return
        n, d = r
        i = self.atom(s)
        self.nonneg.add(i)
        try:
            if d == ONE:
                self.square[i] = n
        except TooBig:
            pass

    def sign(self, t):
        """1 where t >= 0 and -1 where t <= 0 is plain from its normal form, else 0"""
        r = self.of(t)
        if r is None:
            return 0
        out = 1
        for p in r:
            seen = set()
            for m, c in p.items():
                if any(e % 2 and i not in self.nonneg for i, e in m):
                    return 0
                seen.add(c > 0)
            if len(seen) > 1:
                return 0
            if seen == {False}:
                out = -out
        return out

    def define_unit(self, c, s):
        if z3.is_const(c) and z3.is_const(s) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED and s.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            i, j = self.atom(c), self.atom(s)
            if j not in self.square and i not in self.square:
                self.square[j] = {(): Fraction(1), ((i, 2),): Fraction(-1)}
                self.flip[i] = j

    def define_quotient(self, q, x, y):
        a, b = self.of(x), self.of(y)
        if a is None or b is None:
            return
        try:
            self.quot[self.atom(q)] = self.rnorm(self.mul(a[0], b[1]), self.mul(a[1], b[0]))
        except TooBig:
            pass

    # ------------------------------------------------ polynomials
    @staticmethod
    def add(p, q, k=1):
        out = dict(p)
        for m, c in q.items():
            v = out.get(m, 0) + k * c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
        if len(out) > MAX_TERMS:
            raise TooBig()
        return out

    @staticmethod
    def mono(a, b):
        d = dict(a)
        for i, e in b:
            d[i] = d.get(i, 0) + e
        return tuple(sorted(d.items()))

    def raw_mul(self, p, q):
        if len(p) * len(q) > 20000:
            raise TooBig()
        out = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = self.mono(m1, m2)
                v = out.get(m, 0) + c1 * c2
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
        if len(out) > MAX_TERMS:
            raise TooBig()
        return out

    def reduce(self, p):
        for _ in range(200):
            hit = None
            for m in p:
                for i, e in m:
                    if e >= 2 and i in self.square and (hit is None or i > hit):
                        hit = i
            if hit is None:
                return p
            rest, sub = {}, {}
            for m, c in p.items():
                e = dict(m).get(hit, 0)
                if e >= 2:
                    m2 = tuple((i, x) for i, x in m if i != hit)
                    if e % 2:
                        m2 = self.mono(m2, ((hit, 1),))
                    sub.setdefault(e // 2, {})[m2] = c
                else:
                    rest[m] = c
            for k, part in sub.items():
                f = ONE
                for _k in range(k):
                    f = self.raw_mul(f, self.square[hit])
                rest = self.add(rest, self.raw_mul(part, f))
            p = rest
        raise TooBig()

    def mul(self, p, q):
        return self.reduce(self.raw_mul(p, q))

    # ------------------------------------------------ terms
    def of(self, t):
        """(num, den) of a z3 term, None if it is too large"""
        try:
            return self._of(t)
        except (TooBig, RecursionError):
            return None

    def _of(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is not None:
            return r
        r = self.compute(t)
        if len(r[0]) > MAX_TERMS or len(r[1]) > MAX_TERMS:
            raise TooBig()
        self.memo[k] = r
        self.keep.append(t)
        return r

    def compute(self, t):
        if z3.is_rational_value(t):
            v = t.as_fraction()
            v = Fraction(v.numerator, v.denominator)
            return ({(): v} if v else {}), ONE
        if z3.is_app(t):
            kd = t.decl().kind()
            ch = t.children()
            if kd == z3.Z3_OP_ADD:
                n, d = self._of(ch[0])
                for c in ch[1:]:
                    n2, d2 = self._of(c)
                    n, d = self.radd(n, d, n2, d2)
                return n, d
            if kd == z3.Z3_OP_SUB:
                n, d = self._of(ch[0])
                for c in ch[1:]:
                    n2, d2 = self._of(c)
                    n, d = self.radd(n, d, n2, d2, -1)
                return n, d
            if kd == z3.Z3_OP_UMINUS:
                n, d = self._of(ch[0])
                return {m: -c for m, c in n.items()}, d
            if kd == z3.Z3_OP_MUL:
                n, d = self._of(ch[0])
                for c in ch[1:]:
                    n2, d2 = self._of(c)
                    n, d = self.rnorm(self.mul(n, n2), self.mul(d, d2))
                return n, d
            if kd == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
                e = ch[1].as_fraction()
                if e.denominator == 1 and 0 <= e <= 8:
                    n, d = ONE, ONE
                    a, b = self._of(ch[0])
                    for _ in range(int(e)):
                        n, d = self.mul(n, a), self.mul(d, b)
                    return self.rnorm(n, d)
            if kd == z3.Z3_OP_DIV and z3.is_rational_value(ch[1]):
                n, d = self._of(ch[0])
                v = ch[1].as_fraction()
                if v != 0:
                    f = Fraction(v.denominator, v.numerator)
                    return {m: c * f for m, c in n.items()}, d
            if kd == z3.Z3_OP_UNINTERPRETED and not ch:
                i = self.ids.get(t.get_id())
                if i is not None and i in self.quot:
                    return self.quot[i]
            if kd == z3.Z3_OP_ITE and t.get_id() not in self.ids:
                # a magnitude or a signed term: its square is that of either branch
                a, b = self._of(ch[1]), self._of(ch[2])
                if a[1] == ONE and b[1] == ONE and not self.add(a[0], b[0]):
                    q = self.mul(a[0], a[0])
                    self.square[self.atom(t)] = q
        return {((self.atom(t), 1),): Fraction(1)}, ONE

    def radd(self, n, d, n2, d2, k=1):
        if d == d2:
            return self.rnorm(self.add(n, n2, k), d)
        return self.rnorm(self.add(self.mul(n, d2), self.mul(n2, d), k), self.mul(d, d2))

    def rnorm(self, n, d):
        """cancel what is common (monomials always, polynomials where cheap)"""
        if not n:
            return {}, ONE
        if len(d) == 1:
            (m, c), = d.items()
            if c != 1:
                n = {k: v / c for k, v in n.items()}
                d = {m: Fraction(1)}
            if m:
                g = dict(m)
                for k in n:
                    e = dict(k)
                    for i in list(g):
                        x = min(g[i], e.get(i, 0))
                        if x:
                            g[i] = x
                        else:
                            del g[i]
                    if not g:
                        break
                if g:
                    def cut(k):
                        e = dict(k)
                        for i, x in g.items():
                            e[i] -= x
                            if not e[i]:
                                del e[i]
                        return tuple(sorted(e.items()))
                    n = {cut(k): v for k, v in n.items()}
                    d = {cut(k): v for k, v in d.items()}
            # roots in the denominator: multiply out
            for i, x in list(dict(next(iter(d))).items()):
                if i in self.square and x % 2 and len(self.square[i]) == 1:
                    s = {((i, 1),): Fraction(1)}
                    return self.rnorm(self.mul(n, s), self.mul(d, s))
            return n, d
        if n == d:
            return ONE, ONE
        return self.cancel(n, d)

    def cancel(self, n, d):
        R, conv, back = self.sym(n, d)
        a, b = conv(n), conv(d)
        if len(a) * len(b) > 3000:
            return n, d
        a, b = a.cancel(b)
        n, d = back(a), back(b)
        k = d[max(d)]
        if k != 1:
            n, d = {m: c / k for m, c in n.items()}, {m: c / k for m, c in d.items()}
        return self.reduce(n), self.reduce(d)

    def sym(self, *ps):
        from sympy.polys.rings import ring
        from sympy import QQ
        used = sorted({i for p in ps for m in p for i, _ in m})
        R = ring(["v%d" % i for i in used] or ["v"], QQ)[0]
        pos = {i: k for k, i in enumerate(used)}
        width = max(1, len(used))

        def conv(p):
            d = {}
            for m, c in p.items():
                v = [0] * width
                for i, e in m:
                    v[pos[i]] = e
                d[tuple(v)] = QQ(c.numerator, c.denominator)
            return R.from_dict(d)

        def back(p):
            out = {}
            for v, c in p.terms():
                out[tuple((used[k], e) for k, e in enumerate(v) if e)] = Fraction(int(c.numerator), int(c.denominator))
            return out
        return R, conv, back

    def conditional(self, r):
        """an atom of r that is a conditional term, or None"""
        for p in r:
            for m in p:
                for i, _ in m:
                    if self.atoms[i].decl().kind() == z3.Z3_OP_ITE:
                        return i
        return None

    def substitute(self, r, i, by):
        """r with atom i replaced by the normal form by"""
        out = []
        for p in r:
            n, d = {}, ONE
            for m, c in p.items():
                e = dict(m).get(i, 0)
                a, b = {tuple((j, x) for j, x in m if j != i): c}, ONE
                for _ in range(e):
                    a, b = self.mul(a, by[0]), self.mul(b, by[1])
                n, d = self.radd(n, d, a, b)
            out.append((n, d))
        (n1, d1), (n2, d2) = out
        return self.rnorm(self.mul(n1, d2), self.mul(d1, n2))

    # ------------------------------------------------ bounds
    # facts: {polynomial scaled to leading coefficient 1, without its constant: [(relation, number)]}
    def learn(self, e, pos=True, depth=0):
        """take a literal of the path as a bound"""
        kd = e.decl().kind() if z3.is_app(e) else None
        if kd == z3.Z3_OP_NOT:
            return self.learn(e.arg(0), not pos, depth)
        if (kd == z3.Z3_OP_AND and pos) or (kd == z3.Z3_OP_OR and not pos):
            for c in e.children() if depth < 3 else ():
                self.learn(c, pos, depth + 1)
            return
        try:
            r = self.relation(e, pos)
            if r is None or r[0][1] != ONE:
                return
            k, rel, b = self.scaled(r[0][0], r[1])
            if k:
                self.facts.setdefault(k, []).append((rel, b))
        except (TooBig, RecursionError):
            pass

    def relation(self, e, pos):
        """((num, den), relation): the literal says num/den relation 0"""
        kd = e.decl().kind() if z3.is_app(e) else None
        rel = {z3.Z3_OP_LE: "le", z3.Z3_OP_LT: "lt", z3.Z3_OP_GE: "ge", z3.Z3_OP_GT: "gt", z3.Z3_OP_EQ: "eq", z3.Z3_OP_DISTINCT: "ne"}.get(kd)
        if rel is None or len(e.children()) != 2 or not z3.is_real(e.arg(0)):
            return None
        if not pos:
            rel = {"le": "gt", "lt": "ge", "ge": "lt", "gt": "le", "eq": "ne", "ne": "eq"}[rel]
        (n1, d1), (n2, d2) = self._of(e.arg(0)), self._of(e.arg(1))
        return self.radd(n1, d1, n2, d2, -1), rel

    @staticmethod
    def scaled(p, rel):
        p = dict(p)
        c = p.pop((), Fraction(0))
        if not p:
            return (), rel, -c
        k = p[max(p)]
        if k < 0:
            rel = {"le": "ge", "lt": "gt", "ge": "le", "gt": "lt"}.get(rel, rel)
        return tuple(sorted((m, v / k) for m, v in p.items())), rel, -c / k

    def refuted(self, e, pos=True, depth=0):
        """do the facts rule the literal out"""
        kd = e.decl().kind() if z3.is_app(e) else None
        if kd == z3.Z3_OP_NOT:
            return self.refuted(e.arg(0), not pos, depth)
        if kd in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            if depth > 1 or len(e.children()) > 12:
                return False
            return (any if (kd == z3.Z3_OP_AND) == pos else all)(self.refuted(c, pos, depth + 1) for c in e.children())
        k = ("no", e.get_id(), pos)
        try:
            r = self.memo.get(k)
            if r is None:
                r = self.memo[k] = self.relation(e, pos) or 0
                self.keep.append(e)
            return bool(r) and self.excluded(*r)
        except (TooBig, RecursionError):
            return False

    def excluded(self, r, rel):
        n, d = r
        if d != ONE:
            if rel in ("eq", "ne"):      # the denominator is not zero
                return self.excluded((n, ONE), rel)
            k = self.poly_sign(d)
            if not k:
                return False
            return self.excluded((n, ONE), rel if k > 0 else {"le": "ge", "lt": "gt", "ge": "le", "gt": "lt"}[rel])
        if set(n) <= {()}:
            c = n.get((), 0)
            return not {"le": c <= 0, "lt": c < 0, "ge": c >= 0, "gt": c > 0, "eq": c == 0, "ne": c != 0}[rel]
        if len(n) > 60:
            return False
        k, rel2, b = self.scaled(n, rel)
        if any(clash(rel2, b, r2, b2) for r2, b2 in self.facts.get(k, ())):
            return True
        if rel == "ne":
            return False
        k = self.poly_sign(n)
        return k > 0 and rel in ("lt", "le", "eq") or k < 0 and rel in ("gt", "ge", "eq")

    def poly_sign(self, p):
        """1 or -1 where the polynomial is positive or negative by its terms and the facts, else 0"""
        c = p.get((), 0)
        signs = set()
        nonzero = bool(c)
        if c:
            signs.add(c > 0)
        for m, v in p.items():
            if not m:
                continue
            z = True
            for i, e in m:
                if e % 2 and i not in self.nonneg and not self.positive(i):
                    return 0
                z = z and self.positive(i, True)
            nonzero = nonzero or z
            signs.add(v > 0)
            if len(signs) > 1:
                return 0
        if not nonzero:
            return 0
        return 1 if signs == {True} else -1

    def positive(self, i, nonzero=False):
        """is atom i positive (not zero) by the facts"""
        k = ("pos", i, nonzero, self.n_facts)
        r = self.memo.get(k)
        if r is None:
            self.memo[k] = False
            lo, hi, ne = self.range_of((((i, 1), ), ))
            r = lo is not None and (lo > 0 or lo == 0 and ne)
            if nonzero and not r:
                r = ne or hi is not None and hi < 0
            if not r and (nonzero or i in self.nonneg):
                q = self.square.get(i) or self.largest.get(i)
                if q is not None and len(q) <= 60:
                    r = self.excluded((q, ONE), "eq")
            self.memo[k] = r
        return r

    def range_of(self, mono):
        """(lower bound, upper bound, known not to be zero) of an atom by the facts"""
        lo = hi = None
        ne = False
        for rel, b in self.facts.get(((mono[0], Fraction(1)),), ()):
            if rel in ("ge", "gt", "eq") and (lo is None or b > lo):
                lo = b
            if rel in ("le", "lt", "eq") and (hi is None or b < hi):
                hi = b
            ne = ne or (rel == "ne" and b == 0) or (rel in ("gt",) and b >= 0) or (rel == "lt" and b <= 0) or (rel == "ge" and b > 0) or (rel == "le" and b < 0)
        return lo, hi, ne

    def size(self, i, depth=0):
        """a number not below the magnitude of atom i, or None"""
        lo, hi, _ = self.range_of((((i, 1),),))
        if lo is not None and hi is not None:
            return max(abs(lo), abs(hi))
        if i in self.nonneg and hi is not None:
            return abs(hi)
        if i in self.flip or i in self.flip.values():
            return Fraction(1)
        q = self.square.get(i) or self.largest.get(i)
        if q is not None and depth < 4:
            v = self.poly_size(q, depth + 1)
            return None if v is None else max(v, Fraction(1))
        return None

    def poly_size(self, p, depth=0):
        tot = Fraction(0)
        for m, c in p.items():
            v = abs(c)
            for i, e in m:
                s = self.size(i, depth)
                if s is None:
                    return None
                v *= s ** e
            tot += v
        return tot

    def smallest(self, p):
        """a number not above the magnitude of a one-term polynomial, or None"""
        if len(p) != 1:
            return None
        (m, c), = p.items()
        v = abs(c)
        for i, e in m:
            lo, hi, _ = self.range_of((((i, 1),),))
            if lo is not None and lo > 0:
                v *= lo ** e
                continue
            q = self.square.get(i)
            if q is None:
                return None
            k, rel, b = self.scaled(q, "ge")
            c0 = q[max(x for x in q if x)] if any(x for x in q) else None
            best = None
            for r2, b2 in self.facts.get(k, ()):
                # q = c0 * (k - b)
                if c0 is not None and c0 > 0 and r2 in ("ge", "gt", "eq"):
                    best = max(best or 0, c0 * (b2 - b))
                if c0 is not None and c0 < 0 and r2 in ("le", "lt", "eq"):
                    best = max(best or 0, c0 * (b2 - b))
            if not best or best <= 0:
                return None
            v *= (Fraction(math.isqrt(int(best * 10 ** 12)), 10 ** 6)) ** e
        return v or None

    def negligible(self, t, tol):
        """is |t| below tol for all values within the bounds known"""
        try:
            n, d = self._of(t)
            top = self.poly_size(n)
            if top is None:
                return False
            low = Fraction(1) if d == ONE else self.smallest(d)
            return low is not None and top < Fraction(tol) * low
        except (TooBig, RecursionError):
            return False

    # ------------------------------------------------ results
    def key(self, r):
        return (tuple(sorted(r[0].items())), tuple(sorted(r[1].items())))

    def term(self, p):
        """z3 term of a polynomial"""
        if not p:
            return z3.RealVal(0)
        out = []
        for m, c in sorted(p.items()):
            fs = [] if c == 1 and m else [z3.RealVal(c)]
            for i, e in m:
                fs += [self.atoms[i]] * e
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            out.append(t)
        t = out[0]
        for x in out[1:]:
            t = t + x
        return z3.simplify(t)

    def is_zero(self, t):
        r = self.of(t)
        return r is not None and not r[0]

    def factors(self, p, full=False):
        """(constant, [(polynomial, multiplicity)]) squarefree (or irreducible)"""
        if not p:
            return None
        if len(p) == 1:
            (m, c), = p.items()
            return c, [({((i, 1),): Fraction(1)}, e) for i, e in m]
        if len(p) > 60:
            return None
        R, conv, back = self.sym(p)
        c, fs = conv(p).factor_list() if full else conv(p).sqf_list()
        c = Fraction(int(c.numerator), int(c.denominator))
        out = []
        for f, e in fs:
            g = back(f)
            if len(g) == 1:
                (m, k), = g.items()
                c *= k ** e
                out += [({((i, 1),): Fraction(1)}, x * e) for i, x in m]
            else:
                out.append((g, e))
        return c, out

    def variants(self, p):
        """p, and p with cosines rather than sines eliminated"""
        yield p
        used = {i for m in p for i, e in m if e >= 2}
        fl = [i for i in used if i in self.flip]
        if not fl:
            return
        sq = dict(self.square)
        try:
            for i in fl:
                j = self.flip[i]
                self.square.pop(j, None)
                self.square[i] = {(): Fraction(1), ((j, 2),): Fraction(-1)}
            q = self.reduce(p)
        except TooBig:
            q = None
        finally:
            self.square = sq
        if q is not None and q != p:
            yield q

    def perfect_square(self, p):
        """(rational, [(polynomial, exponent)]) with p == (rational * prod polynomial**exponent)**2, or None"""
        for q in self.variants(p):
            r = self.factors(q)
            if r is None:
                continue
            c, fs = r
            if c <= 0 or any(e % 2 for _, e in fs):
                continue
            a, b = isqrt(c.numerator), isqrt(c.denominator)
            if a * a != c.numerator or b * b != c.denominator:
                continue
            return Fraction(a, b), [(f, e // 2) for f, e in fs]
        return None
