"""Entailment: quick syntactic/linear rules first, z3 (SMT) otherwise."""
import time
from fractions import Fraction
import z3
from terms import *

STATS = {'quick': 0, 'z3': 0, 'z3_time': 0.0, 'z3_unknown': 0, 'poly': 0, 'cache': 0}
TIMEOUT_MS = 4000
BIG = 4000          # terms


class Z3T:
    """translation of terms to z3 (fresh per query so that side conditions are collected)"""

    def __init__(self):
        self.vars = {}
        self.side = []
        self.opaque = False

    def atom(self, i):
        v = self.vars.get(i)
        if v is not None:
            return v
        a = ATOMS[i]
        nm = 'a%d' % i
        if a.kind == 'ite':
            c = self.form(a.args[0])
            x, y = self.poly(a.args[1]), self.poly(a.args[2])
            if a.sort == REAL:
                x, y = toreal(x), toreal(y)
            v = z3.If(c, x, y)
            self.vars[i] = v
            return v
        if a.sort == INT:
            v = z3.Int(nm)
        elif a.sort == BOOL:
            v = z3.Bool(nm)
        else:
            v = z3.Real(nm)
        self.vars[i] = v
        if a.lo is not None:
            self.side.append(v >= num(a.lo))
        if a.hi is not None:
            self.side.append((v < num(a.hi)) if a.meta == 'unit' else (v <= num(a.hi)))
        if a.pos and a.sort != BOOL:
            self.side.append(v > 0)
        if a.kind == 'floor':
            p = toreal(self.poly(a.args[0]))
            self.side.append(z3.And(z3.ToReal(v) <= p, p < z3.ToReal(v) + 1))
        elif a.kind == 'trunc':
            p = toreal(self.poly(a.args[0]))
            self.side.append(z3.Implies(p >= 0, z3.And(z3.ToReal(v) <= p, p < z3.ToReal(v) + 1)))
            self.side.append(z3.Implies(p < 0, z3.And(z3.ToReal(v) >= p, p > z3.ToReal(v) - 1)))
        elif a.kind == 'inv':
            p = toreal(self.poly(a.args[0]))
            self.side.append(v * p == 1 if a.pos else z3.Implies(p != 0, v * p == 1))
        elif a.kind == 'sqrt':
            p = toreal(self.poly(a.args[0]))
            self.side.append(z3.Implies(p >= 0, z3.And(v >= 0, v * v == p)))
        elif a.kind == 'abs':
            p = toreal(self.poly(a.args[0]))
            self.side.append(v == z3.If(p >= 0, p, -p))
        return v

    def inv(self, i):
        k = ('inv', i)
        v = self.vars.get(k)
        if v is None:
            v = z3.Real('ainv%d' % i)
            self.vars[k] = v
            x = toreal(self.atom(i))
            if ATOMS[i].pos:
                self.side.append(v * x == 1)
                self.side.append(v > 0)
            else:
                self.side.append(z3.Implies(x != 0, v * x == 1))
        return v

    def opaque_poly(self, p):
        """a very long polynomial: an unknown of its own (up to sign and constant term)"""
        self.opaque = True
        c = p.t.get((), 0)
        t = {m: x for m, x in p.t.items() if m}
        first = min(t)
        sgn = 1 if t[first] > 0 else -1
        q = Poly(t) if sgn > 0 else -Poly(t)
        k = ('big', q)
        v = self.vars.get(k)
        if v is None:
            v = self.vars[k] = z3.Real('abig%d' % len(self.vars))
        if p.nn:
            self.side.append(sgn * v + num(c) >= 0)
        return sgn * v + num(c)

    def poly(self, p):
        if len(p.t) > BIG:
            return self.opaque_poly(p)
        terms = []
        isint = p.is_int()
        for m, c in p.t.items():
            f = None
            for (i, e) in m:
                if e > 0:
                    v = self.atom(i)
                    if not isint:
                        v = toreal(v)
                else:
                    v = self.inv(i)
                for _ in range(abs(e)):
                    f = v if f is None else f * v
            cn = z3.IntVal(c) if isint else num(c)
            if f is None:
                terms.append(cn)
            elif c == 1:
                terms.append(f)
            else:
                terms.append(cn * f)
        if not terms:
            return z3.IntVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def form(self, f):
        k = f[0]
        if k == 'true':
            return z3.BoolVal(True)
        if k == 'false':
            return z3.BoolVal(False)
        if k == 'and':
            return z3.And([self.form(x) for x in f[1]])
        if k == 'or':
            return z3.Or([self.form(x) for x in f[1]])
        if k == 'b':
            v = self.atom(f[1])
            return v if f[2] else z3.Not(v)
        p = self.poly(f[1])
        if k == 'le':
            return p <= 0
        if k == 'lt':
            return p < 0
        if k == 'eq':
            return p == 0
        return p != 0


def num(c):
    c = Fraction(c)
    return z3.RealVal('%d/%d' % (c.numerator, c.denominator))


def toreal(x):
    return z3.ToReal(x) if z3.is_int(x) else x


_cache = {}
_full = {}
AXIOMS = [lambda i: []]
_axc = {}


def axioms_of(atoms):
    out = []
    for i in atoms:
        r = _axc.get(i)
        if r is None:
            if ATOMS[i].kind in ('idx', 'app'):
                r = [f for f in AXIOMS[0](i) if f != TRUE]
            else:
                r = []
            _axc[i] = r
        out.extend(r)
    return out


def with_axioms(pc, f):
    at = set(f_atoms_deep(f))
    for g in pc:
        at |= f_atoms_deep(g)
    ax = axioms_of(at)
    return tuple(pc) + tuple(x for x in ax if x not in pc) if ax else pc


def reset():
    _cache.clear()


def cone(pc, f):
    """facts of pc transitively sharing atoms with f"""
    at = set(f_atoms_deep(f))
    rest = [(g, f_atoms_deep(g)) for g in pc]
    out = []
    changed = True
    while changed:
        changed = False
        nrest = []
        for g, ga in rest:
            if ga & at:
                at |= ga
                out.append(g)
                changed = True
            else:
                nrest.append((g, ga))
        rest = nrest
    return out


_fad = {}


def f_atoms_deep(f):
    r = _fad.get(f)
    if r is None:
        s = set()
        stack = list(f_atoms(f))
        while stack:
            i = stack.pop()
            if i in s:
                continue
            s.add(i)
            a = ATOMS[i]
            if a.kind in ('floor', 'inv', 'sqrt', 'abs', 'ite', 'trunc'):
                for x in a.args:
                    if isinstance(x, Poly):
                        stack.extend(x.atoms())
                    elif isinstance(x, tuple):
                        stack.extend(f_atoms(x))
        r = frozenset(s)
        _fad[f] = r
    return r


def leq_facts(pc):
    """polys q with q >= 0 from pc conjuncts"""
    out = []
    for f in pc:
        if f[0] == 'le':
            out.append(-f[1])
        elif f[0] == 'lt':
            out.append(-f[1])
        elif f[0] == 'eq':
            out.append(f[1])
            out.append(-f[1])
    return out


def quick_nonneg(g, facts, depth=3):
    """try to show g >= 0 by subtracting known nonneg facts"""
    lo, _ = interval(g)
    if lo is not None and lo >= 0:
        return True
    if depth == 0:
        return False
    # pick a monomial of g with a negative coefficient (other than constant)
    neg = [m for m, c in g.t.items() if c < 0 and m]
    if not neg:
        neg = [m for m, c in g.t.items() if m]
    for m in neg[:3]:
        gc = g.t[m]
        for q in facts:
            qc = q.t.get(m)
            if qc is None or (qc < 0) != (gc < 0):
                continue
            if len(q.t) > 12:
                continue
            k = Fraction(gc) / qc
            if quick_nonneg(g - q.scale(k), facts, depth - 1):
                return True
    return False


# further attempts at an obligation the first attempts left open
RETRY = [{'opts': {'random_seed': 7}, 'timeout': 12000, 'full': False},
         {'opts': {'arith.solver': 2, 'random_seed': 3}, 'timeout': 15000},
         {'opts': {'random_seed': 11}, 'timeout': 30000}]


class Solver:
    def __init__(self):
        self.log = []

    def entails(self, pc, f, quick_only=False):
        """True if pc |= f is proved."""
        if f == TRUE:
            return True
        if f == FALSE and not quick_only:
            return not self.sat(pc, TRUE)
        pcs = pc
        if f in pcs:
            return True
        if f[0] == 'and':
            return all(self.entails(pc, x, quick_only) for x in f[1])
        key = (tuple(pcs), f)
        r = _cache.get(key)
        if r is not None:
            STATS['cache'] += 1
            return r
        if f[0] in ('le', 'lt'):
            facts = leq_facts(list(pcs) + axioms_of(f_atoms_deep(f)))
            g = -f[1]
            if f[0] == 'le' and quick_nonneg(g, facts):
                STATS['quick'] += 1
                _cache[key] = True
                return True
        if f[0] == 'eq':
            if f[1].is_zero():
                return True
        if quick_only:
            return False
        r = self._z3(pcs, f_not(f)) == 'unsat'
        _cache[key] = r
        return r

    def sat(self, pc, f):
        """False only if proved unsat"""
        return self._z3(pc, f, full=True) != 'unsat'

    def _z3(self, pc, f, full=False, timeout=None, want_model=False, prefs=(), opts={}):
        t0 = time.time()
        pc = with_axioms(pc, f)
        facts = list(pc) if full else cone(pc, f)
        key = (frozenset(facts), f)
        if not want_model and key in _full:
            STATS['cache'] += 1
            return _full[key]
        tr = Z3T()
        s = z3.Solver()
        s.set('timeout', timeout or TIMEOUT_MS)
        for k, v in opts.items():
            s.set(k, v)
        for g in facts:
            s.add(tr.form(g))
        s.add(tr.form(f))
        n = 0
        while n < len(tr.side):
            s.add(tr.side[n])
            n += 1
        r = str(s.check())
        rounds = 0
        while r == 'sat' and rounds < 6:
            # congruence of uninterpreted families, added where the model violates it
            rounds += 1
            cs = congruence(s.model(), tr)
            if not cs:
                break
            for c in cs:
                s.add(c)
            while n < len(tr.side):
                s.add(tr.side[n])
                n += 1
            r = str(s.check())
        else:
            if r == 'sat' and congruence(s.model(), tr):
                r = 'unknown'
        STATS['z3'] += 1
        STATS['z3_time'] += time.time() - t0
        if r == 'unknown':
            STATS['z3_unknown'] += 1
        if not want_model:
            _full[key] = r
            return r
        if r == 'sat' and tr.opaque:
            r = 'unknown'     # not a model of the code
        if r != 'sat':
            return r, None
        # prefer small values
        m = s.model()
        for mk in prefs:
            s.push()
            for g in mk(tr):
                s.add(g)
            if str(s.check()) == 'sat':
                m = s.model()
                return 'sat', model_values(m, tr)
            s.pop()
        return 'sat', model_values(m, tr)

    def model(self, pc, f, prefs=()):
        try:
            r = self._z3(pc, f, full=True, timeout=8000, want_model=True, prefs=prefs)
            for alt in RETRY:
                if r[0] != 'unknown':
                    break
                r = self._z3(pc, f, full=alt.get('full', True), timeout=alt['timeout'], want_model=True, prefs=prefs, opts=alt['opts'])
                if r[0] == 'sat' and not alt.get('full', True):
                    r = ('unknown', None)
            return r
        except z3.Z3Exception as e:
            return 'unknown', None


def congruence(m, tr):
    fam = {}
    for i in list(tr.vars):
        if isinstance(i, int) and ATOMS[i].kind == 'app':
            fam.setdefault((ATOMS[i].name, len(ATOMS[i].args)), []).append(i)
    out = []
    for ids in fam.values():
        if len(ids) < 2 or len(ids) > 120:
            continue
        if all(x.is_const() for i in ids for x in ATOMS[i].args):
            continue
        seen = {}
        for i in ids:
            args = [tr.poly(x) for x in ATOMS[i].args]
            k = tuple(str(m.eval(x, model_completion=True)) for x in args)
            v = str(m.eval(tr.vars[i], model_completion=True))
            if k in seen:
                j, av, w = seen[k]
                if v != w:
                    out.append(z3.Implies(z3.And([x == y for x, y in zip(args, av)]), tr.vars[i] == tr.vars[j]))
            else:
                seen[k] = (i, args, v)
    return out


def model_values(m, tr):
    out = {}
    for i, v in tr.vars.items():
        if not isinstance(i, int):
            continue
        x = m.eval(v, model_completion=True)
        try:
            if z3.is_int_value(x):
                out[i] = x.as_long()
            elif z3.is_rational_value(x):
                out[i] = Fraction(x.numerator_as_long(), x.denominator_as_long())
            elif z3.is_algebraic_value(x):
                ap = x.approx(20)
                out[i] = Fraction(ap.numerator_as_long(), ap.denominator_as_long())
            elif z3.is_true(x):
                out[i] = True
            elif z3.is_false(x):
                out[i] = False
        except Exception:
            pass
    return out
