"""Terms of the verifier: exact Laurent polynomials with rational coefficients
over interned atoms (symbols, uninterpreted applications, floor/inv/sqrt/ite),
and quantifier-free formulas over them.  Doubles are treated as reals, machine
integers as mathematical integers (overflow is a separate obligation)."""
from fractions import Fraction

INT, REAL, BOOL = 'int', 'real', 'bool'


class Atom:
    __slots__ = ('id', 'kind', 'name', 'args', 'sort', 'lo', 'hi', 'pos', 'deps', 'meta', 'ites')

    def __repr__(self):
        return atom_str(self)


ATOMS = []
_INTERN = {}


def reset():
    ATOMS.clear()
    _INTERN.clear()


def mk_atom(kind, name, args, sort, lo=None, hi=None, meta=None):
    """args: tuple of Poly / Formula / hashable constants."""
    key = (kind, name, tuple(a.key() if isinstance(a, Poly) else a for a in args))
    a = _INTERN.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(ATOMS)
    a.kind, a.name, a.args, a.sort = kind, name, args, sort
    a.lo, a.hi, a.meta = lo, hi, meta
    a.pos = lo is not None and lo > 0
    d = set()
    ites = kind == 'ite'
    for x in args:
        if isinstance(x, Poly):
            d |= x.deps()
            ites = ites or x.has_ite()
        elif isinstance(x, tuple):
            d |= f_deps(x)
    if kind == 'sym':
        d.add(a.id)
    a.deps = frozenset(d)
    a.ites = ites
    ATOMS.append(a)
    _INTERN[key] = a
    return a


def set_bounds(a, lo=None, hi=None, pos=False):
    if lo is not None and (a.lo is None or lo > a.lo):
        a.lo = lo
    if hi is not None and (a.hi is None or hi < a.hi):
        a.hi = hi
    if pos or (a.lo is not None and a.lo > 0):
        a.pos = True


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ('t', '_k', '_d', '_ite', 'nn')     # nn: known not to be negative (a sum of squares)

    def __init__(self, t):
        self.t = t
        self._k = None
        self._d = None
        self._ite = None
        self.nn = False

    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def deps(self):
        if self._d is None:
            s = set()
            for m in self.t:
                for (i, _) in m:
                    s |= ATOMS[i].deps
            self._d = frozenset(s)
        return self._d

    def has_ite(self):
        if self._ite is None:
            self._ite = any(ATOMS[i].ites for m in self.t for (i, _) in m)
        return self._ite

    def atoms(self):
        s = set()
        for m in self.t:
            for (i, _) in m:
                s.add(i)
        return s

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const(self):
        return self.t.get((), 0)

    def is_zero(self):
        return not self.t

    def is_int(self):
        for m, c in self.t.items():
            if type(c) is not int:
                return False
            for (i, e) in m:
                if e < 0 or ATOMS[i].sort != INT:
                    return False
        return True

    def __repr__(self):
        return poly_str(self)

    def __add__(a, b):
        if len(a.t) < len(b.t):
            a, b = b, a
        if not b.t:
            return a
        r = dict(a.t)
        for m, c in b.t.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = _norm(v)
        p = Poly(r)
        if a.nn and (b.nn or b.is_const() and b.const() >= 0) or b.nn and a.is_const() and a.const() >= 0:
            p.nn = True
        return p

    def __neg__(a):
        return Poly({m: -c for m, c in a.t.items()})

    def __sub__(a, b):
        if not b.t:
            return a
        r = dict(a.t)
        for m, c in b.t.items():
            v = r.get(m)
            if v is None:
                r[m] = -c
            else:
                v = v - c
                if v == 0:
                    del r[m]
                else:
                    r[m] = _norm(v)
        return Poly(r)

    def scale(a, k):
        if k == 0:
            return ZERO
        if k == 1:
            return a
        return Poly({m: _norm(c * k) for m, c in a.t.items()})

    def __mul__(a, b):
        at, bt = a.t, b.t
        if not at or not bt:
            return ZERO
        if len(at) > len(bt):
            at, bt = bt, at
        if len(at) == 1:
            (m1, c1), = at.items()
            if not m1:
                return Poly(bt).scale(c1)
            return Poly({mmul(m1, m): _norm(c * c1) for m, c in bt.items()})
        r = {}
        for m1, c1 in at.items():
            for m2, c2 in bt.items():
                m = mmul(m1, m2)
                v = r.get(m)
                if v is None:
                    r[m] = c1 * c2
                else:
                    r[m] = v + c1 * c2
        p = Poly({m: _norm(c) for m, c in r.items() if c != 0})
        if a.t is b.t or len(a.t) > 50 and a.t == b.t:
            p.nn = True
        return p


_MM = {}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _MM.get(k)
    if r is not None:
        return r
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] < y[0]:
            out.append(x)
            i += 1
        elif x[0] > y[0]:
            out.append(y)
            j += 1
        else:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    r = tuple(out)
    if len(_MM) < 2000000:
        _MM[k] = r
    return r


ZERO = Poly({})


def C(c):
    if c == 0:
        return ZERO
    return Poly({(): _norm(c) if not isinstance(c, float) else _norm(Fraction(c))})


ONE = C(1)


def P(atom, e=1):
    return Poly({((atom.id, e),): 1})


def sym(name, sort, lo=None, hi=None, pos=False):
    a = mk_atom('sym', name, (), sort, lo, hi)
    if pos:
        a.pos = True
    return P(a)


def app(name, args, sort, lo=None, hi=None):
    a = mk_atom('app', name, tuple(args), sort, lo, hi)
    return P(a)


_fresh = [0]


def fresh(prefix, sort, lo=None, hi=None):
    _fresh[0] += 1
    return sym('%s!%d' % (prefix, _fresh[0]), sort, lo, hi)


def ppow(p, n):
    r = ONE
    for _ in range(n):
        r = r * p
    return r


def sign_pos(p):
    """True if syntactically strictly positive."""
    if not p.t:
        return False
    strict = False
    for m, c in p.t.items():
        if c < 0:
            return False
        pos = True
        for (i, e) in m:
            a = ATOMS[i]
            if a.pos:
                continue
            if e > 0 and ((a.lo is not None and a.lo >= 0) or e % 2 == 0):
                pos = False
                continue
            return False
        strict = strict or pos
    return strict


def div(a, b):
    """a / b; b assumed nonzero (recorded as assumption by the caller)."""
    if not a.t:
        return ZERO
    if len(b.t) == 1:
        (m, c), = b.t.items()
        inv = Poly({tuple((i, -e) for (i, e) in m): _norm(Fraction(1) / c)})
        return a * inv
    if a == b:
        return ONE
    # pull out the content of b: common monomial factor and leading coefficient
    common, lead = content(b)
    core = Poly({mmul(m, tuple((i, -e) for (i, e) in common)): _norm(Fraction(c) / lead) for m, c in b.t.items()})
    q = exact_div(a, b)
    if q is not None:
        return q
    at = mk_atom('inv', 'inv', (core,), REAL)
    if sign_pos(core):
        at.pos = True
    inv = Poly({mmul(((at.id, 1),), tuple((i, -e) for (i, e) in common)): _norm(Fraction(1) / lead)})
    return a * inv


def content(b):
    common = None
    for m in b.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {i: min(e, d.get(i, 0)) for i, e in common.items()}
            for i, e in d.items():
                if e < 0 and i not in common:
                    common[i] = e
            common = {i: e for i, e in common.items() if e != 0}
    common = tuple(sorted(common.items()))
    lead = b.t[max(b.t, key=lambda m: (sum(e for _, e in m), m))]
    return common, lead


def exact_div(a, b):
    """polynomial long division when b divides a exactly (small cases only)"""
    if len(a.t) > 400 or len(b.t) > 40 or len(a.t) < len(b.t):
        return None

    def deg(m):
        return (sum(e for _, e in m), m)
    lm = max(b.t, key=deg)
    lc = b.t[lm]
    linv = tuple((i, -e) for (i, e) in lm)
    q = {}
    r = a
    for _ in range(60):
        if not r.t:
            return Poly(q)
        m = max(r.t, key=deg)
        mm = mmul(m, linv)
        if any(e < 0 and all(i != j for j, _ in m) for (i, e) in mm):
            return None
        c = _norm(Fraction(r.t[m]) / lc)
        if mm in q:
            return None
        q[mm] = c
        r = r - b * Poly({mm: c})
    return None


def floor_poly(p):
    """floor(p): returns (integer part poly, remainder poly)"""
    ip, rem = {}, {}
    for m, c in p.t.items():
        if all(e > 0 and ATOMS[i].sort == INT for (i, e) in m):
            f = c.numerator // c.denominator if isinstance(c, Fraction) else c
            if f:
                ip[m] = f
            r = _norm(c - f)
            if r:
                rem[m] = r
        else:
            rem[m] = c
    return Poly(ip), Poly(rem)


# ---------------------------------------------------------------- substitution
class Subst:
    def __init__(self, mp):
        """mp: atom id -> Poly (symbols)"""
        self.mp = mp
        self.dom = frozenset(mp)
        self.am = {}
        self.pw = {}

    def poly(self, p):
        if not (p.deps() & self.dom):
            return p
        out = {}
        for m, c in p.t.items():
            keep = []
            fac = None
            for (i, e) in m:
                r = self.atom(i)
                if r is None:
                    keep.append((i, e))
                else:
                    f = self.power(i, r, e)
                    fac = f if fac is None else fac * f
            if fac is None:
                v = out.get(m)
                out[m] = c if v is None else v + c
            else:
                km = tuple(keep)
                for m2, c2 in fac.t.items():
                    mm = mmul(km, m2)
                    v = out.get(mm)
                    out[mm] = c * c2 if v is None else v + c * c2
        return Poly({m: _norm(c) for m, c in out.items() if c != 0})

    def power(self, i, r, e):
        k = (i, e)
        v = self.pw.get(k)
        if v is None:
            v = ppow(r, e) if e > 0 else ppow(div(ONE, r), -e)
            self.pw[k] = v
        return v

    def atom(self, i):
        """None if unchanged"""
        if i in self.mp:
            return self.mp[i]
        if i in self.am:
            return self.am[i]
        a = ATOMS[i]
        if not (a.deps & self.dom):
            r = None
        else:
            args = tuple(self.poly(x) if isinstance(x, Poly) else (self.form(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x) for x in a.args)
            r = rebuild(a, args)
        self.am[i] = r
        return r

    def form(self, f):
        k = f[0]
        if k in ('le', 'lt', 'eq', 'ne'):
            return f_cmp(k, self.poly(f[1]))
        if k in ('and', 'or'):
            return (f_and if k == 'and' else f_or)([self.form(x) for x in f[1]])
        if k == 'b':
            r = self.atom(f[1])
            if r is None:
                return f
            (m, _), = r.t.items()
            return ('b', m[0][0], f[2])
        return f

    def val(self, v):
        if isinstance(v, Poly):
            return self.poly(v)
        return v


REBUILD = {}   # kind -> constructor that simplifies


def rebuild(a, args):
    if a.kind == 'inv':
        return div(ONE, args[0])
    if a.kind == 'floor':
        ip, rem = floor_poly(args[0])
        return ip + (floor_rem(rem))
    if a.kind == 'ite':
        return mk_ite(*args)
    if a.kind == 'sqrt':
        return mk_sqrt(args[0])
    if a.kind in REBUILD:
        return REBUILD[a.kind](args)
    n = mk_atom(a.kind, a.name, args, a.sort, a.lo, a.hi, a.meta)
    if a.pos:
        n.pos = True
    return P(n)


def floor_rem(rem):
    if rem.is_const():
        c = rem.const()
        return C(c.numerator // c.denominator if isinstance(c, Fraction) else c)
    lo, hi = interval(rem)
    if lo is not None and hi is not None and lo >= 0 and (hi < 1 or (hi == 1 and not reaches_hi(rem))):
        return ZERO
    return P(mk_atom('floor', 'floor', (rem,), INT))


def reaches_hi(rem):
    # rem is a single half-open [0,1) atom?
    if len(rem.t) == 1:
        (m, c), = rem.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].meta == 'unit':
            return False
    return True


def mk_sqrt(p):
    if p.is_const():
        c = Fraction(p.const())
        if c >= 0:
            from math import isqrt
            n, d = isqrt(c.numerator), isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return C(Fraction(n, d))
    return P(mk_atom('sqrt', 'sqrt', (p,), REAL, 0))


def mk_ite(f, a, b):
    if f == TRUE:
        return a
    if f == FALSE:
        return b
    if a == b:
        return a
    s = INT if a.is_int() and b.is_int() else REAL
    return P(mk_atom('ite', 'ite', (f, a, b), s))


# ---------------------------------------------------------------- intervals
def interval(p):
    lo = hi = 0
    for m, c in p.t.items():
        l, h = 1, 1
        for (i, e) in m:
            a = ATOMS[i]
            al, ah = a.lo, a.hi
            if e < 0:
                # need positive bounds
                if al is not None and al > 0:
                    nh = Fraction(1) / al
                    nl = Fraction(1) / ah if ah is not None else 0
                    al, ah, e = nl, nh, -e
                elif a.pos:
                    al, ah, e = 0, None, -e
                else:
                    return None, None
            if al is None and a.pos:
                al = 0
            if al is not None and al >= 0:
                pl = al ** e
                ph = ah ** e if ah is not None else None
            elif e == 1:
                pl, ph = al, ah
            elif e % 2 == 0:
                pl = 0
                ph = max(al ** e, ah ** e) if al is not None and ah is not None else None
            else:
                pl, ph = (al ** e if al is not None else None), (ah ** e if ah is not None else None)
            l, h = imul(l, h, pl, ph)
            if l is None and h is None:
                break
        if c < 0:
            l, h = (h * c if h is not None else None), (l * c if l is not None else None)
        else:
            l, h = (l * c if l is not None else None), (h * c if h is not None else None)
        lo = lo + l if lo is not None and l is not None else None
        hi = hi + h if hi is not None and h is not None else None
        if lo is None and hi is None:
            return None, None
    return lo, hi


def imul(l1, h1, l2, h2):
    if None not in (l1, h1, l2, h2):
        v = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
        return min(v), max(v)
    if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
        return l1 * l2, (h1 * h2 if h1 is not None and h2 is not None else None)
    # one side constant
    if l1 is not None and l1 == h1:
        l1, h1, l2, h2 = l2, h2, l1, h1
    if l2 is not None and l2 == h2:
        c = l2
        if c >= 0:
            return (l1 * c if l1 is not None else None), (h1 * c if h1 is not None else None)
        return (h1 * c if h1 is not None else None), (l1 * c if l1 is not None else None)
    return None, None


# ---------------------------------------------------------------- formulas
TRUE = ('true',)
FALSE = ('false',)


def f_cmp(op, p):
    """op: le lt eq ne ; meaning p op 0"""
    if p.is_const():
        c = p.const()
        r = {'le': c <= 0, 'lt': c < 0, 'eq': c == 0, 'ne': c != 0}[op]
        return TRUE if r else FALSE
    # divide out a positive common monomial
    if len(p.t) >= 1:
        common, lead = content(p)
        if op in ('eq', 'ne'):
            d = [(i, e) for (i, e) in common if ATOMS[i].pos]
        else:
            d = [(i, e) for (i, e) in common if ATOMS[i].pos]
        if d:
            dm = tuple((i, -e) for (i, e) in d)
            p = Poly({mmul(m, dm): c for m, c in p.t.items()})
            if p.is_const():
                return f_cmp(op, p)
        # clear denominators / content
        den = 1
        from math import gcd
        for c in p.t.values():
            if isinstance(c, Fraction):
                den = den * c.denominator // gcd(den, c.denominator)
        if den != 1:
            p = p.scale(den)
        # clear negative exponents of positive atoms
        neg = {}
        for m in p.t:
            for (i, e) in m:
                if e < 0 and ATOMS[i].pos:
                    neg[i] = min(neg.get(i, 0), e)
        if neg:
            mm = tuple(sorted((i, -e) for i, e in neg.items()))
            p = Poly({mmul(m, mm): c for m, c in p.t.items()})
    if op == 'lt' and p.is_int():
        op, p = 'le', p + ONE
    if op in ('eq', 'ne'):
        # canonical sign
        m = max(p.t)
        if p.t[m] < 0:
            p = -p
    lo, hi = interval(p)
    if op == 'le':
        if hi is not None and hi <= 0:
            return TRUE
        if lo is not None and lo > 0:
            return FALSE
    elif op == 'lt':
        if hi is not None and hi < 0:
            return TRUE
        if lo is not None and lo >= 0:
            return FALSE
    elif op == 'eq':
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return FALSE
    elif op == 'ne':
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return TRUE
    return (op, p)


def f_le(a, b):
    return f_cmp('le', a - b)


def f_lt(a, b):
    return f_cmp('lt', a - b)


def f_eq(a, b):
    return f_cmp('eq', a - b)


def f_ne(a, b):
    return f_cmp('ne', a - b)


def f_not(f):
    k = f[0]
    if k == 'true':
        return FALSE
    if k == 'false':
        return TRUE
    if k == 'le':
        return f_cmp('lt', -f[1])
    if k == 'lt':
        return f_cmp('le', -f[1])
    if k == 'eq':
        return f_cmp('ne', f[1])
    if k == 'ne':
        return f_cmp('eq', f[1])
    if k == 'and':
        return f_or([f_not(x) for x in f[1]])
    if k == 'or':
        return f_and([f_not(x) for x in f[1]])
    if k == 'b':
        return ('b', f[1], not f[2])
    raise ValueError(f)


def f_and(fs):
    out = []
    for f in fs:
        if f == FALSE:
            return FALSE
        if f == TRUE:
            continue
        if f[0] == 'and':
            for x in f[1]:
                if x not in out:
                    out.append(x)
        elif f not in out:
            out.append(f)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def f_or(fs):
    out = []
    for f in fs:
        if f == TRUE:
            return TRUE
        if f == FALSE:
            continue
        if f[0] == 'or':
            for x in f[1]:
                if x not in out:
                    out.append(x)
        elif f not in out:
            out.append(f)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return ('or', tuple(out))


def f_deps(f):
    k = f[0]
    if k in ('le', 'lt', 'eq', 'ne'):
        return f[1].deps()
    if k in ('and', 'or'):
        s = frozenset()
        for x in f[1]:
            s = s | f_deps(x)
        return s
    if k == 'b':
        return ATOMS[f[1]].deps
    return frozenset()


def f_atoms(f, out=None):
    if out is None:
        out = set()
    k = f[0]
    if k in ('le', 'lt', 'eq', 'ne'):
        out |= f[1].atoms()
    elif k in ('and', 'or'):
        for x in f[1]:
            f_atoms(x, out)
    elif k == 'b':
        out.add(f[1])
    return out


def f_polys(f):
    k = f[0]
    if k in ('le', 'lt', 'eq', 'ne'):
        yield f[1]
    elif k in ('and', 'or'):
        for x in f[1]:
            yield from f_polys(x)


def bsym(name):
    return ('b', mk_atom('sym', name, (), BOOL).id, True)


# ---------------------------------------------------------------- printing
def atom_str(a, d=0):
    if a.kind == 'sym':
        return str(a.name)
    if d > 3:
        return '%s(..)' % a.name
    return '%s(%s)' % (a.name, ','.join(poly_str(x, d + 1) if isinstance(x, Poly) else (f_str(x, d + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x)) for x in a.args))


def poly_str(p, d=0, maxt=12):
    if not p.t:
        return '0'
    out = []
    for n, (m, c) in enumerate(sorted(p.t.items(), key=lambda x: x[0])):
        if n >= maxt:
            out.append('... (%d terms)' % len(p.t))
            break
        s = '*'.join(atom_str(ATOMS[i], d) + ('' if e == 1 else '^%d' % e) for (i, e) in m)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append('-' + s)
        else:
            out.append('%s*%s' % (c, s))
    return ' + '.join(out).replace('+ -', '- ')


def f_str(f, d=0):
    k = f[0]
    if k in ('le', 'lt', 'eq', 'ne'):
        return '%s %s 0' % (poly_str(f[1], d), {'le': '<=', 'lt': '<', 'eq': '==', 'ne': '!='}[k])
    if k in ('and', 'or'):
        return '(' + (' && ' if k == 'and' else ' || ').join(f_str(x, d) for x in f[1]) + ')'
    if k == 'b':
        return ('' if f[2] else '!') + atom_str(ATOMS[f[1]], d)
    return k
