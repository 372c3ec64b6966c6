"""Symbolic executor over LLVM IR with automatically inferred and checked loop
summaries.  Every function it enters is the compiled code of /repo's current
working tree; what it does not enter is listed in models.py (trusted models) or
replaced by a contract that another property proves (Grid index)."""
import re
import struct
import time
from fractions import Fraction
from terms import *
import solver as S
from solver import Solver, quick_nonneg, leq_facts

import os
DEBUG = os.environ.get('VP_DEBUG')
INT_MAX = 2 ** 31 - 1
INT_MIN = -2 ** 31


class Unsupported(Exception):
    """outside the verifier's reach (not a violation)"""


class Split(Exception):
    def __init__(self, f):
        self.f = f


class Ptr:
    __slots__ = ('obj', 'idx', 'off')

    def __init__(self, obj, idx, off):
        self.obj, self.idx, self.off = obj, idx, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.idx == o.idx and self.off == o.off

    def __hash__(self):
        return hash((self.obj, self.idx, self.off))

    def __repr__(self):
        return 'Ptr(%s,%s,%s)' % (self.obj, self.idx, self.off)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, n):
        self.name = n


class AbsV:
    """|v|, on its way to the comparison that follows"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class BoolV:
    """integer value of a symbolic truth value"""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        return isinstance(o, BoolV) and o.f == self.f

    def __hash__(self):
        return hash(self.f)


class VecRef:
    __slots__ = ('arr',)

    def __init__(self, arr):
        self.arr = arr


class StrV:
    """std::string content: constant text, or a symbolic name"""
    __slots__ = ('text', 'symname')

    def __init__(self, text=None, symname=None):
        self.text, self.symname = text, symname

    def __eq__(self, o):
        return isinstance(o, StrV) and (o.text, o.symname) == (self.text, self.symname)

    def __hash__(self):
        return hash((self.text, self.symname))

    def __repr__(self):
        return 'StrV(%r,%r)' % (self.text, self.symname)


class Opaque:
    """an opaque library value (map, node, ...)"""
    __slots__ = ('kind', 'data')

    def __init__(self, kind, data=None):
        self.kind, self.data = kind, data

    def __eq__(self, o):
        return isinstance(o, Opaque) and (o.kind, o.data) == (self.kind, self.data)

    def __hash__(self):
        return hash((self.kind, self.data))


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = list(v)


class Packed:
    """a 64-bit register holding two 32-bit fields"""
    __slots__ = ('lo', 'hi')

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class Undef:
    pass


UNDEF = Undef()
NULL = Ptr(0, None, 0)


class Flat:
    __slots__ = ('cells', 'size', 'ver', 'name', 'writable', 'default')
    kind = 'flat'

    def __init__(self, size, name=''):
        self.cells = {}
        self.size = size
        self.name = name
        self.ver = 0
        self.writable = True
        self.default = None

    def copy(self):
        o = Flat(self.size, self.name)
        o.cells = dict(self.cells)
        o.ver = self.ver
        o.writable = self.writable
        o.default = self.default
        return o


class Node:
    __slots__ = ('kind', 'data', 'parent', 'depth')

    def __init__(self, kind, data, parent):
        self.kind, self.data, self.parent = kind, data, parent


class Arr:
    """heap storage of a std::vector: symbolic length, chain of write layers"""
    __slots__ = ('chain', 'length', 'esize', 'ety', 'cells', 'name')
    kind = 'arr'

    def copy(self):
        o = Arr()
        o.chain, o.length, o.esize, o.ety, o.cells, o.name = self.chain, self.length, self.esize, self.ety, self.cells, self.name
        return o


class Item:
    __slots__ = ('vars', 'guard', 'idx', 'off', 'val', 'ord')

    def __init__(self, vars, guard, idx, off, val, ord_):
        self.vars, self.guard, self.idx, self.off, self.val, self.ord = vars, guard, idx, off, val, ord_


class Frame:
    __slots__ = ('fn', 'block', 'i', 'regs', 'prev', 'allocas', 'dst', 'unroll', 'skip', 'cont')

    def __init__(self, fn):
        self.fn = fn
        self.block = fn.entry
        self.i = 0
        self.regs = {}
        self.prev = None
        self.allocas = []
        self.dst = None
        self.unroll = {}
        self.skip = None
        self.cont = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.i, f.prev, f.dst, f.skip, f.cont = self.fn, self.block, self.i, self.prev, self.dst, self.skip, self.cont
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.unroll = dict(self.unroll)
        return f


class Track:
    """what one symbolic loop iteration reads and writes"""
    __slots__ = ('depth', 'header', 'body', 'written', 'rbw', 'reads', 'entry', 'tests', 'nextobj', 'pclen', 'arrw_before_test', 'seen')

    def copy(self):
        t = Track()
        t.depth, t.header, t.body = self.depth, self.header, self.body
        t.written = set(self.written)
        t.rbw = set(self.rbw)
        t.reads = list(self.reads)
        t.entry = self.entry
        t.tests = list(self.tests)
        t.nextobj = self.nextobj
        t.pclen = self.pclen
        t.arrw_before_test = self.arrw_before_test
        t.seen = self.seen
        return t


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = ()
        self.pck = ()  # 'b' branch / 'f' fact, parallel to pc
        self.tracks = []
        self.ghost = {}
        self.merge = False
        self.trace = ()

    def clone(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = {k: o.copy() for k, o in self.mem.items()}
        s.pc, s.pck = self.pc, self.pck
        s.tracks = [t.copy() for t in self.tracks]
        s.ghost = dict(self.ghost)
        s.merge = self.merge
        s.trace = self.trace
        return s

    def assume(self, f, kind='b'):
        if f == TRUE or f in self.pc:
            return
        if f[0] == 'and':
            for x in f[1]:
                self.assume(x, kind)
            return
        self.pc = self.pc + (f,)
        self.pck = self.pck + (kind,)


class Failure:
    def __init__(self, name, kind, text, pc, goal, model, status, where):
        self.name, self.kind, self.text, self.pc, self.goal, self.model, self.status, self.where = name, kind, text, pc, goal, model, status, where


def fp_const(s):
    if s.startswith('0x'):
        v = struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
    else:
        v = float(s)
    return v


PI_F = 3.141592653589793


def real_of_float(v):
    if v != v or v in (float('inf'), float('-inf')):
        raise Unsupported('non-finite constant')
    if v == int(v) and abs(v) < 1e18:
        return C(int(v))
    fr = Fraction(repr(v))
    if fr.denominator <= 10 ** 12 and len(repr(v)) <= 14:
        return C(fr)
    q = Fraction(v).limit_denominator(100000)
    if float(q) == v:
        return C(q)
    return C(Fraction(v))


def pi_atom():
    return C(Fraction(PI_F))


def isbit(v):
    return isinstance(v, BoolV) or isinstance(v, Poly) and v.is_const() and v.const() in (0, 1)


def partition(cells):
    g = {}
    for c, (bit, how) in cells.items():
        g.setdefault((bit, how), set()).add(c)
    return {(k[0], frozenset(v)) for k, v in g.items()}


class Machine:
    MAXSTEPS = 3000000
    MAXPATHS = 400

    def __init__(self, mod, dem, deadline=None):
        self.mod = mod
        self.dem = dem
        self.solver = Solver()
        self.nobj = 1
        self.steps = 0
        self.paths = 0
        self.deadline = deadline
        self.obl = [[]]        # stack of obligation buffers: (name, kind, status, backend)
        self.fail = [[]]
        self.reach = {}
        self.entered = {}
        self.modelled = {}
        self.assumptions = set()
        self.globobj = {}
        self.stubs = {}
        self.shape_cache = {}
        self.hot_globals = set()
        self.contracts_used = {}
        self.stats = {'loops': 0, 'attempts': 0}
        self.def_cells = {}
        self.strlen = set()   # texts whose length the code looks at
        self.logtext = {}
        self.first_fail_stop = False
        self.any_iteration = False   # loops that do not count: judged by one arbitrary iteration
        import models
        self.models = models
        self.keys = {}
        self._mcache = {}

    # ------------------------------------------------------------ memory
    def new_flat(self, st, size, name=''):
        i = self.nobj
        self.nobj += 1
        o = Flat(size, name)
        st.mem[i] = o
        return i

    def new_arr(self, st, length, esize, ety, chain, cells, name=''):
        i = self.nobj
        self.nobj += 1
        o = Arr()
        o.chain, o.length, o.esize, o.ety, o.cells, o.name = chain, length, esize, ety, cells, name
        st.mem[i] = o
        return i

    def note_write(self, st, obj, key):
        for t in st.tracks:
            if obj < t.nextobj:
                t.written.add((obj, key))

    def note_read(self, st, obj, key):
        for t in st.tracks:
            if obj < t.nextobj and (obj, key) not in t.written:
                t.rbw.add((obj, key))

    def get_obj(self, st, p, what):
        if not isinstance(p, Ptr):
            raise Unsupported('%s through non-pointer %r' % (what, p))
        o = st.mem.get(p.obj)
        if o is None:
            if p.obj == 0:
                self.fail_now(st, 'null-deref', 'memory', '%s through a null pointer' % what)
            else:
                self.fail_now(st, 'dangling', 'memory', '%s through a dangling pointer' % what)
            raise Unsupported('bad pointer')
        return o

    def conc_off(self, st, p, o):
        off = p.off
        if isinstance(off, Poly):
            if off.is_const():
                return int(off.const())
            # enumerate candidate cells
            if o.kind == 'flat':
                cands = sorted(k for k in o.cells if isinstance(k, int))
                for k in cands:
                    if self.decide(st, f_eq(off, C(k))):
                        return k
                self.fail_now(st, 'bounds', 'memory', 'symbolic offset outside the object: %r' % off)
                raise Unsupported('symbolic offset')
            raise Unsupported('symbolic element offset')
        return off

    def load_cell(self, st, p, size=None):
        o = self.get_obj(st, p, 'load')
        if o.kind == 'flat':
            off = self.conc_off(st, p, o)
            if isinstance(off, int) and size is not None and (off < 0 or off + size > o.size):
                self.fail_now(st, 'bounds', 'memory', 'load at offset %d of an object of %d bytes (%s)' % (off, o.size, o.name))
                raise Unsupported('out of bounds')
            self.note_read(st, p.obj, off)
            v = o.cells.get(off)
            if v is None:
                if o.default is not None:
                    v = o.default(off, size)
                    o.cells[off] = v
                    return v
                return UNDEF
            return v
        off = self.conc_off(st, p, o)
        self.arr_bounds(st, o, p.idx, 'load')
        return self.arr_read(st, p.obj, o, p.idx, off)

    def store_cell(self, st, p, v, size=None):
        o = self.get_obj(st, p, 'store')
        off = self.conc_off(st, p, o)
        if o.kind == 'flat':
            if isinstance(off, int) and size is not None and (off < 0 or off + size > o.size):
                self.fail_now(st, 'bounds', 'memory', 'store at offset %d of an object of %d bytes (%s)' % (off, o.size, o.name))
                raise Unsupported('out of bounds')
            self.note_write(st, p.obj, off)
            o.cells[off] = v
            o.ver = self.tick()
            return
        self.arr_bounds(st, o, p.idx, 'store')
        self.arr_write(st, p.obj, o, p.idx, off, v)

    _ver = 0

    def tick(self):
        self._ver += 1
        return self._ver

    # ------------------------------------------------------------ arrays
    def arr_bounds(self, st, o, idx, what):
        ia = idx_atom(idx)
        if ia is not None:
            # Grid-index contract: the coordinates were shown in range at the call
            tot = idx_total(ia)
            if tot == o.length:
                return
        self.prove(st, f_and([f_le(ZERO, idx), f_lt(idx, o.length)]), 'in-bounds %s of stored array' % what, 'memory')

    def arr_write(self, st, oid, o, idx, off, v):
        for t in st.tracks:
            if oid < t.nextobj and not t.tests:
                t.arrw_before_test = True
        o.chain = Node('w', (idx, off, v), o.chain)

    def idx_eq(self, a, b, st=None):
        ia, ib = idx_atom(a), idx_atom(b)
        if ia is not None and ib is None and st is not None and a != b:
            return f_and([f_eq(x, y) for x, y in zip(idx_coords(ia), self.digits(self.facts(st), idx_shape(ia), b))])
        if ia is not None and ib is not None and idx_shape(ia) == idx_shape(ib):
            return f_and([f_eq(x, y) for x, y in zip(idx_coords(ia), idx_coords(ib))])
        if a == b:
            return TRUE
        if (ia is None) != (ib is None):
            f = f_eq(a, b)
            if f in (TRUE, FALSE):
                return f
            return f
        if ia is not None and ib is not None:
            raise Unsupported('indices of differently shaped grids compared')
        return f_eq(a, b)

    def arr_read(self, st, oid, o, idx, off):
        node = o.chain
        passed = []
        while node is not None:
            for t in st.tracks:
                if t.entry.get(oid) is node:
                    t.reads.append((oid, idx, off, st.pc))
            k = node.kind
            if k == 'w':
                widx, woff, v = node.data
                if woff == off:
                    f = self.idx_eq(widx, idx, st)
                    if self.decide(st, f):
                        return v
            elif k == 'g':
                r = self.group_read(st, node.data, idx, off)
                if r is not None:
                    return r[0]
            elif k == 'default':
                v = node.data.get(off)
                if v is None:
                    return UNDEF
                return v
            elif k == 'fam':
                # unconstrained contents
                return node.data(idx, off)
            elif k == 'undef':
                return UNDEF
            node = node.parent
        return UNDEF

    def digits(self, pc, shape, idx):
        """coordinates of the cell whose slot is idx (every slot belongs to one cell: index contract)"""
        tot = idx_total_of(shape)
        if not self.solver.entails(pc, f_and([f_le(ZERO, idx), f_lt(idx, tot)])):
            raise Unsupported('flat access that may be outside the grid')
        return [mk_digit(shape, d, idx) for d in range(shape[0])]

    def unify(self, pc, item, idx, keep_outer=None):
        """solve item.idx == idx for the bound variables.
        returns (subst dict, condition) or None when no solution."""
        ia, ib = idx_atom(item.idx), idx_atom(idx)
        if ia is not None and ib is not None:
            if idx_shape(ia) != idx_shape(ib):
                raise Unsupported('indices of differently shaped grids compared')
            eqs = [x - y for x, y in zip(idx_coords(ia), idx_coords(ib))]
        elif ia is not None:
            eqs = [x - y for x, y in zip(idx_coords(ia), self.digits(pc, idx_shape(ia), idx))]
        else:
            eqs = [item.idx - idx]
        bound = [v[0] for v in item.vars]
        sol = {}
        conds = []
        pend = list(eqs)
        progress = True
        while pend and progress:
            progress = False
            for e in list(pend):
                e2 = Subst(sol).poly(e) if sol else e
                bs = [b for b in bound if b in e2.deps() and b not in sol]
                if not bs:
                    pend.remove(e)
                    f = f_cmp('eq', e2)
                    if f == FALSE:
                        return None
                    if f != TRUE:
                        conds.append(f)
                    progress = True
                    continue
                for b in bs:
                    m = ((b, 1),)
                    c = e2.t.get(m)
                    if c in (1, -1) and sum(1 for mm in e2.t if any(i == b or b in ATOMS[i].deps for (i, _) in mm)) == 1:
                        rest = e2 - Poly({m: c})
                        s = rest.scale(-1) if c == 1 else rest
                        if not s.is_int():
                            continue
                        # s may mention other bound vars; keep only if no cycle
                        sub = Subst({b: s})
                        sol = {k: sub.poly(v) for k, v in sol.items()}
                        sol[b] = s
                        pend.remove(e)
                        progress = True
                        break
                if progress:
                    break
        if pend:
            raise Unsupported('cannot invert index map %r at %r' % (item.idx, idx))
        # undetermined variables: the last iteration wins
        free = [v for v in item.vars if v[0] not in sol]
        for (b, N) in reversed(free):
            # innermost last value
            used = any(b in sol[k].deps() for k in sol)
            if used:
                raise Unsupported('index map with undetermined iteration')
            for (b2, N2) in item.vars:
                if b2 != b and b in N2.deps():
                    raise Unsupported('index map with undetermined iteration')
            if any(b in f_deps(g) for g in item.guard):
                raise Unsupported('undetermined iteration in guard')
            sol[b] = N - ONE
            sub = Subst({b: sol[b]})
        for _ in range(len(sol)):
            sub = Subst(sol)
            sol = {k: sub.poly(v) for k, v in sol.items()}
            if not any(set(v.deps()) & set(sol) for v in sol.values()):
                break
        sub = Subst(sol)
        for (b, N) in item.vars:
            conds.append(f_le(ZERO, sol[b]))
            conds.append(f_lt(sol[b], sub.poly(N)))
        for g in item.guard:
            conds.append(sub.form(g))
        return sub, sol, f_and(conds)

    def group_read(self, st, items, idx, off):
        """items in program order; last wins.  None if the group does not touch idx"""
        cand = [it for it in items if it.off == off]
        if not cand:
            return None
        for pos in range(len(cand) - 1, -1, -1):
            it = cand[pos]
            u = self.unify(self.facts(st), it, idx)
            if u is None:
                continue
            sub, sol, cond = u
            if self.decide(st, cond):
                # an earlier-listed write in a later iteration would override
                for other in cand[:pos]:
                    if other.idx == it.idx and [v[0] for v in other.vars] == [v[0] for v in it.vars]:
                        continue
                    u2 = self.unify(self.facts(st), other, idx)
                    if u2 is None:
                        continue
                    sub2, sol2, cond2 = u2
                    # common outer variable order
                    a, b = it.vars[0][0], other.vars[0][0]
                    later = f_and([cond2, self.lex_gt(other, sol2, it, sol)])
                    if not self.solver.entails(self.facts(st), f_not(later)):
                        raise Unsupported('overlapping loop writes')
                v = it.val
                return (subst_val(sub, v),)
        return None

    def lex_gt(self, o, so, i, si):
        """iteration of o strictly after iteration of i on the shared loop prefix"""
        alts = []
        eqs = []
        for (vo, vi) in zip(o.vars, i.vars):
            if vo[0] != vi[0]:
                break
            alts.append(f_and(eqs + [f_lt(si[vi[0]], so[vo[0]])]))
            eqs.append(f_eq(si[vi[0]], so[vo[0]]))
        return f_or(alts)

    # ------------------------------------------------------------ logic
    def facts(self, st):
        return st.pc

    def decide(self, st, f):
        if f == TRUE:
            return True
        if f == FALSE:
            return False
        pc = self.facts(st)
        nf = f_not(f)
        if self.solver.entails(pc, f, quick_only=True):
            return True
        if self.solver.entails(pc, nf, quick_only=True):
            return False
        if self.solver.entails(pc, f):
            return True
        if self.solver.entails(pc, nf):
            return False
        raise Split(f)

    def prove(self, st, f, name, kind):
        """an obligation"""
        where = self.where(st)
        if f == TRUE:
            self.obl[-1].append((name, kind, 'discharged', 'arith', where))
            return True
        if self.solver.entails(self.facts(st), f):
            self.obl[-1].append((name, kind, 'discharged', 'smt', where))
            return True
        # refuted or unknown?
        r, model = self.solver.model(self.facts(st), f_not(f), prefs=self.prefs())
        status = 'refuted' if r == 'sat' else ('discharged' if r == 'unsat' else 'undecided')
        self.obl[-1].append((name, kind, status, 'smt', where))
        if status == 'discharged':
            return True
        self.fail[-1].append(Failure(name, kind, f_str(f), st.pc, f, model, status, where))
        st.assume(f, 'f')
        return False

    def prefs(self):
        import z3

        def mk(bound):
            def g(tr):
                out = []
                for i, v in tr.vars.items():
                    if isinstance(i, int) and ATOMS[i].sort == INT and ATOMS[i].kind in ('sym', 'app') and not str(ATOMS[i].name).startswith('n!'):
                        out.append(z3.And(v <= bound, v >= -bound))
                    elif isinstance(i, int) and ATOMS[i].sort == REAL and ATOMS[i].kind in ('sym', 'app'):
                        out.append(z3.And(v <= 64, v >= -64))
                        if ATOMS[i].pos:
                            out.append(v >= z3.Q(1, 64))
                return out
            return g
        return [mk(6), mk(20), mk(300)]

    def prove_eq(self, st, a, b, name, kind='post'):
        where = self.where(st)
        d = a - b
        ok, cex = self.eq_zero(st.pc, d, 0)
        if ok:
            self.obl[-1].append((name, kind, 'discharged', 'poly', where))
            S.STATS['poly'] += 1
            return True
        pc, dd = cex
        if not d.is_int() and dd.t:
            big = max([abs(c) for x in (a, b) for c in x.t.values()] or [0])
            if all(abs(c) * 10 ** 13 <= big for c in dd.t.values()):
                self.assumptions.add('constants that are equal up to rounding (one part in 10^13) are equal')
                self.obl[-1].append((name, kind, 'discharged', 'poly', where))
                return True
        # ask for a model of the path and of the disequality
        r, model = ('big', None) if len(dd.t) >= 60 else self.solver.model(pc, f_cmp('ne', dd), prefs=self.prefs())
        r2 = None
        if r == 'unsat':
            self.obl[-1].append((name, kind, 'discharged', 'smt', where))
            return True
        if r != 'sat':
            r2, model = self.solver.model(pc, TRUE, prefs=self.prefs())
            if r2 == 'unsat':
                self.obl[-1].append((name, kind, 'discharged', 'smt', where))
                return True
        hard = any(ATOMS[i].kind in ('sqrt', 'floor', 'abs', 'trunc', 'opaquefn') for i in dd.atoms())
        if r == 'sat':
            status = 'refuted'
        elif r2 == 'sat' and not hard and not any(f[0] == 'eq' for f in pc):
            status = 'refuted'   # a non-zero polynomial on an open set
        else:
            status = 'undecided'
        self.obl[-1].append((name, kind, status, 'poly', where))
        self.fail[-1].append(Failure(name, kind, 'difference of the two sides: %s' % poly_str(dd), pc, ('eq', dd), model, status, where))
        return False

    def eq_zero(self, pc, d, depth):
        """(True,None) or (False,(pc,residual))"""
        if d.is_zero():
            return True, None
        d = self.reduce(pc, d)
        if d.is_zero():
            return True, None
        # ite split
        if d.has_ite() and depth < 8:
            ita = self.find_ite(d)
            if ita is not None:
                f = ita.args[0]
                for br, g in ((1, f), (2, f_not(f))):
                    if self.solver.entails(pc, f_not(g)):
                        continue
                    pc2 = pc + (g,)
                    d2 = IteSubst(f, br == 1).poly(d)
                    ok, cex = self.eq_zero(pc2, d2, depth + 1)
                    if not ok:
                        return False, cex
                return True, None
        if len(d.t) <= 400 and self.solver.entails(pc, f_cmp('eq', d)):
            return True, None
        return False, (pc, d)

    def find_ite(self, d):
        for m in d.t:
            for (i, _) in m:
                a = ATOMS[i]
                if a.ites:
                    r = find_ite_atom(a)
                    if r is not None:
                        return r
        return None

    def reduce(self, pc, d):
        # inv atoms: multiply out
        for _ in range(6):
            invs = [i for i in d.atoms() if ATOMS[i].kind == 'inv']
            if not invs:
                break
            i = invs[0]
            mx = max((e for m in d.t for (j, e) in m if j == i), default=0)
            if mx <= 0:
                break
            p = ATOMS[i].args[0]
            out = ZERO
            for m, c in d.t.items():
                e = dict(m).get(i, 0)
                rest = tuple(x for x in m if x[0] != i)
                out = out + Poly({rest: c}) * ppow(p, mx - e)
            d = out
        # sqrt^2
        for _ in range(4):
            sq = [i for i in d.atoms() if ATOMS[i].kind == 'sqrt' and any(j == i and e >= 2 for m in d.t for (j, e) in m)]
            if not sq:
                break
            i = sq[0]
            p = ATOMS[i].args[0]
            out = ZERO
            for m, c in d.t.items():
                e = dict(m).get(i, 0)
                rest = tuple(x for x in m if x[0] != i)
                r2 = Poly({rest if e % 2 == 0 else mmul(rest, ((i, 1),)): c})
                out = out + (r2 * ppow(p, e // 2) if e >= 2 else Poly({m: c}))
            d = out
        # equalities of the path
        for f in pc:
            if f[0] == 'eq':
                r = solve_eq(f[1])
                if r is not None and r[0] in d.deps():
                    d = Subst({r[0]: r[1]}).poly(d)
        return d

    def fail_now(self, st, name, kind, text):
        where = self.where(st)
        # path feasible?
        r, model = self.solver.model(self.facts(st), TRUE, prefs=self.prefs())
        if r == 'unsat':
            raise PathInfeasible()
        status = 'refuted' if r == 'sat' else 'undecided'
        self.obl[-1].append((name, kind, status, 'exec', where))
        self.fail[-1].append(Failure(name, kind, text, st.pc, FALSE, model, status, where))

    def where(self, st):
        out = []
        for f in reversed(st.frames):
            out.append(short(self.dem.get(f.fn.name, f.fn.name)))
            if len(out) >= 3:
                break
        return ' <- '.join(out)

    # ------------------------------------------------------------ running
    def call_fn(self, st, name, args):
        """run a function to completion on st (no forking allowed): returns value"""
        fn = self.mod.funcs[name].parse()
        d = len(st.frames)
        self.push(st, fn, args, None)
        st.frames[-1].cont = 'STOP'
        res = self.explore(st, stop=('ret', d))
        ends = [r for r in res if r[0] == 'ret']
        if len(ends) != 1:
            raise Unsupported('helper call %s has %d outcomes' % (name, len(ends)))
        return ends[0][1], ends[0][2]

    def push(self, st, fn, args, dst):
        if len(st.frames) > 60:
            raise Unsupported('recursion too deep in %s' % fn.name)
        f = Frame(fn)
        f.dst = dst
        for (nm, t), a in zip(fn.params, args):
            f.regs[nm] = a
        # unnamed parameters are numbered
        k = 0
        for n, (nm, t) in enumerate(fn.params):
            if nm is None:
                f.regs[str(k)] = args[n]
                k += 1
        st.frames.append(f)
        self.entered[fn.name] = self.entered.get(fn.name, 0) + 1

    def explore(self, st, stop):
        """run st and all its forks; returns list of events"""
        work = [st]
        out = []
        n = 0
        while work:
            s = work.pop()
            ev = self.run_path(s, stop)
            if ev[0] == 'fork':
                n += 1
                self.paths += 1
                if n > self.MAXPATHS:
                    raise Unsupported('too many paths')
                work.extend(reversed(ev[1]))
            elif ev[0] == 'dead':
                continue
            else:
                out.append(ev)
        return out

    def run_path(self, st, stop):
        depth = len(st.frames)
        while True:
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                raise Unsupported('step limit')
            if self.deadline and (self.steps & 255) == 0 and time.time() > self.deadline:
                raise Unsupported('time limit')
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.i]
            try:
                ev = self.step(st, fr, ins, stop)
            except Split as sp:
                if DEBUG:
                    print('SPLIT', f_str(sp.f), '@', self.where(st), fr.block, ins.text[:90])
                s2 = st.clone()
                st.assume(sp.f)
                s2.assume(f_not(sp.f))
                return ('fork', [st, s2])
            except PathInfeasible:
                return ('dead',)
            if ev is not None:
                return ev

    # operand evaluation
    def val(self, st, fr, ty, v):
        k = v[0]
        if k == 'reg':
            try:
                return fr.regs[v[1]]
            except KeyError:
                raise Unsupported('undefined register %s in %s' % (v[1], fr.fn.name))
        if k == 'int':
            if ty == ('int', 1):
                return TRUE if v[1] & 1 else FALSE
            return C(v[1])
        if k == 'fp':
            if ty[0] == 'float':
                return real_of_float(fp_const(v[1]))
            return real_of_float(fp_const(v[1]))
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'glob':
            return self.glob(st, v[1])
        if k == 'ce':
            if v[1] == 'gep':
                base = self.val(st, fr, v[3][0][0], v[3][0][1])
                return self.gep(st, v[2], base, [(t, self.val(st, fr, t, x)) for t, x in v[3][1:]])
            if v[1] == 'bitcast':
                return self.val(st, fr, v[2][0], v[2][1])
            raise Unsupported('constant expression %s' % (v[1],))
        if k == 'zero':
            t = self.mod.resolve(ty)
            if t[0] in ('int',):
                return ZERO
            if t[0] in ('double', 'float'):
                return ZERO
            if t[0] == 'struct':
                return Agg([self.val(st, fr, x, ('zero',)) for x in t[1]])
            raise Unsupported('zero of %r' % (t,))
        if k == 'agg':
            return Agg([self.val(st, fr, t, x) for t, x in v[1]])
        raise Unsupported('operand %r' % (v,))

    def glob(self, st, name):
        if name in self.mod.funcs or name in self.mod.decls:
            return FnPtr(name)
        oid = self.globobj.get(name)
        if oid is None:
            if name not in self.mod.globals:
                raise Unsupported('unknown global ' + name)
            oid = self.nobj
            self.nobj += 1
            self.globobj[name] = oid
        if oid not in st.mem:
            t, v, const = self.mod.global_init(name)
            if t is None:
                raise Unsupported('alias ' + name)
            o = Flat(self.mod.size(t) if t[0] != 'opaque' else 8, '@' + name)
            st.mem[oid] = o
            if v is None:
                o.default = None
                o.cells[0] = Opaque('extern', name)
            else:
                self.init_cells(st, o, 0, t, v)
                if not const:
                    o.cells.pop('cstr', None)
            if name in self.hot_globals:
                self.havoc_flat(o, name)
        return Ptr(oid, None, 0)

    def havoc_flat(self, o, name):
        for k, v in list(o.cells.items()):
            if isinstance(v, Poly):
                o.cells[k] = fresh('g_' + name[:20], INT if v.is_int() else REAL)
            else:
                o.cells[k] = Opaque('havoc', name)

    def init_cells(self, st, o, off, t, v):
        t = self.mod.resolve(t)
        if v[0] == 'zero':
            if t[0] == 'struct':
                for i in range(len(t[1])):
                    fo, ft = self.mod.field(t, i)
                    self.init_cells(st, o, off + fo, ft, v)
            elif t[0] == 'array':
                if t[1] > 4096:
                    raise Unsupported('big global')
                s = self.mod.size(t[2])
                if off == 0 and t[2] == ('int', 8) and t[1] == o.size:
                    o.cells['cstr'] = bytes(t[1])
                for i in range(t[1]):
                    self.init_cells(st, o, off + i * s, t[2], v)
            elif t[0] == 'ptr':
                o.cells[off] = NULL
            elif t[0] == 'double':
                o.cells[off] = realz()
            else:
                o.cells[off] = ZERO
        elif v[0] == 'agg':
            if t[0] == 'struct':
                for i, (ft, fv) in enumerate(v[1]):
                    fo, _ = self.mod.field(t, i)
                    self.init_cells(st, o, off + fo, ft, fv)
            else:
                s = self.mod.size(t[2])
                for i, (ft, fv) in enumerate(v[1]):
                    self.init_cells(st, o, off + i * s, ft, fv)
        elif v[0] == 'cstr':
            o.cells['cstr'] = v[1]
            for i, b in enumerate(v[1]):
                o.cells[off + i] = C(b)
        else:
            o.cells[off] = self.val(st, None, t, v)

    def gep(self, st, ty, base, idx):
        if not isinstance(base, Ptr):
            raise Unsupported('gep on %r' % (base,))
        if base.obj == 0:
            raise Unsupported('gep on null')
        (t0, i0) = idx[0]
        off = self.topoly(i0).scale(self.mod.size(ty)) if not (isinstance(i0, Poly) and i0.is_zero()) else ZERO
        t = ty
        for (it, iv) in idx[1:]:
            t = self.mod.resolve(t)
            if t[0] == 'struct':
                n = int(iv.const())
                fo, t = self.mod.field(t, n)
                off = off + C(fo)
            elif t[0] in ('array', 'vec'):
                t = t[2]
                off = off + self.topoly(iv).scale(self.mod.size(t))
            else:
                raise Unsupported('gep into %r' % (t,))
        return self.ptr_add(st, base, off)

    def ptr_add(self, st, p, off):
        if off.is_zero():
            return p
        o = st.mem.get(p.obj)
        if o is not None and o.kind == 'arr':
            if isinstance(p.off, tuple):
                # nested vector element
                if off.is_const() and off.const() % 8 == 0:
                    return Ptr(p.obj, p.idx, (p.off[0], p.off[1], p.off[2] + int(off.const()) // 8))
                raise Unsupported('symbolic walk inside a nested vector')
            if isinstance(p.off, int):
                es = o.esize
                q = {}
                r = {}
                for m, c in off.t.items():
                    if m == ():
                        tot = c + p.off
                        d, mo = divmod(tot, es)
                        if d:
                            q[m] = d
                        if mo:
                            r[m] = mo
                        continue
                    if c % es == 0:
                        q[m] = c // es
                    else:
                        raise Unsupported('stride of pointer walk does not match the element size')
                if () not in off.t:
                    d, mo = divmod(p.off, es)
                    if mo:
                        r[()] = mo
                return Ptr(p.obj, p.idx + Poly(q), int(r.get((), 0)))
            raise Unsupported('pointer arithmetic')
        if isinstance(p.off, Poly):
            n = p.off + off
        else:
            if off.is_const():
                return Ptr(p.obj, p.idx, p.off + int(off.const()))
            n = C(p.off) + off
        if n.is_const():
            return Ptr(p.obj, p.idx, int(n.const()))
        return Ptr(p.obj, p.idx, n)

    def ptr_diff(self, st, a, b):
        if not isinstance(b, Ptr) or a.obj != b.obj or a.obj not in st.mem:
            raise Unsupported('difference of pointers into different objects')
        if isinstance(a.off, tuple) or isinstance(b.off, tuple):
            if isinstance(a.off, tuple) and isinstance(b.off, tuple) and a.idx == b.idx and a.off[1] == b.off[1]:
                return C(8 * (a.off[2] - b.off[2]))
            raise Unsupported('difference of pointers')
        x = (a.off if isinstance(a.off, Poly) else C(a.off)) - (b.off if isinstance(b.off, Poly) else C(b.off))
        if a.idx is not None:
            x = x + (a.idx - b.idx).scale(st.mem[a.obj].esize)
        return x

    def topoly(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, BoolV):
            return mk_ite(v.f, ONE, ZERO)
        if isinstance(v, tuple):
            return mk_ite(v, ONE, ZERO)
        raise Unsupported('number expected, got %r' % (v,))

    def toform(self, v):
        if isinstance(v, tuple):
            return v
        if isinstance(v, BoolV):
            return v.f
        if isinstance(v, Poly):
            return f_cmp('ne', v)
        raise Unsupported('truth value expected, got %r' % (v,))

    # ------------------------------------------------------------ one instruction
    def step(self, st, fr, ins, stop):
        op = ins.op
        V = lambda t, v: self.val(st, fr, t, v)
        if op == 'load':
            p = V(*ins.a)
            sz = self.mod.size(ins.ty)
            fr.regs[ins.dst] = self.load_typed(st, p, ins.ty, sz)
        elif op == 'store':
            (t, v), pv = ins.a
            val = V(t, v)
            p = V(*pv)
            self.store_typed(st, p, t, val)
        elif op == 'getelementptr':
            base = V(*ins.a[0])
            fr.regs[ins.dst] = self.gep(st, ins.ty, base, [(t, V(t, x)) for t, x in ins.a[1:]])
        elif op == 'alloca':
            oid = self.new_flat(st, self.mod.size(ins.ty), ins.dst)
            fr.allocas.append(oid)
            fr.regs[ins.dst] = Ptr(oid, None, 0)
        elif op == 'sub' and isinstance(V(ins.ty, ins.a[0]), Ptr):
            fr.regs[ins.dst] = self.ptr_diff(st, V(ins.ty, ins.a[0]), V(ins.ty, ins.a[1]))
        elif op in ('add', 'sub', 'mul'):
            a, b = self.topoly(V(ins.ty, ins.a[0])), self.topoly(V(ins.ty, ins.a[1]))
            r = a + b if op == 'add' else (a - b if op == 'sub' else a * b)
            fr.regs[ins.dst] = self.wrap_check(st, r, ins)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = self.topoly(V(ins.ty, ins.a[0])), self.topoly(V(ins.ty, ins.a[1]))
            if ins.ty[0] != 'double':
                r = self.single(op, a, b)
            elif op == 'fadd':
                r = a + b
            elif op == 'fsub':
                r = a - b
            elif op == 'fmul':
                r = a * b
            else:
                if b.is_zero():
                    self.fail_now(st, 'div-by-zero', 'arith', 'division by zero')
                    raise PathInfeasible()
                if (len(b.t) == 1 and all(ATOMS[i].pos for m in b.t for (i, _) in m)) or self.decide(st, f_ne(b, ZERO)):
                    r = div(a, b)
                else:
                    r = fresh('nan', REAL)   # any value: nothing can be proved about it
            fr.regs[ins.dst] = r
        elif op == 'fneg':
            fr.regs[ins.dst] = -self.topoly(V(ins.ty, ins.a[0]))
        elif op in ('sdiv', 'udiv', 'srem', 'urem'):
            a, b = self.topoly(V(ins.ty, ins.a[0])), self.topoly(V(ins.ty, ins.a[1]))
            fr.regs[ins.dst] = self.intdiv(st, op, a, b)
        elif op in ('and', 'or', 'xor'):
            fr.regs[ins.dst] = self.logic(st, op, V(ins.ty, ins.a[0]), V(ins.ty, ins.a[1]), ins.ty)
        elif op in ('shl', 'ashr', 'lshr'):
            a, b = self.topoly(V(ins.ty, ins.a[0])), self.topoly(V(ins.ty, ins.a[1]))
            if not b.is_const():
                raise Unsupported('symbolic shift')
            if op == 'shl':
                fr.regs[ins.dst] = self.wrap_check(st, a.scale(2 ** int(b.const())), ins)
            else:
                fr.regs[ins.dst] = self.intdiv(st, 'fdivi', a, C(2 ** int(b.const())))
        elif op == 'icmp':
            fr.regs[ins.dst] = self.icmp(st, ins.a[0], V(ins.ty, ins.a[1]), V(ins.ty, ins.a[2]), ins.ty)
        elif op == 'fcmp' and any(isinstance(V(ins.ty, x), AbsV) for x in ins.a[1:3]):
            a, b = V(ins.ty, ins.a[1]), V(ins.ty, ins.a[2])
            forms = []
            for sa in ((1, -1) if isinstance(a, AbsV) else (1,)):
                for sb in ((1, -1) if isinstance(b, AbsV) else (1,)):
                    x = C(sa) * a.v if isinstance(a, AbsV) else self.topoly(a)
                    y = C(sb) * b.v if isinstance(b, AbsV) else self.topoly(b)
                    side = [f_le(ZERO, z) for z, w in ((x, a), (y, b)) if isinstance(w, AbsV)]
                    forms.append(f_and(side + [self.fcmp(ins.a[0], x, y)]))
            if not isinstance(b, AbsV) and ins.a[0] in ('ole', 'ule', 'olt', 'ult'):
                forms = [f_and([self.fcmp(ins.a[0], a.v, self.topoly(b)), self.fcmp(ins.a[0], -a.v, self.topoly(b))])]
            elif not isinstance(b, AbsV) and ins.a[0] in ('oge', 'uge', 'ogt', 'ugt'):
                forms = [self.fcmp(ins.a[0], a.v, self.topoly(b)), self.fcmp(ins.a[0], -a.v, self.topoly(b))]
            elif not isinstance(a, AbsV) and ins.a[0] in ('oge', 'uge', 'ogt', 'ugt'):
                forms = [f_and([self.fcmp(ins.a[0], self.topoly(a), b.v), self.fcmp(ins.a[0], self.topoly(a), -b.v)])]
            elif not isinstance(a, AbsV) and ins.a[0] in ('ole', 'ule', 'olt', 'ult'):
                forms = [self.fcmp(ins.a[0], self.topoly(a), b.v), self.fcmp(ins.a[0], self.topoly(a), -b.v)]
            fr.regs[ins.dst] = f_or(forms) if len(forms) > 1 else forms[0]
        elif op == 'fcmp':
            fr.regs[ins.dst] = self.fcmp(ins.a[0], self.topoly(V(ins.ty, ins.a[1])), self.topoly(V(ins.ty, ins.a[2])))
        elif op in ('sext', 'zext'):
            v = V(*ins.a)
            if ins.a[0] == ('int', 1):
                if v == TRUE:
                    v = C(-1) if op == 'sext' else ONE
                elif v == FALSE:
                    v = ZERO
                else:
                    if op == 'sext':
                        v = mk_ite(v, C(-1), ZERO)
                    else:
                        v = BoolV(v)
            elif op == 'zext' and isinstance(v, Poly):
                if not self.solver.entails(st.pc, f_le(ZERO, v)):
                    if v.is_const():
                        v = C(int(v.const()) % 2 ** ins.a[0][1])
                    else:
                        raise Unsupported('zext of a possibly negative value')
            fr.regs[ins.dst] = v
        elif op == 'trunc':
            v = V(*ins.a)
            if ins.ty == ('int', 1):
                if isinstance(v, Poly):
                    if v.is_const():
                        v = TRUE if int(v.const()) & 1 else FALSE
                    else:
                        raise Unsupported('trunc to bit')
                else:
                    v = self.toform(v)
            elif isinstance(v, Poly):
                b = ins.ty[1]
                if v.is_const():
                    x = int(v.const()) % 2 ** b
                    v = C(x - 2 ** b if x >= 2 ** (b - 1) else x)
                else:
                    self.prove(st, f_and([f_le(C(-2 ** (b - 1)), v), f_le(v, C(2 ** (b - 1) - 1))]), 'value fits %d-bit integer' % b, 'overflow')
            fr.regs[ins.dst] = v
        elif op in ('sitofp', 'uitofp'):
            v = self.topoly(V(*ins.a))
            if ins.ty[0] != 'double':
                v = self.single('cvt', v, None)
            fr.regs[ins.dst] = v
        elif op in ('fptosi', 'fptoui'):
            v = self.topoly(V(*ins.a))
            fr.regs[ins.dst] = self.fptoint(st, v, ins.ty[1])
        elif op == 'fpext':
            fr.regs[ins.dst] = self.topoly(V(*ins.a))
        elif op == 'fptrunc':
            fr.regs[ins.dst] = self.single('cvt', self.topoly(V(*ins.a)), None)
        elif op == 'bitcast':
            fr.regs[ins.dst] = V(*ins.a)
        elif op == 'ptrtoint':
            v = V(*ins.a)
            fr.regs[ins.dst] = v
        elif op == 'inttoptr':
            fr.regs[ins.dst] = V(*ins.a)
        elif op == 'phi':
            # all phis of the block read the old values
            vals = []
            blk = fr.fn.blocks[fr.block]
            i = fr.i
            while blk[i].op == 'phi':
                for (v, b) in blk[i].a:
                    if b == fr.prev:
                        vals.append((blk[i].dst, V(blk[i].ty, v)))
                        break
                else:
                    raise Unsupported('phi without predecessor')
                i += 1
            for d, v in vals:
                fr.regs[d] = v
            fr.i = i
            return None
        elif op == 'select':
            c = self.toform(V(*ins.a[0]))
            a, b = V(*ins.a[1]), V(*ins.a[2])
            if c == TRUE:
                r = a
            elif c == FALSE:
                r = b
            elif isinstance(a, tuple) and isinstance(b, tuple):
                r = f_or([f_and([c, a]), f_and([f_not(c), b])])
            else:
                r = a if self.decide(st, c) else b
            fr.regs[ins.dst] = r
        elif op == 'extractvalue':
            v = V(*ins.a[0])
            for n in ins.a[1]:
                if not isinstance(v, Agg):
                    raise Unsupported('extractvalue')
                v = v.v[n]
            fr.regs[ins.dst] = v
        elif op == 'insertvalue':
            v = V(*ins.a[0])
            w = V(*ins.a[1])
            t = self.mod.resolve(ins.ty)
            v = Agg(v.v) if isinstance(v, Agg) else Agg([UNDEF] * (len(t[1]) if t[0] == 'struct' else t[1]))
            if len(ins.a[2]) != 1:
                raise Unsupported('insertvalue')
            v.v[ins.a[2][0]] = w
            fr.regs[ins.dst] = v
        elif op == 'br':
            if len(ins.a) == 1:
                return self.goto(st, fr, ins.a[0], stop)
            c = self.toform(V(('int', 1), ins.a[0]))
            return self.branch(st, fr, c, ins.a[1], ins.a[2], stop)
        elif op == 'switch':
            (t, v), dflt, cases = ins.a
            x = self.topoly(V(t, v))
            for (cv, lab) in cases:
                if self.decide(st, f_eq(x, C(cv))):
                    return self.goto(st, fr, lab, stop)
            return self.goto(st, fr, dflt, stop)
        elif op in ('call', 'invoke'):
            return self.call(st, fr, ins, stop)
        elif op == 'ret':
            v = None if ins.a is None else V(*ins.a)
            return self.ret(st, fr, v, stop)
        elif op == 'unreachable':
            r, m = self.solver.model(st.pc, TRUE)
            if r == 'unsat':
                return ('dead',)
            raise Unsupported('unreachable reached in %s' % fr.fn.name)
        else:
            raise Unsupported('instruction %s' % ins.text[:80])
        fr.i += 1
        return None

    def single(self, op, a, b):
        """single precision results: opaque unless exactly representable constants"""
        if b is None and a.is_const():
            c = Fraction(a.const())
            f = struct.unpack('f', struct.pack('f', float(c)))[0]
            if Fraction(f) == c:
                return a
        args = (a,) if b is None else (a, b)
        return P(mk_atom('opaquefn', 'float_' + op, args, REAL))

    def wrap_check(self, st, r, ins):
        b = ins.ty[1]
        fl = ins.a[2] if len(ins.a) > 2 else set()
        if r.is_const():
            c = int(r.const())
            if 'nsw' in fl or ins.op == 'shl':
                if not (-2 ** (b - 1) <= c <= 2 ** (b - 1) - 1):
                    self.prove(st, FALSE, 'signed arithmetic does not overflow', 'overflow')
                return r
            if not (-2 ** (b - 1) <= c <= 2 ** b - 1):
                c %= 2 ** b
            return C(c)
        if 'nsw' in fl:
            if b >= 64:
                lo, hi = interval(r)
                if lo is not None and hi is not None and lo >= -2 ** 63 and hi < 2 ** 63:
                    return r
            self.prove(st, f_and([f_le(C(-2 ** (b - 1)), r), f_le(r, C(2 ** (b - 1) - 1))]), 'signed arithmetic does not overflow (%s)' % short_op(ins), 'overflow')
            return r
        # unsigned / wrapping: must be shown not to wrap, else outside our reach
        lo, hi = interval(r)
        if lo is not None and hi is not None and lo >= 0 and hi < 2 ** b:
            return r
        if self.solver.entails(st.pc, f_le(ZERO, r)) and self.solver.entails(st.pc, f_le(r, C(2 ** b - 1))):
            return r
        if b == 64 and self.solver.entails(st.pc, f_and([f_le(C(-2 ** 62), r), f_le(r, C(2 ** 62))])):
            return r
        if b == 64:
            # sizes: products of allocated extents cannot exceed the address space
            self.assumptions.add('64-bit size arithmetic does not wrap where its operands are sizes of allocated arrays')
            return r
        raise Unsupported('possibly wrapping unsigned arithmetic: %s' % ins.text[:70])

    def intdiv(self, st, op, a, b):
        if a.is_const() and b.is_const():
            x, y = int(a.const()), int(b.const())
            if y == 0:
                self.fail_now(st, 'div-by-zero', 'arith', 'integer division by zero')
                raise PathInfeasible()
            if op == 'fdivi':
                return C(x // y)
            q = abs(x) // abs(y)
            q = q if (x >= 0) == (y >= 0) else -q
            return C(q) if op in ('sdiv', 'udiv') else C(x - q * y)
        if not b.is_const():
            self.prove(st, f_ne(b, ZERO), 'integer divisor is nonzero', 'arith')
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            if b.is_const() and b.const() != 0:
                k = int(b.const())
                if all(c % k == 0 for c in a.t.values()):
                    q = Poly({m: c // k for m, c in a.t.items()})
                    return q if op in ('sdiv', 'udiv') else ZERO
            if not (self.decide_q(st, f_le(ZERO, a)) and self.decide_q(st, f_le(ONE, b))):
                if op[0] == 'u':
                    raise Unsupported('integer division of possibly negative values')
                # truncation toward zero, by the signs
                na, nb = not self.decide(st, f_le(ZERO, a)), not self.decide(st, f_le(ONE, b))
                if na or nb:
                    r = self.intdiv(st, op, -a if na else a, -b if nb else b)
                    return -r if (na != nb if op == 'sdiv' else na) else r
        q = exact_div(a, b) if op != 'fdivi' else None
        if q is not None and q.is_int():
            return q if op in ('sdiv', 'udiv') else ZERO
        # a = q*b + r with 0 <= r < b
        ip, rem = floor_poly(div(a, b))
        qq = ip + (floor_rem(rem) if rem.t else ZERO)
        if op in ('srem', 'urem'):
            return a - qq * b
        return qq

    def decide_q(self, st, f):
        return self.solver.entails(st.pc, f)

    def logic(self, st, op, a, b, ty):
        if ty == ('int', 1):
            a, b = self.toform(a), self.toform(b)
            if op == 'and':
                return f_and([a, b])
            if op == 'or':
                return f_or([a, b])
            return f_or([f_and([a, f_not(b)]), f_and([f_not(a), b])])
        if isinstance(a, Poly) and isinstance(b, Poly) and a.is_const() and b.is_const():
            x, y = int(a.const()), int(b.const())
            return C(x & y if op == 'and' else (x | y if op == 'or' else x ^ y))
        if isinstance(a, (BoolV,)) or isinstance(b, BoolV):
            fa = a.f if isinstance(a, BoolV) else (TRUE if isinstance(a, Poly) and a == ONE else (FALSE if isinstance(a, Poly) and a.is_zero() else None))
            fb = b.f if isinstance(b, BoolV) else (TRUE if isinstance(b, Poly) and b == ONE else (FALSE if isinstance(b, Poly) and b.is_zero() else None))
            if fa is not None and fb is not None:
                r = self.logic(st, op, fa, fb, ('int', 1))
                return ONE if r == TRUE else (ZERO if r == FALSE else BoolV(r))
        if op == 'and' and isinstance(a, Poly) and isinstance(b, Poly):
            if a.is_const():
                a, b = b, a
            if b.is_const():
                k = int(b.const()) + 1
                if k > 0 and (k & (k - 1)) == 0:
                    return a - self.intdiv(st, 'fdivi', a, C(k)).scale(k)
        raise Unsupported('bit operation %s' % op)

    last_cmp_const = True
    last_cmp_gap = 0

    def icmp(self, st, pr, a, b, ty):
        self.last_cmp_const = is_concrete(a) and is_concrete(b)
        self.last_cmp_gap = abs(a.const() - b.const()) if self.last_cmp_const and isinstance(a, Poly) and isinstance(b, Poly) else 0
        if isinstance(a, Undef) or isinstance(b, Undef):
            raise Unsupported('comparison of an uninitialised value')
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj and a.off == b.off:
                    if a.idx is None:
                        f = TRUE
                        return {'eq': f, 'ne': FALSE}.get(pr) or self.bad('pointer comparison')
                    r = self.icmp(st, pr, a.idx, b.idx, ('int', 64))
                    self.last_cmp_const = (a.idx - b.idx).is_const()
                    return r
                if a.obj == b.obj and a.idx is not None and isinstance(a.off, int) and isinstance(b.off, int):
                    # different places inside elements: never the same address
                    if pr in ('eq', 'ne'):
                        self.last_cmp_const = (a.idx - b.idx).is_const()
                        return FALSE if pr == 'eq' else TRUE
                    es = st.mem[a.obj].esize
                    return self.icmp(st, pr, a.idx.scale(es) + C(a.off), b.idx.scale(es) + C(b.off), ('int', 64))
                if a.obj != b.obj and pr in ('eq', 'ne'):
                    return FALSE if pr == 'eq' else TRUE
                if a.obj == b.obj and pr in ('eq', 'ne') and a.idx is None and isinstance(a.off, int) and isinstance(b.off, int):
                    return FALSE if pr == 'eq' else TRUE
                if a.obj == b.obj and isinstance(a.off, tuple) and isinstance(b.off, tuple):
                    if a.idx == b.idx and a.off[:2] == b.off[:2]:   # inside the same fixed-size vector
                        return self.icmp(st, pr, C(a.off[2]), C(b.off[2]), ('int', 64))
                    raise Unsupported('pointer comparison')
                if a.obj == b.obj and not isinstance(a.off, tuple) and not isinstance(b.off, tuple) and (a.idx is None or b.idx is not None and (a.idx - b.idx).is_zero()):
                    oa = a.off if isinstance(a.off, Poly) else C(a.off)
                    ob = b.off if isinstance(b.off, Poly) else C(b.off)
                    return self.icmp(st, pr, oa, ob, ('int', 64))
            raise Unsupported('pointer comparison')
        if isinstance(a, (BoolV, tuple)) or isinstance(b, (BoolV, tuple)):
            fa = self.as_bool(a)
            fb = self.as_bool(b)
            if fa is not None and fb is not None and pr in ('eq', 'ne'):
                x = f_or([f_and([fa, fb]), f_and([f_not(fa), f_not(fb)])])
                return x if pr == 'eq' else f_not(x)
        a, b = self.topoly(a), self.topoly(b)
        if pr[0] == 'u':
            for x in (a, b):
                if x.is_const() and x.const() >= 0:
                    continue
                if not self.solver.entails(st.pc, f_le(ZERO, x)):
                    raise Unsupported('unsigned comparison of a possibly negative value')
            pr = 's' + pr[1:]
        return {'eq': f_eq, 'ne': f_ne, 'slt': f_lt, 'sle': f_le, 'sgt': lambda x, y: f_lt(y, x), 'sge': lambda x, y: f_le(y, x)}[pr](a, b)

    def as_bool(self, v):
        if isinstance(v, tuple):
            return v
        if isinstance(v, BoolV):
            return v.f
        if isinstance(v, Poly):
            if v.is_zero():
                return FALSE
            if v == ONE:
                return TRUE
        return None

    def bad(self, m):
        raise Unsupported(m)

    def fcmp(self, pr, a, b):
        p = pr[1:] if pr[0] in 'ou' and pr not in ('ord', 'uno', 'one', 'oeq') else pr
        if pr == 'ord':
            return TRUE
        if pr == 'uno':
            return FALSE
        m = {'oeq': 'eq', 'one': 'ne', 'ueq': 'eq', 'une': 'ne', 'eq': 'eq', 'ne': 'ne'}
        if pr in m:
            return f_eq(a, b) if m[pr] == 'eq' else f_ne(a, b)
        return {'lt': f_lt, 'le': f_le, 'gt': lambda x, y: f_lt(y, x), 'ge': lambda x, y: f_le(y, x)}[p](a, b)

    def fptoint(self, st, v, bits):
        if not v.is_int():
            # truncation toward zero
            ip, rem = floor_poly(v)
            if rem.is_zero():
                v = ip
            elif v.is_const():
                c = Fraction(v.const())
                v = C(int(c))
            elif self.solver.entails(st.pc, f_le(ZERO, v)):
                v = ip + floor_rem(rem)
            else:
                v = P(mk_atom('trunc', 'trunc', (v,), INT))
        self.prove(st, f_and([f_le(C(-2 ** (bits - 1)), v), f_le(v, C(2 ** (bits - 1) - 1))]), 'floating value fits the integer it is converted to', 'overflow')
        return v

    # typed access --------------------------------------------------
    def load_typed(self, st, p, ty, sz):
        t = self.mod.resolve(ty)
        if t[0] == 'struct':
            out = []
            for i in range(len(t[1])):
                fo, ft = self.mod.field(t, i)
                out.append(self.load_typed(st, self.ptr_add(st, p, C(fo)), ft, self.mod.size(ft)))
            return Agg(out)
        if t == ('int', 64) and isinstance(p.off, int):
            # two 32-bit fields moved together
            o = st.mem.get(p.obj)
            if o is not None and o.kind == 'flat' and (p.off + 4) in o.cells and p.off + 8 <= o.size:
                return Packed(self.load_cell(st, p, 4), self.load_cell(st, Ptr(p.obj, p.idx, p.off + 4), 4))
        v = self.load_cell(st, p, sz)
        if v is UNDEF:
            o = st.mem.get(p.obj)
            if o is not None and o.kind == 'flat' and isinstance(p.off, int) and t[0] == 'int':
                # partially covered?  give up quietly
                pass
            if t[0] == 'double':
                return fresh('uninit', REAL)
            if t[0] == 'int' and t[1] > 1:
                b = t[1]
                return fresh('uninit', INT, -2 ** (b - 1), 2 ** (b - 1) - 1)
            raise Unsupported('load of uninitialised memory')
        return v

    def store_typed(self, st, p, t, v):
        t = self.mod.resolve(t)
        if isinstance(v, Agg):
            for i, x in enumerate(v.v):
                fo, ft = self.mod.field(t, i)
                if x is not UNDEF:
                    self.store_typed(st, self.ptr_add(st, p, C(fo)), ft, x)
            return
        if isinstance(v, Packed):
            self.store_cell(st, p, v.lo, 4)
            self.store_cell(st, self.ptr_add(st, p, C(4)), v.hi, 4)
            return
        sz = self.mod.size(t)
        self.store_cell(st, p, v, sz)
        if sz == 8 and isinstance(p.off, int):
            o = st.mem.get(p.obj)
            if o is not None and o.kind == 'flat' and p.off + 4 in o.cells:
                del o.cells[p.off + 4]

    # control ---------------------------------------------------------
    def branch(self, st, fr, c, a, b, stop):
        tr = st.tracks[-1] if st.tracks else None
        if tr is not None and tr.depth == len(st.frames) and fr.block in tr.body:
            ina, inb = a in tr.body, b in tr.body
            if ina != inb:
                cont = c if ina else f_not(c)
                inner = self.in_inner_loop(fr, tr)
                if cont == TRUE:
                    # true within the bounds that another path's test put on the counter
                    for x in tr.seen:
                        if x[0] == fr.block and not tr.tests:
                            tr.tests.append(x)
                    return self.goto(st, fr, a if ina else b, stop)
                if cont == FALSE:
                    return ('left', st)
                # is it decided?  (exit paths that are ruled out)
                tr.tests.append((fr.block, cont))
                tr.seen.append((fr.block, cont))
                if len(set(t[0] for t in tr.tests)) > 1:
                    if self.solver.entails(st.pc, cont):
                        tr.tests.pop()
                        return self.goto(st, fr, a if ina else b, stop)
                st.assume(cont, 'f')
                if cont[0] == 'ne' and stop[0] == 'loop':
                    # counting up to a bound that is not behind the start: every iteration lies before it
                    N = self.trip_count(st, cont, stop[3])
                    if N is not None and self.solver.entails(st.pc[:tr.pclen], f_le(ZERO, N)):
                        cont = f_lt(P(ATOMS[stop[3]]), N)
                        st.assume(cont, 'f')
                self.tighten(cont, stop)
                return self.goto(st, fr, a if ina else b, stop)
        if c == TRUE:
            return self.goto(st, fr, a, stop)
        if c == FALSE:
            return self.goto(st, fr, b, stop)
        if self.decide(st, c):
            return self.goto(st, fr, a, stop)
        return self.goto(st, fr, b, stop)

    def in_inner_loop(self, fr, tr):
        return False

    def tighten(self, cont, stop):
        n = stop[3] if stop[0] == 'loop' else None
        if n is None:
            return
        a = ATOMS[n]
        for f in ([cont] if cont[0] != 'and' else cont[1]):
            if f[0] == 'le':
                p = f[1]
                m = ((n, 1),)
                c = p.t.get(m)
                if c is not None and c > 0 and n not in (p - Poly({m: c})).deps():
                    lo, _ = interval(p - Poly({m: c}))
                    if lo is not None:
                        set_bounds(a, hi=(-lo) // c)

    def goto(self, st, fr, target, stop):
        fn = fr.fn
        src = fr.block
        depth = len(st.frames)
        if stop[0] == 'loop' and stop[1] == depth:
            if target == stop[2] and src in fn.loops[stop[2]]:
                fr.prev = src
                return ('back', st)
            if target not in fn.loops[stop[2]]:
                raise Unsupported('loop left in the middle of an iteration')
        if stop[0] == 'iter' and stop[1] == depth:
            if target == stop[2] and src in fn.loops[stop[2]]:
                return ('back', st)
            if target not in fn.loops[stop[2]]:
                fr.prev, fr.block, fr.i = src, target, 0
                return ('left', st)
        if stop[0] == 'test' and stop[1] == depth and target not in fn.loops[stop[2]]:
            return ('leave', st)
        if target in fn.loops:
            if src not in fn.loops[target]:
                if fr.skip == target:
                    fr.skip = None
                else:
                    fr.prev = src
                    return self.enter_loop(st, fr, target, stop)
            else:
                n = fr.unroll.get(target, 0) + 1
                fr.unroll[target] = n
                if n > 5000:
                    raise Unsupported('loop unrolled too often')
        fr.prev = src
        fr.block = target
        fr.i = 0
        return None

    def ret(self, st, fr, v, stop):
        depth = len(st.frames)
        if stop[0] in ('loop', 'iter') and stop[1] == depth:
            raise Unsupported('return inside a loop')
        for a in fr.allocas:
            st.mem.pop(a, None)
        st.frames.pop()
        if stop[0] == 'ret' and len(st.frames) == stop[1]:
            return ('ret', st, v)
        if not st.frames:
            return ('end', st, v)
        up = st.frames[-1]
        if fr.dst is not None:
            up.regs[fr.dst] = v
        ci = up.fn.blocks[up.block][up.i]
        if ci.op == 'invoke':
            return self.goto(st, up, ci.a[2], stop)
        up.i += 1
        return None

    # calls --------------------------------------------------------------
    def call(self, st, fr, ins, stop):
        callee = ins.a[0]
        if callee[0] == 'glob':
            name = callee[1]
        else:
            v = self.val(st, fr, ('ptr',), callee)
            if isinstance(v, FnPtr):
                name = v.name
            else:
                raise Unsupported('indirect call')
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.assume') or name.startswith('llvm.experimental'):
            fr.i += 1
            return None
        args = [self.val(st, fr, t, x) if t != ('metadata',) else None for t, x in ins.a[1]]
        m = self._mcache.get(name)
        if m is None:
            m = self.models.lookup(self, name)
            self._mcache[name] = m
        kind, fnc = m
        if kind == 'model':
            r = fnc(self, st, args, ins)
            if r is EXIT:
                return ('exit', st)
            if ins.dst is not None:
                fr.regs[ins.dst] = r
            self.modelled[name] = self.modelled.get(name, 0) + 1
            if ins.op == 'invoke':
                return self.goto(st, fr, ins.a[2], stop)
            fr.i += 1
            return None
        fn = fnc
        if st.merge and self.has_branch(fn):
            return self.merged_call(st, fr, ins, fn, args, stop)
        self.push(st, fn, args, ins.dst)
        return None

    def has_branch(self, fn):
        r = getattr(fn, '_hb', None)
        if r is None:
            r = any(i.op == 'br' and len(i.a) == 3 for b in fn.blocks.values() for i in b) and not fn.loops
            fn._hb = r
        return r

    def merged_call(self, st, fr, ins, fn, args, stop):
        """run a loop-free callee along all its paths and join the outcomes with ite terms"""
        base_objs = self.nobj
        s0 = st.clone()
        d = len(s0.frames)
        npc = len(s0.pc)
        self.push(s0, fn, args, ins.dst)
        res = self.explore(s0, ('ret', d))
        rets = [r for r in res if r[0] == 'ret']
        if len(rets) != len(res):
            raise Unsupported('merged call with abnormal paths')
        if len(rets) == 1:
            s = rets[0][1]
            self.take(st, s)
            return self.after_call(st, ins, rets[0][2], stop)
        conds = [f_and([f for f, k in zip(r[1].pc[npc:], r[1].pck[npc:]) if k == 'b']) for r in rets]

        def join(vals):
            v0 = vals[-1]
            if all(same(v, v0) for v in vals):
                return v0
            out = None
            for v, c in zip(reversed(vals), reversed(conds)):
                if isinstance(v, BoolV) or isinstance(v, tuple):
                    raise Unsupported('join of truth values')
                if not isinstance(v, Poly):
                    raise Unsupported('join of non-numeric values')
                out = v if out is None else mk_ite(c, v, out)
            return out
        ret = join([r[2] for r in rets]) if rets[0][2] is not None else None
        base = rets[0][1]
        for oid, o in list(base.mem.items()):
            if o.kind == 'flat':
                for off in set().union(*[set(r[1].mem[oid].cells) for r in rets if oid in r[1].mem]):
                    vs = [r[1].mem[oid].cells.get(off, UNDEF) if oid in r[1].mem else UNDEF for r in rets]
                    if not all(same(v, vs[0]) for v in vs):
                        o.cells[off] = join(vs)
                        o.ver = self.tick()
            else:
                if any(r[1].mem[oid].chain is not o.chain for r in rets if oid in r[1].mem):
                    raise Unsupported('join of array contents')
        if any(r[1].ghost != base.ghost for r in rets):
            raise Unsupported('join of text output')
        base.pc, base.pck = base.pc[:npc], base.pck[:npc]
        for r in rets[1:]:
            for t, t2 in zip(base.tracks, r[1].tracks):
                t.written |= t2.written
                t.rbw |= t2.rbw
                t.reads += t2.reads
        self.take(st, base)
        return self.after_call(st, ins, ret, stop)

    def take(self, st, s):
        st.frames, st.mem, st.pc, st.pck, st.tracks, st.ghost = s.frames, s.mem, s.pc, s.pck, s.tracks, s.ghost

    def after_call(self, st, ins, v, stop):
        fr = st.frames[-1]
        if ins.dst is not None:
            fr.regs[ins.dst] = v
        if ins.op == 'invoke':
            return self.goto(st, fr, ins.a[2], stop)
        fr.i += 1
        return None

    # ------------------------------------------------------------ loops
    def enter_loop(self, st, fr, header, stop):
        """st is about to jump to header from outside the loop"""
        fn = fr.fn
        depth = len(st.frames)
        fr.unroll[header] = 0
        # peek at the first exit test
        s = st.clone()
        f2 = s.frames[-1]
        f2.block, f2.i = header, 0
        s.tracks = []
        self.obl.append([])
        self.fail.append([])
        try:
            cond = self.peek_test(s, header, depth)
        finally:
            self.obl.pop()
            self.fail.pop()
        if self.any_iteration and not st.tracks and self.uncounted(st, fr, header):
            return self.any_pass(st, fr, header)
        if cond is None or cond == FALSE or (cond == TRUE and self.last_cmp_const):
            if cond == TRUE and self.last_cmp_gap > 16:
                # a long loop with a fixed number of iterations
                try:
                    return self.loop_rule(st, fr, header, stop)
                except Unsupported:
                    pass
            fr.block, fr.i = header, 0
            return None
        return self.loop_rule(st, fr, header, stop)

    def peek_test(self, s, header, depth):
        fn = s.frames[-1].fn
        body = fn.loops[header]
        n = 0
        sym = False
        while True:
            n += 1
            self.steps += 1
            if n > 20000:
                return None
            fr = s.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.i]
            if len(s.frames) == depth and ins.op == 'br' and len(ins.a) == 3:
                ina, inb = ins.a[1] in body, ins.a[2] in body
                c = self.toform(self.val(s, fr, ('int', 1), ins.a[0]))
                if ina != inb:
                    if sym:
                        self.last_cmp_const = False
                    return c if ina else f_not(c)
                if not self.last_cmp_const:
                    sym = True
                # inner condition before the exit test (&&): follow when decided
                if c not in (TRUE, FALSE):
                    self.last_cmp_const = False
                    return c
            try:
                ev = self.step(s, fr, ins, ('test', depth, header))
            except Split as sp:
                s.assume(sp.f)
                sym = True
                continue
            if ev is not None:
                return None

    def any_pass(self, st, fr, header):
        """a loop that does not count its iterations.  The first one is judged as it is; from then on
        everything an iteration changes is arbitrary at its start, up to what changes alike, and the
        iteration judged is the second one or one that follows a whole arbitrary iteration."""
        depth = len(st.frames)
        first = st.clone()
        first.frames[-1].block, first.frames[-1].i = header, 0
        evs = self.apart(first, depth, header, True)
        left = [e[1] for e in evs if e[0] == 'left']
        for e in evs:
            if e[0] == 'back':
                left += self.any_later(e[1], depth, header)
        return ('fork', left) if left else ('dead',)

    def any_later(self, st, depth, header):
        st.frames[-1].block, st.frames[-1].i = header, 0
        cells, arrs = {}, set()   # cells: how each one changes
        for attempt in range(12):
            s = st.clone()
            self.arbitrary(s, cells, arrs)
            before = s.clone()
            backs = [e[1] for e in self.apart(s, depth, header, False) if e[0] == 'back']
            if DEBUG:
                print('ANYPASS', attempt, len(cells), len(arrs), len(backs), '@', self.where(st), header)
            was = partition(cells), set(arrs)
            for b in backs:
                self.changed(st, before, b, cells, arrs)
            for c in cells:   # cells that change by the same amount stay as far apart as they were
                ds = []
                for b in backs:
                    u, w = before.mem[c[0]].cells.get(c[1], UNDEF), b.mem[c[0]].cells.get(c[1], UNDEF)
                    ds.append(('by', u.is_int(), (w - u).key()) if isinstance(u, Poly) and isinstance(w, Poly) and u.is_int() == w.is_int() else ('to', c))
                cells[c] = (cells[c][0], cells[c][1] + tuple(ds))
            if was != (partition(cells), arrs):
                continue
            left = []
            for b in [st] + backs:
                b.frames[-1].block, b.frames[-1].i = header, 0
                left += [e[1] for e in self.apart(b, depth, header, True) if e[0] == 'left']
            return left
        raise Unsupported('no loop invariant found')

    def apart(self, s, depth, header, keep):
        """one iteration; its obligations count unless it starts anywhere"""
        self.obl.append([])
        self.fail.append([])
        try:
            evs = self.explore(s, ('iter', depth, header))
        finally:
            ob, fl = self.obl.pop(), self.fail.pop()
        if keep:
            self.obl[-1].extend(ob)
            self.fail[-1].extend(fl)
        for e in evs:
            if e[0] not in ('left', 'back'):
                raise Unsupported('loop iteration ends with %s' % e[0])
        return evs

    def arbitrary(self, s, cells, arrs):
        by = {}
        for (oid, k), (bit, how) in cells.items():
            o = s.mem[oid]
            v = o.cells.get(k, UNDEF)
            if bit:
                o.cells[k] = BoolV(bsym('junkb!%d' % self.tick()))
            elif isinstance(v, Poly):
                if how not in by:
                    by[how] = fresh('junk', INT if v.is_int() else REAL)
                o.cells[k] = v + by[how]
            elif isinstance(v, VecRef):
                a = s.mem[v.arr]
                o.cells[k] = VecRef(self.new_arr(s, a.length, a.esize, a.ety, self.anything(), a.cells, a.name))
            elif v is UNDEF:
                o.cells.pop(k, None)
            else:
                raise Unsupported('loop changes a %s' % type(v).__name__)
            o.ver = self.tick()
        for oid in arrs:
            s.mem[oid].chain = self.anything()

    def changed(self, st, before, b, cells, arrs):
        """what an iteration that began as before and ended as b has changed of the objects of st"""
        for oid, o in before.mem.items():
            x = b.mem.get(oid)
            if x is None:
                raise Unsupported('object freed in a loop')
            if o.kind == 'flat':
                for k in set(o.cells) | set(x.cells):
                    u, w = o.cells.get(k, UNDEF), x.cells.get(k, UNDEF)
                    if u is w or same(u, w):
                        continue
                    if isinstance(u, VecRef) and (not isinstance(w, VecRef) or before.mem[u.arr].length != b.mem[w.arr].length):
                        raise Unsupported('vector resized in a loop')
                    if oid in st.mem:
                        bit, how = cells.get((oid, k), (True, ()))
                        cells[oid, k] = (bit and isbit(u) and isbit(w), how)
            elif x.chain is not o.chain:
                if x.length != o.length:
                    raise Unsupported('array resized in a loop')
                if oid in st.mem:
                    arrs.add(oid)
        for k, v in b.ghost.items():
            if before.ghost.get(k) != v:
                raise Unsupported('text output or file written in an uncounted loop')

    def anything(self):
        nm = 'anything!%d' % self.tick()
        return Node('fam', lambda idx, off: P(mk_atom('opaquefn', nm, (idx, C(off)), REAL)), None)

    def uncounted(self, st, fr, header):
        ivs = {}
        self.static_ivs(st, fr, fr.fn.loops[header], ivs)
        return not ivs

    def loop_rule(self, st, fr, header, stop):
        self.stats['loops'] += 1
        fn = fr.fn
        body = fn.loops[header]
        depth = len(st.frames)
        ivs = {}
        self.static_ivs(st, fr, body, ivs)
        havoc = set()
        limit = None
        for attempt in range(6):
            self.stats['attempts'] += 1
            self.obl.append([])
            self.fail.append([])
            mark = self.nobj
            try:
                r = self.loop_attempt(st, fr, header, body, depth, ivs, havoc, limit)
            except BaseException:
                self.obl.pop()
                self.fail.pop()
                raise
            ob = self.obl.pop()
            fl = self.fail.pop()
            if r[0] == 'retry':
                ivs, havoc = r[1], r[2]
                continue
            if r[0] == 'limit':
                limit = r[1]
                continue
            if r[0] == 'presplit':
                # a formula that does not change in the loop: both states enter the loop again
                if DEBUG:
                    print('LOOPPRESPLIT', f_str(r[1]), '@', self.where(st), header)
                s2 = st.clone()
                st.assume(r[1])
                s2.assume(f_not(r[1]))
                return ('fork', [st, s2])
            if r[0] == 'split':
                f = r[1]
                if DEBUG:
                    print('LOOPSPLIT', f_str(f), '@', self.where(st), header)
                s2 = st.clone()
                st.assume(f)
                s2.assume(f_not(f))
                # st: the loop runs as modelled; s2: the first test fails.  Both states
                # still stand at the branch that enters the loop.
                s2.frames[-1].skip = header
                return ('fork', [st, s2])
            self.obl[-1].extend(ob)
            self.fail[-1].extend(fl)
            out = r[1]
            self.take(st, out)
            return None
        raise Unsupported('no loop summary found in %s' % short(self.dem.get(fn.name, fn.name)))

    def static_ivs(self, st, fr, body, ivs):
        """guess induction variables: allocas stored once in the loop with load+const"""
        stores = {}
        for b in body:
            for ins in fr.fn.blocks[b]:
                if ins.op == 'store' and ins.a[1][1][0] == 'reg':
                    p = fr.regs.get(ins.a[1][1][1])
                    if isinstance(p, Ptr) and isinstance(p.off, int):
                        stores.setdefault((p.obj, p.off), []).append((b, ins))
        for cell, l in stores.items():
            if len(l) != 1 or cell[0] not in st.mem:
                continue
            b, ins = l[0]
            v = ins.a[0][1]
            if v[0] != 'reg':
                continue
            d = self.find_def(fr, b, v[1])
            if d is None or d.op not in ('add', 'sub'):
                continue
            x, y = d.a[0], d.a[1]
            if x[0] == 'reg' and y[0] == 'int':
                l2 = self.find_def(fr, b, x[1])
                if l2 is not None and l2.op == 'load' and l2.a[1][0] == 'reg':
                    p = fr.regs.get(l2.a[1][1])
                    if isinstance(p, Ptr) and (p.obj, p.off) == cell:
                        o = st.mem.get(cell[0])
                        if o is not None and o.kind == 'flat' and isinstance(o.cells.get(cell[1]), Poly):
                            ivs[cell] = C(y[1] if d.op == 'add' else -y[1])

    def find_def(self, fr, b, reg):
        for ins in fr.fn.blocks[b]:
            if ins.dst == reg:
                return ins
        return None

    def loop_attempt(self, st, fr, header, body, depth, ivs, havoc, limit=None):
        s = st.clone()
        nsym = fresh('n', INT, 0)
        nid = list(nsym.atoms())[0]
        if limit is not None:
            s.assume(f_lt(nsym, limit), 'f')
            _, hi = interval(limit)
            if hi is not None:
                set_bounds(ATOMS[nid], hi=hi - 1)
        f2 = s.frames[-1]
        f2.block, f2.i = header, 0
        f2.unroll[header] = 0
        entryvals = {}
        junk = set()
        for cell in list(ivs) + list(havoc):
            entryvals[cell] = st.mem[cell[0]].cells.get(cell[1], UNDEF)
        for cell, d in ivs.items():
            v0 = entryvals[cell]
            o = s.mem[cell[0]]
            if isinstance(v0, Ptr):
                o.cells[cell[1]] = Ptr(v0.obj, v0.idx + nsym * d, v0.off)
            else:
                o.cells[cell[1]] = v0 + nsym * d
            o.ver = self.tick()
        for cell in havoc:
            v0 = entryvals[cell]
            if isinstance(v0, Poly):
                j = fresh('junk', INT if v0.is_int() and self.cell_int(st, cell) else REAL)
                junk |= set(j.atoms())
                s.mem[cell[0]].cells[cell[1]] = j
            elif v0 is UNDEF:
                s.mem[cell[0]].cells.pop(cell[1], None)
            elif isinstance(v0, BoolV):
                s.mem[cell[0]].cells[cell[1]] = BoolV(bsym('junkb!%d' % self.tick()))
            else:
                raise Unsupported('loop modifies a pointer-like value')
            s.mem[cell[0]].ver = self.tick()
        for key in s.ghost:
            if key[0] == 'log':
                s.ghost[key] = (('base',),)
        t = Track()
        t.depth, t.header, t.body = depth, header, body
        t.written, t.rbw, t.reads, t.tests = set(), set(), [], []
        t.entry = {oid: o.chain for oid, o in s.mem.items() if o.kind == 'arr'}
        t.nextobj = self.nobj
        t.pclen = len(s.pc)
        t.arrw_before_test = False
        t.seen = []       # shared by all paths of the iteration
        outer_tracks = s.tracks
        s.tracks = outer_tracks + [t]
        evs = self.explore(s, ('loop', depth, header, nid))
        backs = []
        left = []
        for e in evs:
            if e[0] == 'back':
                backs.append(e[1])
            elif e[0] == 'left':
                left.append(e[1])
            elif e[0] == 'exit':
                pass
            else:
                raise Unsupported('loop iteration ends with %s' % e[0])
        if not backs:
            raise Unsupported('no loop iteration completes')
        # gather
        written, rbw = set(), set()
        tests = set()
        for b in backs:
            tk = b.tracks[len(outer_tracks)]
            written |= tk.written
            rbw |= tk.rbw
            for x in tk.tests:
                tests.add(x)
        # a test that is not at the top of the iteration: only supported when the
        # part before it is evaluated without lasting effects (checked below)
        bad = (written & rbw) - set(ivs) - set(havoc)
        # verify IVs
        nivs = dict(ivs)
        nhav = set(havoc)
        retry = False
        for cell, d in ivs.items():
            v0 = entryvals[cell]
            for b in backs:
                v1 = b.mem[cell[0]].cells.get(cell[1])
                if isinstance(v0, Ptr):
                    ok = isinstance(v1, Ptr) and v1 == Ptr(v0.obj, v0.idx + (nsym + ONE) * d, v0.off)
                else:
                    ok = isinstance(v1, Poly) and v1 == v0 + (nsym + ONE) * d
                if not ok:
                    nivs.pop(cell, None)
                    if cell in rbw:
                        nhav.add(cell)
                    retry = True
        for cell in bad:
            v0 = st.mem[cell[0]].cells.get(cell[1], UNDEF)
            ds = set()
            for b in backs:
                v1 = b.mem[cell[0]].cells.get(cell[1], UNDEF)
                if isinstance(v0, Poly) and isinstance(v1, Poly):
                    ds.add(v1 - v0)
                elif isinstance(v0, Ptr) and isinstance(v1, Ptr) and v0.obj == v1.obj and v0.idx is not None and v0.off == v1.off:
                    ds.add(v1.idx - v0.idx)
                else:
                    ds.add(None)
            if len(ds) == 1 and None not in ds and nid not in list(ds)[0].deps() and not (list(ds)[0].deps() & junk):
                nivs[cell] = list(ds)[0]
            else:
                nhav.add(cell)
            retry = True
        if retry:
            return ('retry', nivs, nhav)
        if any(b.tracks[len(outer_tracks)].arrw_before_test for b in backs):
            raise Unsupported('array written before the loop test')
        if left or any(set(b.tracks[len(outer_tracks)].tests) != tests for b in backs):
            # the tests differ from path to path: take apart what does not change in the loop
            seen = []
            for b in backs + left:
                g = [f for f, k in zip(b.pc[t.pclen:], b.pck[t.pclen:]) if k == 'b']
                seen.append(g)
            for g in sum(seen, []):
                if nid not in f_deps(g) and not (f_deps(g) & junk) and any(f_not(g) in l for l in seen):
                    return ('presplit', g)
            if any(set(b.tracks[len(outer_tracks)].tests) != tests for b in backs):
                raise Unsupported('loop tests differ from path to path')
        for b in left:
            # an iteration that leaves: under a condition that every completed iteration excludes
            g = [f_not(f) for f, k in zip(b.pc[t.pclen:], b.pck[t.pclen:]) if k == 'b']
            g = [f for f in g if all(f in x.pc[t.pclen:] for x in backs) and not (f_deps(f) & junk) and self.trip_count(st, f, nid) is not None]
            if not g:
                raise Unsupported('loop iteration leaves the loop unconditionally')
            tests.add(('left', g[0]))
        if not tests:
            raise Unsupported('loop without an exit test')
        N = None
        tests = set((tb, c) for tb, f in tests for c in (f[1] if f[0] == 'and' else [f]))
        for (tb, cont) in sorted(tests, key=lambda x: (str(x[0]), f_str(x[1]))):
            if set(cont_deps(cont)) & junk:
                raise Unsupported('loop test depends on a value without an inferred invariant')
            N1 = self.trip_count(st, cont, nid)
            if N1 is None:
                raise Unsupported('trip count of loop test %s' % f_str(cont))
            if N1.deps() & junk or nid in N1.deps():
                raise Unsupported('trip count')
            if len(tests) > 1 and cont[0] == 'ne' and not self.solver.entails(st.pc, f_le(ZERO, N1)):
                raise Unsupported('loop with several exits')
            if N is None or self.solver.entails(st.pc, f_le(N1, N)):
                N = N1
            elif not self.solver.entails(st.pc, f_le(N, N1)):
                return ('presplit', f_le(N, N1))
        nonneg = f_le(ZERO, N)
        if not self.solver.entails(st.pc, nonneg):
            if cont[0] == 'ne':
                raise Unsupported('loop may count past its bound')
            if self.solver.entails(st.pc, f_not(nonneg)):
                N = ZERO
            else:
                return ('split', nonneg)
        if limit is None and self.fail[-1]:
            # obligations that precede the test: judged again for the iterations that take place
            return ('limit', Subst({nid: ZERO}).poly(N))
        conts = set(c for _, c in tests)
        only = Subst({nid: ZERO}) if N == ONE else None
        # array interference
        mods = {}
        for b in backs:
            for oid, o in b.mem.items():
                if o.kind == 'arr' and oid < t.nextobj:
                    if o.chain is not t.entry[oid]:
                        mods.setdefault(oid, []).append(b)
                    if st.mem[oid].length != o.length:
                        raise Unsupported('array resized in a loop')
            for oid in t.entry:
                if oid not in b.mem:
                    raise Unsupported('array freed in a loop')
        items = {oid: [] for oid in mods}
        cnt = 0
        for b in backs:
            guard = [f for f, k in zip(b.pc[t.pclen:], b.pck[t.pclen:]) if k == 'b' and f not in conts]
            if any(f_deps(g) & junk for g in guard):
                if any(oid in mods and b in mods[oid] for oid in mods):
                    raise Unsupported('array write guarded by a value without an inferred invariant')
            for oid in mods:
                o = b.mem[oid]
                nodes = []
                n = o.chain
                while n is not t.entry[oid]:
                    if n is None:
                        raise Unsupported('array replaced in a loop')
                    nodes.append(n)
                    n = n.parent
                for n in reversed(nodes):
                    if n.kind == 'w':
                        idx, off, v = n.data
                        if val_deps(v) & junk or idx.deps() & junk:
                            raise Unsupported('array element depends on a value without an inferred invariant')
                        cnt += 1
                        items[oid].append(Item([(nid, N)], list(guard), idx, off, v, cnt))
                    elif n.kind == 'g':
                        for it in n.data:
                            if val_deps(it.val) & junk or it.idx.deps() & junk:
                                raise Unsupported('array element depends on a value without an inferred invariant')
                            cnt += 1
                            items[oid].append(Item([(nid, N)] + it.vars, list(guard) + it.guard, it.idx, it.off, it.val, cnt))
                    else:
                        raise Unsupported('array replaced in a loop')
        if any(not isinstance(it.val, Poly) for its in items.values() for it in its):
            only = None
        if only is not None:
            for its in items.values():
                its[:] = [Item([(b, only.poly(x)) for b, x in it.vars[1:]], [only.form(g) for g in it.guard], only.poly(it.idx), it.off, only.val(it.val), it.ord) for it in its]
        for b in backs if only is None else []:
            tk = b.tracks[len(outer_tracks)]
            for (oid, idx, off, pc) in tk.reads:
                if oid in items:
                    for it in items[oid]:
                        if it.off != off:
                            continue
                        self.no_interference(pc, it, idx, nid)
        # text output: every iteration appends the same items
        appended = {}
        for key in st.ghost:
            if key[0] == 'file' and any(b.ghost.get(key) != st.ghost[key] for b in backs):
                raise Unsupported('file written in a loop')
            if key[0] != 'log':
                continue
            logs = [b.ghost[key] for b in backs]
            if all(l == (('base',),) for l in logs):
                continue
            if any(l != logs[0] for l in logs) or logs[0][:1] != (('base',),):
                raise Unsupported('text output of a loop differs from path to path')
            if log_deps(logs[0]) & junk:
                raise Unsupported('text output depends on a value without an inferred invariant')
            appended[key] = logs[0][1:]
        if any(key[0] == 'file' and key not in st.ghost for b in backs for key in b.ghost):
            raise Unsupported('file written in a loop')
        # exit state
        out = st.clone()
        for key, its in appended.items():
            if not N.is_zero():
                out.ghost[key] = out.ghost[key] + (('rep', nid, N, its),)
        f3 = out.frames[-1]
        nN = Subst({nid: N})
        last = Subst({nid: N - ONE})
        ge1 = self.solver.entails(st.pc, f_le(ONE, N))
        zero = N.is_zero()
        for cell in written:
            o = out.mem.get(cell[0])
            if o is None:
                continue
            if o.kind != 'flat':
                continue
            if cell in ivs:
                v0 = entryvals[cell]
                d = ivs[cell]
                o.cells[cell[1]] = Ptr(v0.obj, v0.idx + N * d, v0.off) if isinstance(v0, Ptr) else v0 + N * d
            elif zero:
                continue
            else:
                vs = [b.mem[cell[0]].cells.get(cell[1], UNDEF) for b in backs]
                v = vs[0]
                v0 = o.cells.get(cell[1], UNDEF)
                if len(backs) == 1 and ge1 and isinstance(v, Poly) and not (v.deps() & junk):
                    o.cells[cell[1]] = last.poly(v)
                elif all(same(x, v0) for x in vs):
                    pass
                elif isinstance(v, Poly):
                    o.cells[cell[1]] = fresh('afterloop', INT if self.cell_int_v(v) else REAL)
                else:
                    o.cells.pop(cell[1], None)
            o.ver = self.tick()
        for oid, its in items.items():
            o = out.mem[oid]
            if not zero:
                o.chain = Node('g', its, o.chain)
        # propagate accesses to the enclosing loops
        for k, ot in enumerate(out.tracks):
            for b in backs:
                bt = b.tracks[k]
                ot.written |= bt.written
                ot.rbw |= bt.rbw
                ot.reads += [r for r in bt.reads if r not in ot.reads]
                ot.arrw_before_test = ot.arrw_before_test or bt.arrw_before_test
        f3.block, f3.i = header, 0
        # run the header once more with the counter at its final value: the test must fail
        return ('done', out)

    def cell_int(self, st, cell):
        return True

    def cell_int_v(self, v):
        return v.is_int()

    def no_interference(self, pc, it, idx, nid):
        """no earlier iteration of the loop writes idx (read in iteration n)"""
        # rename the bound variables of the writer
        ren = {}
        nv = []
        for (b, N) in it.vars:
            f = fresh('m', INT, 0)
            ren[b] = f
            nv.append((b, f, N))
        sub = Subst(ren)
        it2 = Item([(list(f.atoms())[0], sub.poly(N)) for b, f, N in nv], [sub.form(g) for g in it.guard], sub.poly(it.idx), it.off, it.val, it.ord)
        m0 = nv[0][1]
        n = P(ATOMS[nid])
        u = self.unify(pc, it2, idx)
        if u is None:
            return
        sb, sol, cond = u
        mid = it2.vars[0][0]
        earlier = f_lt(sol[mid], n)
        f = f_not(f_and([cond, earlier]))
        if not self.solver.entails(pc, f):
            raise Unsupported('loop iteration reads what an earlier iteration wrote')

    def trip_count(self, st, cont, nid):
        n = ((nid, 1),)
        if cont[0] in ('le', 'lt'):
            p = cont[1]
            c = p.t.get(n)
            if c is None or nid in (p - Poly({n: c})).deps():
                return None
            rest = p - Poly({n: c})
            if not rest.is_int() or type(c) is not int or c <= 0:
                return None
            # c*n + rest <= 0  <=> n <= floor(-rest/c)
            if c == 1:
                return (-rest) + ONE
            q = self.intdiv_floor(-rest, c)
            return q + ONE
        if cont[0] == 'ne':
            p = cont[1]
            c = p.t.get(n)
            if c in (1, -1):
                rest = p - Poly({n: c})
                if nid in rest.deps():
                    return None
                return rest if c == -1 else -rest
        return None

    def intdiv_floor(self, a, k):
        ip, rem = floor_poly(a.scale(Fraction(1, k)))
        return ip + (floor_rem(rem) if rem.t else ZERO)


class _Exit:
    pass


EXIT = _Exit()


class PathInfeasible(Exception):
    pass


def cont_deps(f):
    return f_deps(f)


def log_deps(items):
    """atoms a piece of text output depends on"""
    out = frozenset()
    for it in items:
        if it[0] in ('num', 'int'):
            out |= val_deps(it[1])
        elif it[0] == 'rep':
            out |= it[2].deps() | log_deps(it[3])
    return out


def log_subst(sub, items):
    out = []
    for it in items:
        if it[0] in ('num', 'int'):
            out.append((it[0], subst_val(sub, it[1])))
        elif it[0] == 'rep':
            out.append(('rep', it[1], sub.poly(it[2]), log_subst(sub, it[3])))
        else:
            out.append(it)
    return tuple(out)


def val_deps(v):
    if isinstance(v, Poly):
        return v.deps()
    if isinstance(v, BoolV):
        return f_deps(v.f)
    if isinstance(v, Ptr):
        return v.idx.deps() if isinstance(v.idx, Poly) else frozenset()
    return frozenset()


def subst_val(sub, v):
    if isinstance(v, Poly):
        return sub.poly(v)
    if isinstance(v, BoolV):
        f = sub.form(v.f)
        return ONE if f == TRUE else (ZERO if f == FALSE else BoolV(f))
    return v


def is_concrete(v):
    if isinstance(v, Poly):
        return v.is_const()
    if isinstance(v, Ptr):
        return (v.idx is None or v.idx.is_const()) and not isinstance(v.off, Poly)
    return isinstance(v, (FnPtr,)) or v in (TRUE, FALSE)


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, VecRef):
        return a.arr == b.arr
    if isinstance(a, Undef):
        return True
    return a == b


def realz():
    return ZERO


# ---- Grid index contract terms -------------------------------------------
def idx_atom(p):
    """the IDX atom if p is exactly one"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            if a.kind == 'idx':
                return a
    return None


def digit_atom(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'digit':
            return ATOMS[m[0][0]]
    return None


def idx_shape(a):
    return a.args[:5]


def idx_coords(a):
    return a.args[5:]


def idx_total(a):
    return idx_total_of(a.args[:5])


def mk_digit(shape, d, p):
    a = idx_atom(p)
    if a is not None and idx_shape(a) == shape:
        return idx_coords(a)[d]
    return P(mk_atom('digit', 'digit', tuple(shape) + (d, p), INT))


def idx_total_of(shape):
    dim, nx, ny, nz, pad = shape
    n = [nx, ny, nz]
    tot = ONE
    for d in range(3):
        tot = tot * (n[d] + pad.scale(2) if d < dim else n[d])
    return tot


def mk_idx(dim, n, pad, coords):
    ds = [digit_atom(c) for c in coords]
    if all(x is not None and x.args[:5] == (dim, n[0], n[1], n[2], pad) and x.args[5] == k and x.args[6] == ds[0].args[6] for k, x in enumerate(ds)):
        return ds[0].args[6]
    a = mk_atom('idx', 'IDX', (dim, n[0], n[1], n[2], pad) + tuple(coords), INT, 0)
    return P(a)


REBUILD['idx'] = lambda a: mk_idx(a[0], a[1:4], a[4], a[5:])
REBUILD['digit'] = lambda a: mk_digit(a[:5], a[5], a[6])


def find_ite_atom(a):
    # innermost ite first
    for x in a.args:
        if isinstance(x, Poly):
            for i in x.atoms():
                if ATOMS[i].ites:
                    r = find_ite_atom(ATOMS[i])
                    if r is not None:
                        return r
        elif isinstance(x, tuple) and x and isinstance(x[0], str):
            for p in f_polys(x):
                for i in p.atoms():
                    if ATOMS[i].ites:
                        r = find_ite_atom(ATOMS[i])
                        if r is not None:
                            return r
    return a if a.kind == 'ite' else None


class IteSubst(Subst):
    """replace every ite on condition f by one of its branches"""

    def __init__(self, f, take):
        self.f = f
        self.take_ = take
        self.am = {}
        self.pw = {}
        self.mp = {}
        self.dom = None

    def poly(self, p):
        if not p.has_ite():
            return p
        out = ZERO
        for m, c in p.t.items():
            keep = []
            fac = None
            for (i, e) in m:
                r = self.atom(i)
                if r is None:
                    keep.append((i, e))
                else:
                    f = ppow(r, e) if e > 0 else ppow(div(ONE, r), -e)
                    fac = f if fac is None else fac * f
            q = Poly({tuple(keep): c})
            out = out + (q if fac is None else q * fac)
        return out

    def atom(self, i):
        if i in self.am:
            return self.am[i]
        a = ATOMS[i]
        if not a.ites:
            r = None
        elif a.kind == 'ite' and a.args[0] == self.f:
            r = self.poly(a.args[1] if self.take_ else a.args[2])
        else:
            args = tuple(self.poly(x) if isinstance(x, Poly) else (self.form(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x) for x in a.args)
            r = rebuild(a, args)
        self.am[i] = r
        return r


def solve_eq(p):
    """p == 0 with a symbol occurring linearly with coefficient +-1: (id, poly)"""
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'sym' and c in (1, -1):
            i = m[0][0]
            rest = p - Poly({m: c})
            if i not in rest.deps():
                return i, (rest.scale(-1) if c == 1 else rest)
    return None


def short(d):
    d = re.sub(r'\(.*$', '', d)
    d = d.replace('GALS::CPU::', '').replace('GALS::', '')
    return d


def short_op(ins):
    return ins.op
