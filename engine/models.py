"""Trusted models of library functions, verification intrinsics and the one
contract (grid index) that replaces calls to already-verified code."""
import re
from fractions import Fraction
from terms import *
import machine as M
from machine import (Ptr, FnPtr, BoolV, VecRef, StrV, Opaque, Agg, UNDEF, NULL, Node, Item, Unsupported, Split, EXIT,
                     PathInfeasible, mk_idx, subst_val)

TOO_BIG = 64


def split_targs(s):
    """top-level template argument list of 'a<b,c>' text starting after '<'"""
    d = 0
    out = []
    cur = ''
    for i, c in enumerate(s):
        if c in '<(':
            d += 1
        elif c in '>)':
            if d == 0:
                out.append(cur.strip())
                return out, i
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    return out, len(s)


def lookup(mc, name):
    d = mc.dem.get(name, name)
    if name.startswith('vp_'):
        f = globals().get('i_' + name)
        if f is None:
            raise Unsupported('unknown intrinsic ' + name)
        return ('model', f)
    if name.startswith('llvm.'):
        base = name.split('.')[1]
        f = globals().get('l_' + base)
        if f is not None:
            return ('model', f)
        raise Unsupported('intrinsic ' + name)
    if mc.stubs:
        for pat, f in mc.stubs.items():
            if re.match(pat, name):
                return ('model', f)
    r = lib_lookup(mc, name, d)
    if r is not None:
        return ('model', r)
    fn = mc.mod.funcs.get(name)
    if fn is not None:
        return ('fn', fn.parse())
    raise Unsupported('no body and no model for ' + d[:120])


def strip_ret(d):
    """function templates print their return type first: drop it"""
    m = re.match(r'^(?:[\w:]+(?:<.*?>)?[&*]? )(std::.*)$', d)
    return m.group(1) if m else d


def lib_lookup(mc, name, d):
    tm = re.match(r'(?:void|auto|std::vector<.*>&) (std::vector<.*)', d) if not d.startswith('std::vector<') else None
    if tm and re.search(r'>::(assign|emplace_back)<', d):
        d = tm.group(1)
    if d.startswith('std::vector<'):
        targs, end = split_targs(d[len('std::vector<'):])
        rest = d[len('std::vector<') + end + 1:]
        m = re.match(r'::(~?\w+|operator[^(]*|operator\(\))\((.*)\)( const)?$', rest)
        if not m and re.match(r'::(vector|assign|emplace_back)<', rest):
            ta, e2 = split_targs(rest[rest.index('<') + 1:])
            m = re.match(r'(~?\w+)\((.*)\)( const)?$', re.match(r'::(\w+)', rest).group(1) + rest[rest.index('<') + 1 + e2 + 1:])
        if m:
            return vec_model(targs[0], m.group(1), m.group(2))
    f = C_FUNCS.get(name)
    if f:
        return f
    if d.startswith('std::__cxx11::basic_string<'):
        targs, end = split_targs(d[len('std::__cxx11::basic_string<'):])
        rest = d[len('std::__cxx11::basic_string<') + end + 1:]
        m = re.match(r'::(~?\w+|operator[^(]*)(?:<[^(]*>)?\((.*)\)( const)?$', rest)
        if m:
            f = STR.get(m.group(1))
            if f:
                return f(m.group(2)) if getattr(f, 'factory', False) else f
        if not rest.startswith(' std::operator+<char'):
            return None
    if d.startswith('std::map<'):
        targs, end = split_targs(d[len('std::map<'):])
        rest = d[len('std::map<') + end + 1:]
        m = re.match(r'::(~?\w+|operator[^(]*)\((.*)\)( const)?$', rest)
        if m:
            return MAP.get(m.group(1), map_no)
        return None
    r = stream_lookup(d)
    if r is not None:
        return r
    if re.match(r'std::ios_base::Init::', d):
        return m_nop
    if re.match(r'std::(allocator|__new_allocator)<.*>::(~?allocator|~?__new_allocator|operator=)', d):
        return m_ret0
    if re.match(r'std::pair<std::__cxx11::basic_string<.*::~pair\(\)', d):
        return m_nop
    if re.match(r'std::pair<std::__cxx11::basic_string<.*::pair<', d):
        return m_pair
    if re.match(r'std::initializer_list<.*>::(begin|end|size)', d):
        return None
    mm = re.match(r'(?:.*__type )?std::(sqrt|abs|fabs|floor|atan|ceil|pow|cos|sin|min|max)<(.*)>\((.*)\)', d)
    if mm and mm.group(1) in ('sqrt', 'fabs', 'floor', 'atan', 'ceil', 'abs', 'cos', 'sin') and mm.group(1) != 'min':
        return MATH1[mm.group(1)]
    if re.match(r'std::(abs|fabs|floor|sqrt)\(double\)', d):
        return MATH1[re.match(r'std::(\w+)', d).group(1)]
    if d.startswith('std::strcmp'):
        return m_strcmp
    if 'std::operator+<char' in d and d.startswith('std::__cxx11::basic_string'):
        return m_strcat
    if d.startswith('bool std::operator==<char') or d.startswith('bool std::operator!=<char'):
        return m_streq if '==' in d[:24] else m_strne
    return None


# ---------------------------------------------------------------- library: text output
# A string or file stream made by the program carries its text as a list of items: characters,
# numbers (by value; how a number is spelled is left to the library), repetitions made by loops.
# Other streams (std::cout) have no effect.
OSTREAM = r'(?:std::ostream|std::basic_ostream<char, std::char_traits<char>>)'


def stream_lookup(d):
    m = re.match(OSTREAM + r'::(operator<<|put|write|flush)\((.*)\)$', d)
    if m:
        if m.group(1) == 'operator<<':
            return m_out(m.group(2))
        if m.group(1) == 'put':
            return m_out('char')
        if m.group(1) == 'write':
            return m_out('bytes')
        return m_ret0
    m = re.search(r'std::operator<<\s?<.*?>\(' + OSTREAM + r'&, (.*)\)$', d)
    if m:
        return m_out(m.group(1))
    if d.startswith('std::endl') or re.search(r' std::endl<', d):
        return m_out('endl')
    if re.search(r' std::(flush|ends)<', d) or d.startswith('std::flush'):
        return m_ret0 if 'flush' in d else m_out('ends')
    if re.match(r'std::(__cxx11::)?basic_o?stringstream<', d):
        m = re.search(r'>::(~?\w+)\((.*)\)( const)?$', d)
        if m and m.group(1).startswith('basic_') and m.group(2) == '':
            return m_sopen
        if m and m.group(1).startswith('~'):
            return m_nop
        if m and m.group(1) == 'str' and m.group(2) == '':
            return m_sstr
        return m_stream_no
    if re.match(r'std::basic_ofstream<', d):
        m = re.search(r'>::(~?\w+)\((.*)\)( const)?$', d)
        if m and m.group(1) == 'basic_ofstream' and m.group(2) == '':
            return m_sopen
        if m and m.group(1) in ('basic_ofstream', 'open') and 'basic_ofstream' not in m.group(2):
            return m_fopen
        if m and m.group(1) in ('close', '~basic_ofstream'):
            return m_fclose
        if m and m.group(1) == 'is_open':
            return m_fisopen
        return m_stream_no
    if re.match(r'std::basic_ios<.*>::operator bool', d) or re.match(r'std::basic_ios<.*>::good', d):
        return m_true
    if re.match(r'std::basic_ios<.*>::(operator!|fail|bad)', d):
        return m_false
    if re.match(r'std::ios_base::(precision|width|setf|unsetf|flags)', d) or re.match(r'std::basic_ios<.*>::fill', d):
        return m_fmt
    if d.startswith('std::operator<<') or ('operator<<' in d and d.startswith('std::basic_ostream')):
        return m_out('?')
    return None


def m_stream_no(mc, st, a, ins):
    raise Unsupported('stream operation')


def m_true(mc, st, a, ins):
    mc.assumptions.add('files can be opened and written')
    return TRUE


def m_false(mc, st, a, ins):
    mc.assumptions.add('files can be opened and written')
    return FALSE


def m_fmt(mc, st, a, ins):
    p = a[0]
    if isinstance(p, Ptr) and ('log', p.obj) in st.ghost:
        st.ghost[('log', p.obj)] += (('format', mc.tick()),)
        return C(6)
    return C(6)


def chars(t):
    return tuple(('c', c) for c in t)


def m_out(kind):
    def f(mc, st, a, ins):
        key = ('log', a[0].obj) if isinstance(a[0], Ptr) else None
        if key not in st.ghost:
            return a[0]
        st.ghost[key] += items_of(mc, st, kind, a)
        return a[0]
    return f


def items_of(mc, st, kind, a):
    if kind == 'endl':
        return chars('\n')
    if kind == 'ends':
        return chars('\0')
    if kind in ('double', 'float'):
        return (('num', mc.topoly(a[1])),)
    if kind in ('int', 'long', 'unsigned int', 'unsigned long', 'short', 'unsigned short', 'long long', 'unsigned long long'):
        return (('int', mc.topoly(a[1])),)
    if kind == 'char':
        q = mc.topoly(a[1])
        return chars(chr(int(q.const()) & 255)) if q.is_const() else (('?', mc.tick()),)
    if kind in ('char const*', 'bytes') or kind.startswith('std::__cxx11::basic_string<'):
        v = cstr_or_str(mc, st, a[1]) if kind[0] == 's' else cstring(mc, st, a[1])
        if kind == 'bytes':
            n = mc.topoly(a[2])
            if not n.is_const() or v.text is None or n.const() > len(v.text):
                return (('?', mc.tick()),)
            v = StrV(v.text[:int(n.const())])
        if v.text is not None:
            return chars(v.text)
        if v.symname in mc.logtext:
            return mc.logtext[v.symname]
        return (('text', v.symname),)
    if '(*)' in kind and isinstance(a[1], FnPtr):
        n = a[1].name
        if 'endl' in n:
            return chars('\n')
        if 'flush' in n:
            return ()
    return (('?', mc.tick()),)


def m_sopen(mc, st, a, ins):
    st.ghost[('log', a[0].obj)] = ()
    vt = mc.new_flat(st, 64, 'vtable')
    st.mem[vt].cells[0] = C(8)
    mc.store_cell(st, a[0], Ptr(vt, None, 24))
    return None


def m_sstr(mc, st, a, ins):
    """string str() const: result through the first argument"""
    log = st.ghost.get(('log', a[1].obj))
    if log is None or ('base',) in log:
        raise Unsupported('text of a stream')
    if all(i[0] == 'c' for i in log):
        v = StrV(''.join(i[1] for i in log))
    else:
        nm = 'log!%d' % mc.tick()
        mc.logtext[nm] = log
        v = StrV(None, nm)
    mc.store_cell(st, a[0], v)
    return None


def m_fopen(mc, st, a, ins):
    v = cstr_or_str(mc, st, a[1])
    mode = mc.topoly(a[2])
    if not mode.is_const() or int(mode.const()) & ~(16 | 32 | 4 | 1) or int(mode.const()) & 33 == 33:
        raise Unsupported('file opened with another mode')
    if ('open', a[0].obj) in st.ghost:
        raise Unsupported('stream opened twice')
    m_sopen(mc, st, a, ins)
    st.ghost[('open', a[0].obj)] = v
    if int(mode.const()) & 1:
        st.ghost[('log', a[0].obj)] = file_text(mc, st, v)
    mc.assumptions.add('files can be opened and written')
    return None


def m_fclose(mc, st, a, ins):
    v = st.ghost.pop(('open', a[0].obj), None)
    if v is not None:
        for t in st.tracks:
            if a[0].obj < t.nextobj:
                raise Unsupported('file closed in a loop')
        st.ghost[('file', v)] = st.ghost[('log', a[0].obj)]
        order = st.ghost.get(('files',), ())
        st.ghost[('files',)] = order + (v,)
    return None


def m_fisopen(mc, st, a, ins):
    return TRUE if ('open', a[0].obj) in st.ghost else FALSE


def file_text(mc, st, name):
    """the text of a file, by the last write to it"""
    for v in reversed(st.ghost.get(('files',), ())):
        e = str_equal(mc, st, v, name)
        if mc.decide(st, e):
            return st.ghost[('file', v)]
    return (('text', 'what the file held before'),)


def i_vp_read_file(mc, st, a, ins):
    st.ghost[('log', a[0].obj)] = file_text(mc, st, strv_at(mc, st, a[1]))
    return None


def i_vp_path(mc, st, a, ins):
    mc.store_cell(st, a[0], StrV(None, '%s#path' % cname(mc, st, a[1])))
    return None


def i_vp_fmt(mc, st, a, ins):
    return None


def i_vp_same_text(mc, st, a, ins):
    name = cname(mc, st, a[0])
    x, y = st.ghost.get(('log', a[1].obj)), st.ghost.get(('log', a[2].obj))
    if x is None or y is None or ('base',) in x or ('base',) in y:
        raise Unsupported('text of a stream')
    same_text(mc, st, name, x, y)
    return None


def text_shape(x):
    return tuple((i[0], text_shape(i[3])) if i[0] == 'rep' else i[0] for i in x)


def same_text(mc, st, name, x, y):
    for i in range(max(len(x), len(y))):
        p = x[i] if i < len(x) else ('end',)
        q = y[i] if i < len(y) else ('end',)
        why = None
        if p[0] != q[0]:
            why = 'differs'
        elif p[0] in ('num', 'int'):
            mc.prove_eq(st, p[1], q[1], name)
        elif p[0] == 'rep' and text_shape(p[3]) != text_shape(q[3]):
            why = 'differs'
        elif p[0] == 'rep':
            if not mc.prove_eq(st, p[2], q[2], name + ' (number of repetitions)'):
                return
            n = P(ATOMS[p[1]])
            s2 = st.clone()
            s2.assume(f_le(ZERO, n))
            s2.assume(f_lt(n, p[2]))
            same_text(mc, s2, name, p[3], M.log_subst(Subst({q[1]: n}), q[3]))
        elif p != q:
            why = 'differs'
        if why:
            mc.obl[-1].append((name, 'post', 'undecided', 'text', mc.where(st)))
            mc.fail[-1].append(M.Failure(name, 'post', 'text differs at item %d: %s instead of %s' % (i, text_item(p), text_item(q)), st.pc, FALSE, None, 'undecided', mc.where(st)))
            return
    mc.obl[-1].append((name, 'post', 'discharged', 'text', mc.where(st)))


def text_item(p):
    if p[0] in ('num', 'int'):
        return 'the number ' + poly_str(p[1])[:200]
    if p[0] == 'rep':
        return 'a repetition (%s times)' % poly_str(p[2])
    return repr(p[1]) if len(p) > 1 else p[0]


# ---------------------------------------------------------------- library: plain functions
def m_ret0(mc, st, a, ins):
    return a[0] if a else None


def m_nop(mc, st, a, ins):
    return None


def m_exit(mc, st, a, ins):
    mode = st.ghost.get('exit')
    if mode == 'expected':
        st.ghost['exited'] = True
        mc.obl[-1].append(('the process terminates', 'post', 'discharged', 'path', mc.where(st)))
        mc.reach.setdefault('exit', 0)
        mc.reach['exit'] += 1
        return EXIT
    mc.fail_now(st, 'program terminated', 'exit', 'the library terminates the process here')
    return EXIT


def m_atexit(mc, st, a, ins):
    return ZERO


def as_real(mc, v):
    return mc.topoly(v)


def m_sqrt(mc, st, a, ins):
    x = as_real(mc, a[0])
    if x.nn or x.is_const() and x.const() >= 0 or mc.decide(st, f_le(ZERO, x)):
        return mk_sqrt(x)
    return fresh('nan', REAL)   # any value: nothing can be proved about it


def m_fabs(mc, st, a, ins):
    v = as_real(mc, a[0])
    if v.is_const():
        return C(abs(Fraction(v.const())))
    fr = st.frames[-1]
    blk = fr.fn.blocks[fr.block]
    if not v.is_const() and ins.dst is not None:
        nx = next((i for i in blk[fr.i + 1:] if i.op != 'load'), ins)
        if nx.op == 'fcmp' and ('reg', ins.dst) in (tuple(nx.a[1]), tuple(nx.a[2])):
            uses = sum(1 for b in fr.fn.blocks.values() for i in b if re.search(r'%%%s(?![\w.])' % re.escape(ins.dst), i.text))
            if uses <= 2:
                return M.AbsV(v)      # compared and nothing else: no case split
    if mc.decide(st, f_le(ZERO, v)):
        return v
    return -v


def m_floor(mc, st, a, ins):
    v = as_real(mc, a[0])
    ip, rem = floor_poly(v)
    if rem.is_zero():
        return ip
    # does the path pin the remainder to [0,1)?
    if not rem.is_const():
        r = floor_rem(rem)
        if r.is_const():
            return ip + r
        if mc.solver.entails(st.pc, f_le(ZERO, rem)) and mc.solver.entails(st.pc, f_lt(rem, ONE)):
            return ip
        return ip + r
    return ip + floor_rem(rem)


def m_ceil(mc, st, a, ins):
    v = as_real(mc, a[0])
    return -m_floor(mc, st, [-v], ins)


def m_atan(mc, st, a, ins):
    v = as_real(mc, a[0])
    if v == ONE:
        return M.pi_atom().scale(Fraction(1, 4))
    return P(mk_atom('opaquefn', 'atan', (v,), REAL))


def m_trig(nm):
    def f(mc, st, a, ins):
        v = as_real(mc, a[0])
        if v.is_zero() and nm in ('cos', 'sin', 'exp'):
            return ZERO if nm == 'sin' else ONE
        if nm == 'acos' and v == C(-1):
            return M.pi_atom()
        return P(mk_atom('opaquefn', nm, (v,), REAL))
    return f


def m_pow(mc, st, a, ins):
    x, y = as_real(mc, a[0]), as_real(mc, a[1])
    if y.is_const() and int(y.const()) == y.const() and 0 <= y.const() <= 6:
        return ppow(x, int(y.const()))
    if y.is_const() and y.const() == Fraction(1, 2):
        return m_sqrt(mc, st, a, ins)
    return P(mk_atom('opaquefn', 'pow', (x, y), REAL))


def m_hypot(mc, st, a, ins):
    x, y = as_real(mc, a[0]), as_real(mc, a[1])
    return mk_sqrt(x * x + y * y)


def m_fmin(mc, st, a, ins):
    x, y = as_real(mc, a[0]), as_real(mc, a[1])
    return x if mc.decide(st, f_le(x, y)) else y


def m_fmax(mc, st, a, ins):
    x, y = as_real(mc, a[0]), as_real(mc, a[1])
    return y if mc.decide(st, f_le(x, y)) else x


def m_new(mc, st, a, ins):
    n = mc.topoly(a[0])
    if not n.is_const():
        raise Unsupported('raw allocation of symbolic size')
    return Ptr(mc.new_flat(st, int(n.const()), 'heap'), None, 0)


def m_delete(mc, st, a, ins):
    p = a[0]
    if isinstance(p, Ptr) and p.obj:
        if p.obj not in st.mem:
            mc.fail_now(st, 'double free', 'memory', 'storage freed twice')
            raise PathInfeasible()
        for t in st.tracks:
            if p.obj < t.nextobj:
                raise Unsupported('storage freed in a loop')
        st.mem.pop(p.obj, None)
    return None


def cstring(mc, st, p):
    o = mc.get_obj(st, p, 'string')
    s = o.cells.get('cstr')
    if s is None:
        v = o.cells.get('strv')
        if v is not None:
            return v
        raise Unsupported('string contents unknown')
    off = p.off
    s = s[off:]
    return StrV(s[:s.index(b'\0')].decode('latin1'))


def str_equal(mc, st, a, b):
    """formula for equality of two StrV"""
    if a.text is not None and b.text is not None:
        return TRUE if a.text == b.text else FALSE
    if a == b:
        return TRUE
    k = tuple(sorted([str(a.symname or 'T:' + a.text), str(b.symname or 'T:' + b.text)]))
    if a.text is None and b.text is None:
        return bsym('streq(%s,%s)' % k)
    s, t = (a, b) if a.text is None else (b, a)
    # distinct constants exclude each other
    known = [f for f in st.pc if f[0] == 'b' and f[2] and str(ATOMS[f[1]].name).startswith('streq(')]
    nm = 'streq(%s,%s)' % k
    for f in known:
        other = str(ATOMS[f[1]].name)
        if other != nm and str(s.symname) in other and 'T:' in other:
            return FALSE
    if s.symname in mc.strlen:
        return f_and([bsym(nm), f_eq(sym('strlen(%s)' % (s.symname,), INT, 0), C(len(t.text)))])
    return bsym(nm)


def m_strcmp(mc, st, a, ins):
    x, y = cstring(mc, st, a[0]), cstring(mc, st, a[1])
    return str_order(mc, st, x, y)


def str_order(mc, st, x, y):
    if mc.decide(st, str_equal(mc, st, x, y)):
        return ZERO
    if x.text is not None and y.text is not None:
        return ONE if x.text > y.text else -ONE
    return ONE if mc.decide(st, bsym('strlt(%s,%s)' % (y, x))) else -ONE


def strv_at(mc, st, p):
    v = mc.load_cell(st, p)
    if not isinstance(v, StrV):
        raise Unsupported('string object contents unknown')
    return v


def m_streq(mc, st, a, ins):
    x = cstr_or_str(mc, st, a[0])
    y = cstr_or_str(mc, st, a[1])
    return str_equal(mc, st, x, y)


def m_strne(mc, st, a, ins):
    return f_not(m_streq(mc, st, a, ins))


def cstr_or_str(mc, st, p):
    o = mc.get_obj(st, p, 'string')
    if 'cstr' in o.cells or 'strv' in o.cells:
        return cstring(mc, st, p)
    return strv_at(mc, st, p)


MATH1 = {'sqrt': m_sqrt, 'fabs': m_fabs, 'abs': m_fabs, 'floor': m_floor, 'atan': m_atan, 'ceil': m_ceil,
         'cos': m_trig('cos'), 'sin': m_trig('sin')}
C_FUNCS = {'exit': m_exit, 'abort': m_exit, '_exit': m_exit, '__cxa_atexit': m_atexit, 'atexit': m_atexit,
           'sqrt': m_sqrt, 'fabs': m_fabs, 'floor': m_floor, 'ceil': m_ceil, 'atan': m_atan, 'pow': m_pow,
           'fmin': m_fmin, 'hypot': m_hypot, 'fmax': m_fmax, 'strcmp': m_strcmp, 'cos': m_trig('cos'), 'sin': m_trig('sin'),
           'acos': m_trig('acos'), 'exp': m_trig('exp'),
           '_Znwm': m_new, '_Znam': m_new, '_ZdlPv': m_delete, '_ZdlPvm': m_delete, '_ZdaPv': m_delete}


# ---------------------------------------------------------------- llvm intrinsics
def l_fabs(mc, st, a, ins):
    return m_fabs(mc, st, a, ins)


def l_floor(mc, st, a, ins):
    return m_floor(mc, st, a, ins)


def l_ceil(mc, st, a, ins):
    return m_ceil(mc, st, a, ins)


def l_sqrt(mc, st, a, ins):
    return m_sqrt(mc, st, a, ins)


def l_pow(mc, st, a, ins):
    return m_pow(mc, st, a, ins)


def l_fmuladd(mc, st, a, ins):
    return mc.topoly(a[0]) * mc.topoly(a[1]) + mc.topoly(a[2])


def l_minnum(mc, st, a, ins):
    return m_fmin(mc, st, a, ins)


def l_maxnum(mc, st, a, ins):
    return m_fmax(mc, st, a, ins)


def l_trunc(mc, st, a, ins):
    v = as_real(mc, a[0])
    if mc.decide(st, f_le(ZERO, v)):
        return m_floor(mc, st, a, ins)
    return m_ceil(mc, st, a, ins)


def l_smax(mc, st, a, ins):
    x, y = mc.topoly(a[0]), mc.topoly(a[1])
    return y if mc.decide(st, f_le(x, y)) else x


def l_smin(mc, st, a, ins):
    x, y = mc.topoly(a[0]), mc.topoly(a[1])
    return x if mc.decide(st, f_le(x, y)) else y


def l_abs(mc, st, a, ins):
    return m_fabs(mc, st, a, ins)


def l_trap(mc, st, a, ins):
    return m_exit(mc, st, a, ins)


def l_memset(mc, st, a, ins):
    p, v, n = a[0], a[1], mc.topoly(a[2])
    if not (isinstance(v, Poly) and v.is_zero() and n.is_const()):
        raise Unsupported('memset')
    o = mc.get_obj(st, p, 'memset')
    if o.kind != 'flat':
        raise Unsupported('memset on array')
    base = p.off
    # zero cells are created lazily at every offset that is later read
    for k in [k for k in o.cells if isinstance(k, int) and base <= k < base + int(n.const())]:
        del o.cells[k]
    step = 4 if int(n.const()) % 8 else 8
    for k in range(base, base + int(n.const()), 4):
        o.cells[k] = ZERO
        mc.note_write(st, p.obj, k)
    o.ver = mc.tick()
    return None


def l_memcpy(mc, st, a, ins):
    dst, src, n = a[0], a[1], mc.topoly(a[2])
    if n.is_const():
        copy_bytes(mc, st, dst, src, int(n.const()))
    else:
        copy_many(mc, st, dst, src, n)
    return None


l_memmove = l_memcpy


def copy_many(mc, st, dst, src, n):
    """memmove of a symbolic number of whole elements between two arrays"""
    so = mc.get_obj(st, src, 'copy')
    do = mc.get_obj(st, dst, 'copy')
    es = so.esize if so.kind == 'arr' else 0
    if so.kind != 'arr' or do.kind != 'arr' or do.esize != es or src.off != 0 or dst.off != 0 or src.obj == dst.obj:
        raise Unsupported('copy of symbolic size')
    k = n.scale(Fraction(1, es))
    if any(type(c) is not int for c in k.t.values()) or not k.is_int():
        raise Unsupported('copy of symbolic size')
    for p, o in ((src, so), (dst, do)):
        mc.prove(st, f_and([f_le(ZERO, p.idx), f_le(p.idx + k, o.length)]), 'copy inside the array', 'bounds')
    if not mc.solver.entails(st.pc, f_le(ZERO, k)):
        raise Unsupported('copy of symbolic size')
    if src.idx.is_zero() and dst.idx.is_zero() and k == so.length and k == do.length and so.cells == do.cells:
        do.chain = so.chain
        do.ver = mc.tick()
        for t in st.tracks:
            raise Unsupported('copy of a whole array in a loop')
        return
    v = fresh('n', INT, 0)
    nid = list(v.atoms())[0]
    s2 = st.clone()
    s2.assume(f_lt(v, k))
    its = []
    for c, off in enumerate(x for x in so.cells if isinstance(x, int)):
        try:
            val = mc.arr_read(s2, src.obj, s2.mem[src.obj], src.idx + v, off)
        except Split:
            raise Unsupported('copy of symbolic size')
        if not isinstance(val, Poly):
            raise Unsupported('copy of symbolic size')
        its.append(Item([(nid, k)], [], dst.idx + v, off, val, c))
    if st.tracks:
        raise Unsupported('copy of symbolic size in a loop')
    do.chain = Node('g', its, do.chain)
    do.ver = mc.tick()


def copy_bytes(mc, st, dst, src, n):
    if n == 0:
        return
    so = mc.get_obj(st, src, 'copy')
    mc.get_obj(st, dst, 'copy')
    if so.kind == 'flat':
        base = mc.conc_off(st, src, so)
        if base + n > so.size:
            mc.fail_now(st, 'bounds', 'memory', 'copy beyond the end of an object')
            raise PathInfeasible()
        places = [(Ptr(src.obj, src.idx, k), k - base) for k in sorted(k for k in so.cells if isinstance(k, int) and base <= k < base + n)]
    else:
        if not isinstance(src.off, int):
            if isinstance(src.off, tuple) and n % 8 == 0:
                places = [(mc.ptr_add(st, src, C(8 * k)), 8 * k) for k in range(n // 8)]
            else:
                raise Unsupported('copy from inside an element')
        else:
            es = so.esize
            if (src.off + n + es - 1) // es > 64:
                raise Unsupported('copy of many elements')
            places = [(Ptr(src.obj, src.idx + C(e), k), e * es + k - src.off)
                      for e in range((src.off + n + es - 1) // es) for k in sorted(k for k in so.cells if isinstance(k, int))
                      if src.off <= e * es + k < src.off + n]
    vals = []
    for p, d in places:
        v = mc.load_cell(st, p)
        if isinstance(v, VecRef):
            raise Unsupported('bitwise copy of a vector')
        vals.append((v, d))
    for v, d in vals:
        q = mc.ptr_add(st, dst, C(d))
        if v is not UNDEF:
            mc.store_cell(st, q, v)


# ---------------------------------------------------------------- std::vector
def esize_of(mc, T):
    k = ('esize', T)
    r = mc.def_cells.get(k)
    if r is not None:
        return r
    basic = {'double': 8, 'int': 4, 'float': 4, 'unsigned long': 8, 'long': 8, 'char': 1, 'bool': 1, 'unsigned int': 4}
    if T in basic:
        r = basic[T]
    else:
        m = re.match(r'GALS::CPU::(Vec3|Mat3|VecN)<(\w+)(?:, (\d+))?>$', T)
        if m:
            e = basic[m.group(2)]
            # take the size from the compiled type where it is available
            r = {'Vec3': 3 * e, 'Mat3': 9 * e, 'VecN': 24}[m.group(1)]
            for nm, dn in mc.dem.items():
                if nm in mc.mod.funcs and dn.startswith('std::vector<%s, ' % T) and '::operator[](unsigned long)' in dn:
                    f = mc.mod.funcs[nm].parse()
                    for b in f.blocks.values():
                        for i in b:
                            if i.op == 'getelementptr' and i.ty[0] != 'struct' and len(i.a) == 2:
                                r = mc.mod.size(i.ty)
        elif T.startswith('std::__cxx11::basic_string'):
            r = 32
        else:
            raise Unsupported('vector of ' + T)
    mc.def_cells[k] = r
    return r


def default_cells(mc, st, T):
    """cells of a value-initialised T, obtained by running T's own default constructor"""
    k = ('def', T)
    r = mc.def_cells.get(k)
    if r is not None:
        return r
    if T in ('double', 'int', 'float', 'long', 'unsigned long', 'char', 'bool', 'unsigned int'):
        r = {0: ZERO}
    elif T.startswith('std::__cxx11::basic_string'):
        r = {0: StrV('')}
    else:
        base = re.sub(r'<.*$', '', T).split('::')[-1]
        want = '%s::%s()' % (T, base)
        ctor = None
        for nm, dn in mc.dem.items():
            if dn == want and nm in mc.mod.funcs:
                ctor = nm
        if ctor is None:
            raise Unsupported('no default constructor for ' + T)
        s = st.clone()
        s.tracks = []
        s.merge = False
        oid = mc.new_flat(s, esize_of(mc, T), 'scratch')
        s2, _ = mc.call_fn(s, ctor, [Ptr(oid, None, 0)])
        r = flatten_cells(mc, s2, s2.mem[oid])
    mc.def_cells[k] = r
    return r


def flatten_cells(mc, st, o):
    out = {}
    for off, v in o.cells.items():
        if isinstance(v, VecRef):
            a = st.mem[v.arr]
            if not a.length.is_const():
                raise Unsupported('nested vector of symbolic length')
            n = int(a.length.const())
            out[('s', off)] = C(n)
            out[('T', off)] = a.ety
            for j in range(n):
                for c in a.cells:
                    if c != 0:
                        raise Unsupported('nested vector of structures')
                    out[('v', off, j)] = mc.arr_read(st, v.arr, a, C(j), 0)
        else:
            out[off] = v
    return out


def vec_at(mc, st, p, create=None):
    """('flat', arrid) or ('nested', ptr, n)"""
    o = mc.get_obj(st, p, 'vector')
    if o.kind == 'flat':
        v = mc.load_cell(st, p)
        if isinstance(v, VecRef):
            return ('flat', v.arr)
        if isinstance(v, Opaque) and v.kind == 'havoc':
            raise Unsupported('vector kept in mutable global state')
        raise Unsupported('uninitialised vector object')
    n = mc.load_cell(st, Ptr(p.obj, p.idx, ('s', p.off)))
    if not (isinstance(n, Poly) and n.is_const()):
        raise Unsupported('nested vector')
    return ('nested', p, int(n.const()))


def put_vec(mc, st, p, arrid):
    """make the vector object at p own array arrid"""
    o = mc.get_obj(st, p, 'vector')
    if o.kind == 'flat':
        mc.store_cell(st, p, VecRef(arrid))
        return
    a = st.mem[arrid]
    if not a.length.is_const():
        raise Unsupported('nested vector of symbolic length')
    n = int(a.length.const())
    mc.store_cell(st, Ptr(p.obj, p.idx, ('s', p.off)), C(n))
    for j in range(n):
        mc.store_cell(st, Ptr(p.obj, p.idx, ('v', p.off, j)), mc.arr_read(st, arrid, a, C(j), 0))


def new_vec_arr(mc, st, T, length, chain=None, cells=None):
    d = cells if cells is not None else default_cells(mc, st, T)
    return mc.new_arr(st, length, esize_of(mc, T), T, chain if chain is not None else Node('default', d, None), [k for k in d if not isinstance(k, tuple)] if cells is None else cells, T)


def vec_len(mc, st, p):
    v = vec_at(mc, st, p)
    if v[0] == 'flat':
        return st.mem[v[1]].length
    return C(v[2])


def snapshot(mc, st, p, T):
    """array id holding a copy of the contents of the vector at p"""
    v = vec_at(mc, st, p)
    if v[0] == 'flat':
        a = st.mem[v[1]]
        # reads that happen later through the copy must be seen by the loop analysis
        for t in st.tracks:
            if v[1] < t.nextobj and a.chain is not t.entry.get(v[1]):
                raise Unsupported('copy of an array modified in the loop')
        return mc.new_arr(st, a.length, a.esize, a.ety, a.chain, a.cells, a.name)
    _, q, n = v
    arr = new_vec_arr(mc, st, T, C(n))
    a = st.mem[arr]
    for j in range(n):
        a.chain = Node('w', (C(j), 0, mc.load_cell(st, Ptr(q.obj, q.idx, ('v', q.off, j)))), a.chain)
    return arr


def vec_model(T, meth, params):
    def at(mc, st, a, ins):
        p, i = a[0], mc.topoly(a[1])
        v = vec_at(mc, st, p)
        if v[0] == 'flat':
            arr = st.mem[v[1]]
            return Ptr(v[1], i, 0)
        _, q, n = v
        if not i.is_const():
            for j in range(n):
                if mc.decide(st, f_eq(i, C(j))):
                    i = C(j)
                    break
        if not i.is_const() or not (0 <= int(i.const()) < n):
            mc.fail_now(st, 'bounds', 'memory', 'index %r into a vector of %d elements' % (i, n))
            raise PathInfeasible()
        return Ptr(q.obj, q.idx, ('v', q.off, int(i.const())))

    def size(mc, st, a, ins):
        return vec_len(mc, st, a[0])

    def empty(mc, st, a, ins):
        return f_eq(vec_len(mc, st, a[0]), ZERO)

    def ctor(mc, st, a, ins):
        ps = params
        if ps == '' or ps.startswith('std::allocator') and len(a) == 2 and 'std::vector' not in ps:
            put_vec(mc, st, a[0], new_vec_arr(mc, st, T, ZERO))
        elif ps.startswith('std::vector<'):
            put_vec(mc, st, a[0], snapshot(mc, st, a[1], T))
            moved(mc, st, a)
        elif len(a) >= 3 and isinstance(a[1], Ptr) and isinstance(a[2], Ptr) and not ps.startswith('std::initializer'):
            put_vec(mc, st, a[0], from_range(mc, st, a[1], a[2]))
        elif ps.startswith('unsigned long, std::allocator'):
            n = mc.topoly(a[1])
            put_vec(mc, st, a[0], new_vec_arr(mc, st, T, n))
        elif ps.startswith('unsigned long, %s const&' % T):
            n = mc.topoly(a[1])
            arr = new_vec_arr(mc, st, T, n)
            fill(mc, st, arr, a[2])
            put_vec(mc, st, a[0], arr)
        elif ps.startswith('std::initializer_list'):
            p, n = a[1], mc.topoly(a[2])
            if not n.is_const():
                raise Unsupported('initializer list')
            arr = new_vec_arr(mc, st, T, n)
            ar = st.mem[arr]
            es = esize_of(mc, T)
            for j in range(int(n.const())):
                for c in ar.cells:
                    v = mc.load_cell(st, mc.ptr_add(st, p, C(j * es + c)))
                    ar.chain = Node('w', (C(j), c, v), ar.chain)
            put_vec(mc, st, a[0], arr)
        else:
            raise Unsupported('vector constructor (%s)' % ps[:60])
        return None

    def fill(mc, st, arr, valptr):
        ar = st.mem[arr]
        cells = {}
        so = mc.get_obj(st, valptr, 'fill')
        if so.kind == 'flat' and any(isinstance(v, VecRef) for v in so.cells.values()):
            cells = flatten_cells(mc, st, so)
        else:
            for c in ar.cells:
                cells[c] = mc.load_cell(st, mc.ptr_add(st, valptr, C(c)))
        ar.chain = Node('default', cells, None)

    def dtor(mc, st, a, ins):
        o = st.mem.get(a[0].obj) if isinstance(a[0], Ptr) else None
        if o is not None and o.kind == 'flat':
            v = o.cells.pop(a[0].off, None)
            mc.note_write(st, a[0].obj, a[0].off)
            if isinstance(v, VecRef):
                if not any(v.arr < t.nextobj for t in st.tracks):
                    st.mem.pop(v.arr, None)
        return None

    def resize(mc, st, a, ins):
        n = mc.topoly(a[1])
        v = vec_at(mc, st, a[0])
        if v[0] == 'nested':
            raise Unsupported('resize of a nested vector')
        ar = st.mem[v[1]]
        if ar.length == n:
            return None
        if ar.length.is_zero():
            new = new_vec_arr(mc, st, T, n)
            if len(a) > 2 and 'const&' in params:
                fill(mc, st, new, a[2])
            put_vec(mc, st, a[0], new)
            return None
        if ar.length.is_const() and n.is_const():
            new = new_vec_arr(mc, st, T, n)
            b = st.mem[new]
            for j in range(min(int(n.const()), int(ar.length.const()))):
                for c in b.cells:
                    b.chain = Node('w', (C(j), c, mc.arr_read(st, v[1], ar, C(j), c)), b.chain)
            put_vec(mc, st, a[0], new)
            return None
        if mc.decide(st, f_eq(ar.length, ZERO)):
            put_vec(mc, st, a[0], new_vec_arr(mc, st, T, n))
            return None
        # keep the old contents; elements beyond the old length are value-initialised
        if mc.decide(st, f_le(n, ar.length)):
            new = mc.new_arr(st, n, ar.esize, ar.ety, ar.chain, ar.cells, ar.name)
            put_vec(mc, st, a[0], new)
            return None
        d = default_cells(mc, st, T)
        old = ar.length
        nv = fresh('n', INT, 0)
        nid = list(nv.atoms())[0]
        items = [M.Item([(nid, n - old)], [], old + nv, off, val, 0) for off, val in d.items()]
        new = mc.new_arr(st, n, ar.esize, ar.ety, Node('g', items, ar.chain), ar.cells, ar.name)
        put_vec(mc, st, a[0], new)
        return None

    def assign(mc, st, a, ins):
        # copy or move assignment (a moved-from vector is not inspected again)
        if params.startswith('std::initializer_list'):
            raise Unsupported('initializer list assignment')
        if isinstance(a[1], Ptr) and a[0] == a[1]:
            return a[0]
        put_vec(mc, st, a[0], snapshot(mc, st, a[1], T))
        moved(mc, st, a)
        return a[0]

    def moved(mc, st, a):
        # a moved-from vector is empty
        if params.endswith('&&') and vec_at(mc, st, a[1])[0] == 'flat':
            put_vec(mc, st, a[1], new_vec_arr(mc, st, T, ZERO))

    def from_range(mc, st, b, e):
        """array holding a copy of [b, e)"""
        if isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj == e.obj and b.obj in st.mem:
            o = st.mem[b.obj]
            es = esize_of(mc, T)
            n = mc.ptr_diff(st, e, b).scale(Fraction(1, es))
            if n.is_const() and 0 <= n.const() <= TOO_BIG:
                arr = new_vec_arr(mc, st, T, n)
                ar = st.mem[arr]
                for j in range(int(n.const())):
                    for c in ar.cells:
                        v = mc.load_cell(st, mc.ptr_add(st, b, C(j * es + c)))
                        ar.chain = Node('w', (C(j), c, v), ar.chain)
                return arr
            if o.kind == 'arr' and o.ety == T and b.idx.is_zero() and b.off == 0 and e.off == 0:
                for t in st.tracks:
                    if b.obj < t.nextobj and o.chain is not t.entry.get(b.obj):
                        raise Unsupported('copy of an array modified in the loop')
                mc.prove(st, f_and([f_le(ZERO, e.idx), f_le(e.idx, o.length)]), 'range inside the array', 'bounds')
                return mc.new_arr(st, e.idx, o.esize, o.ety, o.chain, o.cells, o.name)
        raise Unsupported('vector from a range')

    def clear(mc, st, a, ins):
        v = vec_at(mc, st, a[0])
        if v[0] == 'nested':
            raise Unsupported('clear of nested vector')
        put_vec(mc, st, a[0], new_vec_arr(mc, st, T, ZERO))
        return None

    def swap(mc, st, a, ins):
        v, w = vec_at(mc, st, a[0]), vec_at(mc, st, a[1])
        if v[0] != 'flat' or w[0] != 'flat':
            raise Unsupported('swap of nested vectors')
        put_vec(mc, st, a[0], w[1])
        put_vec(mc, st, a[1], v[1])
        return None

    def vassign(mc, st, a, ins):
        if not params.startswith('unsigned long'):
            if len(a) >= 3 and isinstance(a[1], Ptr) and isinstance(a[2], Ptr):
                put_vec(mc, st, a[0], from_range(mc, st, a[1], a[2]))
                return None
            raise Unsupported('vector::assign')
        new = new_vec_arr(mc, st, T, mc.topoly(a[1]))
        fill(mc, st, new, a[2])
        put_vec(mc, st, a[0], new)
        return None

    def begin(mc, st, a, ins):
        v = vec_at(mc, st, a[0])
        if v[0] == 'flat':
            return Ptr(v[1], ZERO, 0)
        return Ptr(v[1].obj, v[1].idx, ('v', v[1].off, 0))

    def end(mc, st, a, ins):
        v = vec_at(mc, st, a[0])
        if v[0] == 'flat':
            return Ptr(v[1], st.mem[v[1]].length, 0)
        return Ptr(v[1].obj, v[1].idx, ('v', v[1].off, v[2]))

    def front(mc, st, a, ins):
        return at(mc, st, [a[0], ZERO], ins)

    def back(mc, st, a, ins):
        return at(mc, st, [a[0], vec_len(mc, st, a[0]) - ONE], ins)

    def push_back(mc, st, a, ins):
        v = vec_at(mc, st, a[0])
        if v[0] == 'nested' or any(v[1] < t.nextobj for t in st.tracks):
            raise Unsupported('push_back in a loop')
        ar = st.mem[v[1]]
        chain = ar.chain
        so = mc.get_obj(st, a[1], 'push')
        for c in ar.cells or [0]:
            chain = Node('w', (ar.length, c, mc.load_cell(st, mc.ptr_add(st, a[1], C(c)))), chain)
        new = mc.new_arr(st, ar.length + ONE, ar.esize, ar.ety, chain, ar.cells, ar.name)
        put_vec(mc, st, a[0], new)
        return None

    def vat(mc, st, a, ins):
        p, i = a[0], mc.topoly(a[1])
        n = vec_len(mc, st, p)
        mc.prove(st, f_and([f_le(ZERO, i), f_lt(i, n)]), 'vector::at index in range', 'memory')
        return at(mc, st, a, ins)
    table = {'operator[]': at, 'at': vat, 'size': size, 'empty': empty, 'vector': ctor, '~vector': dtor, 'resize': resize,
             'operator=': assign, 'clear': clear, 'shrink_to_fit': m_nop, 'reserve': m_nop, 'data': begin, 'begin': begin, 'end': end,
             'cbegin': begin, 'cend': end, 'front': front, 'back': back, 'push_back': push_back, 'emplace_back': push_back,
             'swap': swap, 'assign': vassign, 'capacity': size}
    f = table.get(meth)
    if f is None:
        def f(mc, st, a, ins):
            raise Unsupported('std::vector::' + meth)
    return f


# ---------------------------------------------------------------- std::string / std::map
def s_ctor(params):
    def f(mc, st, a, ins):
        if params == '' or params.startswith('std::allocator'):
            v = StrV('')
        elif params.startswith('char const*'):
            v = cstring(mc, st, a[1])
        elif params.startswith('std::__cxx11::basic_string'):
            v = strv_at(mc, st, a[1])
            if params.endswith('&&'):
                mc.store_cell(st, a[1], StrV(''))
        else:
            raise Unsupported('string constructor')
        mc.store_cell(st, a[0], v)
        return None
    return f


s_ctor.factory = True


def s_dtor(mc, st, a, ins):
    return None


def s_assign(params):
    def f(mc, st, a, ins):
        if len(a) != 2 or not isinstance(a[1], Ptr):
            raise Unsupported('string assignment')
        v = cstring(mc, st, a[1]) if params.startswith('char const*') else strv_at(mc, st, a[1])
        if params.endswith('&&'):
            mc.store_cell(st, a[1], StrV(''))
        mc.store_cell(st, a[0], v)
        return a[0]
    return f


s_assign.factory = True


def s_size(mc, st, a, ins):
    v = strv_at(mc, st, a[0])
    if v.text is not None:
        return C(len(v.text))
    for f in st.pc:
        if f[0] == 'b' and f[2] and str(ATOMS[f[1]].name).startswith('streq('):
            k = str(ATOMS[f[1]].name)[6:-1]
            for x, y in (k.split(',', 1),):
                for s, t in ((x, y), (y, x)):
                    if s == str(v.symname) and t.startswith('T:'):
                        return C(len(t) - 2)
    mc.strlen.add(v.symname)
    return sym('strlen(%s)' % (v.symname,), INT, 0)


def s_empty(mc, st, a, ins):
    return f_eq(s_size(mc, st, a, ins), ZERO)


def s_swap(mc, st, a, ins):
    x, y = strv_at(mc, st, a[0]), strv_at(mc, st, a[1])
    mc.store_cell(st, a[0], y)
    mc.store_cell(st, a[1], x)
    return None


def s_clear(mc, st, a, ins):
    mc.store_cell(st, a[0], StrV(''))
    return None


PARTS = {}   # of a text put together from others


def cat(x, y):
    if x.text == '':
        return y
    if y.text == '':
        return x
    if x.text is not None and y.text is not None:
        return StrV(x.text + y.text)
    # one name for a text however it was put together
    ps = PARTS.get(x.symname, [x.symname or 'T:' + x.text]) + PARTS.get(y.symname, [y.symname or 'T:' + y.text])
    out = []
    for q in ps:
        if out and out[-1].startswith('T:') and q.startswith('T:'):
            out[-1] += q[2:]
        else:
            out.append(q)
    nm = 'cat(%s)' % '|'.join(out)
    PARTS[nm] = out
    return StrV(None, nm)


def s_append(mc, st, a, ins):
    if len(a) != 2 or not isinstance(a[1], Ptr):
        raise Unsupported('string append')
    mc.store_cell(st, a[0], cat(strv_at(mc, st, a[0]), cstr_or_str(mc, st, a[1])))
    return a[0]


def m_strcat(mc, st, a, ins):
    # std::operator+(x, y): the result object is the first argument
    if len(a) != 3 or not isinstance(a[1], Ptr) or not isinstance(a[2], Ptr):
        raise Unsupported('string concatenation')
    mc.store_cell(st, a[0], cat(cstr_or_str(mc, st, a[1]), cstr_or_str(mc, st, a[2])))
    return None


def s_cstr(mc, st, a, ins):
    v = strv_at(mc, st, a[0])
    oid = mc.new_flat(st, 1 << 20, 'c_str')
    o = st.mem[oid]
    if v.text is not None:
        o.cells['cstr'] = v.text.encode('latin1') + b'\0'
    else:
        o.cells['strv'] = v
    return Ptr(oid, None, 0)


def s_compare(params):
    def f(mc, st, a, ins):
        x = strv_at(mc, st, a[0])
        y = cstring(mc, st, a[1]) if params.startswith('char const*') else strv_at(mc, st, a[1])
        return str_order(mc, st, x, y)
    return f


s_compare.factory = True
STR = {'basic_string': s_ctor, '~basic_string': s_dtor, 'operator=': s_assign, 'assign': s_assign, 'c_str': s_cstr, 'data': s_cstr, 'compare': s_compare,
       'size': s_size, 'length': s_size, 'empty': s_empty, 'swap': s_swap, 'clear': s_clear, 'operator+=': s_append, 'append': s_append}


def m_pair(mc, st, a, ins):
    # pair<const string, enum>(const char (&)[N], Enum&&)
    mc.store_cell(st, a[0], cstr_or_str(mc, st, a[1]))
    mc.store_cell(st, mc.ptr_add(st, a[0], C(32)), mc.load_cell(st, a[2]))
    return None


# A map is its end node and its entries (key, node); a node is laid out as in libstdc++:
# 32 bytes of tree links, the key at 32, the value at 64.
def map_node(mc, st, key, val):
    o = mc.new_flat(st, 104, 'mapnode')
    mc.store_cell(st, Ptr(o, None, 32), key)
    mc.store_cell(st, Ptr(o, None, 64), val)
    return o


def map_ctor(mc, st, a, ins):
    ents = []
    if len(a) >= 3 and isinstance(a[1], Ptr) and isinstance(a[2], Poly):
        for j in range(int(a[2].const())):
            e = mc.ptr_add(st, a[1], C(40 * j))
            k, v = strv_at(mc, st, e), mc.load_cell(st, mc.ptr_add(st, e, C(32)))
            if any(k == x for x, _ in ents):
                continue
            ents.append((k, map_node(mc, st, k, v)))
    elif len(a) != 1:
        raise Unsupported('std::map constructor')
    end = mc.new_flat(st, 48, 'mapend')
    mc.store_cell(st, a[0], Opaque('map', (end, tuple(ents))))
    return None


def map_at(mc, st, p):
    m = mc.load_cell(st, p)
    if not (isinstance(m, Opaque) and m.kind == 'map'):
        raise Unsupported('map contents unknown')
    return m.data


def map_find_node(mc, st, p, key, ins):
    """node of the key, or None.  A map that some code indexes may have gained the key earlier, value-initialised."""
    end, ents = map_at(mc, st, p)
    for k, o in ents:
        if mc.decide(st, str_equal(mc, st, key, k)):
            return o
    if p.obj in mc.globobj.values() and key.text is None and grows(mc, ins.a[0][1]):
        if mc.decide(st, bsym('known(%d,%s)' % (p.obj, key.symname))):
            o = map_node(mc, st, key, ZERO)
            mc.store_cell(st, p, Opaque('map', (end, ents + ((key, o),))))
            return o
    return None


def grows(mc, name):
    m = re.match(r'_ZN?K?(St3mapI.*?SaISt4pairI.*?E\w*?E)', name)
    c = mc.__dict__.setdefault('_grows', {})
    if 'v' not in c:
        c['v'] = any('St3map' in n and 'EixE' in n for n in list(mc.mod.funcs) + list(mc.mod.decls))
    return c['v']


def map_index(mc, st, a, ins):
    key = strv_at(mc, st, a[1])
    end, ents = map_at(mc, st, a[0])
    for k, o in ents:
        if mc.decide(st, str_equal(mc, st, key, k)):
            return Ptr(o, None, 64)
    o = map_node(mc, st, key, ZERO)
    mc.store_cell(st, a[0], Opaque('map', (end, ents + ((key, o),))))
    return Ptr(o, None, 64)


def map_get(mc, st, a, ins):
    o = map_find_node(mc, st, a[0], strv_at(mc, st, a[1]), ins)
    return m_exit(mc, st, a, ins) if o is None else Ptr(o, None, 64)


def map_find(mc, st, a, ins):
    o = map_find_node(mc, st, a[0], strv_at(mc, st, a[1]), ins)
    return Ptr(map_at(mc, st, a[0])[0] if o is None else o, None, 0)


def map_count(mc, st, a, ins):
    return ONE if map_find_node(mc, st, a[0], strv_at(mc, st, a[1]), ins) is not None else ZERO


def map_end(mc, st, a, ins):
    return Ptr(map_at(mc, st, a[0])[0], None, 0)


def map_no(mc, st, a, ins):
    raise Unsupported('std::map operation')


MAP = {'map': map_ctor, '~map': m_nop, 'operator[]': map_index, 'at': map_get, 'find': map_find, 'count': map_count, 'end': map_end, 'cend': map_end}


# ---------------------------------------------------------------- contract of Grid::index
def grid_dim(name):
    m = re.search(r'4GridIdLi(\d)EE', name)
    return int(m.group(1))


def grid_shape(mc, st, gp, dim):
    """counts and padding of the grid object, through its own public accessors"""
    o = st.mem.get(gp.obj)
    if o is None or o.kind != 'flat':
        raise Unsupported('grid object')
    key = (gp.obj, gp.off, o.ver)
    r = mc.shape_cache.get(key)
    if r is not None:
        return r
    s = st.clone()
    s.tracks = []
    s.merge = False
    mc.obl.append([])
    mc.fail.append([])
    try:
        ret = mc.new_flat(s, 16, 'shape')
        s2, _ = mc.call_fn(s, 'gridshape_%d' % dim, [gp, Ptr(ret, None, 0)])
        n = [s2.mem[ret].cells[k] for k in (0, 4, 8)]
        pad = s2.mem[ret].cells[12]
    finally:
        mc.obl.pop()
        mc.fail.pop()
    r = (n, pad)
    mc.shape_cache[key] = r
    return r


def stub_index(mc, st, a, ins):
    name = ins.a[0][1]
    dim = grid_dim(name)
    gp = a[0]
    if name.endswith('5indexEiii'):
        co = [mc.topoly(x) for x in a[1:4]]
    elif not isinstance(a[1], Ptr):
        # node id passed in registers
        ws = [a[1].lo, a[1].hi, a[2]] if isinstance(a[1], M.Packed) else None
        if ws is None:
            raise Unsupported('node id argument')
        co = [mc.topoly(x) if x is not UNDEF else fresh('uninit', INT) for x in ws]
    else:
        co = []
        for k in (0, 4, 8):
            v = mc.load_cell(st, mc.ptr_add(st, a[1], C(k)))
            co.append(mc.topoly(v) if v is not UNDEF else fresh('uninit', INT))
    n, pad = grid_shape(mc, st, gp, dim)
    key = (dim, tuple(n), pad, tuple(co[:dim]), st.pc)
    done = mc.contracts_used.setdefault('Grid<double,%d>::index' % dim, set())
    for d in range(dim):
        mc.prove(st, f_and([f_le(-pad, co[d]), f_lt(co[d], n[d] + pad)]), 'coordinate %s inside the padded box (precondition of the grid index)' % 'xyz'[d], 'precondition')
    done.add(key[:4])
    return mk_idx(dim, n, pad, co[:dim])


INDEX_STUBS = {r'_ZNK4GALS3CPU4GridIdLi[123]EE5indexE(iii|NS0_4Vec3IiEE)$': stub_index}


# ---------------------------------------------------------------- verification intrinsics
def cname(mc, st, p):
    return cstring(mc, st, p).text


def i_vp_int(mc, st, a, ins):
    nm = cname(mc, st, a[0])
    lo, hi = mc.topoly(a[1]), mc.topoly(a[2])
    s = sym('i:' + nm, INT)
    at = ATOMS[list(s.atoms())[0]]
    l, _ = interval(lo)
    _, h = interval(hi)
    if at.meta is None:
        at.meta = ('bounds', lo.key(), hi.key())
        set_bounds(at, lo=l, hi=h)
    elif at.meta != ('bounds', lo.key(), hi.key()):
        raise Unsupported('symbol %s redefined' % nm)
    st.assume(f_le(lo, s), 'f')
    st.assume(f_le(s, hi), 'f')
    return s


def i_vp_real(mc, st, a, ins):
    return sym('r:' + cname(mc, st, a[0]), REAL)


def i_vp_pos(mc, st, a, ins):
    return sym('r:' + cname(mc, st, a[0]), REAL, pos=True)


def i_vp_unit(mc, st, a, ins):
    s = sym('r:' + cname(mc, st, a[0]), REAL, 0, 1)
    ATOMS[list(s.atoms())[0]].meta = 'unit'
    return s


def i_vp_fn(mc, st, a, ins):
    nm = cname(mc, st, a[0])
    return app('f:' + nm, [mc.topoly(x) for x in a[1:]], REAL)


def i_vp_fnunit(mc, st, a, ins):
    nm = cname(mc, st, a[0])
    s = app('f:' + nm, [mc.topoly(x) for x in a[1:]], REAL, 0, 1)
    ATOMS[list(s.atoms())[0]].meta = 'unit'
    return s


FAM = {}


def i_vp_fnint(mc, st, a, ins):
    """integer family with values in [lo,hi]; (fam, m, i, j, k, lo, hi)"""
    nm = cname(mc, st, a[0])
    lo, hi = mc.topoly(a[5]), mc.topoly(a[6])
    l, _ = interval(lo)
    _, h = interval(hi)
    old = FAM.get('f:' + nm)
    if old is not None and old != (lo, hi):
        raise Unsupported('family redefined')
    FAM['f:' + nm] = (lo, hi)
    return app('f:' + nm, [mc.topoly(x) for x in a[1:5]], INT, l, h)


def i_vp_assume(mc, st, a, ins):
    f = mc.toform(a[0])
    if f == FALSE:
        raise PathInfeasible()
    st.assume(f, 'f' if not st.tracks else 'b')
    if f[0] in ('lt', 'le') and len(st.tracks) == 0:
        r = mc.solver._z3(st.pc, TRUE, full=True, timeout=1500)
        if r == 'unsat':
            raise PathInfeasible()
    return None


def i_vp_check(mc, st, a, ins):
    mc.prove(st, mc.toform(a[1]), cname(mc, st, a[0]), 'post')
    return None


def i_vp_eq(mc, st, a, ins):
    mc.prove_eq(st, mc.topoly(a[1]), mc.topoly(a[2]), cname(mc, st, a[0]))
    return None


def i_vp_eqi(mc, st, a, ins):
    mc.prove_eq(st, mc.topoly(a[1]), mc.topoly(a[2]), cname(mc, st, a[0]))
    return None


def i_vp_reach(mc, st, a, ins):
    nm = cname(mc, st, a[0])
    if mc.reach.get(nm, 0) < 1:
        r = mc.solver._z3(st.pc, TRUE, full=True, timeout=5000)
        mc.reach.setdefault(nm, 0)
        if r == 'sat':
            mc.reach[nm] += 1
        elif r == 'unknown':
            mc.reach[nm] += 0.5
    return None


def i_vp_expect_exit(mc, st, a, ins):
    st.ghost['exit'] = 'expected'
    return None


def i_vp_no_exit(mc, st, a, ins):
    """the call before this point had to terminate the process and did not"""
    mc.fail_now(st, cname(mc, st, a[0]), 'post', 'the process was required to terminate and did not')
    raise PathInfeasible()


def i_vp_merge(mc, st, a, ins):
    st.merge = not mc.topoly(a[0]).is_zero()
    return None


def i_vp_any_iteration(mc, st, a, ins):
    mc.any_iteration = not mc.topoly(a[0]).is_zero()
    return None


def i_vp_any_int(mc, st, a, ins):
    return fresh('any', INT)


def i_vp_key(mc, st, a, ins):
    q = mc.topoly(a[0])
    parent = q.const()
    if not q.is_const():
        raise Unsupported('document node depends on data')
    return key_id(mc, parent, cstr_or_str(mc, st, a[1]))


def i_vp_keys(mc, st, a, ins):
    q = mc.topoly(a[0])
    parent = q.const()
    if not q.is_const():
        raise Unsupported('document node depends on data')
    return key_id(mc, parent, strv_at(mc, st, a[1]))


def key_id(mc, parent, sv):
    """a number per path of keys"""
    return C(mc.keys.setdefault((parent, sv.text, sv.symname), len(mc.keys) + 1))


def i_vp_text(mc, st, a, ins):
    q = mc.topoly(a[2])
    n = q.const()
    if not q.is_const():
        raise Unsupported('document node depends on data')
    mc.store_cell(st, a[0], StrV(None, '%s#%s' % (cname(mc, st, a[1]), n)))
    return None


def i_vp_eqs(mc, st, a, ins):
    x, y = strv_at(mc, st, a[1]), strv_at(mc, st, a[2])
    mc.prove(st, str_equal(mc, st, x, y), cname(mc, st, a[0]), 'post')
    return None


def i_vp_native(mc, st, a, ins):
    return ZERO


def i_vp_large(mc, st, a, ins):
    return None


def i_vp_index_body(mc, st, a, ins):
    """verify the grid index function itself instead of using its contract"""
    return None


def i_vp_symbolic(mc, st, a, ins):
    return ONE


def i_vp_string(mc, st, a, ins):
    """construct a symbolic string object at a[0] with name a[1]"""
    mc.store_cell(st, a[0], StrV(None, cname(mc, st, a[1])))
    return None


def axioms(i):
    """facts that hold of an atom by construction"""
    a = ATOMS[i]
    if a.kind == 'idx':
        return [f_le(P(a), M.idx_total(a) - ONE)]
    if a.kind == 'digit':
        n, pad = a.args[1 + a.args[5]], a.args[4]
        return [f_le(-pad, P(a)), f_lt(P(a), n + pad)]
    if a.kind == 'app' and a.name in FAM and a.sort == INT:
        lo, hi = FAM[a.name]
        return [f_le(lo, P(a)), f_le(P(a), hi)]
    return []
