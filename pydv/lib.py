"""Assumed contracts of Python built-ins and of the library functions the code calls (the trusted base)."""
import z3
from fractions import Fraction
from .values import *
from . import text as X

I0 = z3.IntVal(0)
BUILTINS = {'len', 'range', 'enumerate', 'zip', 'sum', 'min', 'max', 'abs', 'round', 'sorted', 'reversed', 'isinstance',
            'type', 'id', 'print', 'any', 'all', 'map', 'filter', 'open', 'getattr', 'setattr', 'hasattr', 'super',
            'format', 'repr', 'exit', 'divmod', 'callable', 'iter', 'next', 'ord', 'chr', 'pow', 'vars', 'input'}
TYPES = {'list', 'tuple', 'dict', 'set', 'int', 'float', 'str', 'bool', 'frozenset', 'object', 'bytes', 'complex'}


def call_builtin(ex, f, args, kw):
    n = f.name
    if f.self_ is not None or n.startswith('.'):
        return call_meth(ex, f.self_, n.lstrip('.').replace('nd.', ''), args, kw)
    g = globals().get('b_' + n.replace('.', '_'))
    if g is None:
        if '.' in n and n.split('.')[0] in TYPES:
            return call_meth(ex, args[0], n.split('.')[1], args[1:], kw)
        raise Unsupported('call of external function ' + n)
    ex.assumed.add(n)
    return g(ex, args, kw)


def b_print(ex, a, kw):
    f = kw.get('file')
    if f is not None:
        parts = []
        for i, v in enumerate(a):
            parts += ([' '] if i else []) + [ex.fmt_value(v)]
        X.file_meth(ex, f, 'write', [ex.tcat(parts + ['\n'])], {})
    return None


def b_len(ex, a, kw):
    v = a[0]
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, (LCell, HList, Row)):
        return ex.llen(v)
    if isinstance(v, DCell):
        c = ex.st.cells[v.cid]
        if isinstance(c, CDict):
            return len(c.d)
    if isinstance(v, DView) and isinstance(v.d, DCell):
        c = ex.st.cells[v.d.cid]
        if isinstance(c, CDict):
            return len(c.d)
    if X.is_text(v) or (isinstance(v, TStr) and ex.opts.get('text')):
        n = X.LEN(X.term(ex, v))
        ex.st.pc.append(n >= 0)
        return n
    if isinstance(v, TStr) or (is_z(v) and v.sort() == z3.StringSort()):
        return z3.Length(ex.zstr(v))
    if isinstance(v, SCell):
        c = ex.st.cells[v.cid]
        if isinstance(c, CList) and not any(is_z(x) for x in c.items):
            return len(c.items)
    if isinstance(v, Nd):
        return len(v.rows)
    if isinstance(v, NdSym):
        return v.n
    if isinstance(v, (Obj, Ref)):
        m = ex.find_method(v, '__len__')
        if m:
            return ex.call_func(m, [v], {})
    raise Unsupported('len')


def b_range(ex, a, kw):
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if all(isinstance(x, int) for x in (lo, hi, st)):
        if len(range(lo, hi, st)) <= 64:
            return ex.new_list(CList(list(range(lo, hi, st))))
    if st != 1:
        raise Unsupported('range step')
    d = ex.arith('-', hi, lo)
    if isinstance(d, int) and d <= 0:
        return ex.new_list(CList([]))
    n = z3.simplify(z3.If(zn(hi) > zn(lo), zn(hi) - zn(lo), I0))
    # exact small counts known on this path
    if is_z(n):
        for h in ex.opts.get('fixed_range', ()):
            if ex.entails(n == h):
                return ex.new_list(CList([ex.arith('+', lo, i) for i in range(h)]))
    return IterSp(zn(n), lambda k: z3.simplify(zn(lo) + zn(k)), None, 'range')


class PairT(tuple):
    """Concrete result of enumerate or zip; lists: the lists it reads while it is iterated."""
    def __new__(cls, xs, lists):
        t = tuple.__new__(cls, xs)
        t.lists = lists
        return t


def live(vs):
    return [l for v in vs for l in ([v] if isinstance(v, (HList, LCell)) else getattr(v, 'lists', []))]


def b_enumerate(ex, a, kw):
    start = a[1] if len(a) > 1 else kw.get('start', 0)
    it = ex.iter_of(a[0])
    if isinstance(it, list):
        return PairT([(ex.arith('+', start, i), v) for i, v in enumerate(it)], live(a[:1]))
    return IterSp(it.n, lambda k: (z3.simplify(zn(start) + zn(k)), it.elem(k)), it.src, it.prov, lists=it.lists)


def b_zip(ex, a, kw):
    if len(a) == 2 and all(isinstance(x, LCell) for x in a):
        c0, c1 = ex.content(a[0]), ex.content(a[1])
        f0 = getattr(c0, 'dictkeys', None)
        f1 = getattr(c1, 'dictvals', None)
        if f0 is not None and f1 is not None and f0[0].eq(f1[0]) and f0[1].eq(f1[1]):
            return ('zipdict', f0)
    its = [ex.iter_of(x) for x in a]
    if all(isinstance(i, list) for i in its):
        return PairT(zip(*its), live(a))
    its = [i if isinstance(i, IterSp) else None for i in its]
    if any(i is None for i in its):
        raise Unsupported('zip of mixed lengths')
    n = its[0].n
    for i in its[1:]:
        if not i.n.eq(n):
            n = z3.If(i.n < n, i.n, n)
    return IterSp(z3.simplify(n), lambda k: tuple(i.elem(k) for i in its), its[0].src if n.eq(its[0].n) else None, its[0].prov, lists=[v for i in its for v in i.lists])


def psum(srt):
    """Prefix sum of an array: psum(el, k) = el[0] + ... + el[k-1]."""
    return z3.Function('psum_' + str(srt), z3.ArraySort(z3.IntSort(), srt), z3.IntSort(), srt)


def sum_of(ex, c):
    """Sum of a numeric symbolic list, with the recursive definition of prefix sums for its element array."""
    srt = z3.IntSort() if c.ety == 'Int' else z3.RealSort()
    f = psum(srt)
    k = z3.Int('k')
    zero = z3.IntVal(0) if c.ety == 'Int' else z3.RealVal(0)
    ex.st.pc += [f(c.el, I0) == zero,
                 z3.ForAll([k], z3.Implies(k >= 0, f(c.el, k + 1) == f(c.el, k) + c.el[k]), patterns=[f(c.el, k + 1)])]
    return f(c.el, c.n)


def b_sum(ex, a, kw):
    start = a[1] if len(a) > 1 else kw.get('start', 0)
    it = ex.iter_of(a[0])
    if isinstance(it, list):
        r = start
        for v in it:
            r = ex.arith('+', r, v)
        return r
    if it.src is not None and it.src.ety in ('Int', 'Real') and start == 0:
        return sum_of(ex, it.src)
    if it.src is not None and it.src.ety == ('Vect',):
        c = it.src
        acc = V3acc
        k = z3.Int('k')
        out = []
        s0 = ex.vect_coords(start) if isinstance(start, Obj) else [0, 0, 0]
        for q, s in zip(acc, s0):
            el = ex.fresh('cs', z3.ArraySort(z3.IntSort(), z3.RealSort()))
            ex.st.pc.append(z3.ForAll([k], el[k] == q(c.el[k]), patterns=[el[k]]))
            t = sum_of(ex, SymList(c.n, el, None, 'Real'))
            out.append(zreal(s) + t)
        return ex.new_vect(out)
    raise Unsupported('sum')


def minmax(ex, a, kw, ismin):
    if len(a) > 1:
        vals = list(a)
    else:
        it = ex.iter_of(a[0])
        if isinstance(it, IterSp):
            c = it.src
            if c is None or c.ety not in ('Int', 'Real'):
                raise Unsupported('min/max')
            ex.guard(c.n > 0, 'ValueError', 'min/max of an empty list')
            w = ex.fresh('mmi', z3.IntSort())
            i = z3.Int('i')
            m = c.el[w]
            ex.st.pc += [0 <= w, w < c.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c.n), (
                m <= c.el[i]) if ismin else (m >= c.el[i])), patterns=[c.el[i]])]
            return m
        vals = it
    if not vals:
        if 'default' in kw:
            return kw['default']
        raise PyRaise('ValueError')
    if 'key' in kw:
        raise Unsupported('min/max key')
    vals = list(vals)
    if all(is_num(v) for v in vals):
        r = vals[0]
        for v in vals[1:]:
            c = ex.cmp('<' if ismin else '>', v, r)
            if isinstance(c, bool):
                r = v if c else r
            else:
                x, y = zn(v), zn(r)
                if x.sort() != y.sort():
                    x, y = zreal(v), zreal(r)
                r = z3.If(c, x, y)
        return r
    r = vals[0]
    for v in vals[1:]:
        if ex.test(ex.cmp('<' if ismin else '>', v, r), 'minmax'):
            r = v
    return r


def b_min(ex, a, kw):
    return minmax(ex, a, kw, True)


def b_max(ex, a, kw):
    return minmax(ex, a, kw, False)


def b_numpy_amax(ex, a, kw):
    if kw or len(a) != 1:
        raise Unsupported('amax')
    return minmax(ex, a, kw, False)


b_numpy_max = b_numpy_amax


def b_numpy_amin(ex, a, kw):
    if kw or len(a) != 1:
        raise Unsupported('amin')
    return minmax(ex, a, kw, True)


def b_abs(ex, a, kw):
    v = a[0]
    if not is_z(v):
        return abs(v)
    return z3.If(v >= 0, v, -v)


def b_round(ex, a, kw):
    v = a[0]
    d = a[1] if len(a) > 1 else 0
    if not is_z(v):
        if isinstance(v, int):
            return v
        return Fraction(repr(round(float(v), d)))
    f = z3.Function('round_%s' % d, z3.RealSort(), z3.RealSort())
    x = zreal(v)
    t = f(x)
    half = Fraction(1, 2 * 10 ** d)
    ex.st.pc.append(z3.And(t - x <= rv(half), x - t <= rv(half)))
    return t


def b_id(ex, a, kw):
    return IdV(a[0])


def b_type(ex, a, kw):
    v = a[0]
    if isinstance(v, (Obj, Ref)):
        ci = ex.prog.find_class(v.cls)
        if isinstance(v, Ref):
            ex.nonnull(v, 'type')
        return ClassV(ci)
    if isinstance(v, (LCell, HList, Row)):
        return ExtClass('list')
    raise Unsupported('type()')


def b_isinstance(ex, a, kw):
    v, c = a
    cs = c if isinstance(c, tuple) else (c,)
    for k in cs:
        if isinstance(k, ClassV) and isinstance(v, (Obj, Ref)):
            ci = ex.prog.find_class(v.cls)
            n = 0
            while ci is not None and n < 5:
                if ci.key == k.ci.key:
                    return True
                ci = ex.base_of(ci)
                n += 1
        elif isinstance(k, ExtClass):
            if k.name == 'list' and isinstance(v, (LCell, HList, Row)):
                return True
            if k.name == 'str' and (isinstance(v, (str, TStr)) or (is_z(v) and v.sort() == z3.StringSort())):
                return True
            if k.name == 'int' and is_int(v):
                return True
            if k.name == 'float' and is_real(v):
                return True
            if k.name == 'tuple' and isinstance(v, tuple):
                return True
            if is_z(v) and v.sort().kind() == z3.Z3_UNINTERPRETED_SORT:
                raise Unsupported('isinstance on an abstract value')
    return False


def b_sorted(ex, a, kw):
    l = call_type(ex, 'list', [a[0]], {})
    sort_list(ex, l, kw)
    return l


def b_reversed(ex, a, kw):
    c = ex.content(a[0])
    if isinstance(c, CList):
        return ex.new_list(CList(list(reversed(c.items))))
    el = ex.fresh('rev', c.el.sort())
    i = z3.Int('i')
    ex.st.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c.n), el[i] == c.el[c.n - 1 - i]), patterns=[el[i]]))
    ex.st.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c.n), c.el[i] == el[c.n - 1 - i]), patterns=[c.el[i]]))
    return ex.new_list(SymList(c.n, el, c.cnt, c.ety, c.flags))


def quantified(ex, it, exists):
    """any (exists) or all of a sequence of truth values of unknown length."""
    i = z3.Int('i')
    v = it.elem(i)
    if not (is_boolish(v) or is_num(v)):
        raise Unsupported('any/all over %r' % (v,))
    v = zb(v) if is_boolish(v) else zn(v) != 0
    r, w = ex.fresh('any' if exists else 'all', z3.BoolSort()), ex.fresh('witness', z3.IntSort())
    if not exists:
        v, r0 = z3.Not(v), z3.Not(r)
    else:
        r0 = r
    rng = z3.And(0 <= i, i < it.n)
    ex.st.pc += [z3.Implies(r0, z3.substitute(z3.And(rng, v), (i, w))),
                 z3.ForAll([i], z3.Implies(z3.And(rng, v), r0), patterns=ex.iter_pattern(it, i))]
    return r


def b_any(ex, a, kw):
    it = ex.iter_of(a[0])
    if isinstance(it, IterSp):
        return quantified(ex, it, True)
    for v in it:
        if ex.test(v):
            return True
    return False


def b_all(ex, a, kw):
    it = ex.iter_of(a[0])
    if isinstance(it, IterSp):
        return quantified(ex, it, False)
    for v in it:
        if not ex.test(v):
            return False
    return True


def b_map(ex, a, kw):
    if len(a) != 2:
        raise Unsupported('map')
    it = ex.iter_of(a[1])
    if isinstance(it, IterSp):
        return ex.map_filter(it, lambda v: ('val', ex.call(a[0], [v])), False)
    return ex.new_list(CList([ex.call(a[0], [v]) for v in it]))


def b_filter(ex, a, kw):
    it = ex.iter_of(a[1])
    if isinstance(it, IterSp):
        return ex.map_filter(it, lambda v: ('val', v) if ex.test(ex.call(a[0], [v])) else ('skip', None), True)
    return ex.new_list(CList([v for v in it if ex.test(ex.call(a[0], [v]))]))


def b_math_sqrt(ex, a, kw):
    x = zreal(a[0])
    if not is_z(a[0]):
        r = Fraction(a[0])
        import math
        p, q = math.isqrt(r.numerator), math.isqrt(r.denominator)
        if r >= 0 and p * p == r.numerator and q * q == r.denominator:
            return Fraction(p, q)
    ex.guard(x >= 0, 'ValueError', 'square root of a negative number')
    return ex.rootof(x)


b_numpy_sqrt = b_math_sqrt


def b_math_pow(ex, a, kw):
    f = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
    t = f(zreal(a[0]), zreal(a[1]))
    ex.st.pc.append(z3.Implies(zreal(a[0]) > 0, t > 0))
    return t


def b_math_isclose(ex, a, kw):
    f = z3.Function('isclose', z3.RealSort(), z3.RealSort(), z3.BoolSort())
    return f(zreal(a[0]), zreal(a[1]))


def b_random_randint(ex, a, kw):
    lo, hi = zn(a[0]), zn(a[1])
    ex.guard(lo <= hi, 'ValueError', 'empty range for randint')
    t = ex.fresh('rnd', z3.IntSort())
    ex.assume(z3.And(lo <= t, t <= hi))
    return t


def b_random_random(ex, a, kw):
    t = ex.fresh('rnd', z3.RealSort())
    ex.assume(z3.And(0 <= t, t < 1))
    return t


def b_time_time(ex, a, kw):
    return ex.fresh('time', z3.RealSort())


def b_copy_deepcopy(ex, a, kw):
    v = a[0]
    if isinstance(v, Obj) and v.cls == 'Vect':
        return ex.new_vect(list(ex.vect_coords(v)))
    if is_num(v) or isinstance(v, str) or v is None:
        return v
    raise Unsupported('deepcopy')


def b_statistics_mean(ex, a, kw):
    it = ex.iter_of(a[0])
    if isinstance(it, list):
        s = 0
        for v in it:
            s = ex.arith('+', s, v)
        return ex.arith('/', s, Fraction(len(it)))
    c = it.src
    ex.guard(c.n > 0, 'ValueError', 'mean of an empty list')
    m = ex.fresh('mean', z3.RealSort())
    s = sum_of(ex, ex.tosym(c, 'Real'))
    ex.st.pc.append(m * z3.ToReal(c.n) == s)
    return m


def b_itertools_chain(ex, a, kw):
    out = ex.new_list(CList([]))
    for l in a:
        ex.lextend(out, l)
    return out


def b_re_search(ex, a, kw):
    """re.search for the fixed patterns `_` followed by n digits anchored at the end (ASCII)."""
    import re
    pat, s = a[0], a[1]
    m = re.fullmatch(r'_((?:\\d)+)\$', pat) if isinstance(pat, str) else None
    if m is None:
        m2 = re.fullmatch(r'_\\d\{(\d+)\}\$', pat) if isinstance(pat, str) else None
        if m2 is None:
            raise Unsupported('regular expression')
        n = int(m2.group(1))
    else:
        n = len(m.group(1)) // 2
    zs = ex.zstr(s)
    dig = z3.Range('0', '9')
    body = z3.Concat(z3.Full(z3.ReSort(z3.StringSort())), z3.Re('_'), *([dig] * n))
    c = z3.InRe(zs, body)
    return Opaque('match') if ex.branch(c, 're.search') else None


# --------------------------------------------------------------------------- numpy on small arrays
def nd_rows(ex, v):
    if isinstance(v, Nd):
        return v.rows
    if isinstance(v, (LCell, HList, Row, tuple)):
        it = ex.iter_of(v)
        if isinstance(it, IterSp):
            raise Unsupported('array of unknown size')
        return [nd_rows(ex, x) if isinstance(x, (LCell, HList, Row, tuple, Nd)) else x for x in it]
    return v


def nd_sym(ex, v):
    """Array of a list of unknown length (of numbers, tuples of numbers or vectors)."""
    if not isinstance(v, (LCell, HList, Row)):
        return None
    c = ex.content(v)
    if not isinstance(c, SymList) or c.ety is None:
        return None
    e = c.ety
    pat = lambda k: c.el[k]
    if e in ('Int', 'Real'):
        return NdSym(c.n, lambda k: c.el[k], None, None, pat)
    if e[0] == 'Vect':
        return NdSym(c.n, lambda k: [x(c.el[k]) for x in V3acc], 3, None, pat)
    if e[0] == 'Tup' and all(x in ('Int', 'Real') for x in e[1]):
        acc = tup_sort([ety_sort(x) for x in e[1]])[2]
        return NdSym(c.n, lambda k: [x(c.el[k]) for x in acc], len(e[1]), None, pat)
    return None


def sym_zip(ex, op, a, b):
    """Elementwise arithmetic of an array of unknown length with a number, a row of its width or an equally long array."""
    if isinstance(a, NdSym) and isinstance(b, NdSym):
        if not z3.simplify(a.n).eq(z3.simplify(b.n)) or a.width != b.width:
            raise Unsupported('arrays of different shape')
        f = lambda x, y: [ex.arith(op, p, q) for p, q in zip(x, y)] if isinstance(x, list) else ex.arith(op, x, y)
        return NdSym(a.n, lambda k: f(a.elem(k), b.elem(k)), a.width, None, a.pat)
    s, o, left = (a, b, True) if isinstance(a, NdSym) else (b, a, False)
    go = (lambda x, y: ex.arith(op, x, y)) if left else (lambda x, y: ex.arith(op, y, x))
    if is_num(o):
        return NdSym(s.n, lambda k: [go(x, o) for x in s.elem(k)] if s.width else go(s.elem(k), o), s.width, None, s.pat)
    if s.width:
        row = nd_rows(ex, o)
        if isinstance(row, list) and len(row) == s.width and not isinstance(row[0], list):
            return NdSym(s.n, lambda k: [go(x, y) for x, y in zip(s.elem(k), row)], s.width, None, s.pat)
    raise Unsupported('broadcast')


def b_numpy_linalg_norm(ex, a, kw):
    v = a[0]
    if isinstance(v, NdSym) and v.width and set(kw) == {'axis'} and kw['axis'] in (1, -1):
        sq = lambda k: z3.Sum([zreal(x) * zreal(x) for x in v.elem(k)])
        return NdSym(v.n, lambda k: ex.rootof(sq(k)), None, sq, v.pat)
    if isinstance(v, NdSym) or kw or len(a) > 1:
        raise Unsupported('norm of this array')
    r = nd_rows(ex, v)
    if r and not isinstance(r[0], list):
        return ex.rootof(z3.Sum([zreal(x) * zreal(x) for x in r]))
    raise Unsupported('norm of a matrix')


def b_numpy_sum(ex, a, kw):
    v = a[0]
    if isinstance(v, NdSym) and v.width and set(kw) == {'axis'} and kw['axis'] in (1, -1):
        return NdSym(v.n, lambda k: z3.Sum([zreal(x) for x in v.elem(k)]), None, None, v.pat)
    if isinstance(v, NdSym) or kw or len(a) > 1:
        raise Unsupported('sum of this array')
    return b_sum(ex, a, {})


def extreme_index(ex, v, kw, small):
    if kw or not isinstance(v, NdSym) or v.width:
        raise Unsupported('argmin/argmax')
    key = v.sq or (lambda k: zreal(v.elem(k)))
    ex.guard(v.n > 0, 'ValueError', 'argmin of an empty sequence')
    i, k = ex.fresh('extreme', z3.IntSort()), z3.Int('k')
    a, b = (key(i), key(k)) if small else (key(k), key(i))
    ps = {'patterns': [v.pat(k)]} if v.pat else {}
    ex.st.pc += [0 <= i, i < v.n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < v.n), z3.And(a <= b, z3.Implies(k < i, a < b))), **ps)]
    return i


def b_numpy_argmin(ex, a, kw):
    return extreme_index(ex, a[0], kw, True)


def b_numpy_argmax(ex, a, kw):
    return extreme_index(ex, a[0], kw, False)


def nd_cols(ex, v):
    """Array whose rows are a fixed number of symbolic lists of numbers."""
    if not isinstance(v, (LCell, HList, Row, tuple)):
        return None
    it = ex.iter_of(v)
    if isinstance(it, IterSp) or not it or not all(isinstance(x, (LCell, HList, Row)) for x in it):
        return None
    cs = [ex.content(x) for x in it]
    if not all(isinstance(c, SymList) and c.ety in ('Int', 'Real') for c in cs):
        return None
    for c in cs[1:]:
        ex.guard(c.n == cs[0].n, 'ValueError', 'rows of the array have equal lengths')
    return NdCols(cs[0].n, cs)


KDDIST = z3.Function('euclidean_distance', V3, V3, z3.RealSort())


def b_scipy_spatial_KDTree(ex, a, kw):
    r = a[0]
    if kw or not isinstance(r, NdSym) or r.width != 3:
        raise Unsupported('KDTree of this array')
    ex.guard(r.n > 0, 'ValueError', 'KDTree of an empty array')
    ex.nkd = getattr(ex, 'nkd', 0) + 1
    near = z3.Function('kd_nearest', V3, z3.IntSort()) if ex.st.ghost.get('kd') is None else z3.Function('kd_nearest_%d' % ex.nkd, V3, z3.IntSort())
    ex.st.ghost['kd'] = True
    p, k = z3.Const('p', V3), z3.Int('k')
    row = lambda i: V3mk(*[zreal(x) for x in r.elem(i)])
    ps = [z3.MultiPattern(near(p), r.pat(k))] if r.pat else [z3.MultiPattern(near(p), KDDIST(row(k), p))]
    ex.st.pc += [z3.ForAll([p], z3.And(0 <= near(p), near(p) < r.n), patterns=[near(p)]),
                 z3.ForAll([p, k], z3.Implies(z3.And(0 <= k, k < r.n), KDDIST(row(near(p)), p) <= KDDIST(row(k), p)), patterns=ps)]
    return KDTreeV(r, near)


def kd_query(ex, o, a, kw):
    """Distance and index of a nearest row (which one of several nearest is left open)."""
    r = a[0]
    c = [zreal(x) for x in nd_rows(ex, r)]
    if kw or len(a) != 1 or len(c) != 3:
        raise Unsupported('KDTree query')
    p = V3mk(*c)
    i = o.near(p)
    row = V3mk(*[zreal(x) for x in o.rows.elem(i)])
    return KDDIST(row, p), i


def b_numpy_array(ex, a, kw):
    r = nd_cols(ex, a[0])
    if r is not None:
        return r
    r = a[0] if isinstance(a[0], NdSym) else nd_sym(ex, a[0])
    if r is not None:
        return r
    return Nd(nd_rows(ex, a[0]))


def nd_T(o):
    r = o.rows
    if not r or not isinstance(r[0], list):
        return o
    return Nd([[r[i][j] for i in range(len(r))] for j in range(len(r[0]))])


def b_numpy_column_stack(ex, a, kw):
    r = nd_cols(ex, a[0])
    if r is None:
        raise Unsupported('column_stack')
    return r.rows()


def nd_shape(o):
    r, sh = o.rows, []
    while isinstance(r, list):
        sh.append(len(r))
        r = r[0] if r else None
    return tuple(sh)


def b_numpy_transpose(ex, a, kw):
    if isinstance(a[0], NdCols):
        return a[0].rows()
    return nd_T(a[0] if isinstance(a[0], Nd) else Nd(nd_rows(ex, a[0])))


def det_(ex, m):
    n = len(m)
    A = lambda x, y: ex.arith('+', x, y)
    S = lambda x, y: ex.arith('-', x, y)
    M = lambda x, y: ex.arith('*', x, y)
    if n == 1:
        return m[0][0]
    if n == 2:
        return S(M(m[0][0], m[1][1]), M(m[0][1], m[1][0]))
    r = None
    for j in range(n):
        minor = [[row[q] for q in range(n) if q != j] for row in m[1:]]
        t = M(m[0][j], det_(ex, minor))
        r = t if r is None else (A(r, t) if j % 2 == 0 else S(r, t))
    return r


def b_numpy_linalg_det(ex, a, kw):
    """Exact determinant (floating-point error of LAPACK is outside the real model)."""
    m = nd_rows(ex, a[0])
    return det_(ex, m)


def b_numpy_linalg_inv(ex, a, kw):
    m = nd_rows(ex, a[0])
    d = det_(ex, m)
    dz = zreal(d)
    ex.guard(dz != 0, 'LinAlgError', 'matrix is invertible')
    n = len(m)
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [[m[p][q] for q in range(n) if q != i] for p in range(n) if p != j]
            c = det_(ex, minor) if n > 1 else 1
            if (i + j) % 2:
                c = ex.arith('-', 0, c)
            out[i][j] = ex.arith('/', zreal(c), dz)
    r = Nd(out)
    r.inv_of = m
    return r


def solve_system(ex, m, v):
    """The exact solution of m x = v for an invertible m, known by its equations and by Cramer's rule."""
    n = len(m)
    d = zreal(det_(ex, m))
    xs = [ex.fresh('solution', z3.RealSort()) for _ in range(n)]
    for i in range(n):
        ex.st.pc.append(z3.Sum([zreal(m[i][j]) * xs[j] for j in range(n)]) == zreal(v[i]))
        ex.st.pc.append(xs[i] * d == zreal(det_(ex, [[v[p] if q == i else m[p][q] for q in range(n)] for p in range(n)])))
    return Nd(xs)


def nd_dot(ex, a, b):
    A = lambda x, y: ex.arith('+', x, y)
    M = lambda x, y: ex.arith('*', x, y)
    ra, rb = a.rows, nd_rows(ex, b)
    if not isinstance(ra[0], list):
        if not isinstance(rb[0], list):
            r = M(ra[0], rb[0])
            for x, y in zip(ra[1:], rb[1:]):
                r = A(r, M(x, y))
            return r
        raise Unsupported('dot')
    if not isinstance(rb[0], list):
        if getattr(a, 'inv_of', None):
            return solve_system(ex, a.inv_of, rb)
        return Nd([nd_dot(ex, Nd(row), Nd(rb)) for row in ra])
    cols = nd_T(Nd(rb)).rows
    return Nd([[nd_dot(ex, Nd(row), Nd(c)) for c in cols] for row in ra])


def b_numpy_dot(ex, a, kw):
    return nd_dot(ex, a[0] if isinstance(a[0], Nd) else Nd(nd_rows(ex, a[0])), a[1])


def b_numpy_linalg_solve(ex, a, kw):
    inv = b_numpy_linalg_inv(ex, [a[0]], {})
    return nd_dot(ex, inv, a[1] if isinstance(a[1], Nd) else Nd(nd_rows(ex, a[1])))


def nd_arith(ex, op, a, b):
    if isinstance(a, NdSym) or isinstance(b, NdSym):
        return sym_zip(ex, op, a, b)

    def go(x, y):
        if isinstance(x, list) and isinstance(y, list):
            if len(x) != len(y):
                raise Unsupported('broadcast')
            return [go(p, q) for p, q in zip(x, y)]
        if isinstance(x, list):
            return [go(p, y) for p in x]
        if isinstance(y, list):
            return [go(x, q) for q in y]
        return ex.arith(op, x, y)
    return Nd(go(a.rows if isinstance(a, Nd) else a, b.rows if isinstance(b, Nd) else b))


# --------------------------------------------------------------------------- types
def call_type(ex, n, a, kw):
    if n == 'list':
        if not a:
            return ex.new_list(CList([]))
        v = a[0]
        if isinstance(v, tuple) and v and v[0] == 'zipdict':
            raise Unsupported('list(zip)')
        if isinstance(v, DView):
            return view_list(ex, v)
        if isinstance(v, (SCell, HSet)):
            return ex.set_to_list(v)
        it = ex.iter_of(v)
        if isinstance(it, list):
            return ex.new_list(CList(it))
        if it.src is not None and isinstance(v, (LCell, HList, Row)):
            return ex.new_list(it.src)
        return ex.map_filter(it, lambda x: ('val', x), False)
    if n == 'tuple':
        if not a:
            return ()
        it = ex.iter_of(a[0])
        if isinstance(it, list):
            return tuple(it)
        raise Unsupported('tuple()')
    if n == 'dict':
        if not a:
            return ex.new_dict({k: v for k, v in kw.items()})
        v = a[0]
        if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == 'zipdict':
            return sym_dict(ex, v[1][0], v[1][1], 'Str', 'Real')
        if isinstance(v, (HDict, DCell)):
            return dict_copy(ex, v)
        it = ex.iter_of(v)
        if isinstance(it, IterSp):
            return pairs_dict(ex, it)
        if isinstance(it, list):
            d = {}
            for p in it:
                k, x = ex.iter_of(p)
                d[ex.ckey(k)] = x
            return ex.new_dict(d)
        raise Unsupported('dict()')
    if n == 'set':
        if not a:
            return ex.new_set(CList([]))
        v = a[0]
        if isinstance(v, SCell):
            return ex.new_set(ex.st.cells[v.cid])
        it = ex.iter_of(v)
        if isinstance(it, list):
            out = []
            for x in it:
                dup = False
                for y in out:
                    if ex.test(ex.eq(x, y), 'set'):
                        dup = True
                        break
                if not dup:
                    out.append(x)
            return ex.new_set(CList(out))
        if it.src is None:
            raise Unsupported('set()')
        c = it.src
        cnt = c.cnt if c.cnt is not None else ex.derive_cnt(c)
        mem = ex.fresh('set', z3.ArraySort(ety_sort(c.ety), z3.BoolSort()))
        x = z3.Const('x', ety_sort(c.ety))
        ex.st.pc.append(z3.ForAll([x], mem[x] == (cnt[x] >= 1), patterns=[mem[x]]))
        ex.st.pc.append(z3.ForAll([x], mem[x] == (cnt[x] >= 1), patterns=[cnt[x]]))
        return ex.new_set(SymSet(mem, c.ety))
    if n == 'int':
        if not a:
            return 0
        v = a[0]
        if isinstance(v, bool):
            return int(v)
        if is_int(v):
            return v
        if isinstance(v, Fraction):
            return int(v)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise PyRaise('ValueError')
        if is_real(v):
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if X.is_text(v):
            return X.to_int(ex, v)
        if is_z(v) and v.sort() == z3.StringSort():
            ex.guard(z3.InRe(v, z3.Plus(z3.Range('0', '9'))), 'ValueError', 'int() of digits')
            return z3.StrToInt(v)
        raise Unsupported('int()')
    if n == 'float':
        v = a[0] if a else Fraction(0)
        if X.is_text(v):
            return X.to_float(ex, v)
        if isinstance(v, str):
            try:
                f = float(v)
            except ValueError:
                raise PyRaise('ValueError')
            if f == float('inf'):
                return INF
            if f == float('-inf'):
                return NINF
            return Fraction(repr(f))
        if is_num(v):
            return Fraction(v) if not is_z(v) else zreal(v)
        if v is INF or v is NINF:
            return v
        raise Unsupported('float()')
    if n == 'str':
        return ex.fmt_value(a[0]) if a else ''
    if n == 'bool':
        t = ex.truth(a[0]) if a else False
        return t
    if n in ('Exception', 'ValueError', 'RuntimeError', 'KeyError'):
        return Opaque('exception')
    raise Unsupported('type ' + n)


def pairs_dict(ex, it):
    """dict() of a sequence of pairs of unknown length: a key has the value of its last pair."""
    i = z3.Int('i')
    p = it.elem(i)
    if not (isinstance(p, tuple) and len(p) == 2):
        raise Unsupported('dict() of an iteration')
    ke, ve = ex.ety_of(p[0]), ex.ety_of(p[1])
    ks, vs = ety_sort(ke), ety_sort(ve)
    kt, vt = ex.encode(p[0], ke), ex.encode(p[1], ve)
    val, has = ex.fresh('dval', z3.ArraySort(ks, vs)), ex.fresh('dhas', z3.ArraySort(ks, z3.BoolSort()))
    last = ex.freshf('dlast', ks, z3.IntSort())
    x = z3.Const('x', ks)
    at = lambda t, j: z3.substitute(t, (i, j))
    rng = z3.And(0 <= i, i < it.n)
    ex.st.pc += [z3.ForAll([x], z3.Implies(has[x], z3.And(0 <= last(x), last(x) < it.n, at(kt, last(x)) == x, val[x] == at(vt, last(x)))), patterns=[has[x]]),
                 z3.ForAll([x], z3.Implies(has[x], z3.And(0 <= last(x), last(x) < it.n, at(kt, last(x)) == x, val[x] == at(vt, last(x)))), patterns=[val[x]]),
                 z3.ForAll([i], z3.Implies(rng, z3.And(has[kt], last(kt) >= i)), patterns=[kt]),
                 z3.ForAll([i], z3.Implies(rng, z3.And(has[kt], last(kt) >= i)), patterns=[has[kt]])]
    return sym_dict(ex, val, has, ke, ve)


def sym_dict(ex, val, has, kety, vety):
    ex.ncid += 1
    ex.st.cells[ex.ncid] = ('sym', val, has, kety, vety)
    return DCell(ex.ncid)


def dict_copy(ex, d):
    if isinstance(d, HDict):
        ds = ex.dict_desc(d)
        return sym_dict(ex, ex.H(d.key + '#val')[d.o], ex.H(d.key + '#has')[d.o], ds[1], ds[2])
    c = ex.st.cells[d.cid]
    ex.ncid += 1
    ex.st.cells[ex.ncid] = CDict(c.d) if isinstance(c, CDict) else c
    return DCell(ex.ncid)


def view_list(ex, v):
    """list(d.keys()) / list(d.values()) of a symbolic dict: keys and values stay paired."""
    d = v.d
    if isinstance(d, DCell) and isinstance(ex.st.cells[d.cid], CDict):
        return ex.new_list(CList(ex.iter_of(v)))
    if isinstance(d, HDict):
        ds = ex.dict_desc(d)
        val, has, kety, vety = ex.H(d.key + '#val')[d.o], ex.H(d.key + '#has')[d.o], ds[1], ds[2]
    else:
        c = ex.st.cells[d.cid]
        val, has, kety, vety = c[1], c[2], c[3], c[4]
    if v.kind == 'keys':
        l = ex.fresh_list(kety, 'keys')
        x = z3.Const('x', ety_sort(kety))
        ex.st.pc.append(z3.ForAll([x], l.cnt[x] == z3.If(has[x], z3.IntVal(1), I0), patterns=[l.cnt[x]]))
        l.dictkeys = (val, has)
        return ex.new_list(l)
    if v.kind == 'values':
        l = ex.fresh_list(vety, 'vals')
        l.dictvals = (val, has)
        return ex.new_list(l)
    raise Unsupported('items() list')


# --------------------------------------------------------------------------- methods
def sort_list(ex, o, kw):
    c = ex.content(o)
    key = kw.get('key')
    if kw.get('reverse'):
        raise Unsupported('reverse sort')
    if isinstance(c, CList):
        if len(c.items) < 2:
            return
        if all(not is_z(v) and isinstance(v, (int, Fraction, str)) for v in c.items) and key is None:
            ex.set_content(o, CList(sorted(c.items)))
            return
        items = list(c.items)
        if len(items) > 4:
            raise Unsupported('sort of a symbolic short list')
        ks = [ex.call(key, [v]) for v in items] if key is not None else list(items)
        # insertion sort, stable
        out = []
        for v, kk in zip(items, ks):
            p = len(out)
            while p > 0 and ex.test(ex.cmp('<', kk, out[p - 1][1]), 'sort'):
                p -= 1
            out.insert(p, (v, kk))
        ex.set_content(o, CList([v for v, _ in out]))
        return
    c = ex.need_cnt(o)
    i, j = z3.Int('i'), z3.Int('j')
    if key is None and ex.opts.get('sorted_is_function') and c.ety in ('Int', 'Real'):
        el = sorted_of(c.el.sort())(c.el, c.n)
    else:
        el = ex.fresh('sorted', c.el.sort())
    perm = ex.freshf('perm', z3.IntSort(), z3.IntSort())
    inv = ex.freshf('iperm', z3.IntSort(), z3.IntSort())
    rng = lambda q: z3.And(0 <= q, q < c.n)
    ex.st.pc += [z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(perm(i)), inv(perm(i)) == i, el[i] == c.el[perm(i)])),
                           patterns=[el[i]]),
                 z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(inv(i)), perm(inv(i)) == i, c.el[i] == el[inv(i)])),
                           patterns=[c.el[i]])]
    ex.add_list_axioms(c.n, el, c.cnt, c.ety)
    new = SymList(c.n, el, c.cnt, c.ety, c.flags)
    if key is None:
        if c.ety not in ('Int', 'Real'):
            raise Unsupported('sort of objects')
        ex.st.pc.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < c.n), el[i] <= el[j]),
                                  patterns=[z3.MultiPattern(el[i], el[j])]))
    else:
        tmp = ex.new_list(new)
        kl = ex.map_filter(IterSp(c.n, lambda k: ex.elem(tmp, new, k), new, 'local'),
                           lambda v: ('val', ex.call(key, [v])), False)
        kc = ex.content(kl)
        if kc.ety not in ('Int', 'Real'):
            raise Unsupported('sort key type')
        ex.st.pc.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < c.n), kc.el[i] <= kc.el[j]),
                                  patterns=[z3.MultiPattern(kc.el[i], kc.el[j])]))
    ex.set_content(o, new)


def sorted_of(arr):
    return z3.Function('sorted_%s' % arr.range(), arr, z3.IntSort(), arr)


def sorted_theory(arr):
    """Sorting looks at the first n elements only (assumed contract of sort)."""
    a, b, n = z3.Const('a', arr), z3.Const('b', arr), z3.Int('n')
    w = z3.Function('sorted_diff_%s' % arr.range(), arr, arr, z3.IntSort(), z3.IntSort())(a, b, n)
    x, y = sorted_of(arr)(a, n), sorted_of(arr)(b, n)
    return [z3.ForAll([a, b, n], z3.Or(x == y, z3.And(0 <= w, w < n, a[w] != b[w])), patterns=[z3.MultiPattern(x, y)])]


def b_open(ex, a, kw):
    return X.b_open(ex, a, kw)


def b_re_findall(ex, a, kw):
    if not X.textish(a[1]) or not ex.opts.get('text'):
        raise Unsupported('re.findall')
    if a[0] not in (r'(\d+)', r'\d+', '([0-9]+)', '[0-9]+'):
        raise Unsupported('re.findall of that pattern')
    p, t, i = X.DIGITS, X.term(ex, a[1]), z3.Int('i')
    el = X.FINDALL(p, t)
    ex.st.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < X.FINDALLN(p, t)), z3.And(X.ISINT(el[i]), X.INT(el[i]) >= 0)), patterns=[el[i]]))
    return X.text_list(ex, X.FINDALLN(p, t), el)


def call_meth(ex, o, n, a, kw):
    if isinstance(o, Obj) and o.cls in ('@FileR', '@FileW'):
        return X.file_meth(ex, o, n, a, kw)
    if X.is_text(o) or (ex.opts.get('text') and isinstance(o, TStr)):
        return X.meth(ex, o, n, a, kw)
    if isinstance(o, str) and ex.opts.get('text') and n != 'join' and any(X.is_text(x) for x in a) and n != 'format':
        return X.meth(ex, o, n, a, kw)
    if isinstance(o, (LCell, HList, Row)):
        if n == 'append':
            return ex.lappend(o, a[0])
        if n == 'remove':
            return ex.lremove(o, a[0])
        if n == 'index':
            if len(a) != 1:
                raise Unsupported('index range')
            return ex.lindex(o, a[0])
        if n == 'clear':
            c = ex.content(o)
            if isinstance(c, CList):
                return ex.set_content(o, CList([]))
            return ex.set_content(o, ex.empty(c.ety))
        if n == 'extend':
            return ex.lextend(o, a[0])
        if n == 'copy':
            return ex.new_list(ex.content(o))
        if n == 'sort':
            return sort_list(ex, o, kw)
        if n == 'reverse':
            r = b_reversed(ex, [o], {})
            return ex.set_content(o, ex.content(r))
        if n == 'insert':
            c = ex.content(o)
            if isinstance(c, CList) and isinstance(a[0], int):
                l = list(c.items)
                l.insert(a[0], a[1])
                return ex.set_content(o, CList(l))
            raise Unsupported('insert')
        if n == 'pop':
            c = ex.content(o)
            if isinstance(c, CList):
                l = list(c.items)
                if not l:
                    raise PyRaise('IndexError')
                v = l.pop(*[x for x in a])
                ex.set_content(o, CList(l))
                return v
            if not a:
                ex.guard(c.n > 0, 'IndexError', 'pop from an empty list')
                t = c.el[c.n - 1]
                v = ex.decode(t, c.ety)
                cnt = z3.Store(c.cnt, t, c.cnt[t] - 1) if c.cnt is not None else None
                ex.set_content(o, SymList(z3.simplify(c.n - 1), c.el, cnt, c.ety))
                if cnt is not None:
                    ex.add_list_axioms(z3.simplify(c.n - 1), c.el, cnt, c.ety)
                return v
            raise Unsupported('pop(i)')
        if n == 'count':
            c = ex.need_cnt(o)
            t = ex.encode(a[0], c.ety)
            ex.near_ok(c, t, 'count')
            return c.cnt[t]
    if isinstance(o, (HDict, DCell)):
        if n == 'get':
            return ex.dget(o, a[0], a[1] if len(a) > 1 else None, False)
        if n == 'setdefault' and isinstance(o, DCell) and isinstance(ex.st.cells[o.cid], tuple) and len(a) == 2:
            if not ex.branch(zb(ex.dhas(o, a[0])), 'setdefault'):
                ex.dset(o, a[0], a[1])
            return ex.dget(o, a[0])
        if n == 'copy':
            return dict_copy(ex, o)
        if n in ('keys', 'values', 'items'):
            return DView(o, n)
        if n == 'update':
            for kv in ex.iter_of(a[0]):
                k, v = ex.iter_of(kv)
                ex.dset(o, k, v)
            return None
        if n == 'pop':
            if isinstance(o, HDict):
                ds = ex.dict_desc(o)
                kk = ex.encode(a[0], ds[1])
                h = ex.H(o.key + '#has')
                if len(a) == 1:
                    ex.guard(h[o.o][kk], 'KeyError', 'key present')
                ex.hset(o.key + '#has', z3.Store(h, o.o, z3.Store(h[o.o], kk, z3.BoolVal(False))), o.o)
                return ex.decode(ex.H(o.key + '#val')[o.o][kk], ds[2])
            c = ex.st.cells[o.cid]
            if isinstance(c, CDict):
                k = ex.ckey(a[0])
                if k not in c.d:
                    if len(a) > 1:
                        return a[1]
                    raise PyRaise('KeyError')
                d = dict(c.d)
                v = d.pop(k)
                ex.st.cells[o.cid] = CDict(d)
                return v
    if isinstance(o, (HSet, SCell)):
        if isinstance(o, SCell):
            c = ex.st.cells[o.cid]
            if isinstance(c, CList) and n == 'add':
                for v in c.items:
                    if ex.test(ex.eq(v, a[0]), 'set.add'):
                        return None
                ex.st.cells[o.cid] = CList(c.items + [a[0]])
                if ex.writes is not None:
                    ex.writes.add(('cell', o.cid))
                return None
        if isinstance(o, HSet):
            es = ex.set_ety(o)
            if n in ('add', 'discard', 'remove'):
                t = ex.encode(a[0], es)
                h = ex.H(o.key)
                if n == 'remove':
                    ex.guard(h[o.o][t], 'KeyError', 'set.remove of an absent element')
                return ex.hset(o.key, z3.Store(h, o.o, z3.Store(h[o.o], t, z3.BoolVal(n == 'add'))), o.o)
            if n == 'clear':
                h = ex.H(o.key)
                return ex.hset(o.key, z3.Store(h, o.o, z3.K(ety_sort(es), z3.BoolVal(False))), o.o)
    if isinstance(o, str) or isinstance(o, TStr) or (is_z(o) and o.sort() == z3.StringSort()):
        return str_meth(ex, o, n, a, kw)
    if isinstance(o, NdSym):
        if n in ('argmin', 'argmax', 'sum'):
            return {'argmin': b_numpy_argmin, 'argmax': b_numpy_argmax, 'sum': b_numpy_sum}[n](ex, [o] + list(a), kw)
    if isinstance(o, KDTreeV) and n == 'query':
        return kd_query(ex, o, a, kw)
    if isinstance(o, NdCols) and n == 'transpose':
        return o.rows()
    if isinstance(o, Nd):
        if n == 'dot':
            return nd_dot(ex, o, a[0])
        if n == 'transpose':
            return nd_T(o)
        if n == 'tolist':
            return from_nd(ex, o.rows)
    raise Unsupported('method %s of %r' % (n, o))


def from_nd(ex, r):
    if isinstance(r, list):
        return ex.new_list(CList([from_nd(ex, x) for x in r]))
    return r


def str_meth(ex, o, n, a, kw):
    if isinstance(o, str) and n == 'format':
        return ex.fmt_format(o, a, kw)
    if n == 'join' and isinstance(o, str):
        if ex.opts.get('text') and isinstance(a[0], (LCell, HList, Row)):
            j = X.join(ex, o, a[0])
            if j is not None:
                return j
        it = ex.iter_of(a[0])
        if isinstance(it, list):
            parts = []
            for i, v in enumerate(it):
                if i:
                    parts.append(o)
                parts.append(v)
            return ex.tcat(parts)
        raise Unsupported('join of a symbolic list')
    if isinstance(o, str) and all(not is_z(x) and not isinstance(x, TStr) for x in a) and n in (
            'split', 'replace', 'strip', 'startswith', 'endswith', 'isdigit', 'lower', 'upper', 'find', 'count', 'rstrip',
            'lstrip', 'zfill', 'rjust', 'ljust'):
        r = getattr(o, n)(*a)
        return ex.new_list(CList(r)) if isinstance(r, list) else r
    zs = ex.zstr(o)
    if n == 'isdigit':
        return z3.InRe(zs, z3.Plus(z3.Range('0', '9')))
    if n == 'startswith':
        return z3.PrefixOf(ex.zstr(a[0]), zs)
    if n == 'endswith':
        return z3.SuffixOf(ex.zstr(a[0]), zs)
    raise Unsupported('string method ' + n)
