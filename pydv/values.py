"""Value domain of the verifier."""
import z3
from fractions import Fraction

z3.set_param('smt.random_seed', 1)


class Unsupported(Exception):
    """The code left the subset the VC generator handles (undecided, never reported as a violation)."""


class PathEnd(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, name, val=None):
        Exception.__init__(self, name)
        self.name, self.val = name, val


class RetE(Exception):
    def __init__(self, v):
        self.v = v


class BrkE(Exception):
    pass


class CntE(Exception):
    pass


class _Inf:
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return 'inf' if self.s > 0 else '-inf'


INF, NINF = _Inf(1), _Inf(-1)


class Ref:
    __slots__ = ('cls', 't')

    def __init__(self, cls, t):
        self.cls, self.t = cls, t

    def __repr__(self):
        return '<%s %s>' % (self.cls, self.t)


class Obj:
    """Object of concrete identity; its fields live in the state."""
    __slots__ = ('cls', 'oid', 'origin')

    def __init__(self, cls, oid, origin=None):
        self.cls, self.oid, self.origin = cls, oid, origin

    def __repr__(self):
        return '<%s #%d>' % (self.cls, self.oid)


class LCell:
    __slots__ = ('cid',)

    def __init__(self, cid):
        self.cid = cid


class HList:
    """The list stored in field `key` ('Zone.Faces') of heap object `o` (z3 term)."""
    __slots__ = ('key', 'o')

    def __init__(self, key, o):
        self.key, self.o = key, o


class Row:
    """Element of a list of lists, addressed through its container."""
    __slots__ = ('lst', 'i')

    def __init__(self, lst, i):
        self.lst, self.i = lst, i


class HDict:
    __slots__ = ('key', 'o')

    def __init__(self, key, o):
        self.key, self.o = key, o


class HSet:
    __slots__ = ('key', 'o')

    def __init__(self, key, o):
        self.key, self.o = key, o


class DCell:
    """Local dict; content in state.cells: ('dict', OrderedDict of concrete keys)."""
    __slots__ = ('cid',)

    def __init__(self, cid):
        self.cid = cid


class SCell:
    __slots__ = ('cid',)

    def __init__(self, cid):
        self.cid = cid


class CList:
    """Content: concrete-length list."""
    def __init__(self, items):
        self.items = list(items)


class CDict:
    def __init__(self, d):
        self.d = dict(d)


class SymSet:
    def __init__(self, mem, ety):
        self.mem, self.ety = mem, ety


class SymList:
    """Content: list of unknown length. el: Array(Int, T); cnt: Array(T, Int) multiplicities (or None)."""
    def __init__(self, n, el, cnt, ety, flags=()):
        self.n, self.el, self.cnt, self.ety = n, el, cnt, ety
        self.flags = frozenset(flags)


class DView:
    """d.keys()/values()/items() of a heap dict."""
    def __init__(self, d, kind):
        self.d, self.kind = d, kind


class Func:
    def __init__(self, node, module, frame=None, cls=None, name=None):
        self.node, self.module, self.frame, self.cls = node, module, frame, cls
        self.name = name or getattr(node, 'name', '<lambda>')


class BoundM:
    def __init__(self, self_, func):
        self.self_, self.func = self_, func


class ClassV:
    def __init__(self, ci):
        self.ci = ci


class ExtClass:
    """list, int, str, dict ... as type objects."""
    def __init__(self, name):
        self.name = name


class ModV:
    def __init__(self, name):
        self.name = name


class Builtin:
    def __init__(self, name, fn=None, self_=None):
        self.name, self.fn, self.self_ = name, fn, self_


class Nd:
    """Small numpy array with known shape: nested python lists of scalars."""
    def __init__(self, rows):
        self.rows = rows


class NdSym:
    """numpy array with unknown length: elem(k) is a scalar, or the list of the components of row k.
    sq: for an array of lengths, their squares; pat: index terms of the underlying storage (for patterns)."""
    def __init__(self, n, elem, width=None, sq=None, pat=None):
        self.n, self.elem, self.width, self.sq, self.pat = n, elem, width, sq, pat


class NdCols:
    """Two-dimensional numpy array given by a fixed number of equally long columns (its transpose is an NdSym)."""
    def __init__(self, n, cols):
        self.n, self.cols = n, cols

    def rows(self):
        return NdSym(self.n, lambda k: [c.el[k] for c in self.cols], len(self.cols), None, lambda k: self.cols[0].el[k])


class KDTreeV:
    """scipy KDTree over the rows of an array: near is the (deterministic) function from a point to the index it answers."""
    def __init__(self, rows, near):
        self.rows, self.near = rows, near


class IterSp:
    """Iteration space of unknown length: n (z3 Int), elem(k)->value, bag source (SymList or None), prov."""
    def __init__(self, n, elem, src=None, prov='', bagelem=None, lists=()):
        self.lists = list(lists)     # the list values that are read while iterating
        self.n, self.elem, self.src, self.prov = n, elem, src, prov
        self.bagelem = bagelem


class TStr:
    """Text made of literal pieces and atoms (('fmt', spec, value))."""
    def __init__(self, pieces):
        self.pieces = pieces


class FileV:
    def __init__(self, fid):
        self.fid = fid


class Opaque:
    def __init__(self, name='opaque'):
        self.name = name


_sorts = {}


def ref_sort(cls):
    k = cls.replace('.', '_')
    if k not in _sorts:
        _sorts[k] = z3.DeclareSort(k)
    return _sorts[k]


def null(cls):
    return z3.Const('null_' + cls.replace('.', '_'), ref_sort(cls))


_tup = {}


def tup_sort(sorts):
    key = tuple(s.sexpr() if hasattr(s, 'sexpr') else str(s) for s in sorts)
    if key not in _tup:
        nm = 'Tup%d' % len(_tup)
        d = z3.Datatype(nm)
        d.declare('mk_' + nm, *[('p%d_%s' % (i, nm), s) for i, s in enumerate(sorts)])
        s = d.create()
        _tup[key] = (s, s.constructor(0), [s.accessor(0, i) for i in range(len(sorts))])
    return _tup[key]


def row_sort(esort):
    """Row = (len, elements) value of an inner list."""
    return tup_sort([z3.IntSort(), z3.ArraySort(z3.IntSort(), esort)])


# ety descriptors: 'Int' 'Real' 'Bool' 'Str' ('Ref',cls) ('Vect',) ('Tup',(ety,...)) ('Row',ety)
def ety_sort(e):
    if e == 'Int':
        return z3.IntSort()
    if e == 'Real':
        return z3.RealSort()
    if e == 'Bool':
        return z3.BoolSort()
    if e == 'Str':
        return z3.StringSort()
    if e[0] == 'Ref':
        return ref_sort(e[1])
    if e[0] == 'Vect':
        return tup_sort([z3.RealSort()] * 3)[0]
    if e[0] == 'Tup':
        return tup_sort([ety_sort(x) for x in e[1]])[0]
    if e[0] == 'Row':
        return row_sort(ety_sort(e[1]))[0]
    if e[0] == 'Sort':
        return e[1]
    raise Unsupported('ety %r' % (e,))


V3 = ety_sort(('Vect',))
V3mk, V3acc = tup_sort([z3.RealSort()] * 3)[1:]


def is_z(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    return (isinstance(v, (int, Fraction)) and not isinstance(v, bool)) or isinstance(v, bool) or \
        (is_z(v) and v.sort().kind() in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT))


def is_boolish(v):
    return isinstance(v, bool) or (is_z(v) and z3.is_bool(v))


def is_real(v):
    return isinstance(v, Fraction) or (is_z(v) and v.sort().kind() == z3.Z3_REAL_SORT)


def is_int(v):
    return isinstance(v, int) or (is_z(v) and v.sort().kind() == z3.Z3_INT_SORT)


def rv(fr):
    return z3.RealVal('%d/%d' % (fr.numerator, fr.denominator)) if fr.denominator != 1 else z3.RealVal(fr.numerator)


def zn(v):
    """Numeric value to a z3 arithmetic term."""
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return rv(v)
    if is_z(v):
        if z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v
    raise Unsupported('not a number: %r' % (v,))


def zreal(v):
    t = zn(v)
    if t.sort().kind() == z3.Z3_INT_SORT:
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t


def zb(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v


def conc(t):
    """Fold a z3 term to a Python value when it is a literal."""
    if not is_z(t):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_string_value(t):
        return t.as_string()
    return t


class IdV:
    """id(x)."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v
