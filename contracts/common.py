"""Shared vocabulary of the contracts."""
import z3
from pydv.contract import Contract, LoopSpec, ref
from pydv.values import *
from pydv.schema import mesh, L, KEY

And, Or, Not, Implies, Exists, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.Exists, z3.If


_kept = []
_mp = z3.MultiPattern


def multi(*args):
    """z3 does not count the references a pattern holds to its terms: keep them."""
    p = _mp(*args)
    p.terms = args
    _kept.append((p, args))
    return p


z3.MultiPattern = multi


def plain(t):
    """Terms the solvers accept as patterns (no if-then-else, no logical connectives)."""
    todo, seen = list(getattr(t, 'terms', [t])), set()
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u) or (z3.is_app(u) and u.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES)):
            return False
        todo.extend(u.children())
    return True


def ForAll(vs, body, patterns=()):
    ps = [p for p in patterns if plain(p)] if patterns else []
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)


V = ('Vect',)
E, F, Z, N, G = ref('Edge'), ref('Face'), ref('Zone'), ref('Node'), ref('Grid')


def vsub(a, b):
    return [x - y for x, y in zip(a, b)]


def vadd(a, b):
    return [x + y for x, y in zip(a, b)]


def vscale(a, k):
    return [x * k for x in a]


def vdot(a, b):
    return sum(x * y for x, y in zip(a, b))


def vcross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def veq(a, b):
    return And([x == y for x, y in zip(a, b)])


def v3(t):
    """Components of a vector stored in the heap."""
    return [V3acc[i](t) for i in range(3)]


def zabs(x):
    return If(x >= 0, x, -x)


def const(name, cls):
    return z3.Const(name, ref_sort(cls))


TRI = ('Obj', 'Triangle', {'Points': ('CList', [V, V, V]), 'BackRef': ('Const', None)})
_R3 = [z3.RealSort()]
AREA = z3.Function('area', V3, V3, V3, z3.RealSort())
NORMAL = z3.Function('unit_normal', V3, V3, V3, V3)
MINSIDE = z3.Function('min_side', V3, V3, V3, z3.RealSort())
SWEPT = z3.Function('swept_volume', V3, V3, V3, V3, V3, V3, z3.RealSort())


def mk(xs):
    return V3mk(*[zreal(x) for x in xs])


def corners(s, t='self'):
    return [mk(s.vect(p)) for p in s.items(s.fld(s.arg(t), 'Points'))]


def cross_of(p):
    a, b, c = [v3(x) for x in p]
    return vcross(vsub(b, a), vsub(c, a))


def area_setup(ex, vals):
    """AREA is half the length (non-negative square root) of the cross product of two sides; C20 states it with squares."""
    from pydv.contract import View
    s = View(ex, ex.st, vals)
    a, b, c = [s.vect(p) for p in s.items(s.fld(s.arg('self'), 'Points'))]
    n = vcross(vsub(b, a), vsub(c, a))
    ex.st.pc.append(AREA(*corners(s)) == ex.rootof(vdot(n, n)) / 2)


def tet(a, b, c, d):
    a, b, c, d = [v3(x) for x in (a, b, c, d)]
    return zabs(vdot(vsub(a, d), vcross(vsub(b, d), vsub(c, d)))) / 6


def swept_def(p):
    """SWEPT is the sum of the three tetrahedra the displaced triangle is cut into (a prism for a translation, see C20)."""
    a, b, c, na, nb, nc = p
    return SWEPT(*p) == tet(a, b, c, nc) + tet(a, b, nb, nc) + tet(a, na, nb, nc)


def same_corners(s):
    return [('triangle unchanged', And([x == y for x, y in zip(corners(s), corners(s.old))]))]


def assume_def(f, args):
    def setup(ex, vals):
        from pydv.contract import View
        ex.st.pc.append(f(args(View(ex, ex.st, vals))))
    return setup


PRISM_ARGS = ['a', 'b', 'c', 'na', 'nb', 'nc']
parg = lambda s: [mk(s.vect(s.arg(n))) for n in PRISM_ARGS]
AREA_C = Contract('Triangle.area', {'self': TRI}, setup=area_setup, modular=True, result='Real',
                  ensures=lambda s: [('the area of the corners', And(s.result == AREA(*corners(s)), s.result >= 0))] + same_corners(s))
SWEPT_C = Contract('geom.utils:displaced_triangle_volume', {n: V for n in PRISM_ARGS}, setup=assume_def(swept_def, parg), modular=True, result='Real',
                   ensures=lambda s: [('the three tetrahedra of the displaced triangle', And(zreal(s.result) == SWEPT(*parg(s.old)), zreal(s.result) >= 0))])


def bagsum(cls):
    return z3.Function('bagsum_' + cls, z3.ArraySort(ref_sort(cls), z3.IntSort()), z3.ArraySort(ref_sort(cls), z3.RealSort()), z3.RealSort())


def bagsum_theory(cls):
    """Finite sums over a bag: changing one summand changes the sum by the difference; equal summands give equal sums."""
    B = bagsum(cls)
    S = ref_sort(cls)
    c = z3.Const('c', z3.ArraySort(S, z3.IntSort()))
    h, k = [z3.Const(x, z3.ArraySort(S, z3.RealSort())) for x in 'hk']
    x, v = z3.Const('x', S), z3.Real('v')
    d = z3.Function('bagsum_diff_' + cls, c.sort(), h.sort(), h.sort(), S)
    st = B(c, z3.Store(h, x, v))
    w = d(c, h, k)
    return [ForAll([c, h, x, v], And(Implies(c[x] == 1, st == B(c, h) + v - h[x]), Implies(c[x] == 0, st == B(c, h))), patterns=[st]),
            ForAll([c, h, k], Or(B(c, h) == B(c, k), And(c[w] >= 1, h[w] != k[w])), patterns=[z3.MultiPattern(B(c, h), B(c, k))])]


ORTH = z3.Function('unit_vector', V3, V3)
selfv = lambda s: mk(s.vect(s.arg('self')))


def orth_setup(ex, vals):
    """ORTH(v) is v divided by its length; C20 states what that means (unit length, same direction)."""
    from pydv.contract import View
    v = View(ex, ex.st, vals).vect(vals['self'])
    m = ex.rootof(vdot(v, v))
    ex.st.pc.append(Implies(m != 0, veq([x * m for x in v3(ORTH(mk(v)))], v)))


ORTH_C = Contract('Vect.orth', {'self': V}, setup=orth_setup, modular=True, result=V, raises={'ZeroDivisionError': None},
                  ensures=lambda s: [('the vector divided by its length', veq(s.vect(s.result), v3(ORTH(selfv(s.old))))), ('operand unchanged', selfv(s) == selfv(s.old))])


NORMAL_C = Contract('Triangle.normal_orth', {'self': TRI}, modular=True, result=V, raises={'ZeroDivisionError': None},
                    ensures=lambda s: [('unit vector along the corner-order normal', veq(s.vect(s.result), v3(ORTH(mk(cross_of(corners(s.old)))))))] + same_corners(s))


def psum_theory(srt):
    """Sums of equal prefixes are equal (lemma by induction, assumed)."""
    from pydv.lib import psum
    P = psum(srt)
    A = z3.ArraySort(z3.IntSort(), srt)
    a, b, n = z3.Const('a', A), z3.Const('b', A), z3.Int('n')
    w = z3.Function('psum_diff_' + str(srt), A, A, z3.IntSort(), z3.IntSort())(a, b, n)
    return [ForAll([a, b, n], Or(P(a, n) == P(b, n), And(0 <= w, w < n, a[w] != b[w])), patterns=[z3.MultiPattern(P(a, n), P(b, n))])]
