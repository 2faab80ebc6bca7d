from .common import *
from .c20 import BOX, BF, meets as in_box, smallest
from pydv.interp import Unsupported

SCHEMA = mesh(Triangle={'Points': ('List', V), 'BackRef': F}, TrianglesCloud={'Box': 'Int'})
OPTS = {}
R = 'Real'
C = Contract
i_, k_ = z3.Int('i'), z3.Int('k')
POW = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
T_ = const('t', 'Triangle')
CLOUD = ref('TrianglesCloud')
INCLOUD = z3.Function('listed_in_cloud', ref_sort('TrianglesCloud'), ref_sort('Triangle'), z3.BoolSort())
MEETS = z3.Function('triangle_meets_segment', ref_sort('Triangle'), V3, V3, z3.BoolSort())
dmk, dacc = tup_sort([V3, V3])[1:]


def SPACE(ex):
    """A space as its constructor leaves it: the table holds the positions of the samples (proved of __init__ below)."""
    o = ex.make_param('self', ('Obj', 'drops.Space', {'Ds': ('List', ('Tup', (V, V))), 'Bx': BOX}))
    ds = ex.content(ex.st.objs[o.oid]['Ds'])
    ex.st.objs[o.oid]['PartitionsTuple'] = NdSym(ds.n, lambda k: v3(dacc[0](ds.el[k])), 3, None, lambda k: ds.el[k])
    return o


def vec(s, n):
    return s.vect(s.arg(n))


# ---------------------------------------------------------------- one step
def drag(v, va, d, dist):
    """Acceleration: drag towards the air velocity, by the Reynolds number of the relative speed."""
    re = dist * d / z3.RealVal('0.00001736')
    cd = If(re == 0, z3.RealVal(0), If(re <= 350, 24 / re * (1 + z3.RealVal('0.166') * POW(re, z3.RealVal('0.33'))), z3.RealVal('0.178') * POW(re, z3.RealVal('0.217'))))
    k = z3.RealVal('0.75') * (cd * z3.RealVal('1.292') / (d * 1000))
    return [(y - x) * k * dist for x, y in zip(v, va)]


def step_spec(s, p, v, va, d, dt, np_, nv):
    w = vsub(v, va)
    dist = s.root(vdot(w, w))
    a = drag(v, va, d, dist)
    return And(veq(np_, vadd(p, vscale(v, dt)))), And(veq(nv, vadd(v, vscale(a, dt))))


def step_post(s):
    p, v, va = [vec(s.old, n) for n in ('p', 'v', 'v_air')]
    x, y = [s.vect(r) for r in s.result]
    pos, vel = step_spec(s.old, p, v, va, s.d, s.dt, x, y)
    return [('moves by velocity times time step', pos), ('the velocity changes by drag towards the air velocity times time step', vel)] + [
        ('operands unchanged', And([veq(vec(s, n), vec(s.old, n)) for n in ('p', 'v', 'v_air')]))]


# the same step, as a function of its arguments, where only its being a function matters
NEWP = z3.Function('position_after_step', V3, V3, z3.RealSort(), V3)
NEWV = z3.Function('velocity_after_step', V3, V3, V3, z3.RealSort(), z3.RealSort(), V3)


def step_setup(ex, vals):
    from pydv.contract import View
    s = View(ex, ex.st, vals)
    p, v, va = [vec(s, n) for n in ('p', 'v', 'v_air')]
    w = vsub(v, va)
    a = drag(v, va, s.d, s.root(vdot(w, w)))
    ex.st.pc.append(veq(v3(NEWP(mk(p), mk(v), s.dt)), vadd(p, vscale(v, s.dt))))
    ex.st.pc.append(veq(v3(NEWV(mk(p), mk(v), mk(va), s.d, s.dt)), vadd(v, vscale(a, s.dt))))


def step_fn(s):
    p, v, va = [vec(s.old, n) for n in ('p', 'v', 'v_air')]
    x, y = [s.vect(r) for r in s.result]
    return [('the position after the step', veq(x, v3(NEWP(mk(p), mk(v), s.dt)))), ('the velocity after the step', veq(y, v3(NEWV(mk(p), mk(v), mk(va), s.d, s.dt))))]


STEP_ARGS = {'self': SPACE, 'p': V, 'v': V, 'v_air': V, 'd': R, 'dt': R}
STEP = C('drops.Space.fly_step', STEP_ARGS, modular=True, result=('Tup', (V, V)), requires=lambda s: [('positive diameter', s.d > 0)], setup=step_setup, frame=[],
         ensures=step_fn, note='function')


DIST2 = z3.Function('squared_distance', V3, V3, z3.RealSort())


def near_setup(ex, vals):
    from pydv.contract import View
    s = View(ex, ex.st, vals)
    a, b = vec(s, 'self'), vec(s, 'v')
    ex.st.pc.append(DIST2(mk(a), mk(b)) == d2(a, b))


NEAR = C('Vect.is_near', {'self': V, 'v': V, 'eps': R}, setup=near_setup, requires=lambda s: [('eps', s.eps > 0)], modular=True, result='Bool', frame=[],
         ensures=lambda s: [('distance below eps', zb(s.result) == (DIST2(mk(vec(s.old, 'self')), mk(vec(s.old, 'v'))) < s.eps * s.eps))])


# ---------------------------------------------------------------- nearest air sample
def samples(s):
    return s.lst(s.fld(s.arg('self'), 'Ds'))


def sample(ds, k):
    """Position and velocity of the k-th air sample."""
    t = ds.el[k]
    return dacc[0](t), dacc[1](t)


def space_ok(s):
    """The table of positions is that of the samples (established where the space is built)."""
    ds, t = samples(s), s.fld(s.arg('self'), 'PartitionsTuple')
    return [('table of sample positions', And(t.n == ds.n, ds.n >= 1, ForAll([k_], Implies(And(0 <= k_, k_ < ds.n), veq(t.elem(k_), v3(sample(ds, k_)[0]))), patterns=[t.pat(k_), ds.el[k_]])))]


def d2(a, b):
    w = vsub(a, b)
    return vdot(w, w)


NEAREST = z3.Function('nearest_sample', V3, z3.IntSort())


def near_post(s):
    ds = samples(s.old)
    p, v = [s.vect(x) for x in s.result]
    w = z3.Int('witness')
    q = lambda k: v3(sample(ds, k)[0])
    x = vec(s.old, 'p')
    return [('it is a sample', Exists([w], And(0 <= w, w < ds.n, veq(q(w), p), veq(v3(sample(ds, w)[1]), v)))),
            ('no sample is nearer', Implies(And(0 <= k_, k_ < ds.n), d2(p, x) <= d2(q(k_), x))),
            ('operand unchanged', veq(vec(s, 'p'), vec(s.old, 'p')))]


def near_res(ex, old):
    ds = samples(old)
    p = vec(old, 'p')
    i = NEAREST(mk(p))
    return tuple(ex.new_vect([zreal(c) for c in v3(x)]) for x in sample(ds, i))


FIND_SPEC = {'self': SPACE, 'p': V}
FIND_CALL = C('drops.Space.find_nearest', FIND_SPEC, modular=True, requires=space_ok, result=near_res, ensures=lambda s: [])
# FIND_CALL is the contract of find_nearest seen by its callers, the sample found being named as a function of the point
# (the function is deterministic); the contract proved below is the same without the name.


def built_from(s):
    ds, t = s.lst(s.arg('ds')), s.lst(s.arg('ds_tuple'))
    acc = tup_sort([z3.RealSort()] * 3)[2]
    return [('one position per sample', And(ds.n >= 1, t.n == ds.n, ForAll([k_], Implies(And(0 <= k_, k_ < ds.n), veq([a(t.el[k_]) for a in acc], v3(sample(ds, k_)[0]))), patterns=[t.el[k_], ds.el[k_]])))]


class Positions:
    def __init__(self, ds):
        self.n, self.el = ds.n, self
        self.ds = ds

    def __getitem__(self, k):
        return sample(self.ds, k)[0]


def built(s):
    ds = s.old.lst(s.arg('ds'))
    kept = samples(s)
    return space_ok(s) + [('the samples are those given', And(kept.n == ds.n, ForAll([k_], Implies(And(0 <= k_, k_ < ds.n), kept.el[k_] == ds.el[k_]), patterns=[kept.el[k_]])))] + [
        ('air box ' + l, f) for l, f in smallest(s, s.fld(s.arg('self'), 'Bx'), Positions(ds))]


# ---------------------------------------------------------------- the flight
def inside_post(s):
    return [('inside exactly when between all faces of the box', zb(s.result) == in_box(s, s.fld(s.arg('self'), 'Bx'), vec(s, 'p')))]


INSIDE = C('drops.Space.inside', {'self': SPACE, 'p': V}, ensures=inside_post)


def ends(s, x):
    return [mk(s.vect(p)) for p in s.items(s.fld(s.arg(x), 'Points'))]


def first_post(s):
    a, b = ends(s.old, 's')
    r = null('Triangle') if s.result is None else s.result.t
    return [('a triangle of the cloud that the segment meets', Implies(r != null('Triangle'), And(INCLOUD(s.self, r), MEETS(r, a, b)))),
            ('nothing only when no triangle is met', Implies(r == null('Triangle'), ForAll([T_], Implies(INCLOUD(s.self, T_), Not(MEETS(T_, a, b))), patterns=[INCLOUD(s.self, T_), MEETS(T_, a, b)])))]


SEGM = ('Obj', 'Segment', {'Points': ('CList', [V, V])})
FIRST = C('TrianglesCloud.first_intersection_with_segment', {'self': CLOUD, 's': SEGM}, modular=True, result=('RefOrNone', 'Triangle'), ensures=first_post, note='assumed here, decided by C11')

PSEQ = z3.Function('path_point', z3.IntSort(), V3)
VSEQ = z3.Function('path_velocity', z3.IntSort(), V3)


def path_def(s):
    """Definition of the path: start, then steps with the air velocity of the nearest sample (primitive recursion)."""
    ds = samples(s)
    k = k_
    air = sample(ds, NEAREST(PSEQ(k)))[1]
    return [PSEQ(0) == mk(vec(s, 'p')), VSEQ(0) == mk(vec(s, 'vel')),
            ForAll([k], Implies(k >= 0, And(PSEQ(k + 1) == NEWP(PSEQ(k), VSEQ(k), s.dt),
                                            VSEQ(k + 1) == NEWV(PSEQ(k), VSEQ(k), air, s.d, s.dt))), patterns=[VSEQ(k)])]


def fly_setup(ex, vals):
    from pydv.contract import View
    ex.st.pc += path_def(View(ex, ex.st, vals))


def in_air(s, p):
    return in_box(s.old, s.fld(s.arg('self'), 'Bx'), v3(p))


def hits(s, t, k):
    """Triangle t meets the k-th segment of the path."""
    return And(INCLOUD(s.triangles_cloud, t), MEETS(t, PSEQ(k), PSEQ(k + 1)))


def clear(s, upto):
    """The first segments of the path meet no surface."""
    return ForAll([T_, k_], Implies(And(0 <= k_, k_ < upto, INCLOUD(s.triangles_cloud, T_)), Not(MEETS(T_, PSEQ(k_), PSEQ(k_ + 1)))), patterns=[MEETS(T_, PSEQ(k_), PSEQ(k_ + 1))])


def points(s, tr):
    return s.lst(s.fld(tr, 'Points'), V)


def follows(s, pts):
    return [('the points are those of the path', ForAll([i_], Implies(And(0 <= i_, i_ < pts.n), pts.el[i_] == PSEQ(i_)), patterns=[pts.el[i_]])),
            ('at least the start, at most the limit plus one', And(pts.n >= 1, pts.n <= s.max_steps + 1))]


def earlier_inside(s, upto):
    return ForAll([i_], Implies(And(0 <= i_, i_ < upto), in_air(s, PSEQ(i_))), patterns=[PSEQ(i_)])


def flight(L):
    pts = points(L, L.loc('tr'))
    return follows(L, pts) + [('velocity', mk(L.vect(L.loc('v'))) == VSEQ(pts.n - 1)), ('no surface met so far', clear(L, pts.n - 1)), ('earlier points inside the box', earlier_inside(L, pts.n - 1))]


def same_space(s):
    return []


def fly_post(s):
    code, face, tr = s.result
    pts = points(s, tr)
    n = pts.n
    f = null('Face') if face is None else face.t
    is_ = lambda c: code == c if not is_z(code) else code == z3.StringVal(c)
    B = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x
    tri = z3.Const('tri', ref_sort('Triangle'))
    out = follows(s, pts) + [
        ('one of the four diagnoses', Or([B(is_(c)) for c in 'COSN'])),
        ('a face is returned only for a crossing', Implies(Not(B(is_('C'))), f == null('Face'))),
        ('earlier segments meet no surface', clear(s, If(B(is_('C')), n - 2, n - 1))),
        ('earlier points are inside the box', earlier_inside(s, n - 1)),
        ('crossed: a triangle of the face is met by the last segment', Implies(B(is_('C')), And(n >= 2, Exists([tri], And(hits(s, tri, n - 2), s.get('Triangle', 'BackRef', tri) == f))))),
        ('left the air box: the last point is outside', Implies(B(is_('O')), Not(in_air(s, PSEQ(n - 1))))),
        ('stopped: inside the box and the next point is the same within 1e-15', Implies(B(is_('S')), And(in_air(s, PSEQ(n - 1)), DIST2(PSEQ(n), PSEQ(n - 1)) < z3.RealVal('1e-15') * z3.RealVal('1e-15')))),
        ('exceeded the step limit: the path has one point more than the limit', Implies(B(is_('N')), n == s.max_steps + 1))]
    return out


CONTRACTS = [
    C('drops.Space.fly_step', STEP_ARGS, requires=lambda s: [('positive diameter', s.d > 0)], ensures=step_post),
    STEP, INSIDE, NEAR,
    C('drops.Space.__init__', {'self': ('Obj', 'drops.Space', {}), 'ds': ('List', ('Tup', (V, V))), 'ds_tuple': ('List', ('Tup', (R, R, R)))}, requires=built_from, ensures=built),
    C('drops.Space.find_nearest', FIND_SPEC, requires=space_ok, ensures=near_post),
    C('drops.Space.fly', {'self': SPACE, 'p': V, 'vel': V, 'd': R, 'dt': R, 'triangles_cloud': CLOUD, 'max_steps': 'Int'}, setup=fly_setup,
      requires=lambda s: space_ok(s) + [('positive diameter', s.d > 0), ('limit', s.max_steps >= 0)], ensures=fly_post, frame=[], loops=[LoopSpec('flight', 'while', flight)]),
]
TRUSTED = [FIND_CALL, FIRST]
ABOUT = {'level_note': 'Space.__init__, inside, find_nearest, fly_step and fly are proved for all inputs: exactly one true diagnosis, earlier part of the path clear and inside, step formula, step limit.',
         'bounded': ['drops.read_drops_* and the drops() driver (files)', 'TrianglesCloud.first_intersection_with_segment inside the flight is used by contract (C11)'],
         'trusted': ['numpy broadcasting, norm and argmin over arrays of unknown length: first minimal index', 'find_nearest is named as a function of its point inside fly']}
