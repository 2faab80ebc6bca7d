from .common import *
from .common import _mp
from .c19 import rterm

SCHEMA = {'Triangle': {'Points': ('List', V), 'BackRef': 'Int'}, 'Segment': {'Points': ('List', V)},
          'Box': {k: 'Real' for k in ('MinX', 'MinY', 'MinZ', 'MaxX', 'MaxY', 'MaxZ')},
          'TrianglesCloud': {'Triangles': L('Triangle'), 'Subclouds': L('TrianglesCloud'), 'Box': ('Ref', 'Box'),
                             'built': 'Bool', 'below': ('Dict', ('Ref', 'Triangle'), 'Int')}}     # built, below: ghost fields
OPTS = {'fixed': {'Triangle.Points': [3], 'Segment.Points': [2]}}
C = Contract
TC, S, B, T = ref('TrianglesCloud'), ref('Segment'), ref('Box'), ref('Triangle')
t_, u_, c_ = const('t', 'Triangle'), const('u', 'Triangle'), const('c', 'TrianglesCloud')
MEET = z3.Function('meets', ref_sort('Triangle'), ref_sort('Segment'), z3.BoolSort())
AL, BE, PH = [z3.Function(n, ref_sort('Triangle'), ref_sort('Segment'), z3.RealSort()) for n in ('alpha', 'beta', 'phi')]


def BUILT(s, c):
    return s.H('TrianglesCloud.built')[c]


def BELOW(s, c):
    """How often each triangle is in the leaves below."""
    return s.H('TrianglesCloud.below#val')[c]


def point(s, key, o, i):
    return [V3acc[k](s.el(key, o)[i]) for k in range(3)]


def shapes(s):
    return [('triangles have three points', ForAll([t_], s.n('Triangle.Points', t_) == 3, patterns=[s.n('Triangle.Points', t_)])),
            ('the segment has two', s.n('Segment.Points', s.s) == 2)]


def encloses(s, b, t):
    lo = [s.get('Box', 'Min' + x, b) for x in 'XYZ']
    hi = [s.get('Box', 'Max' + x, b) for x in 'XYZ']
    return And([And(lo[k] <= point(s, 'Triangle.Points', t, i)[k], point(s, 'Triangle.Points', t, i)[k] <= hi[k]) for i in range(3) for k in range(3)])


def common_pt(s, t, g):
    a, b, c = [point(s, 'Triangle.Points', t, i) for i in range(3)]
    p, q = [point(s, 'Segment.Points', g, i) for i in range(2)]
    al, be, ph = AL(t, g), BE(t, g), PH(t, g)
    return And([al >= 0, be >= 0, al + be <= 1, 0 <= ph, ph <= 1] + [x + al * (y - x) + be * (z - x) == u + ph * (v - u) for x, y, z, u, v in zip(a, b, c, p, q)])


def meets_def(ex, vals):
    """A triangle that meets the segment has a point in common with it (C10)."""
    from pydv.contract import View
    s = View(ex, ex.st, vals)
    ex.assume(ForAll([t_], Implies(MEET(t_, s.s), common_pt(s, t_, s.s)), patterns=[MEET(t_, s.s)]))


HITS = C('Triangle.intersection_with_segment', {'self': T, 's': S}, modular=True, result=('List', V),
         ensures=lambda s: [('a point exactly where they meet', (s.lst(s.result).n > 0) == MEET(s.self, s.s)), ('a list', s.lst(s.result).n >= 0)])
TRUSTED = [HITS]
BOXSEG = C('Box.is_intersect_with_segment', {'self': B, 's': S}, modular=True, modifies=['Box.@alloc'], result='Bool', setup=meets_def, requires=shapes,
           ensures=lambda s: [('no triangle inside the box that meets the segment is ruled out', ForAll([t_], Implies(And(encloses(s, s.self, t_), MEET(t_, s.s)), zb(s.result)), patterns=[MEET(t_, s.s)]))])


MEETT = z3.Function('triangles_meet', ref_sort('Triangle'), ref_sort('Triangle'), z3.BoolSort())
W = [z3.Function('w%d' % i, ref_sort('Triangle'), ref_sort('Triangle'), z3.RealSort()) for i in range(4)]


PT = [z3.Function('common_' + x, ref_sort('Triangle'), ref_sort('Triangle'), z3.RealSort()) for x in 'XYZ']


def meett_def(ex, vals):
    """Triangles that meet have a point in common."""
    from pydv.contract import View
    s = View(ex, ex.st, vals)
    a, b, c, d = [w(t_, u_) for w in W]
    x, y = [[point(s, 'Triangle.Points', t, i) for i in range(3)] for t in (t_, u_)]
    ex.assume(ForAll([t_, u_], Implies(MEETT(t_, u_), And([a >= 0, b >= 0, a + b <= 1, c >= 0, d >= 0, c + d <= 1] + [
        And(PT[k](t_, u_) == x[0][k] + a * (x[1][k] - x[0][k]) + b * (x[2][k] - x[0][k]), PT[k](t_, u_) == y[0][k] + c * (y[1][k] - y[0][k]) + d * (y[2][k] - y[0][k])) for k in range(3)])), patterns=[MEETT(t_, u_)]))


def in_box(s, b, which, k):
    lo, hi = [s.get('Box', m + 'XYZ'[k], b) for m in ('Min', 'Max')]
    t = (t_, u_)[which]
    return ForAll([t_, u_], Implies(And([MEETT(t_, u_)] + [And(lo <= point(s, 'Triangle.Points', t, i)[k], point(s, 'Triangle.Points', t, i)[k] <= hi) for i in range(3)]), And(lo <= PT[k](t_, u_), PT[k](t_, u_) <= hi)), patterns=[MEETT(t_, u_)])


BOXBOX = C('Box.is_potential_intersect_with_box', {'self': B, 'other_box': B}, modular=True, result='Bool', setup=meett_def, requires=lambda s: [('triangles have three points', ForAll([t_], s.n('Triangle.Points', t_) == 3, patterns=[s.n('Triangle.Points', t_)]))],
           ensures=lambda s: [('no pair of triangles inside the boxes that meet is ruled out', ForAll([t_, u_], Implies(And(encloses(s, s.self, t_), encloses(s, s.other_box, u_), MEETT(t_, u_)), zb(s.result)), patterns=[MEETT(t_, u_)])),
                              ('boxes with a common point are not ruled out', Implies(And([s.get('Box', 'Min' + x, a) <= s.get('Box', 'Max' + x, b) for x in 'XYZ' for a, b in ((s.self, s.other_box), (s.other_box, s.self))]), zb(s.result)))],
           hints=lambda s: [('the common point is inside the box of each (%s %d)' % ('XYZ'[k], w), in_box(s, [s.self, s.other_box][w], w, k)) for w in (0, 1) for k in range(3)])


def tree(s):
    n = lambda k: s.n('TrianglesCloud.' + k, c_)
    sub = lambda i: s.el('TrianglesCloud.Subclouds', c_)[i]
    return [('counts', ForAll([c_, t_], Implies(BUILT(s, c_), BELOW(s, c_)[t_] >= 0), patterns=[BELOW(s, c_)[t_]])),
            ('boxes enclose the triangles below', ForAll([c_, t_], Implies(And(BUILT(s, c_), BELOW(s, c_)[t_] >= 1), And(t_ != null('Triangle'), s.H('Triangle.@alloc')[t_], encloses(s, s.get('TrianglesCloud', 'Box', c_), t_))), patterns=[BELOW(s, c_)[t_]])),
            ('a cloud is a leaf or has two parts', ForAll([c_], Implies(BUILT(s, c_), And(c_ != null('TrianglesCloud'), s.H('TrianglesCloud.@alloc')[c_], s.get('TrianglesCloud', 'Box', c_) != null('Box'), s.H('Box.@alloc')[s.get('TrianglesCloud', 'Box', c_)],
                Or(And(n('Subclouds') == 0, n('Triangles') >= 1), And(n('Triangles') == 0, n('Subclouds') == 2)))), patterns=[BUILT(s, c_)])),
            ('and the parts are clouds', ForAll([c_], Implies(And(BUILT(s, c_), n('Subclouds') == 2), And(BUILT(s, sub(0)), BUILT(s, sub(1)))), patterns=[_mp(BUILT(s, c_), s.el('TrianglesCloud.Subclouds', c_))])),
            ('triangles of a leaf', ForAll([c_, t_], Implies(And(BUILT(s, c_), n('Subclouds') == 0), BELOW(s, c_)[t_] == s.cnt('TrianglesCloud.Triangles', c_)[t_]), patterns=[BELOW(s, c_)[t_], s.cnt('TrianglesCloud.Triangles', c_)[t_]])),
            ('triangles of the parts', ForAll([c_, t_], Implies(And(BUILT(s, c_), n('Subclouds') == 2), BELOW(s, c_)[t_] == BELOW(s, sub(0))[t_] + BELOW(s, sub(1))[t_]), patterns=[_mp(BELOW(s, c_)[t_], s.el('TrianglesCloud.Subclouds', c_))]))]


def below_s(s):
    r = rterm(s.result, 'Triangle')
    return [('a triangle of the cloud that meets the segment', Implies(r != null('Triangle'), And(BELOW(s, s.self)[r] >= 1, MEET(r, s.s)))),
            ('none only if no triangle meets it', Implies(r == null('Triangle'), ForAll([t_], Implies(BELOW(s, s.self)[t_] >= 1, Not(MEET(t_, s.s))), patterns=[BELOW(s, s.self)[t_]])))]


FIRST = C('TrianglesCloud.first_intersection_with_segment', {'self': TC, 's': S}, modular=True, modifies=['Box.@alloc'], result=('RefOrNone', 'Triangle'), opts={'fixed': {**OPTS['fixed'], 'TrianglesCloud.Subclouds': [2, 0]}},
          requires=lambda s: shapes(s) + tree(s) + [('a built cloud', BUILT(s, s.self))], ensures=below_s,
          loops=[LoopSpec('triangles', 'TrianglesCloud.Triangles', lambda L: [('those seen do not meet it', ForAll([t_], Implies(L.seen()[t_] >= 1, Not(MEET(t_, L.s))), patterns=[L.seen()[t_]]))])])


def listed(s, name):
    return lambda t: s.lst(s.arg(name)).cnt[t] >= 1


def triangles(s, name):
    l = s.lst(s.arg(name))
    return [('triangles are given', l.n >= 1), ('triangles have three points', ForAll([t_], s.n('Triangle.Points', t_) == 3, patterns=[s.n('Triangle.Points', t_)]))]


def boxes_stay(s):
    o = s.old
    b_ = const('b', 'Box')
    return [('boxes stay (%s)' % k, ForAll([b_], Implies(o.H('Box.@alloc')[b_], s.H('Box.' + k)[b_] == o.H('Box.' + k)[b_]), patterns=[s.H('Box.' + k)[b_]])) for k in SCHEMA['Box']]


def kept(s):
    """Clouds and boxes that existed stay."""
    o = s.old
    same = lambda k: s.H('TrianglesCloud.' + k)[c_] == o.H('TrianglesCloud.' + k)[c_]
    ks = ['Triangles#len', 'Triangles#el', 'Triangles#cnt', 'Subclouds#len', 'Subclouds#el', 'Subclouds#cnt', 'Box', 'built', 'below#val']
    return [('other clouds stay (%s)' % k, ForAll([c_], Implies(And(o.H('TrianglesCloud.@alloc')[c_], c_ != s.self), same(k)), patterns=[s.H('TrianglesCloud.' + k)[c_]])) for k in ks] + boxes_stay(s)


BOX = C('Box.from_triangles', {'ts': ('List', T)}, modular=True, modifies=['Box.@alloc'] + ['Box.' + k for k in SCHEMA['Box']], result=('Ref', 'Box'), requires=lambda s: triangles(s, 'ts'),
        ensures=lambda s: [('the box encloses them', ForAll([t_], Implies(s.lst(s.arg('ts')).cnt[t_] >= 1, encloses(s, s.result.t, t_)), patterns=[s.lst(s.arg('ts')).cnt[t_]])),
                           ('it is a new one', Not(s.old.H('Box.@alloc')[s.result.t]))] + boxes_stay(s))


def halves(s):
    a, b = [s.lst(x) for x in s.items(s.result)]
    l = s.old.lst(s.arg('triangles_list'))
    return [('two parts', z3.BoolVal(len(s.items(s.result)) == 2)), ('neither is empty', And(a.n >= 1, b.n >= 1)), ('together they are as long', a.n + b.n == l.n),
            ('and list every triangle as often as the list', ForAll([t_], a.cnt[t_] + b.cnt[t_] == l.cnt[t_], patterns=[l.cnt[t_], a.cnt[t_], b.cnt[t_]]))]


SEP = C('TrianglesCloud.separate_triangles_list', {'self': TC, 'triangles_list': ('List', T)}, modular=True, result=('CList', [('List', T), ('List', T)]), modifies=['Box.@alloc'], locals_mut=['triangles_list'],
        requires=lambda s: [('more than one triangle', s.lst(s.arg('triangles_list')).n >= 2)] + triangles(s, 'triangles_list')[1:], ensures=halves)


def become_built(ex, s):
    """Ghost code: the cloud is built; below it are its triangles and those below its parts."""
    sub = s.el('TrianglesCloud.Subclouds', s.self)
    below = ex.fresh('below', z3.ArraySort(ref_sort('Triangle'), z3.IntSort()))
    n = s.n('TrianglesCloud.Subclouds', s.self)
    ex.assume(ForAll([t_], below[t_] == s.cnt('TrianglesCloud.Triangles', s.self)[t_] + If(n >= 1, BELOW(s, sub[0])[t_], 0) + If(n >= 2, BELOW(s, sub[1])[t_], 0), patterns=[below[t_]]))
    ex.hset('TrianglesCloud.built', z3.Store(s.H('TrianglesCloud.built'), s.self, z3.BoolVal(True)))
    ex.hset('TrianglesCloud.below#val', z3.Store(s.H('TrianglesCloud.below#val'), s.self, below))


INIT = C('TrianglesCloud.__init__', {'self': TC, 'triangles_list': ('List', T)}, modular=True, weight=9, ghost=become_built, opts={'fixed': {**OPTS['fixed'], 'TrianglesCloud.Subclouds': [2, 0]}},
         requires=lambda s: triangles(s, 'triangles_list') + tree(s) + [('not built yet', Not(BUILT(s, s.self)))],
         ensures=lambda s: [('every triangle of the list is below it as often', ForAll([t_], BELOW(s, s.self)[t_] == s.old.lst(s.arg('triangles_list')).cnt[t_], patterns=[BELOW(s, s.self)[t_]])),
                            ('it is built', BUILT(s, s.self))] + tree(s) + kept(s),
         hints=lambda s: [('its box encloses the triangles', ForAll([t_], Implies(s.old.lst(s.arg('triangles_list')).cnt[t_] >= 1, encloses(s, s.get('TrianglesCloud', 'Box', s.self), t_)), patterns=[s.old.lst(s.arg('triangles_list')).cnt[t_]])),
                          ('and no box of another cloud is its box', s.get('TrianglesCloud', 'Box', s.self) != null('Box'))],
         split={x: 'path' for x in ('boxes enclose the triangles below', 'triangles of the parts', 'triangles of a leaf', 'a cloud is a leaf or has two parts', 'and the parts are clouds')}, split_on=lambda s: [s.self],
         modifies=['TrianglesCloud.@alloc', 'Box.@alloc'] + ['TrianglesCloud.' + k for k in SCHEMA['TrianglesCloud']] + ['Box.' + k for k in SCHEMA['Box']], locals_mut=['triangles_list'])

ROW = ('Row', V)
PAIR = ('Tup', (('Ref', 'Triangle'), ROW))
_, pair_mk, pair_acc = tup_sort([ref_sort('Triangle'), ety_sort(ROW)])
_, row_mk, row_acc = row_sort(ety_sort(V))
PTS = z3.Function('points', ref_sort('Triangle'), ref_sort('Triangle'), ety_sort(ROW))
e_ = z3.Const('e', ety_sort(PAIR))


def same_points(s):
    l = s.lst(s.result)
    return [('points exactly where they meet', (l.n > 0) == MEETT(s.self, s.tri)), ('the same ones every time', And(l.n == row_acc[0](PTS(s.self, s.tri)), l.el == row_acc[1](PTS(s.self, s.tri))))]


TRI = C('Triangle.intersection_with_triangle', {'self': T, 'tri': T}, modular=True, result=('List', V), ensures=same_points)
TRUSTED.append(TRI)


def reported(c, a, b):
    """Both triangles of the pair are reported with the points."""
    return And(c[pair_mk(a, PTS(a, b))] >= 1, c[pair_mk(b, PTS(a, b))] >= 1)


def some_pair(e, a, b):
    """The first argument choice: the pair an entry comes from."""
    return And(MEETT(a, b), Or(e == pair_mk(a, PTS(a, b)), e == pair_mk(b, PTS(a, b))))


def pairs_found(s, done, cnt):
    """done: which pairs were looked at."""
    return [('every pair that meets is reported', ForAll([t_, u_], Implies(And(done(t_, u_), MEETT(t_, u_)), reported(cnt, t_, u_)), patterns=[MEETT(t_, u_)])),
            ('every entry comes from a pair that meets', ForAll([e_], Implies(cnt[e_] >= 1, Exists([t_, u_], And(done(t_, u_), some_pair(e_, t_, u_)))), patterns=[cnt[e_]]))]


def query_s(s):
    return pairs_found(s, lambda t, u: And(BELOW(s, s.self)[t] >= 1, BELOW(s, s.tc)[u] >= 1), s.lst(s.result, PAIR).cnt)


def looked_at(L):
    """The triangles of one leaf in the outer loop, those of the other in the inner one."""
    if not L.ks:
        done = lambda t, u: And(L.seen()[t] >= 1, BELOW(L, L.tc)[u] >= 1)
    else:
        k = L.ks[-1]
        first = L.ex.PC(L.ex.content(HList('TrianglesCloud.Triangles', L.self)))(k)
        done = lambda t, u: Or(And(first[t] >= 1, BELOW(L, L.tc)[u] >= 1), And(t == L.el('TrianglesCloud.Triangles', L.self)[k], L.seen()[u] >= 1))
    return pairs_found(L, done, L.lst(L.loc('list_tri_and_intersection_points'), PAIR).cnt)


QUERY = C('TrianglesCloud.intersection_with_triangles_cloud', {'self': TC, 'tc': TC}, modular=True, result=('List', PAIR), opts={'fixed': {**OPTS['fixed'], 'TrianglesCloud.Subclouds': [2, 0]}},
          requires=lambda s: [('triangles have three points', ForAll([t_], s.n('Triangle.Points', t_) == 3, patterns=[s.n('Triangle.Points', t_)]))] + tree(s) + [('a built cloud', BUILT(s, s.self)), ('another built cloud', BUILT(s, s.tc))],
          ensures=query_s, loops=[LoopSpec('triangles', 'TrianglesCloud.Triangles', looked_at)])
CONTRACTS = [BOXSEG, BOXBOX, QUERY, FIRST, BOX, SEP, INIT]


ABOUT = {'level_note': 'Box.from_triangles, both box tests, separate_triangles_list, the recursive constructor (ghost count of every triangle below every cloud: listed once below, enclosed by every box above), the recursive '
                       'query with a segment and the recursive query with another cloud (every pair that meets is reported with both its triangles, every entry comes from such a pair) are proved for every list of triangles, every '
                       'segment and every two clouds. How often a pair is reported: bounded.',
         'bounded': [],
         'trusted': ['Triangle.intersection_with_segment and intersection_with_triangle are functions of their arguments that return a non-empty list exactly when the two meet, and then they have a point in common '
                     '(proved as C10 for a triangle and a segment in general position)']}
