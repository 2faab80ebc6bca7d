from .common import *
from pydv.lib import psum

SCHEMA = mesh()
OPTS = {}
C = Contract
T = 'gsu.zones_adjacency_matrix.ZonesAdjacencyMatrix'
ZAM = 'ZonesAdjacencyMatrix'
I = z3.IntSort()
POS = z3.Function('position_of_zone', ref_sort('Zone'), I)
W = z3.Function('edges_of_pair', I, I, I, I)         # W(i, j, k): how many of the first k edges belong to the pair (i, j)
i, j, k = z3.Ints('i j k')
z = const('z', 'Zone')
me = lambda s: s.arg('self')


def ends(s, e, zc):
    """The two ends of an edge in the matrix: positions of the zones of its faces, the border column for a missing face."""
    f = s.el('Edge.Faces', e)
    a = POS(s.get('Face', 'Zone', f[0]))
    return a, If(s.n('Edge.Faces', e) == 2, POS(s.get('Face', 'Zone', f[1])), zc)


def belongs(s, e, zc, i, j):
    a, b = ends(s, e, zc)
    return Or(And(a == i, b == j), And(a == j, b == i))


def init_setup(ex, vals):
    from pydv.contract import View
    s = View(ex, ex.st, vals)
    zs, es = s.lst(vals['zs']), s.lst(vals['es'])
    ex.st.pc += [ForAll([i], Implies(And(0 <= i, i < zs.n), POS(zs.el[i]) == i), patterns=[zs.el[i]]),
                 ForAll([i, j], W(i, j, 0) == 0, patterns=[W(i, j, 0)]),
                 ForAll([i, j, k], Implies(And(0 <= k, k < es.n), W(i, j, k + 1) == W(i, j, k) + If(belongs(s, es.el[k], zs.n, i, j), 1, 0)),
                        patterns=[z3.MultiPattern(W(i, j, k + 1), es.el[k])])]


def init_req(s):
    zs, es = s.lst(s.arg('zs')), s.lst(s.arg('es'))
    e, f = const('e', 'Edge'), const('f', 'Face')
    el = lambda q: s.el('Edge.Faces', es.el[k])[q]
    ok = lambda q: And(el(q) != null('Face'), zs.cnt[s.get('Face', 'Zone', el(q))] == 1)
    return [('zones are distinct', ForAll([z], zs.cnt[z] <= 1, patterns=[zs.cnt[z]])),
            ('faces of the edges lie in the zones', ForAll([k], Implies(And(0 <= k, k < es.n), And(
                Implies(s.n('Edge.Faces', es.el[k]) >= 1, ok(0)), Implies(s.n('Edge.Faces', es.el[k]) >= 2, ok(1)))), patterns=[es.el[k]]))]


def rows(s, M):
    c = s.lst(M)
    if c.el is None:
        return c.n, lambda a: z3.IntVal(0), lambda a, b: z3.IntVal(0)
    _, mkr, acc = row_sort(I)
    return c.n, lambda a: acc[0](c.el[a]), lambda a, b: acc[1](c.el[a])[b]


def matrix(s, M, zc, count):
    n, rl, at = rows(s, M)
    return [('one row per zone and one for the border', n == zc + 1), ('rows as long', ForAll([i], Implies(And(0 <= i, i <= zc), rl(i) == zc + 1))),
            ('every entry is the number of edges of its pair', ForAll([i, j], Implies(And(0 <= i, i <= zc, 0 <= j, j <= zc), at(i, j) == count(i, j))))]


def zero_rows(L):
    n, rl, at = rows(L, L.fld(me(L), 'M'))
    zc = n_zones(L)
    return [('rows so far', n == L.k), ('zero rows', ForAll([i], Implies(And(0 <= i, i < L.k), And(rl(i) == zc + 1, ForAll([j], Implies(And(0 <= j, j <= zc), at(i, j) == 0))))))]


def n_zones(s):
    return s.lst(s.arg('zs')).n


def wrong(s):
    es = s.lst(s.arg('es'))
    return Exists([k], And(0 <= k, k < es.n, s.n('Edge.Faces', es.el[k]) != 1, s.n('Edge.Faces', es.el[k]) != 2))


def init_post(s):
    zc, es = n_zones(s), s.lst(s.arg('es'))
    n, rl, at = rows(s, s.fld(me(s), 'M'))
    return matrix(s, s.fld(me(s), 'M'), zc, lambda a, b: W(a, b, es.n)) + [
        ('zone count', zn(s.fld(me(s), 'ZonesCount')) == zc), ('symmetric', ForAll([i, j], Implies(And(0 <= i, i <= zc, 0 <= j, j <= zc), at(i, j) == at(j, i)))),
        ('every edge had one or two faces', Not(wrong(s)))]


CONTRACTS = [
    C(ZAM + '.__init__', {'self': ('Obj', ZAM, {}), 'es': ('List', ('Ref', 'Edge')), 'zs': ('List', ('Ref', 'Zone'))}, setup=init_setup, requires=init_req,
      ensures=init_post, raises={'Exception': wrong}, opts={'obj_frame_off': True}, frame=[],
      loops=[LoopSpec('zero rows', 'range', zero_rows),
             LoopSpec('edges', 'local', lambda L: [('zone count', zn(L.fld(me(L), 'ZonesCount')) == n_zones(L))] + matrix(L, L.fld(me(L), 'M'), n_zones(L), lambda a, b: W(a, b, L.k)) + [
                 ('symmetric so far', ForAll([i, j], W(i, j, L.k) == W(j, i, L.k), patterns=[W(i, j, L.k)])),
                 ('edges so far had one or two faces', ForAll([k], Implies(And(0 <= k, k < L.k), Or(*[L.n('Edge.Faces', L.src.el[k]) == q for q in (1, 2)])), patterns=[L.src.el[k]]))])]),
]
Q = ('Obj', ZAM, {'ZonesCount': 'Int', 'M': ('List', ('Row', 'Int'))})
zc_ = lambda s: zn(s.fld(me(s), 'ZonesCount'))
m_ = lambda s: rows(s, s.fld(me(s), 'M'))
P = psum(I)


def shape(s):
    n, rl, at = m_(s)
    zc = zc_(s)
    return [('a square matrix', And(zc >= 1, n == zc + 1, ForAll([i], Implies(And(0 <= i, i <= zc), rl(i) == zc + 1))))]


def zone_index(s):
    return shape(s) + [('a zone', And(0 <= s.arg('zi'), s.arg('zi') < zc_(s)))]


def kept(s):
    n, rl, at = m_(s)
    n0, rl0, at0 = m_(s.old)
    zc = zc_(s.old)
    return [('the matrix is not changed', And(n == n0, zc_(s) == zc, ForAll([i], Implies(And(0 <= i, i <= zc), And(rl(i) == rl0(i), ForAll([j], Implies(And(0 <= j, j <= zc), at(i, j) == at0(i, j))))))))]


def cross(s, a, b):
    """Entry b of the row of zone a without its inner edges and without the border column."""
    n, rl, at = m_(s)
    return If(Or(b == a, b == zc_(s)), 0, at(a, b))


def cross_row(s):
    r = s.lst(s.result)
    a = s.arg('zi')
    return [('length', r.n == zc_(s) + 1), ('cross edges with every other zone', ForAll([j], Implies(And(0 <= j, j <= zc_(s)), r.el[j] == cross(s.old, a, j)), patterns=[r.el[j]]))]


def sums(s, name, f, n):
    """Sum of f(0), f(1), ..., f(n-1) through a fresh array and the prefix sums over it."""
    A = z3.Const('summands_' + name, z3.ArraySort(I, I))
    ex = s.ex
    return A, P(A, n)


def cross_count(s):
    A = z3.Const('cross_row', z3.ArraySort(I, I))
    return [('number of cross edges of the zone', s.result == P(A, zc_(s) + 1))]


def array_setup(f, extra=None):
    """Names the array the sums of the specification run over (conservative: a total function of the entry state)."""
    def setup(ex, vals):
        from pydv.contract import View
        s = View(ex, ex.st.snap(), vals)
        for name, fn in f(s).items():
            A = z3.Const(name, z3.ArraySort(I, I))
            ex.st.pc += [ForAll([j], A[j] == fn(j), patterns=[A[j]]), P(A, 0) == 0, ForAll([k], Implies(k >= 0, P(A, k + 1) == P(A, k) + A[k]), patterns=[P(A, k + 1)])]
        ex.st.pc += extra if extra is not None else psum_theory(I)
    return setup


def greatest(s, t, dom, f):
    return [('not exceeded', ForAll([j], Implies(dom(j), t >= f(j)))), ('attained', Exists([j], And(dom(j), t == f(j))))]


ROW_C = C(ZAM + '.zone_cross_edges_array', {'self': Q, 'zi': 'Int'}, requires=zone_index, ensures=lambda s: cross_row(s) + kept(s), modular=True, result=('List', 'Int'), frame=[])
MAX_C = C(ZAM + '.zone_max_cross_border_len', {'self': Q, 'zi': 'Int'}, requires=zone_index, modular=True, result='Int', frame=[],
          ensures=lambda s: greatest(s, zn(s.result), lambda j: And(0 <= j, j <= zc_(s)), lambda j: cross(s.old, s.arg('zi'), j)) + kept(s))


def overall(s):
    a, b = z3.Ints('a b')
    dom = And(0 <= a, a < zc_(s), 0 <= b, b <= zc_(s))
    return [('no border is longer', ForAll([a, b], Implies(dom, s.result >= cross(s.old, a, b)))), ('some border is as long', Exists([a, b], And(dom, s.result == cross(s.old, a, b))))] + kept(s)


CONTRACTS += [
    ROW_C, MAX_C,
    C(ZAM + '.max_cross_border_len', {'self': Q}, requires=shape, ensures=overall),
    C(ZAM + '.zone_cross_edges_count', {'self': Q, 'zi': 'Int'}, requires=zone_index, setup=array_setup(lambda s: {'cross_row': lambda b: cross(s, s.arg('zi'), b)}),
      ensures=lambda s: cross_count(s) + kept(s)),
    C(ZAM + '.zone_cross_borders_count', {'self': Q, 'zi': 'Int'}, requires=zone_index, opts={'filter_count': True},
      setup=array_setup(lambda s: {'cross_border': lambda b: If(And(0 <= b, b <= zc_(s), cross(s, s.arg('zi'), b) > 0), 1, 0)}),
      ensures=lambda s: [('number of zones it shares edges with', s.result == P(z3.Const('cross_border', z3.ArraySort(I, I)), zc_(s) + 1))] + kept(s)),
]
TAIL = z3.Function('right_of_the_diagonal', I, z3.ArraySort(I, I))
PART = {n: z3.Function('sum_of_%s_edges' % n, I, I) for n in ('border', 'inner', 'cross')}       # over the first k rows


def tail_sums():
    """Equal summands give equal sums (induction over the length, assumed), for the parts of the rows right of the diagonal."""
    A = z3.ArraySort(I, I)
    a, n, n2 = z3.Const('a', A), z3.Int('n'), z3.Int('n2')
    w = z3.Function('tail_diff', A, I, I, I)(a, i, n)
    return ForAll([a, i, n, n2], Or(n != n2, P(a, n) == P(TAIL(i), n2), And(0 <= w, w < n, a[w] != TAIL(i)[w])), patterns=[z3.MultiPattern(P(a, n), P(TAIL(i), n2))])


def stat_setup(ex, vals):
    from pydv.contract import View
    s = View(ex, ex.st.snap(), vals)
    n, rl, at = m_(s)
    zc = zc_(s)
    ex.st.pc += [ForAll([i, j], TAIL(i)[j] == at(i, i + 1 + j), patterns=[TAIL(i)[j]])]
    ex.st.pc.append(tail_sums())
    for q, term in (('border', lambda a: at(a, zc)), ('inner', lambda a: at(a, a)), ('cross', lambda a: P(TAIL(a), zc - a - 1))):
        S = PART[q]
        ex.st.pc += [S(0) == 0, ForAll([k], Implies(k >= 0, S(k + 1) == S(k) + term(k)), patterns=[S(k + 1)])]


def stat(s):
    zc = zc_(s.old)
    ec, b, n, c, bp, np_, cp = s.result
    S = {q: A(zc) for q, A in PART.items()}
    ec, b, n, c = [zn(x) for x in (ec, b, n, c)]
    return [('border edges', b == S['border']), ('inner edges', n == S['inner']), ('cross edges', c == S['cross']), ('all edges', ec == b + n + c)] + [
        ('percentage %d' % q, zreal(x) * ec == 100 * z3.ToReal(y)) for q, (x, y) in enumerate([(bp, b), (np_, n), (cp, c)])] + kept(s)


CONTRACTS += [
    C(ZAM + '.edges_statistics', {'self': Q}, requires=lambda s: shape(s), setup=stat_setup, ensures=stat, raises={'ZeroDivisionError': lambda s: sum(A(zc_(s)) for A in PART.values()) == 0},
      loops=[LoopSpec('rows', 'range', lambda L: [(n, zn(L.loct(v)) == PART[n](L.k)) for n, v in (('border', 'bec'), ('inner', 'iec'), ('cross', 'cec'))])]),
]
ABOUT = {'level_note': 'ZonesAdjacencyMatrix: construction (every edge counted once, for the pair of its zones, or the border) and every query proved for every list of edges and zones; the printed statistics string is bounded.',
         'bounded': ['edges_statistics_string and Grid.print_info']}
