from .common import *

R = 'Real'
from .c12 import SCHEMA
OPTS = {}
FIX = {'fixed': {'Face.Nodes': [3], 'Edge.Nodes': [2]}}
C = Contract
f_, n_, e_, z_, i_, j_ = const('f', 'Face'), const('n', 'Node'), const('e', 'Edge'), const('z', 'Zone'), z3.Int('i'), z3.Int('j')
nget = lambda s, k, n: s.get('Node', k, n)
P = lambda s, n: nget(s, 'P', n)
border = lambda s, n: nget(s, 'border', n)


# ---------------------------------------------------------------- flags
def cn(s, k, o):
    return s.cnt('Grid.%s' % k, s.self)[o]


def single(s, e):
    return s.n('Edge.Faces', e) == 1


def is_end(s, e, n):
    return Or(s.el('Edge.Nodes', e)[0] == n, s.el('Edge.Nodes', e)[1] == n)


ENDOF = z3.Function('single_faced_edge_at', ref_sort('Node'), ref_sort('Edge'))
NB = bagsum('Node')


def flag(s, n):
    """Indicator of border as a real, summed over the nodes of the grid."""
    return border(s, n)


IND = z3.Function('indicator', z3.ArraySort(ref_sort('Node'), z3.BoolSort()), z3.ArraySort(ref_sort('Node'), z3.RealSort()))


def count(s):
    """Number of flagged nodes among the nodes of the grid (finite sum of indicators)."""
    return NB(s.H('Grid.Nodes#cnt')[s.self], IND(s.H('Node.border')))


def count_theory(ex, vals):
    b = z3.Const('b', z3.ArraySort(ref_sort('Node'), z3.BoolSort()))
    v = z3.Bool('v')
    one = lambda t: If(t, z3.RealVal(1), z3.RealVal(0))
    up = IND(z3.Store(b, n_, v))
    ex.st.pc += bagsum_theory('Node') + [ForAll([b, n_], IND(b)[n_] == one(b[n_]), patterns=[IND(b)[n_]]),
                                         ForAll([b, n_, v], up == z3.Store(IND(b), n_, one(v)), patterns=[up])]


def flagged(s, seen):
    """A node is flagged exactly when it was before or is an end of a visited edge with a single face."""
    o = s.old
    return [('ends of single-faced edges are flagged', ForAll([e_], Implies(And(seen(e_), single(o, e_)), And(
        border(s, s.el('Edge.Nodes', e_)[0]), border(s, s.el('Edge.Nodes', e_)[1]), s.get('Edge', 'border', e_))), patterns=[s.el('Edge.Nodes', e_)])),
        ('no other node is flagged', ForAll([n_], Implies(border(s, n_), Or(border(o, n_), And(
            seen(WIT(n_)), single(o, WIT(n_)), is_end(o, WIT(n_), n_)))), patterns=[border(s, n_)])),
        ('flags are never cleared', ForAll([n_], Implies(border(o, n_), border(s, n_)), patterns=[border(s, n_)])),
        ('each flagged node is counted once', z3.ToReal(s.get('Grid', 'number_of_border_nodes', s.self)) - z3.ToReal(o.get('Grid', 'number_of_border_nodes', s.self)) == count(s) - count(o))]


WIT = z3.Function('border_edge_of', ref_sort('Node'), ref_sort('Edge'))


def mark_req(s):
    return [('edges have two nodes of the grid', ForAll([e_], Implies(cn(s, 'Edges', e_) >= 1, And([e_ != null('Edge'), s.n('Edge.Nodes', e_) == 2] + [
        And(s.el('Edge.Nodes', e_)[k] != null('Node'), cn(s, 'Nodes', s.el('Edge.Nodes', e_)[k]) == 1) for k in (0, 1)])), patterns=[s.n('Edge.Nodes', e_)])),
        # WIT is a choice function: an edge of the grid with a single face that ends in the node, if there is one
        ('choice', ForAll([e_, n_], Implies(And(cn(s, 'Edges', e_) >= 1, single(s, e_), is_end(s, e_, n_)), And(
            cn(s, 'Edges', WIT(n_)) >= 1, single(s, WIT(n_)), is_end(s, WIT(n_), n_))), patterns=[z3.MultiPattern(s.el('Edge.Nodes', e_), border(s, n_))]))]


def mark_inv(L):
    s = L
    o = L.old
    seen = lambda e: L.seen()[e] >= 1
    allof = lambda e: L.cnt('Grid.Edges', L.self)[e] >= 1
    fl = flagged(L, allof)
    return [flagged(L, seen)[0]] + fl[1:]


CONTRACTS = [
    C('Grid.mark_all_fixed_nodes', {'self': G}, opts=FIX, setup=count_theory, requires=mark_req,
      ensures=lambda s: flagged(s, lambda e: cn(s.old, 'Edges', e) >= 1), frame=['Edge.border', 'Node.border', 'Grid.number_of_border_nodes'],
      loops=[LoopSpec('edges', 'Grid.Edges', mark_inv)]),
]


# ---------------------------------------------------------------- applying shifts
def positions(k, of):
    """pos(x): the position of x in the list (each object is listed once, so positions are unique)."""
    def setup(ex, vals):
        from pydv.contract import View
        s = View(ex, ex.st, vals)
        o = of(s)
        cls = k.split('.')[1][:-1]
        p = POS(cls)
        ex.st.pc.append(ForAll([i_], Implies(And(0 <= i_, i_ < s.n(k, o)), p(s.el(k, o)[i_]) == i_), patterns=[s.el(k, o)[i_]]))
    return setup


def POS(cls):
    return z3.Function('position_' + cls, ref_sort(cls), z3.IntSort())


SM = ('Obj', 'smoothing.Smoothing', {'grid': G, 'fix_boundary_nodes': 'Bool'})
gr = lambda s: s.fld(s.arg('self'), 'grid').t
fixed = lambda s: zb(s.fld(s.arg('self'), 'fix_boundary_nodes'))


def applied(s, upto):
    o = s.old
    el = o.el('Grid.Nodes', gr(s))
    sh = o.lst(s.arg('shifts')).el
    n = el[i_]
    rng = And(0 <= i_, i_ < o.n('Grid.Nodes', gr(s)))
    new = If(And(fixed(s), border(o, n)), P(o, n), mk(vadd(v3(P(o, n)), v3(sh[i_]))))
    return [('a node moves by its own shift unless it is a fixed border node', ForAll([i_], Implies(rng, veq(v3(P(s, n)), v3(If(i_ < upto, new, P(o, n))))), patterns=[n]))]


CONTRACTS += [
    C('smoothing.Smoothing.move_node', {'self': SM, 'node': N, 'shift': V}, ensures=lambda s: [
        ('moves by the shift unless it is a fixed border node', veq(v3(P(s, s.node)), v3(If(And(fixed(s), border(s.old, s.node)), P(s.old, s.node),
                                                                                       mk(vadd(v3(P(s.old, s.node)), s.old.vect(s.arg('shift')))))))),
        ], frame=[('Node.P', lambda s: [s.node])]),
    C('smoothing.Smoothing.apply_shifts', {'self': SM, 'shifts': ('List', V)}, setup=positions('Grid.Nodes', gr), raises={'AssertionError': lambda s: s.lst(s.arg('shifts')).n != s.n('Grid.Nodes', gr(s))},
      requires=lambda s: [('nodes are objects', ForAll([n_], Implies(s.cnt('Grid.Nodes', gr(s))[n_] >= 1, n_ != null('Node')), patterns=[s.cnt('Grid.Nodes', gr(s))[n_]]))],
      ensures=lambda s: applied(s, s.old.n('Grid.Nodes', gr(s))), frame=['Node.P'],
      loops=[LoopSpec('nodes', 'Grid.Nodes', lambda L: applied(L, L.k))]),
]


# ---------------------------------------------------------------- growth directions and growth
from pydv.lib import psum
from .c12 import MOVE, SWEPT_C, tong, wfn, g, inF, inN
NDIR = [z3.Function('adjacent_normals_' + c, ref_sort('Node'), z3.ArraySort(z3.IntSort(), z3.RealSort())) for c in 'xyz']
SR = psum(z3.RealSort())
face_pts = lambda s, f: [P(s, s.el('Face.Nodes', f)[j]) for j in range(3)]
fnormal = lambda s, f: ORTH(mk(cross_of(face_pts(s, f))))
fdir = lambda s, f: s.get('Face', 'ice_dir', f)


def dir_theory(ex, vals):
    """adjacent_normals_x(n)[k]: x component of the unit normal of the k-th face of node n (definition)."""
    from pydv.contract import View
    s = View(ex, ex.st, vals)
    f = s.el('Node.Faces', n_)[i_]
    ex.st.pc += psum_theory(z3.RealSort()) + [ForAll([n_, i_], NDIR[q](n_)[i_] == v3(fnormal(s, f))[q], patterns=[NDIR[q](n_)[i_]]) for q in range(3)]


def node_dir(s, n):
    m = s.old.n('Node.Faces', n)
    return veq(v3(nget(s, 'ice_dir', n)), v3(ORTH(mk([SR(NDIR[q](n), m) for q in range(3)]))))


def face_dir(s, f):
    return veq(v3(fdir(s, f)), v3(fnormal(s.old, f)))


def node_faces(s):
    return [('faces of a node are faces of the grid', ForAll([n_, i_], Implies(And(inN(s, n_), 0 <= i_, i_ < s.n('Node.Faces', n_)),
                                                                              inF(s, s.el('Node.Faces', n_)[i_])), patterns=[s.el('Node.Faces', n_)[i_]]))]


CONTRACTS += [
    ORTH_C, NORMAL_C, MOVE, SWEPT_C,
    C('remeshing.TongRemesher.init_ice_dirs', {'self': tong()}, opts={'fixed': {'Face.Nodes': [3]}}, requires=lambda s: wfn(s) + node_faces(s), setup=dir_theory,
      ensures=lambda s: [('the direction of a face is its unit normal', ForAll([f_], Implies(inF(s, f_), face_dir(s, f_)), patterns=[fdir(s, f_)])),
                         ('the direction of a node is the unit sum of the normals of its faces', ForAll([n_], Implies(inN(s, n_), node_dir(s, n_)), patterns=[nget(s, 'ice_dir', n_)]))],
      frame=['Face.ice_dir', 'Node.ice_dir'], raises={'ZeroDivisionError': None},
      loops=[LoopSpec('faces', 'Grid.Faces', lambda L: [('visited faces', ForAll([f_], Implies(L.seen()[f_] >= 1, face_dir(L, f_)), patterns=[fdir(L, f_)]))]),
             LoopSpec('nodes', 'Grid.Nodes', lambda L: [('visited nodes', ForAll([n_], Implies(L.seen()[n_] >= 1, node_dir(L, n_)), patterns=[nget(L, 'ice_dir', n_)]))])]),
]


# ---------------------------------------------------------------- explosion
ZP = [z3.Function('zone_positions_' + c, ref_sort('Zone'), z3.ArraySort(z3.IntSort(), z3.RealSort())) for c in 'xyz']
GP = [z3.Const('grid_positions_' + c, z3.ArraySort(z3.IntSort(), z3.RealSort())) for c in 'xyz']
OZ = z3.Function('zone_of_node', ref_sort('Node'), ref_sort('Zone'))
zin = lambda s, z: s.cnt('Grid.Zones', s.self)[z] >= 1
lists = lambda s, z, n: s.cnt('Zone.Nodes', z)[n] >= 1


def mean_theory(ex, vals):
    from pydv.contract import View
    s = View(ex, ex.st, vals)
    ex.st.pc += psum_theory(z3.RealSort())
    for q in range(3):
        ex.st.pc += [ForAll([z_, i_], ZP[q](z_)[i_] == v3(P(s, s.el('Zone.Nodes', z_)[i_]))[q], patterns=[ZP[q](z_)[i_]]),
                     ForAll([i_], GP[q][i_] == v3(P(s, s.el('Grid.Nodes', s.self)[i_]))[q], patterns=[GP[q][i_]])]


def zshift(s, z):
    """k times the offset of the mean of the zone from the mean of the grid, both of the original positions."""
    o = s.old
    return [(SR(ZP[q](z), o.n('Zone.Nodes', z)) / z3.ToReal(o.n('Zone.Nodes', z)) -
             SR(GP[q], o.n('Grid.Nodes', s.self)) / z3.ToReal(o.n('Grid.Nodes', s.self))) * zreal(s.k_) for q in range(3)]


def exploded(s, seen, cur=None):
    o = s.old
    z = OZ(n_)
    mv = And(zin(o, z), lists(o, z, n_), seen(z, n_))
    return [('zones move rigidly by the fraction of their offset', ForAll([n_], veq(v3(P(s, n_)), [
        If(mv, a + d, a) for a, d in zip(v3(P(o, n_)), [SHZ[q](z) for q in range(3)])]), patterns=[P(s, n_)]))]


SHZ = [z3.Function('zone_shift_' + c, ref_sort('Zone'), z3.RealSort()) for c in 'xyz']


def shz(ex, vals):
    """zone_shift(z) abbreviates the fraction k of the offset of zone z."""
    from pydv.contract import View
    mean_theory(ex, vals)
    o = View(ex, ex.st, vals)
    for q in range(3):
        ex.st.pc.append(ForAll([z_], SHZ[q](z_) == (SR(ZP[q](z_), o.n('Zone.Nodes', z_)) / z3.ToReal(o.n('Zone.Nodes', z_)) -
                                                    SR(GP[q], o.n('Grid.Nodes', o.self)) / z3.ToReal(o.n('Grid.Nodes', o.self))) * zreal(vals['k']), patterns=[SHZ[q](z_)]))


CONTRACTS += [
    C('Grid.move_from_mean_point', {'self': G, 'k': R}, setup=shz, requires=lambda s: [
        ('zones listed once', ForAll([z_], s.cnt('Grid.Zones', s.self)[z_] <= 1, patterns=[s.cnt('Grid.Zones', s.self)[z_]])),
        ('zones share no node and list it once', ForAll([z_, n_], Implies(And(zin(s, z_), lists(s, z_, n_)), And(n_ != null('Node'), OZ(n_) == z_, s.cnt('Zone.Nodes', z_)[n_] == 1)),
                                                        patterns=[s.cnt('Zone.Nodes', z_)[n_]])),
        ('nodes everywhere', And(s.n('Grid.Nodes', s.self) >= 1, ForAll([z_], Implies(zin(s, z_), And(z_ != null('Zone'), s.n('Zone.Nodes', z_) >= 1)), patterns=[s.cnt('Grid.Zones', s.self)[z_]])))],
      ensures=lambda s: exploded(s, lambda z, n: z3.BoolVal(True)), frame=['Node.P'],
      loops=[LoopSpec('zones', 'Grid.Zones', lambda L: exploded(L, lambda z, n: L.seen()[z] >= 1)),
             LoopSpec('nodes', 'Zone.Nodes', lambda L: [('nodes visited so far moved by the shift of their zone', ForAll([n_], veq(v3(P(L, n_)), [
                 If(L.seen()[n_] >= 1, a + d, a) for a, d in zip(v3(P(L.pre, n_)), [f(L.loct('z')) for f in SHZ])]), patterns=[P(L, n_)])),
                 ] + [('the shift is that of the zone', L.vect(L.loc('shift'))[q] == SHZ[q](L.loct('z'))) for q in range(3)])]),
]
ABOUT = {'level_note': 'mark_all_fixed_nodes, move_node, apply_shifts, growth directions, the movement step of remeshing and move_from_mean_point are proved for every mesh: a node moves by exactly its shift, fixed border nodes stay, zones move rigidly.',
         'bounded': ['Laplacian smoothing as a whole (the computation of its shifts)'],
         'trusted': ['sums over a list of equal terms are equal']}
