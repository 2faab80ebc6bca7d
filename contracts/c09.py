from .common import *
from pydv.contract import View
from . import c01, decomp
from .c01 import inN, inE, inF, n_, m_, e_, d_, f_, i_, j_, end, ends, joins, nf, ef, corner, side, has3

SCHEMA = mesh()
OPTS = {}
C = Contract
g_, z_ = const('g', 'Face'), const('z', 'Zone')
zone, inZ, fcnt = decomp.zone, decomp.inZ, decomp.fcnt
FIXED = {'fixed': {'Edge.Nodes': [2, 0, 1], 'Face.Nodes': [3, 0, 1, 2], 'Face.Edges': [3, 0, 1, 2]}, 'unique_index': True, 'first_match': True}


def ids_ok(s):
    """Identifiers of nodes, edges and faces are 0..count-1, each once."""
    out = []
    for c, x, y in (('Node', n_, m_), ('Edge', e_, d_), ('Face', f_, g_)):
        k = 'Grid.%ss' % c
        inn = lambda o: s.cnt(k, s.self)[o] >= 1
        gid = lambda o: s.get(c, 'GloId', o)
        out += [('identifiers of %ss are in range' % c.lower(), ForAll([x], Implies(inn(x), And(0 <= gid(x), gid(x) < s.n(k, s.self))), patterns=[gid(x)])),
                ('and different', ForAll([x, y], Implies(And(inn(x), inn(y), gid(x) == gid(y)), x == y), patterns=[z3.MultiPattern(gid(x), gid(y))]))]
    return out


def objects(s):
    out = []
    for c, x in (('Node', n_), ('Face', f_), ('Zone', z_)):
        t = s.cnt('Grid.%ss' % c, s.self)[x]
        out.append(('%ss are objects listed once' % c.lower(), ForAll([x], Implies(t >= 1, And(t == 1, x != null(c), s.H(c + '.@alloc')[x])), patterns=[t])))
    return out


def faces_ok(s):
    return [
        ('a face has three different nodes of the grid', ForAll([f_], Implies(inF(s, f_), And(
            s.n('Face.Nodes', f_) == 3, corner(s, f_, 0) != corner(s, f_, 1), corner(s, f_, 0) != corner(s, f_, 2), corner(s, f_, 1) != corner(s, f_, 2),
            *[inN(s, corner(s, f_, k)) for k in range(3)])), patterns=[s.n('Face.Nodes', f_)])),
        ('and no other', ForAll([f_, n_], Implies(inF(s, f_), s.cnt('Face.Nodes', f_)[n_] == If(has3(s, f_, n_), 1, 0)), patterns=[s.cnt('Face.Nodes', f_)[n_]])),
        ('a node lists exactly the faces it is a corner of, once', ForAll([f_, n_], Implies(inN(s, n_), s.cnt('Node.Faces', n_)[f_] == If(And(inF(s, f_), has3(s, f_, n_)), 1, 0)), patterns=[s.cnt('Node.Faces', n_)[f_]])),
        ('a face has three edges', ForAll([f_], Implies(inF(s, f_), And(s.n('Face.Edges', f_) == 3, *[s.cnt('Face.Edges', f_)[side(s, f_, k)] >= 1 for k in range(3)])), patterns=[s.n('Face.Edges', f_)])),
        ('one for each pair of its corners', ForAll([f_], Implies(inF(s, f_), And([Or([joins(s, side(s, f_, i), corner(s, f_, p), corner(s, f_, q)) for i in range(3)])
                                                                                    for p, q in ((0, 1), (0, 2), (1, 2))])), patterns=[s.n('Face.Edges', f_), s.el('Face.Nodes', f_)]))]


def edges_ok(s):
    own = ('identifiers of edges are their positions', 'a face lists exactly the edges that list it, once', 'its faces are different', 'and there is no other')
    return [x for x in c01.edges_ok(s) if x[0] not in own] + [
        ('its faces are listed once', ForAll([f_, e_], Implies(inE(s, e_), s.cnt('Edge.Faces', e_)[f_] <= 1), patterns=[s.cnt('Edge.Faces', e_)[f_]])),
        ('a face lists exactly the edges that list it', ForAll([f_, e_], Implies(inF(s, f_), s.cnt('Face.Edges', f_)[e_] == If(inE(s, e_), s.cnt('Edge.Faces', e_)[f_], 0)), patterns=[s.cnt('Face.Edges', f_)[e_]])),
        ('and only faces of the grid', ForAll([f_, e_], Implies(And(inE(s, e_), s.cnt('Edge.Faces', e_)[f_] >= 1), inF(s, f_)), patterns=[s.cnt('Edge.Faces', e_)[f_]])),
        ('nodes of an edge are in the grid', ForAll([e_], Implies(inE(s, e_), And([inN(s, end(s, e_, k)) for k in (0, 1)])), patterns=[s.n('Edge.Nodes', e_)]))]


def zones_ok(s):
    out = []
    for c, x, inn in (('Node', n_, inN), ('Edge', e_, inE)):
        t = s.cnt('Zone.%ss' % c, z_)[x]
        out.append(('zones list no %s twice and none outside the grid' % c.lower(), ForAll([z_, x], Implies(And(inZ(s, z_), t >= 1), And(t == 1, inn(s, x))), patterns=[t])))
    return [('every face is in exactly one zone', ForAll([z_, f_], Implies(inZ(s, z_), fcnt(s, z_)[f_] == If(And(inF(s, f_), zone(s, f_) == z_), 1, 0)), patterns=[fcnt(s, z_)[f_]])),
            ('the zone of a face is a zone of the grid', ForAll([f_], Implies(inF(s, f_), inZ(s, zone(s, f_))), patterns=[zone(s, f_)]))] + out


def mesh_ok(s):
    return objects(s) + edges_ok(s) + faces_ok(s) + zones_ok(s) + ids_ok(s) + bag_ok(s)


def bag_ok(s):
    """The bag of rounded coordinates holds those of every node; nodes are merged: no two share them."""
    el = lambda i: s.el('Grid.Nodes', s.self)[i]
    k = c01.k_
    return [('the bag holds the rounded coordinates of every node', ForAll([n_], Implies(inN(s, n_), c01.bag(s)[c01.key(s, n_)]), patterns=[c01.key(s, n_)])),
            ('and no others', ForAll([k], Implies(c01.bag(s)[k], z3.Exists([n_], And(inN(s, n_), c01.key(s, n_) == k))), patterns=[c01.bag(s)[k]])),
            ('nodes have different coordinates', ForAll([n_, m_], Implies(And(inN(s, n_), inN(s, m_), c01.key(s, n_) == c01.key(s, m_)), n_ == m_), patterns=[z3.MultiPattern(c01.key(s, n_), c01.key(s, m_))]))]


# ---------------------------------------------------------------- removal
def at(s, key, o, k):
    return s.el(key, o)[k]


def once(s, key, o, x):
    """x is listed at most once at o (removal forgets it)."""
    return s.cnt(key, o)[x] <= 1


def delf_pre(s):
    f = s.face
    n = s.n('Face.Edges', f)
    ns = [corner(s, f, k) for k in range(3)]
    es = [side(s, f, k) for k in range(3)]
    up = lambda k: Implies(k < n, And(es[k] != null('Edge'), s.cnt('Edge.Faces', es[k])[f] == 1))
    return [('it has three different nodes', And(s.n('Face.Nodes', f) == 3, z3.Distinct(ns), *[And(x != null('Node'), s.cnt('Node.Faces', x)[f] == 1) for x in ns])),
            ('it has two or three different edges', And(Or(n == 3, n == 2), es[0] != es[1], Implies(n == 3, z3.Distinct(es)), *[up(k) for k in range(3)])),
            ('it is listed by the grid and its zone', And(inF(s, f), zone(s, f) != null('Zone'), fcnt(s, zone(s, f))[f] >= 1))]


def forget(s, key, of, x):
    """The objects for which of(o) holds list x no more; nothing else changes."""
    o_ = {'Node': n_, 'Edge': e_, 'Face': f_, 'Zone': z_}[key.split('.')[0]]
    y_ = {'Node': m_, 'Edge': d_, 'Face': g_}[{'Nodes': 'Node', 'Edges': 'Edge', 'Faces': 'Face'}[key.split('.')[1]]]
    o = s.old
    what = '%s lists' % key.split('.')[0].lower()
    return [('%s forget it' % what, ForAll([o_, y_], s.cnt(key, o_)[y_] == If(And(y_ == x, of(o_)), 0, o.cnt(key, o_)[y_]), patterns=[s.cnt(key, o_)[y_]])),
            ('%s get shorter by it' % what, ForAll([o_], s.n(key, o_) == o.n(key, o_) - If(of(o_), o.cnt(key, o_)[x], 0), patterns=[s.n(key, o_)])),
            ('other %s stay' % what, ForAll([o_], Implies(Not(And(of(o_), o.cnt(key, o_)[x] >= 1)), s.el(key, o_) == o.el(key, o_)), patterns=[s.el(key, o_)]))]


def drops(s, key, o, x):
    """The list of one object loses one occurrence of x."""
    y_ = {'Edge': d_, 'Face': g_}[key.split('.')[1][:-1]]
    return [('%s has it once less' % key, And(s.n(key, o) == s.old.n(key, o) - 1, ForAll([y_], s.cnt(key, o)[y_] == s.old.cnt(key, o)[y_] - If(y_ == x, 1, 0), patterns=[s.cnt(key, o)[y_]])))]


def delf_post(s):
    f, o = s.face, s.old
    n = s.n('Face.Edges', f)
    return forget(s, 'Node.Faces', lambda x: Or([x == corner(o, f, k) for k in range(3)]), f) + \
        forget(s, 'Edge.Faces', lambda x: Or([And(k < n, x == side(o, f, k)) for k in range(3)]), f) + \
        drops(s, 'Grid.Faces', s.self, f) + drops(s, 'Zone.Faces', zone(o, f), f)


DELF = C('Grid.del_face', {'self': G, 'face': F}, opts={'fixed': {'Face.Nodes': [3], 'Face.Edges': [3, 2]}}, modular=True, requires=delf_pre, ensures=delf_post,
         modifies=['Node.Faces', 'Edge.Faces', ('Grid.Faces', lambda s: [s.self]), ('Zone.Faces', lambda s: [zone(s, s.face)])])


def dele_pre(s):
    e = s.edge
    ns = [end(s, e, k) for k in (0, 1)]
    fs = [ef(s, e, k) for k in (0, 1)]
    m = nf(s, e)
    return [('it joins two different nodes that list it once', And(s.n('Edge.Nodes', e) == 2, ns[0] != ns[1], *[And(x != null('Node'), s.cnt('Node.Edges', x)[e] == 1) for x in ns])),
            ('it has at most two different faces that list it once', And(0 <= m, m <= 2, Implies(m == 2, fs[0] != fs[1]), *[Implies(k < m, And(fs[k] != null('Face'), s.cnt('Face.Edges', fs[k])[e] == 1)) for k in (0, 1)])),
            ('zones list it at most once', ForAll([z_], Implies(inZ(s, z_), And(z_ != null('Zone'), s.cnt('Grid.Zones', s.self)[z_] == 1, once(s, 'Zone.Edges', z_, e))), patterns=[s.cnt('Grid.Zones', s.self)[z_]])),
            ('it is listed by the grid', inE(s, e))]


def dele_post(s):
    e, o = s.edge, s.old
    return forget(s, 'Node.Edges', lambda x: Or([x == end(o, e, k) for k in (0, 1)]), e) + \
        forget(s, 'Face.Edges', lambda x: Or([And(k < nf(o, e), x == ef(o, e, k)) for k in (0, 1)]), e) + \
        forget(s, 'Zone.Edges', lambda x: inZ(o, x), e) + drops(s, 'Grid.Edges', s.self, e)


def zones_forget(L):
    return forget_part(L, 'Zone.Edges', lambda x: L.seen()[x] >= 1, L.edge)


def forget_part(L, key, of, x):
    return [(a, f) for a, f in forget(L, key, of, x)]


DELE = C('Grid.del_edge', {'self': G, 'edge': E}, opts={'fixed': {'Edge.Nodes': [2], 'Edge.Faces': [2, 1, 0]}}, modular=True, requires=dele_pre, ensures=dele_post,
         modifies=['Node.Edges', 'Face.Edges', 'Zone.Edges', ('Grid.Edges', lambda s: [s.self])],
         loops=[LoopSpec('zones', 'Grid.Zones', zones_forget)])

CONTRACTS = [DELF, DELE]


ROUND = z3.Function('round_10', z3.RealSort(), z3.RealSort())


def rounded(v):
    """The key of a position: its coordinates rounded to ten decimals."""
    return ety_sort(KEY).constructor(0)(*[ROUND(zreal(x)) for x in v])


def absent(s, p):
    return ('no node of the grid is there', Not(c01.bag(s)[rounded(s.vect(s.arg(p)))]))


NEAR = C('Grid.find_near_node', {'self': G, 'n': N}, requires=bag_ok, modular=True, result=('RefOrNone', 'Node'), ensures=c01.NEAR.ensures,
         loops=[LoopSpec('nodes', 'Grid.Nodes', lambda L: [('nodes seen are elsewhere', ForAll([n_], Implies(L.seen()[n_] >= 1, c01.key(L, n_) != c01.key(L, L.arg('n').t)), patterns=[L.seen()[n_]]))])])
DIV = C('Grid.divide_face', {'self': G, 'face': F, 'p': V}, opts=FIXED, requires=lambda s: mesh_ok(s) + [('a face of the grid', inF(s, s.face)), absent(s, 'p')],
        ensures=lambda s: mesh_ok(s) + data(lambda o: [s.face])(s))
CONTRACTS += [NEAR, c01.FIND, DIV]


def sides(s, e):
    """Its faces are different (said again), and do not have the same three corners."""
    a, b = ef(s, e, 0), ef(s, e, 1)
    return ('its faces do not have the same corners', Implies(nf(s, e) == 2, And(a != b, Or([Not(has3(s, b, corner(s, a, k))) for k in range(3)]))))


SPLIT = {x: 'facts' for x in ('a face lists exactly the edges that list it', 'one for each pair of its corners', 'and only faces of the grid', 'edges list other faces as before',
                              'faces of an edge contain both its nodes', 'its faces are listed once', 'a node lists exactly the edges it ends, once', 'a node lists exactly the faces it is a corner of, once',
                              'nodes list other edges as before', 'nodes list other faces as before', 'one edge per pair of nodes')}
SPLIT['and no other'] = 'path'


def edited(s):
    if s.result is True:
        return mesh_ok(s)
    return [('an edit that does not apply reports false', z3.BoolVal(s.result is False)), ('and changes nothing', unchanged(s))]


def data(faces):
    """Created faces have the data of a face the edit replaces; other faces keep theirs."""
    def of(s):
        if s.result is False:
            return []
        o = s.old
        same = lambda x, y: And(s.H('Face.Data#has')[x] == o.H('Face.Data#has')[y], s.H('Face.Data#val')[x] == o.H('Face.Data#val')[y])
        new = [x for x in s.ex.created if x.sort() == ref_sort('Face')]
        return [('a created face has the data of a replaced face', Or([same(x, y) for y in faces(o)])) for x in new] + [
            ('other faces keep their data', ForAll([f_], Implies(o.H('Face.@alloc')[f_], same(f_, f_)), patterns=[s.H('Face.Data#has')[f_], s.H('Face.Data#val')[f_]]))]
    return of


def unchanged(s):
    return And([s.H(k) == s.old.H(k) for k in sorted(s.st.heap)])


def others(s):
    """Everything away from the faces and edges that leave the grid stays."""
    o, g = s.old, s.self
    if s.result is not True:
        return []
    al = lambda c, x: o.H(c + '.@alloc')[x]
    made = lambda x: Or([x == y for y in s.ex.created if y.sort() == x.sort()])
    same = lambda key, x: And(s.n(key, x) == o.n(key, x), s.el(key, x) == o.el(key, x), s.cnt(key, x) == o.cnt(key, x))
    pats = lambda key, x: [s.n(key, x), s.el(key, x), s.cnt(key, x)]
    stays = lambda f: And(inF(s, f), Not(made(f)))

    def listed(c, x):
        new, was = s.cnt('Grid.%ss' % c, g), o.cnt('Grid.%ss' % c, g)
        return ('the grid lists %ss once and none that are neither created nor listed before' % c.lower(), ForAll([x], And(0 <= new[x], new[x] <= 1, If(made(x), new[x] == 1, new[x] <= was[x])), patterns=[new[x]]))
    return [listed('Face', f_), listed('Edge', e_), listed('Node', n_),
            ('nodes stay', ForAll([n_], Implies(inN(o, n_), inN(s, n_)), patterns=[s.cnt('Grid.Nodes', g)[n_]])),
            ('corners of other faces stay', ForAll([f_], Implies(stays(f_), same('Face.Nodes', f_)), patterns=pats('Face.Nodes', f_))),
            ('edges of other faces stay', ForAll([f_], Implies(stays(f_), same('Face.Edges', f_)), patterns=pats('Face.Edges', f_))),
            ('ends of edges stay', ForAll([e_], Implies(al('Edge', e_), same('Edge.Nodes', e_)), patterns=pats('Edge.Nodes', e_))),
            ('edges list other faces as before', ForAll([e_, f_], Implies(And(Not(made(f_)), inE(s, e_)), s.cnt('Edge.Faces', e_)[f_] == If(And(al('Edge', e_), inF(s, f_)), o.cnt('Edge.Faces', e_)[f_], 0)), patterns=[s.cnt('Edge.Faces', e_)[f_]])),
            ('nodes list other edges as before', ForAll([n_, e_], Implies(Not(made(e_)), s.cnt('Node.Edges', n_)[e_] == If(And(Not(made(n_)), inE(s, e_)), o.cnt('Node.Edges', n_)[e_], 0)), patterns=[s.cnt('Node.Edges', n_)[e_]])),
            ('nodes list other faces as before', ForAll([n_, f_], Implies(And(Not(made(f_)), inN(s, n_)), s.cnt('Node.Faces', n_)[f_] == If(And(al('Node', n_), inF(s, f_)), o.cnt('Node.Faces', n_)[f_], 0)), patterns=[s.cnt('Node.Faces', n_)[f_]])),
            ('edges that go have no faces that stay', ForAll([e_, f_], Implies(And(inE(o, e_), Not(inE(s, e_)), stays(f_)), o.cnt('Edge.Faces', e_)[f_] == 0), patterns=[o.cnt('Edge.Faces', e_)[f_]]))]


both = lambda o: [ef(o, o.edge, k) for k in (0, 1)]
FIXED2 = {**FIXED, 'fixed': {**FIXED['fixed'], 'Face.Edges': [2, 3, 1, 0], 'Edge.Faces': [1, 0, 2]}, 'feas_ms': 1500}
CUT = C('Grid.cut_edge', {'self': G, 'edge': E, 'p': V}, opts=FIXED2, requires=lambda s: mesh_ok(s) + [('an edge of the grid', inE(s, s.edge)), sides(s, s.edge), absent(s, 'p')],
        facts=others, split=SPLIT, ensures=lambda s: edited(s) + data(both)(s), weight=5)
CUT1 = C('Grid.cut_single_edge', {'self': G, 'edge': E, 'p': V}, opts=FIXED2, requires=lambda s: mesh_ok(s) + [('an edge of the grid', inE(s, s.edge)), absent(s, 'p')],
         facts=others, split=SPLIT, ensures=lambda s: edited(s) + data(both)(s), weight=5)

CUT2 = C('Grid.cut_edge_with_two_nodes', {'self': G, 'edge': E, 'p1': V, 'p2': V}, opts=FIXED2,
         requires=lambda s: mesh_ok(s) + [('an edge of the grid', inE(s, s.edge)), sides(s, s.edge), absent(s, 'p1'), absent(s, 'p2'), ('the points differ', rounded(s.vect(s.arg('p1'))) != rounded(s.vect(s.arg('p2'))))],
         facts=others, split={**SPLIT, 'an edge has one or two faces': 'path', 'faces of an edge contain both its nodes': 'cross', 'a face lists exactly the edges that list it': 'cross'}, ensures=lambda s: edited(s) + data(both)(s), weight=9)


def len2(s, e):
    a, b = [s.get('Node', 'P', end(s, e, i)) for i in range(2)]
    return z3.Sum([(V3acc[i](a) - V3acc[i](b)) * (V3acc[i](a) - V3acc[i](b)) for i in range(3)])


DIST = z3.Function('distance', V3, V3, z3.RealSort())       # distance of two positions: its definition is only needed (given) where lengths are computed


def length(s, e):
    return DIST(*[s.get('Node', 'P', end(s, e, i)) for i in range(2)])


def define_dist(ex, vals):
    s = View(ex, ex.st, vals)
    for k in range(3):
        e = side(s, s.self, k)
        ex.assume(length(s, e) == s.root(len2(s, e)))


def longest(s, f, e):
    return And([length(s, e) >= length(s, side(s, f, k)) for k in range(3)])


MAXE = C('Face.max_edge_from_face', {'self': F}, modular=True, result=('Ref', 'Edge'), opts={'fixed': {'Face.Edges': [3], 'Edge.Nodes': [2]}}, setup=define_dist,
         requires=lambda s: [('three edges', s.n('Face.Edges', s.self) == 3)] + [('two ends', s.n('Edge.Nodes', side(s, s.self, k)) == 2) for k in range(3)],
         ensures=lambda s: [('one of its edges', Or([s.result.t == side(s, s.self, k) for k in range(3)])), ('none is longer', longest(s, s.self, s.result.t))])


def flips(s):
    """The longest edge of the face, if two faces share it, may be replaced by the edge between their other corners."""
    out = []
    for k in range(3):
        e = side(s, s.face, k)
        a, b = ef(s, e, 0), ef(s, e, 1)
        far = lambda x: Not(ends(s, e, x))
        pairs = [(corner(s, a, i), corner(s, b, j)) for i in range(3) for j in range(3)]
        out.append(Implies(And(longest(s, s.face, e), nf(s, e) == 2), And([a != b] + [Implies(And(far(x), far(y)), x != y) for x, y in pairs] + [
            ForAll([d_], And([Implies(And(far(x), far(y), inE(s, d_)), Not(joins(s, d_, x, y))) for x, y in pairs]), patterns=[s.cnt('Grid.Edges', s.self)[d_]])])))
    return ('the flip joins nodes that are not joined', And(out))


def different(s):
    """Of each class, the objects the code picks out are different ones."""
    o = s.old
    out = [('edges go with their faces', ForAll([e_], Implies(And(inE(o, e_), Not(inE(s, e_))), And([Implies(k < nf(o, e_), Not(inF(s, ef(o, e_, k)))) for k in (0, 1)])),
                                                patterns=[o.cnt('Grid.Edges', s.self)[e_]]), 'edges that go have no faces that stay')] if s.result is True else []
    for c in ('Node', 'Edge'):
        xs = [x for x in s.ex.chosen if x.sort() == ref_sort(c)]
        out += [('different %ss are picked' % c.lower(), x != y) for i, x in enumerate(xs) for y in xs[:i]]
    return out


FLIP = C('Grid.collapse_face', {'self': G, 'face': F}, opts=FIXED2, requires=lambda s: mesh_ok(s) + [('a face of the grid', inF(s, s.face)), flips(s)], split=SPLIT, facts=others, hints=different, ensures=lambda s: edited(s) + data(lambda o: [s.face])(s), weight=5)
CONTRACTS += [CUT, CUT1, CUT2, MAXE, FLIP]
ABOUT = {'level_note': 'divide_face, cut_edge, cut_edge_with_two_nodes, cut_single_edge and collapse_face (flip of the longest edge), with del_face, del_edge, find_near_node, find_edge and max_edge_from_face under contract: from every consistent mesh, with the '
                       'preconditions of the statement, the result is a consistent mesh (links both ways, three different nodes and three edges per face, one edge per node pair, one or two faces per edge, one zone per face, zones '
                       'list nothing twice and nothing outside the grid, identifiers 0..count-1 once each, the bag of positions), created faces carry the data of a replaced face, other faces stay, edits that do not apply change '
                       'nothing. Collapsing an edge and the exact lists of a single zone: bounded.',
         'bounded': ['Grid.collapse_edge', 'Grid.reuse_gloids', 'Grid.del_node', 'Grid.cut_two_edges'],
         'trusted': ['rounding to ten decimals is a function of the coordinates (positions that differ by less are one position)']}
