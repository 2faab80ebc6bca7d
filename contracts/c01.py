from .common import *

SCHEMA = mesh()
OPTS = {}
C = Contract
n_, m_, e_, d_, f_, i_ = const('n', 'Node'), const('m', 'Node'), const('e', 'Edge'), const('d', 'Edge'), const('f', 'Face'), z3.Int('i')
FIXED = {'fixed': {'Edge.Nodes': [2, 0, 1], 'Face.Nodes': [3]}}
key = lambda s, n: s.get('Node', 'RoundedCoords', n)
inN = lambda s, n: s.cnt('Grid.Nodes', s.self)[n] >= 1
inE = lambda s, e: s.cnt('Grid.Edges', s.self)[e] >= 1
inF = lambda s, f: s.cnt('Grid.Faces', s.self)[f] >= 1
bag = lambda s: s.get('Grid', 'RoundedCoordsBag', s.self)
end = lambda s, e, k: s.el('Edge.Nodes', e)[k]
nf = lambda s, e: s.n('Edge.Faces', e)
ef = lambda s, e, k: s.el('Edge.Faces', e)[k]
ends = lambda s, e, n: Or(end(s, e, 0) == n, end(s, e, 1) == n)
joins = lambda s, e, a, b: And(inE(s, e), ends(s, e, a), ends(s, e, b))
has = lambda s, f, n: s.cnt('Face.Nodes', f)[n] >= 1


# ---------------------------------------------------------------- nodes
k_, j_ = z3.Const('key', ety_sort(KEY)), z3.Int('j')
el = lambda s, i: s.el('Grid.Nodes', s.self)[i]
nn = lambda s: s.n('Grid.Nodes', s.self)
rng = lambda s, i: And(0 <= i, i < nn(s))


def nodes_ok(s):
    return [
        ('nodes are objects with their position as identifier', ForAll([i_], Implies(rng(s, i_), And(el(s, i_) != null('Node'), s.get('Node', 'GloId', el(s, i_)) == i_)), patterns=[el(s, i_)])),
        ('the bag holds the rounded coordinates of every node', ForAll([i_], Implies(rng(s, i_), bag(s)[key(s, el(s, i_))]), patterns=[el(s, i_)])),
        ('and no others', ForAll([k_], Implies(bag(s)[k_], z3.Exists([i_], And(rng(s, i_), key(s, el(s, i_)) == k_))), patterns=[bag(s)[k_]]))]


def add_post(s):
    o, r = s.old, s.result.t
    merge = And(s.is_merge_same_nodes, bag(o)[key(o, s.arg('n').t)])
    n = s.arg('n').t
    return nodes_ok(s) + [
        ('a node with these rounded coordinates', And(key(s, r) == key(o, n), s.cnt('Grid.Nodes', s.self)[r] >= 1)),
        ('merged: a node there before, and the list stays', Implies(merge, And(nn(s) == nn(o), s.el('Grid.Nodes', s.self) == o.el('Grid.Nodes', s.self), s.cnt('Grid.Nodes', s.self) == o.cnt('Grid.Nodes', s.self)))),
        ('otherwise: the node itself, appended', Implies(Not(merge), And(r == n, nn(s) == nn(o) + 1, el(s, nn(o)) == n, s.get('Node', 'GloId', n) == nn(o),
                                                                        ForAll([i_], Implies(rng(o, i_), el(s, i_) == el(o, i_)), patterns=[el(s, i_)]))))]


NEAR = C('Grid.find_near_node', {'self': G, 'n': N}, requires=nodes_ok, modular=True, result=('RefOrNone', 'Node'), ensures=lambda s: [
    ('a node with these rounded coordinates, if there is one', If(bag(s)[key(s, s.arg('n').t)], And(s.cnt('Grid.Nodes', s.self)[node_t(s.result)] >= 1, node_t(s.result) != null('Node'),
                                                                                                  key(s, node_t(s.result)) == key(s, s.arg('n').t)), node_t(s.result) == null('Node')))],
    loops=[LoopSpec('nodes', 'Grid.Nodes', lambda L: [('nodes seen are elsewhere', ForAll([i_], Implies(And(0 <= i_, i_ < L.k), key(L, el(L, i_)) != key(L, L.arg('n').t)), patterns=[el(L, i_)]))])])
node_t = lambda r: null('Node') if r is None else r.t
ADD = C('Grid.add_node', {'self': G, 'n': N, 'is_merge_same_nodes': 'Bool'}, modular=True, result=('Ref', 'Node'), modifies=[('Grid.Nodes', lambda s: [s.self]), ('Grid.RoundedCoordsBag', lambda s: [s.self]), ('Node.GloId', lambda s: [s.arg('n').t])],
        requires=lambda s: nodes_ok(s) + [('a node that is not in the grid', s.cnt('Grid.Nodes', s.self)[s.arg('n').t] == 0)], ensures=add_post)


# ---------------------------------------------------------------- edges
def edges_ok(s):
    """Consistent links between nodes, edges and faces."""
    g = s.self
    return [
        ('edges are objects listed once', ForAll([e_], Implies(inE(s, e_), And(e_ != null('Edge'), s.H('Edge.@alloc')[e_], s.cnt('Grid.Edges', g)[e_] == 1)), patterns=[s.cnt('Grid.Edges', g)[e_]])),
        ('an edge joins two different nodes', ForAll([e_], Implies(inE(s, e_), And(s.n('Edge.Nodes', e_) == 2, end(s, e_, 0) != end(s, e_, 1), *[end(s, e_, k) != null('Node') for k in (0, 1)])),
                                                     patterns=[s.n('Edge.Nodes', e_)])),
        ('and no other', ForAll([n_, e_], Implies(inE(s, e_), s.cnt('Edge.Nodes', e_)[n_] == If(ends(s, e_, n_), 1, 0)), patterns=[s.cnt('Edge.Nodes', e_)[n_]])),
        ('a node lists exactly the edges it ends, once', ForAll([e_, n_], s.cnt('Node.Edges', n_)[e_] == If(And(inE(s, e_), ends(s, e_, n_)), 1, 0), patterns=[s.cnt('Node.Edges', n_)[e_]])),
        ('one edge per pair of nodes', ForAll([e_, d_], Implies(And(inE(s, e_), inE(s, d_), ends(s, d_, end(s, e_, 0)), ends(s, d_, end(s, e_, 1))), e_ == d_),
                                              patterns=[z3.MultiPattern(s.cnt('Grid.Edges', g)[e_], s.cnt('Grid.Edges', g)[d_])])),
        ('an edge has one or two faces', ForAll([e_], Implies(inE(s, e_), And(1 <= nf(s, e_), nf(s, e_) <= 2)), patterns=[nf(s, e_)])),
        ('its faces are different', ForAll([e_], Implies(And(inE(s, e_), nf(s, e_) == 2), ef(s, e_, 0) != ef(s, e_, 1)), patterns=[nf(s, e_)])),
        ('and there is no other', ForAll([e_, f_], Implies(inE(s, e_), s.cnt('Edge.Faces', e_)[f_] == If(Or(f_ == ef(s, e_, 0), And(nf(s, e_) == 2, f_ == ef(s, e_, 1))), 1, 0)), patterns=[s.cnt('Edge.Faces', e_)[f_]])),
        ('a face lists exactly the edges that list it, once', ForAll([f_, e_], s.cnt('Face.Edges', f_)[e_] == If(inE(s, e_), s.cnt('Edge.Faces', e_)[f_], 0),
                                                                     patterns=[s.cnt('Face.Edges', f_)[e_]])),
        ('faces of an edge contain both its nodes', ForAll([f_, e_], Implies(And(inE(s, e_), s.cnt('Edge.Faces', e_)[f_] >= 1), And([has(s, f_, end(s, e_, k)) for k in (0, 1)])),
                                                           patterns=[s.cnt('Edge.Faces', e_)[f_]])),
        ('identifiers of edges are their positions', ForAll([i_], Implies(And(0 <= i_, i_ < s.n('Grid.Edges', g)), s.get('Edge', 'GloId', s.el('Grid.Edges', g)[i_]) == i_),
                                                            patterns=[s.el('Grid.Edges', g)[i_]]))]


FIND = C('Grid.find_edge', {'node_a': N, 'node_b': N}, modular=True, result=('RefOrNone', 'Edge'), ensures=lambda s: [
    ('an edge of the first node that has the second', Or(ref_t(s.result) == null('Edge'), And(s.cnt('Node.Edges', s.node_a)[ref_t(s.result)] >= 1,
                                                                                               s.cnt('Edge.Nodes', ref_t(s.result))[s.node_b] >= 1))),
    ('None only when there is no such edge', Implies(ref_t(s.result) == null('Edge'), ForAll([e_], Not(And(s.cnt('Node.Edges', s.node_a)[e_] >= 1, s.cnt('Edge.Nodes', e_)[s.node_b] >= 1)),
                                                                                             patterns=[s.cnt('Node.Edges', s.node_a)[e_], s.el('Edge.Nodes', e_)])))],
    loops=[LoopSpec('edges', 'Node.Edges', lambda L: [('edges seen do not have the second node', ForAll([e_], Implies(L.seen()[e_] >= 1, L.cnt('Edge.Nodes', e_)[L.node_b] == 0), patterns=[L.seen()[e_]]))])])


def ref_t(r):
    return null('Edge') if r is None else r.t


new = lambda s: s.el('Face.Edges', s.face)[s.old.n('Face.Edges', s.face)]


def link_req(s):
    return edges_ok(s) + [
        ('different nodes of the face', And(s.node_a != s.node_b, has(s, s.face, s.node_a), has(s, s.face, s.node_b))),
        ('the edge of these nodes does not list the face yet', ForAll([e_], Implies(joins(s, e_, s.node_a, s.node_b), s.cnt('Edge.Faces', e_)[s.face] == 0), patterns=[s.n('Edge.Nodes', e_)]))]


def link_post(s):
    o = s.old
    e, f = new(s), s.face
    fresh = Not(inE(o, e))
    return edges_ok(s) + [
        ('the face gets one more edge, last in its list', s.n('Face.Edges', f) == o.n('Face.Edges', f) + 1),
        ('the edges it had stay', ForAll([i_], Implies(And(0 <= i_, i_ < o.n('Face.Edges', f)), s.el('Face.Edges', f)[i_] == o.el('Face.Edges', f)[i_]), patterns=[s.el('Face.Edges', f)[i_]])),
        ('it joins the two nodes', joins(s, e, s.node_a, s.node_b)),
        ('it lists the face last', And(s.cnt('Edge.Faces', e)[f] == 1, nf(s, e) == If(fresh, 1, 2), ef(s, e, nf(s, e) - 1) == f)),
        ('and the face it had first', Implies(Not(fresh), ef(s, e, 0) == ef(o, e, 0))),
        ('a new edge only when no edge joined them', Implies(fresh, ForAll([d_], Not(joins(o, d_, s.node_a, s.node_b)), patterns=[o.n('Edge.Nodes', d_)]))),
        ('the list of edges only grows by a new one', And(s.n('Grid.Edges', s.self) == o.n('Grid.Edges', s.self) + If(fresh, 1, 0),
                                                          ForAll([d_], s.cnt('Grid.Edges', s.self)[d_] == o.cnt('Grid.Edges', s.self)[d_] + If(And(fresh, d_ == e), 1, 0), patterns=[s.cnt('Grid.Edges', s.self)[d_]]))),
        ('no other face comes or goes', ForAll([d_, f_], Implies(inE(s, d_), s.cnt('Edge.Faces', d_)[f_] == If(And(d_ == e, f_ == f), 1, If(inE(o, d_), o.cnt('Edge.Faces', d_)[f_], 0))),
                                               patterns=[s.cnt('Edge.Faces', d_)[f_]])),
        ('other edges keep their faces', ForAll([d_], Implies(And(inE(o, d_), d_ != e), And(nf(s, d_) == nf(o, d_), s.el('Edge.Faces', d_) == o.el('Edge.Faces', d_))),
                                                patterns=[nf(s, d_), s.el('Edge.Faces', d_)])),
        ('edges keep their nodes', ForAll([d_], Implies(inE(o, d_), And(s.el('Edge.Nodes', d_) == o.el('Edge.Nodes', d_), s.n('Edge.Nodes', d_) == o.n('Edge.Nodes', d_))),
                                          patterns=[s.el('Edge.Nodes', d_), s.n('Edge.Nodes', d_)]))]


third = lambda s: z3.Exists([e_], And(joins(s, e_, s.node_a, s.node_b), nf(s, e_) == 2))
MODS = ['Edge.@alloc', 'Node.Edges', 'Edge.Nodes', 'Edge.Faces', 'Edge.GloId', 'Edge.border', ('Face.Edges', lambda s: [s.face]), ('Grid.Edges', lambda s: [s.self])]
LINK = C('Grid.complex_link_face_node_node_edge', {'self': G, 'face': F, 'node_a': N, 'node_b': N}, modular=True, modifies=MODS, opts=FIXED,
         requires=link_req, ensures=link_post, raises={'Exception': third})

# ---------------------------------------------------------------- the linking phase of load
from . import decomp
from pydv.contract import after_while
corner = lambda s, f, k: s.el('Face.Nodes', f)[k]
side = lambda s, f, k: s.el('Face.Edges', f)[k]


has3 = lambda s, f, n: Or([corner(s, f, k) == n for k in range(3)])


def read_ok(s):
    """The mesh as read from the file: zones, nodes and faces with corners; no edges yet."""
    rng = And(inF(s, f_))
    return [
        ('no edges yet', And(s.n('Grid.Edges', s.self) == 0, ForAll([n_, e_], s.cnt('Node.Edges', n_)[e_] == 0, patterns=[s.cnt('Node.Edges', n_)[e_]]),
                             ForAll([f_, e_], s.cnt('Face.Edges', f_)[e_] == 0, patterns=[s.cnt('Face.Edges', f_)[e_]]),
                             ForAll([f_], s.n('Face.Edges', f_) == 0, patterns=[s.n('Face.Edges', f_)]))),
        ('a face has three different nodes of the grid', ForAll([f_], Implies(inF(s, f_), And(
            f_ != null('Face'), s.n('Face.Nodes', f_) == 3, corner(s, f_, 0) != corner(s, f_, 1), corner(s, f_, 0) != corner(s, f_, 2), corner(s, f_, 1) != corner(s, f_, 2),
            *[And(corner(s, f_, k) != null('Node'), inN(s, corner(s, f_, k))) for k in range(3)])), patterns=[s.n('Face.Nodes', f_)])),
        ('and no other', ForAll([f_, n_], Implies(inF(s, f_), s.cnt('Face.Nodes', f_)[n_] == If(has3(s, f_, n_), 1, 0)), patterns=[s.cnt('Face.Nodes', f_)[n_]])),
        ('a node lists only faces of the grid', ForAll([n_, f_], Implies(And(inN(s, n_), s.cnt('Node.Faces', n_)[f_] >= 1), inF(s, f_)), patterns=[s.cnt('Node.Faces', n_)[f_]])),
        ('the zone of a face is a zone of the grid', ForAll([f_], Implies(inF(s, f_), decomp.inZ(s, decomp.zone(s, f_))), patterns=[decomp.zone(s, f_)])),
        ] + decomp.distinct(s, 'Grid.Faces', 'Grid.Nodes', 'Grid.Zones')


def complete(s, o, seen):
    """Faces linked so far have three edges, one per pair of corners; an edge lists exactly the faces linked so far that have both its nodes."""
    return [
        ('a linked face has three edges', ForAll([f_], Implies(inF(o, f_), s.n('Face.Edges', f_) == If(seen(f_), 3, 0)), patterns=[s.n('Face.Edges', f_)])),
        ('one for each pair of its corners', ForAll([f_], Implies(And(inF(o, f_), seen(f_)), And([Or([joins(s, side(s, f_, i), corner(s, f_, p), corner(s, f_, q)) for i in range(3)])
                                                                                             for p, q in ((0, 1), (0, 2), (1, 2))])), patterns=[s.n('Face.Edges', f_), s.el('Face.Nodes', f_)])),
        ('an edge lists only linked faces', ForAll([e_, f_], Implies(And(inE(s, e_), s.cnt('Edge.Faces', e_)[f_] >= 1), And(inF(o, f_), seen(f_))), patterns=[s.cnt('Edge.Faces', e_)[f_]])),
        ('and all those that have both its nodes', ForAll([e_, f_], Implies(And(inE(s, e_), inF(o, f_), seen(f_), has3(s, f_, end(s, e_, 0)), has3(s, f_, end(s, e_, 1))), s.cnt('Edge.Faces', e_)[f_] == 1),
                                                          patterns=[s.cnt('Edge.Faces', e_)[f_]]))]


a_, b_, c_ = const('fa', 'Face'), const('fb', 'Face'), const('fc', 'Face')


def crowded(s):
    """Three faces of the grid share two nodes."""
    hs = lambda f: And(inF(s, f), has3(s, f, n_), has3(s, f, m_))
    return Not(ForAll([n_, m_, a_, b_, c_], Not(And(n_ != m_, a_ != b_, a_ != c_, b_ != c_, hs(a_), hs(b_), hs(c_))),
                      patterns=[z3.MultiPattern(s.cnt('Face.Nodes', a_)[n_], s.cnt('Face.Nodes', b_)[m_], s.cnt('Face.Nodes', c_)[n_])]))


PHASE = C('Grid.load', {'self': G, 'filename': 'Str', 'is_merge_same_nodes': 'Bool'}, note='linking phase', fragment=after_while, requires=read_ok, opts={'fixed': {'Face.Nodes': [3]}},
          ensures=lambda s: edges_ok(s) + complete(s, s.old, lambda f: inF(s.old, f)),
          raises={'Exception': crowded},
          loops=[LoopSpec('faces', 'Grid.Faces', lambda L: edges_ok(L) + complete(L, L.old, lambda f: L.seen()[f] >= 1))])

CONTRACTS = [NEAR, ADD, FIND, LINK, decomp.LINK, PHASE]
ABOUT = {'level_note': 'Inserting a node (merging on and off), finding and creating edges, linking faces, and the whole linking phase of load (the statements after its reading loop, cut mechanically out of the real function on every run) are proved for every mesh: mutual links, one edge per pair of nodes, an edge lists exactly the one or two faces that contain both its nodes, a third face is refused; reading the text of the file is bounded.',
         'bounded': ['the reading loop of Grid.load (file text to zones, nodes, faces with three different corners)', 'rejection of malformed zone headers']}
