import z3
from pydv.contract import Contract, LoopSpec, ref
from pydv.values import *
from pydv.schema import mesh

SCHEMA = mesh()
E, F, Z = ref('Edge'), ref('Face'), ref('Zone')


def nf(s, e):
    return s.n('Edge.Faces', e)


def fz(s, e, i):
    return s.get('Face', 'Zone', s.el('Edge.Faces', e)[i])


def res(s):
    return zb(s.result) if not isinstance(s.result, bool) else z3.BoolVal(s.result)


def bad(s):
    return z3.Not(z3.Or(nf(s, s.self) == 1, nf(s, s.self) == 2))


def rterm(r, cls):
    return null(cls) if r is None else r.t


CONTRACTS = [
    Contract('Edge.is_border', {'self': E}, ensures=lambda s: [('exactly the edges with one face', res(s) == (nf(s, s.self) == 1))]),
    Contract('Edge.is_cross', {'self': E}, raises={'Exception': bad, 'must:Exception': bad},
             ensures=lambda s: [('two faces in different zones', res(s) == z3.And(nf(s, s.self) == 2, fz(s, s.self, 0) != fz(s, s.self, 1)))]),
    Contract('Edge.is_inner', {'self': E}, raises={'Exception': bad, 'must:Exception': bad},
             ensures=lambda s: [('two faces in the same zone', res(s) == z3.And(nf(s, s.self) == 2, fz(s, s.self, 0) == fz(s, s.self, 1)))]),
    Contract('Edge.is_outer', {'self': E}, raises={'Exception': bad, 'must:Exception': bad},
             ensures=lambda s: [('not inner', res(s) == z3.Not(z3.And(nf(s, s.self) == 2, fz(s, s.self, 0) == fz(s, s.self, 1))))]),
    Contract('Edge.is_connect_zones', {'self': E, 'z0': Z, 'z1': Z},
             ensures=lambda s: [('exactly that unordered pair', res(s) == z3.And(nf(s, s.self) == 2, z3.Or(
                 z3.And(fz(s, s.self, 0) == s.z0, fz(s, s.self, 1) == s.z1),
                 z3.And(fz(s, s.self, 0) == s.z1, fz(s, s.self, 1) == s.z0))))]),
    Contract('Face.get_neighbour', {'self': F, 'edge': E},
             raises={'Exception': lambda s: z3.Not(onedge(s)), 'must:Exception': lambda s: z3.Not(onedge(s))},
             ensures=lambda s: [
                 ('border edge has no neighbour', z3.Implies(nf(s, s.edge) == 1, rterm(s.result, 'Face') == null('Face'))),
                 ('the other face of the edge', z3.Implies(z3.And(nf(s, s.edge) == 2, s.self == s.el('Edge.Faces', s.edge)[0]),
                                                           rterm(s.result, 'Face') == s.el('Edge.Faces', s.edge)[1])),
                 ('the other face of the edge', z3.Implies(z3.And(nf(s, s.edge) == 2, s.self == s.el('Edge.Faces', s.edge)[1],
                                                                  s.self != s.el('Edge.Faces', s.edge)[0]),
                                                           rterm(s.result, 'Face') == s.el('Edge.Faces', s.edge)[0]))]),
]


def onedge(s):
    e = s.el('Edge.Faces', s.edge)
    return z3.Or(z3.And(nf(s, s.edge) == 1, e[0] == s.self),
                 z3.And(nf(s, s.edge) == 2, z3.Or(e[0] == s.self, e[1] == s.self)))


def e3(s):
    return [s.el('Face.Edges', s.self)[i] for i in range(3)]


def len2(s, e):
    a, b = [s.get('Node', 'P', s.el('Edge.Nodes', e)[i]) for i in range(2)]
    return z3.Sum([(V3acc[i](a) - V3acc[i](b)) * (V3acc[i](a) - V3acc[i](b)) for i in range(3)])


CONTRACTS.append(Contract('Face.max_edge_from_face', {'self': F}, opts={'fixed': {'Face.Edges': [3], 'Edge.Nodes': [2]}},
    requires=lambda s: [('three edges', s.n('Face.Edges', s.self) == 3)] + [('two ends', s.n('Edge.Nodes', e) == 2) for e in e3(s)],
    ensures=lambda s: [('one of its edges', z3.Or([s.result.t == e for e in e3(s)]))] +
                      [('none is longer', s.root(len2(s, e)) <= s.root(len2(s, s.result.t))) for e in e3(s)]))
ABOUT = {'level_note': 'Every Edge predicate, Face.get_neighbour and Face.max_edge_from_face proved for all inputs against the statement; real/ghost face queries bounded.',
         'bounded': ['Zone.get_real_face and Zone.get_ghost_face', 'Edge.is_adjacent_with']}
