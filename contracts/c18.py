from .common import *
from pydv.lib import KDDIST

SCHEMA = mesh(Face={'aux_node': V})
OPTS = {}
C = Contract
f_, i_ = const('f', 'Face'), z3.Int('i')
K_ = z3.String('key')
S_ = z3.StringVal
FIX = {'fixed': {'Face.Nodes': [3]}}
MOD = 'convert.interpolate:'
NEAR = z3.Function('kd_nearest', V3, z3.IntSort())


def cen(s, f):
    """Centre of a face: the mean of its corners."""
    ps = [v3(s.get('Node', 'P', s.el('Face.Nodes', f)[j])) for j in range(3)]
    return mk([(a + b + c) / 3 for a, b, c in zip(*ps)])


def aux(s, f):
    return s.get('Face', 'aux_node', f)


def wf(s, m):
    return [('faces of the mesh', ForAll([f_], And(s.cnt('Grid.Faces', m)[f_] <= 1, Implies(s.cnt('Grid.Faces', m)[f_] >= 1, And([f_ != null('Face'), s.n('Face.Nodes', f_) == 3] + [
        s.el('Face.Nodes', f_)[j] != null('Node') for j in range(3)]))), patterns=[s.cnt('Grid.Faces', m)[f_]]))]


def data(s, f):
    return s.H('Face.Data#val')[f], s.H('Face.Data#has')[f]


def value(s, f, k):
    """What reading a variable of a face answers: zero for a variable it does not have."""
    v, h = data(s, f)
    return If(h[S_(k)], v[S_(k)], z3.RealVal(0))


def centred(s, m, n):
    return ForAll([f_], Implies(n[f_] >= 1, aux(s, f_) == cen(s, f_)), patterns=[aux(s, f_)])


def dual_inv(L):
    se = L.seen()
    return [('visited faces have their centre', centred(L, None, se)),
            ('other faces keep theirs', ForAll([f_], Implies(se[f_] == 0, aux(L, f_) == aux(L.pre, f_)), patterns=[aux(L, f_)]))]


DUAL = C(MOD + 'dual_mesh', {'mesh': G}, opts=FIX, modular=True, modifies=['Face.aux_node'], requires=lambda s: wf(s, s.mesh),
         ensures=lambda s: [('every face has its centre', centred(s, s.mesh, s.cnt('Grid.Faces', s.mesh))),
                            ('faces of no listed mesh keep theirs', ForAll([f_], Implies(s.cnt('Grid.Faces', s.mesh)[f_] == 0, aux(s, f_) == aux(s.old, f_)), patterns=[aux(s, f_)]))],
         loops=[LoopSpec('faces', 'Grid.Faces', dual_inv)])


def rows_inv(L):
    out = []
    for c, nm in enumerate('xyz'):
        l = L.lst(L.loc(nm), 'Real')
        out.append(('coordinate %s of the visited faces' % nm, And(l.n == L.k, ForAll([i_], Implies(And(0 <= i_, i_ < L.k), l.el[i_] == v3(aux(L, L.src.el[i_]))[c]), patterns=[l.el[i_]]))))
    return out


def rows_post(s):
    r = s.result
    el = s.el('Grid.Faces', s.mesh)
    return [('one row per face', r.n == s.n('Grid.Faces', s.mesh)),
            ('rows are the centres in the order of the faces', ForAll([i_], Implies(And(0 <= i_, i_ < r.n), veq(r.elem(i_), v3(aux(s, el[i_])))), patterns=[r.pat(i_), el[i_]]))]


def rows_res(ex, old):
    return ex.make_param(str(ex.fresh('rows', z3.IntSort())), ('NdRows', 3))


ROWS = C(MOD + 'all_coordinates_of_aux_nodes', {'mesh': G}, modular=True, frame=[], requires=lambda s: wf(s, s.mesh), result=rows_res, ensures=rows_post,
         loops=[LoopSpec('faces', 'Grid.Faces', rows_inv)])


def copied(s, o, f):
    """f has the temperature and water height of the source face nearest to it, and its other data as before."""
    src = s.el('Grid.Faces', s.source_mesh)[NEAR(cen(s, f))]
    v, h = data(s, f)
    w, g = data(o, f)
    return And(v == z3.Store(z3.Store(w, S_('T'), value(o, src, 'T')), S_('Hw'), value(o, src, 'Hw')), h == z3.Store(z3.Store(g, S_('T'), True), S_('Hw'), True))


def inter_inv(L):
    se = L.seen()
    v, h = data(L, f_)
    w, g = data(L.old, f_)
    return [('visited faces have the data of a nearest source face', ForAll([f_], Implies(se[f_] >= 1, copied(L, L.old, f_)), patterns=[v])),
            ('other faces keep their data', ForAll([f_], Implies(se[f_] == 0, And(v == w, h == g)), patterns=[v, h]))]


def inter_post(s):
    t, m = s.target_mesh, s.source_mesh
    o = s.old
    src = lambda f: s.el('Grid.Faces', m)[NEAR(cen(s, f))]
    mine = s.cnt('Grid.Faces', t)[f_] >= 1
    theirs = s.cnt('Grid.Faces', m)
    v, h = data(s, f_)
    w, g = data(o, f_)
    return [('the source face is one of the source mesh', ForAll([f_], Implies(mine, theirs[src(f_)] >= 1))),
            ('no source face has a nearer centre', ForAll([f_, i_], Implies(And(mine, 0 <= i_, i_ < s.n('Grid.Faces', m)),
                                                                              KDDIST(cen(s, src(f_)), cen(s, f_)) <= KDDIST(cen(s, s.el('Grid.Faces', m)[i_]), cen(s, f_))))),
            ('temperature of that face', ForAll([f_], Implies(mine, value(s, f_, 'T') == value(o, src(f_), 'T')))),
            ('water height of that face', ForAll([f_], Implies(mine, value(s, f_, 'Hw') == value(o, src(f_), 'Hw')))),
            ('no other data of the target is changed', ForAll([f_, K_], Implies(And(mine, K_ != S_('T'), K_ != S_('Hw')), And(v[K_] == w[K_], h[K_] == g[K_])))),
            ('nothing of the source or of other faces is changed', ForAll([f_], Implies(Not(mine), And(v == w, h == g))))]


INTER = C(MOD + 'face_centered_interpolation', {'source_mesh': G, 'target_mesh': G}, opts=FIX, frame=['Face.aux_node', 'Face.Data'],
          requires=lambda s: wf(s, s.source_mesh) + wf(s, s.target_mesh) + [
              ('two meshes', And(s.source_mesh != s.target_mesh, s.n('Grid.Faces', s.source_mesh) >= 1,
                                 ForAll([f_], Not(And(s.cnt('Grid.Faces', s.source_mesh)[f_] >= 1, s.cnt('Grid.Faces', s.target_mesh)[f_] >= 1)), patterns=[s.cnt('Grid.Faces', s.source_mesh)[f_]])))],
          ensures=inter_post, loops=[LoopSpec('faces', 'Grid.Faces', inter_inv)])
CONTRACTS = [DUAL, ROWS, INTER]
ABOUT = {'level_note': 'dual_mesh, all_coordinates_of_aux_nodes and face_centered_interpolation proved for all pairs of meshes without common faces.',
         'bounded': ['the command-line driver (files)'],
         'trusted': ['scipy KDTree.query answers the index of a row at minimal Euclidean distance (which of several is left open), deterministically']}
