from .common import *

SCHEMA = mesh()
OPTS = {}


def define_touch(key, cls, tag):
    """Conservative definition of touch(x, z): some face listed at x has zone z; pos(x): position of x in the grid list."""
    def setup(ex, vals):
        from pydv.contract import View
        s = View(ex, ex.st, vals)
        T = touch(cls)
        pos = posf(cls)
        x, z, i = const('x', cls), const('z', 'Zone'), z3.Int('i')
        w = z3.Function('touch_w_' + cls, ref_sort(cls), ref_sort('Zone'), z3.IntSort())
        face = lambda x, i: s.el(cls + '.Faces', x)[i]
        zone = lambda f: s.get('Face', 'Zone', f)
        n = s.n(cls + '.Faces', x)
        ex.st.pc += [
            ForAll([x, i], Implies(And(0 <= i, i < n), T(x, zone(face(x, i)))), patterns=[face(x, i)]),
            ForAll([x, z], Implies(T(x, z), And(0 <= w(x, z), w(x, z) < n, zone(face(x, w(x, z))) == z)), patterns=[T(x, z)])]
        g = vals['self'].t
        k = 'Grid.%ss' % cls
        ex.st.pc += [ForAll([i], Implies(And(0 <= i, i < s.n(k, g)), pos(s.el(k, g)[i]) == i), patterns=[s.el(k, g)[i]])]
    return setup


def touch(cls):
    return z3.Function('touch_' + cls, ref_sort(cls), ref_sort('Zone'), z3.BoolSort())


def posf(cls):
    return z3.Function('pos_' + cls, ref_sort(cls), z3.IntSort())


def zpos():
    return z3.Function('pos_Zone', ref_sort('Zone'), z3.IntSort())


def setup(ex, vals):
    from pydv.contract import View
    define_touch('Node.Faces', 'Node', 'N')(ex, vals)
    define_touch('Edge.Faces', 'Edge', 'E')(ex, vals)
    s = View(ex, ex.st, vals)
    g = vals['self'].t
    i = z3.Int('i')
    ex.st.pc.append(ForAll([i], Implies(And(0 <= i, i < s.n('Grid.Zones', g)), zpos()(s.el('Grid.Zones', g)[i]) == i),
                           patterns=[s.el('Grid.Zones', g)[i]]))


def inz(s, z):
    return s.cnt('Grid.Zones', s.self)[z] >= 1


def requires(s):
    out = []
    z = const('z', 'Zone')
    out.append(('zones listed once', ForAll([z], s.cnt('Grid.Zones', s.self)[z] <= 1, patterns=[s.cnt('Grid.Zones', s.self)[z]])))
    for c in ('Node', 'Edge'):
        x, i = const('x', c), z3.Int('i')
        k = 'Grid.%ss' % c
        out.append((k + ' listed once', ForAll([x], s.cnt(k, s.self)[x] <= 1, patterns=[s.cnt(k, s.self)[x]])))
        f = s.el(c + '.Faces', x)[i]
        out.append((c + ' faces have zones of the grid', ForAll([x, i], Implies(
            And(s.cnt(k, s.self)[x] >= 1, 0 <= i, i < s.n(c + '.Faces', x)), And(f != null('Face'), inz(s, s.get('Face', 'Zone', f)))), patterns=[f])))
    return out


def zlist(s, cls, seen, extra=None):
    """Zone.<cls>s holds exactly the seen elements touching the zone, each once, ordered by position."""
    x, z, i, j = const('x', cls), const('z', 'Zone'), z3.Int('i'), z3.Int('j')
    k = 'Zone.%ss' % cls
    T, pos = touch(cls), posf(cls)
    el = lambda i: s.el(k, z)[i]
    return [
        ('a zone lists exactly the %ss of its faces, once' % cls.lower(),
         ForAll([z, x], Implies(inz(s, z), s.cnt(k, z)[x] == If(And(seen(x), T(x, z)), 1, 0)), patterns=[s.cnt(k, z)[x]])),
        ('%ss in grid order' % cls.lower(),
         ForAll([z, i, j], Implies(And(inz(s, z), 0 <= i, i < j, j < s.n(k, z)), pos(el(i)) < pos(el(j))), patterns=[z3.MultiPattern(el(i), el(j))]))]


def gseen(s, cls):
    return lambda x: s.cnt('Grid.%ss' % cls, s.self)[x] >= 1


def cleared(s, zs):
    z = const('z', 'Zone')
    return [('%s lists empty' % c, ForAll([z], Implies(zs(z), s.n('Zone.%ss' % c, z) == 0), patterns=[s.n('Zone.%ss' % c, z)])) for c in ('Node', 'Edge')]


def ids_ok(s, upto):
    z = const('z', 'Zone')
    return [('zone ids are positions', ForAll([z], Implies(And(inz(s, z), zpos()(z) < upto), s.get('Zone', 'Id', z) == zpos()(z)),
                                              patterns=[s.get('Zone', 'Id', z)]))]


def outer(cls, done=None):
    def inv(L):
        seen = L.seen()
        return ids_ok(L, L.n('Grid.Zones', L.self)) + zlist(L, cls, lambda x: seen[x] >= 1) + [
            ('positions below', ForAll([const('z', 'Zone'), z3.Int('i')], Implies(
                And(inz(L, const('z', 'Zone')), 0 <= z3.Int('i'), z3.Int('i') < L.n('Zone.%ss' % cls, const('z', 'Zone'))),
                posf(cls)(L.el('Zone.%ss' % cls, const('z', 'Zone'))[z3.Int('i')]) < L.k), patterns=[L.el('Zone.%ss' % cls, const('z', 'Zone'))[z3.Int('i')]]))]
    return inv


def inner(cls):
    def inv(L):
        # zones whose id was processed already list the current element
        seen = L.seen()
        p = L.pre
        k = 'Zone.%ss' % cls
        cur = L.loct({'Node': 'n', 'Edge': 'e'}[cls])
        x, z, i, j = const('x', cls), const('z', 'Zone'), z3.Int('i'), z3.Int('j')
        hit = lambda z: seen[L.get('Zone', 'Id', z)] >= 1
        return [
            ('current element added to processed zones', ForAll([z, x], Implies(inz(L, z), L.cnt(k, z)[x] == p.cnt(k, z)[x] + If(And(x == cur, hit(z)), 1, 0)),
                                                                patterns=[L.cnt(k, z)[x]])),
            ('appended at the end', ForAll([z], Implies(inz(L, z), L.n(k, z) == p.n(k, z) + If(hit(z), 1, 0)), patterns=[L.n(k, z)])),
            ('earlier entries kept', ForAll([z, i], Implies(And(inz(L, z), 0 <= i, i < p.n(k, z)), L.el(k, z)[i] == p.el(k, z)[i]), patterns=[L.el(k, z)[i]])),
            ('new entry last', ForAll([z], Implies(And(inz(L, z), hit(z)), L.el(k, z)[p.n(k, z)] == cur), patterns=[L.n(k, z)])),
        ]
    return inv


CONTRACTS = [
    Contract('Grid.link_nodes_and_edges_to_zones', {'self': G}, requires=requires, setup=setup,
             ensures=lambda s: zlist(s, 'Node', gseen(s, 'Node')) + zlist(s, 'Edge', gseen(s, 'Edge')),
             loops=[LoopSpec('clear', 'Grid.Zones', lambda L: cleared(L, lambda z: L.seen()[z] >= 1), nth=0),
                    LoopSpec('set ids', 'Grid.Zones', lambda L: ids_ok(L, L.k), nth=1),
                    LoopSpec('reset ids', 'Grid.Zones', lambda L: [], nth=2),
                    LoopSpec('nodes', 'Grid.Nodes', outer('Node')),
                    LoopSpec('edges', 'Grid.Edges', outer('Edge')),
                    LoopSpec('zones of a node', 'local', inner('Node'), inside='nodes'),
                    LoopSpec('zones of an edge', 'local', inner('Edge'), inside='edges')]),
]
ABOUT = {'level_note': 'Grid.link_nodes_and_edges_to_zones proved for every mesh: each zone lists exactly the nodes and edges of its faces, once, in grid order.',
         'bounded': ['post_decompose as called by every decomposition (end to end)']}
