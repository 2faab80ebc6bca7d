from .common import *
from .c05 import zpos

SCHEMA = mesh()
OPTS = {}
MODS = ['Zone.Nodes', 'Zone.Edges', 'Zone.Id']
FRAME = MODS + ['Zone.Faces', 'Zone.Name', 'Zone.IsFixed', 'Face.Zone', 'Grid.Zones', 'Grid.Name']


def zone(s, f):
    return s.get('Face', 'Zone', f)


def fcnt(s, z):
    return s.cnt('Zone.Faces', z)


def inF(s, f):
    return s.cnt('Grid.Faces', s.self)[f] >= 1


def inZ(s, z):
    return s.cnt('Grid.Zones', s.self)[z] >= 1


f_, z_, i_ = const('f', 'Face'), const('z', 'Zone'), z3.Int('i')


def distinct(s, *ks):
    out = []
    for k in ks:
        c = k.split('.')[1][:-1]
        x = const('x', c)
        out.append((k + ' listed once', ForAll([x], s.cnt(k, s.self)[x] <= 1, patterns=[s.cnt(k, s.self)[x]])))
    return out


def partition(s):
    """Every face is listed exactly once in exactly one zone of the grid: the one it refers to; zones list nothing else."""
    return [
        ('the zone of a face is a zone of the grid', ForAll([f_], Implies(inF(s, f_), inZ(s, zone(s, f_))), patterns=[zone(s, f_)])),
        ('a face is listed once in its zone', ForAll([f_], Implies(inF(s, f_), fcnt(s, zone(s, f_))[f_] == 1), patterns=[zone(s, f_)])),
        ('zones list only their own faces of the grid', ForAll([z_, f_], Implies(And(inZ(s, z_), fcnt(s, z_)[f_] >= 1), And(
            inF(s, f_), zone(s, f_) == z_)), patterns=[fcnt(s, z_)[f_]]))] + distinct(s, 'Grid.Zones')


def links(s):
    """Nodes and edges of the grid list faces of the grid only."""
    out = []
    for c in ('Node', 'Edge'):
        x = const('x', c)
        k = c + '.Faces'
        out.append(('faces of a %s are faces of the grid' % c.lower(), ForAll([x, f_], Implies(
            And(s.cnt('Grid.%ss' % c, s.self)[x] >= 1, s.cnt(k, x)[f_] >= 1), inF(s, f_)), patterns=[s.cnt(k, x)[f_]])))
    return out


def pre_decompose(s):
    """What every decomposition starts from: a loaded mesh, possibly decomposed before (zones of faces may be dropped ones)."""
    return distinct(s, 'Grid.Faces', 'Grid.Nodes', 'Grid.Edges', 'Grid.Zones') + links(s) + [
        ('every face has a zone that lists it once', ForAll([f_], Implies(inF(s, f_), And(
            f_ != null('Face'), zone(s, f_) != null('Zone'), fcnt(s, zone(s, f_))[f_] == 1)), patterns=[zone(s, f_)])),
        ('zones list only their own faces of the grid', ForAll([z_, f_], Implies(And(inZ(s, z_), fcnt(s, z_)[f_] >= 1), And(
            inF(s, f_), zone(s, f_) == z_)), patterns=[fcnt(s, z_)[f_]]))]


def link_requires(s):
    return distinct(s, 'Grid.Zones', 'Grid.Nodes', 'Grid.Edges') + links(s) + [
        ('the zone of a face is a zone of the grid', ForAll([f_], Implies(inF(s, f_), And(f_ != null('Face'), inZ(s, zone(s, f_)))), patterns=[zone(s, f_)]))]


def zids(L, upto):
    return [('zone ids are positions', ForAll([z_], Implies(And(inZ(L, z_), zpos()(z_) < upto), L.get('Zone', 'Id', z_) == zpos()(z_)),
                                              patterns=[L.get('Zone', 'Id', z_)]))]


def zpos_setup(ex, vals):
    from pydv.contract import View
    s = View(ex, ex.st, vals)
    g = vals['self'].t
    el = s.el('Grid.Zones', g)
    ex.st.pc.append(ForAll([i_], Implies(And(0 <= i_, i_ < s.n('Grid.Zones', g)), zpos()(el[i_]) == i_), patterns=[el[i_]]))


LINK = Contract('Grid.link_nodes_and_edges_to_zones', {'self': G}, requires=link_requires, setup=zpos_setup, modular=True, modifies=MODS,
                loops=[LoopSpec('other', 'Grid.Zones', lambda L: []), LoopSpec('own zones', 'local', lambda L: []), LoopSpec('set ids', 'Grid.Zones', lambda L: zids(L, L.k), nth=1),
                       LoopSpec('nodes', 'Grid.Nodes', lambda L: zids(L, L.n('Grid.Zones', L.self))),
                       LoopSpec('edges', 'Grid.Edges', lambda L: zids(L, L.n('Grid.Zones', L.self)))])


def unlink_inv(L):
    seen = L.seen()
    p = L.pre
    return [('visited faces are unlinked unless fixed', ForAll([f_], Implies(seen[f_] >= 1, zone(L, f_) == If(
        L.get('Zone', 'IsFixed', zone(p, f_)), zone(p, f_), null('Zone'))), patterns=[zone(L, f_)])),
        ('other faces keep their zone', ForAll([f_], Implies(seen[f_] == 0, zone(L, f_) == zone(p, f_)), patterns=[zone(L, f_)]))]


def fresh_zone(L, z):
    return And(z != null('Zone'), Not(L.old.H('Zone.@alloc')[z]))


def add_inv(L):
    """Faces visited so far sit in a zone of the grid; all zones of the grid are new."""
    seen = L.seen()
    p = L.pre
    return [
        ('visited faces refer to a zone of the grid', ForAll([f_], Implies(seen[f_] >= 1, And(inZ(L, zone(L, f_)), fcnt(L, zone(L, f_))[f_] == 1)), patterns=[zone(L, f_)])),
        ('faces not visited keep their zone', ForAll([f_], Implies(seen[f_] == 0, zone(L, f_) == zone(p, f_)), patterns=[zone(L, f_)])),
        ('zones of the grid list visited faces only', ForAll([z_, f_], Implies(And(inZ(L, z_), fcnt(L, z_)[f_] >= 1), And(
            seen[f_] >= 1, zone(L, f_) == z_)), patterns=[fcnt(L, z_)[f_]])),
        ('old zones keep faces not visited', ForAll([z_, f_], Implies(And(Not(inZ(L, z_)), seen[f_] == 0), fcnt(L, z_)[f_] == fcnt(p, z_)[f_]), patterns=[fcnt(L, z_)[f_]])),
    ]


def create_inv(L):
    return [
        ('zones of the grid are new and empty', ForAll([z_], Implies(inZ(L, z_), And(fresh_zone(L, z_), L.H('Zone.@alloc')[z_], L.n('Zone.Faces', z_) == 0)),
                                                       patterns=[L.cnt('Grid.Zones', L.self)[z_]])),
        ('zones listed once', ForAll([z_], L.cnt('Grid.Zones', L.self)[z_] <= 1, patterns=[L.cnt('Grid.Zones', L.self)[z_]])),
        ('zone count', L.n('Grid.Zones', L.self) == L.k),
        ('old zones untouched', ForAll([z_], Implies(L.old.H('Zone.@alloc')[z_], fcnt(L, z_) == fcnt(L.pre, z_)), patterns=[fcnt(L, z_)]))]


def check_inv(L):
    return []


NAME = {'new_name': ('Const', None)}
CONTRACTS = [
    LINK,
    Contract('Grid.decompose_mono', dict({'self': G}, **NAME), requires=pre_decompose, ensures=partition, frame=FRAME,
             loops=[LoopSpec('unlink', 'Grid.Faces', unlink_inv, nth=0), LoopSpec('add', 'Grid.Faces', add_inv, nth=1),
                    LoopSpec('check', 'Grid.Faces', check_inv, nth=2)]),
    Contract('Grid.decompose_random', dict({'self': G, 'count': 'Int'}, **NAME), requires=lambda s: pre_decompose(s) + [('count', s.count >= 1)],
             ensures=partition, frame=FRAME,
             loops=[LoopSpec('zones', 'Grid.Zones', lambda L: []), LoopSpec('unlink', 'Grid.Faces', unlink_inv, nth=0), LoopSpec('create', 'range', create_inv),
                    LoopSpec('add', 'Grid.Faces', add_inv, nth=1), LoopSpec('check', 'Grid.Faces', check_inv, nth=2)]),
]
