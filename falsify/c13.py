from base import *
import smoothing, remeshing
BOUND = 'meshes of at most 40 faces'


def cases(r, n):
    for name, s in shapes():
        yield dict(mesh_case(r, s), kind='mark')
    for _ in range(150 * n):
        c = mesh_case(r)
        k = r.choice(['mark', 'shift', 'dirs', 'move', 'explode'])
        yield dict(c, kind=k, fix=r.random() < .6, sh=[[r.uniform(-1, 1) for _ in range(3)] for _ in range(20)], h=[r.choice([0., r.uniform(0, 1)]) for _ in range(7)],
                   k=r.choice([.1, 1., -.5, r.uniform(0, 3)]), twice=r.random() < .3)


def test(c):
    g = build(c)
    k = c['kind']
    border = {id(n) for e in g.Edges if len(e.Faces) == 1 for n in e.Nodes}
    p0 = [P(n) for n in g.Nodes]
    if k in ('mark', 'shift'):
        g.mark_all_fixed_nodes()
        for n in g.Nodes:
            need(bool(n.border) == (id(n) in border), 'node {} is {}flagged', n.GloId, '' if n.border else 'not ')
        need(g.number_of_border_nodes == len(border), '{} border nodes are counted instead of {}', g.number_of_border_nodes, len(border))
        if c.get('twice'):
            g.mark_all_fixed_nodes()
            need(g.number_of_border_nodes == len(border), 'marking again counts border nodes twice')
        need([P(n) for n in g.Nodes] == p0, 'marking moves nodes')
        if k == 'mark':
            return
        s = smoothing.Smoothing(g, 0, c['fix'])
        sh = [c['sh'][i % len(c['sh'])] for i in range(len(p0))]
        s.apply_shifts([geom.Vect(*x) for x in sh])
        for n, p, d in zip(g.Nodes, p0, sh):
            w = p if c['fix'] and id(n) in border else [x + y for x, y in zip(p, d)]
            need(P(n) == w if w is p else vsame(P(n), w), 'node {} ({}) is at {} instead of {}', n.GloId, 'border' if id(n) in border else 'inner', P(n), w)
        return
    if k == 'dirs':
        if any(tri_area(*[P(n) for n in f.Nodes]) < 1e-3 for f in g.Faces):
            return
        t = remeshing.TongRemesher('x.dat', None, '.')
        t.grid = g
        nr = {id(f): geom_normal(f) for f in g.Faces}
        sums = [[sum(nr[id(f)][a] for f in n.Faces) for a in range(3)] for n in g.Nodes]
        if any(norm(s) < 1e-3 for s in sums):
            return
        t.init_ice_dirs()
        for n, s in zip(g.Nodes, sums):
            d = list(n.ice_dir.Coords)
            need(same(norm(d), 1., 1e-9), 'growth direction of length {}', norm(d))
            need(all(abs(x - y / norm(s)) < 1e-7 for x, y in zip(d, s)), 'growth direction {} is not the unit sum of normals {}', d, s)
        return
    if k == 'move':
        t = remeshing.TongRemesher('x.dat', None, '.')
        t.grid = g
        for i, n in enumerate(g.Nodes):
            d = c['sh'][i % len(c['sh'])]
            n.ice_dir, n.ice_shift = geom.Vect(*[x / norm(d) for x in d]), c['h'][i % len(c['h'])]
        for f in g.Faces:
            f.rest_ice, f.actual_ice, f.ice_chunk, f.target_ice = 1., 0., .1, 1.
        w = [[x + y * n.ice_shift for x, y in zip(P(n), n.ice_dir.Coords)] for n in g.Nodes]
        t.move_nodes()
        for n, x in zip(g.Nodes, w):
            need(vsame(P(n), x), 'node {} moved to {} instead of {}', n.GloId, P(n), x)
        return
    # explode: zones that share no node
    g = load_case(c, False)
    if problems(g) or zone_list_problem(g):
        return
    ns = len(g.Nodes)
    if sum(len(z.Nodes) for z in g.Zones) != ns:
        return
    p0 = {id(n): P(n) for n in g.Nodes}
    mean = lambda l: [sum(p0[id(n)][a] for n in l) / len(l) for a in range(3)]
    gm = mean(g.Nodes)
    want = {id(n): [x + c['k'] * (m - y) for x, m, y in zip(p0[id(n)], mean(z.Nodes), gm)] for z in g.Zones for n in z.Nodes}
    g.move_from_mean_point(c['k'])
    for n in g.Nodes:
        need(vsame(P(n), want[id(n)], 1e-8), 'node {} moved to {} instead of {}', n.GloId, P(n), want[id(n)])


def geom_normal(f):
    a, b, c = [P(n) for n in f.Nodes]
    n = cross(sub(b, a), sub(c, a))
    return [x / norm(n) for x in n]
