from base import *
import struct
BOUND = 'meshes of at most 60 faces and 6 zones (some empty), arbitrary finite 64-bit values'


def wild(r):
    k = r.randrange(6)
    if k == 0:
        return r.uniform(-1, 1) * 10.0 ** r.randint(-300, 300)
    if k == 1:
        while True:
            x = struct.unpack('<d', struct.pack('<Q', r.getrandbits(64)))[0]
            if math.isfinite(x):
                return x
    if k == 2:
        return float(r.randint(-5, 5))
    if k == 3:
        return r.choice([0.1, 1 / 3, 5e-324, 1.7976931348623157e308, -0.0, 2.0 ** 53 + 2])
    return r.uniform(-1000, 1000)


def cases(r, n):
    for name, s in shapes():
        for nz in (1, 2, 3):
            yield dict(mesh_case(r, s, nz), op=None, merge=True)
    for _ in range(200 * n):
        c = mesh_case(r, big=True, variables=r.choice([VARS, ['T'], ['Hi', 'T', 'Q'], ['Z1', 'A', 'B']]))
        c['vals'] = [[wild(r) for _ in c['vars']] for _ in c['tris']]
        c['pts'] = [[x * r.choice([1., 1., 1e3]) + r.uniform(-.01, .01) for x in p] for p in c['pts']]
        if r.random() < .3:
            c['names'] = [r.choice(['zone %d', 'part-%d.a', 'Z,%d', '#%d']) % i for i in range(len(c['names']))]
        yield dict(c, op=r.choice([None, ['mono'], ['linear', r.randint(1, 9)], ['random', r.randint(1, 5)], ['farhat', 3, []], ['hier', 3, []]]), merge=r.random() < .8)


def view(g):
    return (g.Name, [(z.Name, [([tuple(map(float.hex, map(float, n.P.Coords))) for n in f.Nodes], {k: float(v).hex() for k, v in f.Data.items()}) for f in z.Faces]) for z in g.Zones])


def whole(g):
    return (view(g), topo(g)[1:5], topo(g)[6:], [(ids(z.Nodes), ids(z.Edges), ids(z.Faces)) for z in g.Zones], ids(g.Nodes), ids(g.Edges), ids(g.Faces),
            [(n.GloId, tuple(n.P.Coords)) for n in g.Nodes], [list(f.Data) for f in g.Faces])


def test(c):
    import c03
    g = build(c)
    if c['op']:
        c03.apply(g, c['op'])
        if zone_list_problem(g) or partition_problem(g):
            return
    a, w = view(g), whole(g)
    with Scratch() as d:
        g.store(d + '/s.dat')
        need(whole(g) == w, 'storing changed the mesh')
        h = gsu.Grid()
        h.load(d + '/s.dat', c['merge'])
        b = view(h)
        need(a[0] == b[0], 'title {!r} became {!r}', a[0], b[0])
        need([z[0] for z in a[1]] == [z[0] for z in b[1]], 'zones {} became {}', [z[0] for z in a[1]], [z[0] for z in b[1]])
        for (nm, fa), (_, fb) in zip(a[1], b[1]):
            need(len(fa) == len(fb), 'zone {}: {} faces became {}', nm, len(fa), len(fb))
            for i, (x, y) in enumerate(zip(fa, fb)):
                need(x[0] == y[0], 'zone {} face {}: corners {} became {}', nm, i, x[0], y[0])
                need(x[1] == y[1], 'zone {} face {}: values {} became {}', nm, i, x[1], y[1])
        m = problems(h)
        need(m is None, 'reloaded mesh: {}', m)
