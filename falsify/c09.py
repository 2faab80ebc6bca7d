from base import *
BOUND = 'meshes of at most 40 faces, sequences of at most 6 edits'


def cases(r, n):
    for name, s in shapes():
        for nz in (1, 2):
            for k in OPS:
                for i in range(4):
                    yield dict(mesh_case(r, s, nz), ops=[[k, i * 3 + 1, r.random()]])
    for _ in range(250 * n):
        yield dict(mesh_case(r), ops=[[r.choice(OPS), r.randrange(10 ** 6), r.random()] for _ in range(r.randint(1, 6))], pre=r.random() < .3)


OPS = ['divide', 'flip', 'cut', 'cut2', 'cut1', 'collapse']


def other(f, e):
    return [n for n in f.Nodes if all(n is not x for x in e.Nodes)][0]


def joined(a, b):
    return any(any(x is b for x in e.Nodes) for e in a.Edges)


def snap(g):
    return (topo(g), [(ids(z.Nodes), ids(z.Edges), ids(z.Faces)) for z in g.Zones], ids(g.Nodes), ids(g.Edges), ids(g.Faces), [x.GloId for x in g.Nodes + g.Edges + g.Faces], sorted(g.RoundedCoordsBag))


def dat(f):
    return tuple(sorted(f.Data.items()))


def step(g, op, strict):
    k, i, t = op
    t = .2 + .3 * t
    f = g.Faces[i % len(g.Faces)]
    e = g.Edges[i % len(g.Edges)]
    a, b = P(e.Nodes[0]), P(e.Nodes[1])
    on = lambda s: geom.Vect(*[x + s * (y - x) for x, y in zip(a, b)])
    old = {id(x): (x, dat(x)) for x in g.Faces}
    oldzone = {id(x): x.Zone for x in g.Faces}
    nn, nf = len(g.Nodes), len(g.Faces)
    new, applies, gone = None, True, []
    before = snap(g)
    was = [P(n) for n in g.Nodes]
    pts = []
    if k == 'divide':
        c = [sum(w * P(n)[q] for w, n in zip((t, .3, .7 - t), f.Nodes)) for q in range(3)]
        pts = [c]
        gone = [f]
        if clash(g, pts):
            return
        res = g.divide_face(f, geom.Vect(*c))
        want = (1, 2)
    elif k == 'flip':
        m = f.max_edge_from_face()
        applies = len(m.Faces) == 2
        gone = list(m.Faces)
        if applies and joined(other(gone[0], m), other(gone[1], m)):
            return
        res = g.collapse_face(f)
        want = (0, 0)
    elif k in ('cut', 'cut1'):
        applies = len(e.Faces) == (2 if k == 'cut' else 1)
        gone = list(e.Faces)
        p = on(t)
        pts = [p.coords_list() if hasattr(p, 'coords_list') else list(p.Coords)]
        if clash(g, pts):
            return
        res = (g.cut_edge if k == 'cut' else g.cut_single_edge)(e, p)
        want = (1, 2 if k == 'cut' else 1)
    elif k == 'cut2':
        gone = list(e.Faces)
        p, q = on(t), on(t + .4)
        pts = [list(p.Coords), list(q.Coords)]
        if clash(g, pts):
            return
        res = g.cut_edge_with_two_nodes(e, p, q)
        want = (2, 2 * len(gone))
    else:
        applies = len(e.Faces) == 2
        gone = list(e.Faces)
        if applies:
            n1, n2 = e.Nodes
            nb = lambda n: {id(x) for y in n.Edges for x in y.Nodes if x is not n}
            if len(nb(n1) & nb(n2)) != 2 or {id(other(x, e)) for x in gone} != nb(n1) & nb(n2):
                return
            # border nodes joined by an inner edge would pinch the surface; a tetrahedron would become flat
            bd = lambda n: any(len(y.Faces) == 1 for y in n.Edges)
            if bd(n1) and bd(n2) or len(g.Faces) <= 4 or clash(g, [[(x + y) / 2 for x, y in zip(a, b)]]):
                return
            if any(joined(other(x, e), other(y, e)) and 0 for x in gone for y in gone):
                return
            # no two faces may become the same triangle
            tri = lambda x: frozenset(id(n1) if n is n2 else id(n) for n in x.Nodes)
            rest = [tri(x) for x in g.Faces if all(x is not y for y in gone) and any(n is n1 or n is n2 for n in x.Nodes)]
            if len(set(rest)) != len(rest) or any(all(any(z is y for y in gone) for z in x.Faces) for w in gone for x in w.Edges if x is not e):
                return
            if any(len(w) == 0 for w in [[x for x in n.Faces if all(x is not y for y in gone)] for n in (n1, n2, other(gone[0], e), other(gone[1], e))]):
                return
            keep_corner = {id(n1), id(n2)}
        res = g.collapse_edge(e)
        want = (-1, -2)
    if not applies:
        need(res is False, '{} does not apply but reports {}', k, res)
        need(snap(g) == before, '{} does not apply but changes the mesh', k)
        return
    if k != 'divide':
        need(res is True, '{} reports {}', k, res)
    m = problems(g, dense=True, positions=False)
    need(m is None, 'after {}: {}', k, m)
    m = partition_problem(g)
    need(m is None, 'after {}: {}', k, m)
    need((len(g.Nodes) - nn, len(g.Faces) - nf) == want, 'after {}: {} nodes and {} faces more instead of {}', k, len(g.Nodes) - nn, len(g.Faces) - nf, want)
    zonelists(g, k)
    found(g, k, [P(n) for n in g.Nodes] + pts + [x for x in was if all(not vsame(x, P(n), 1e-6) for n in g.Nodes)])
    src = {}
    for x in gone:
        src[dat(x)] = src.get(dat(x), 0) + 1
    fresh = [x for x in g.Faces if id(x) not in old]
    for x in g.Faces:
        if id(x) in old:
            need(dat(x) == old[id(x)][1], 'after {}: data of face {} changed', k, x.GloId)
            need(x.Zone is oldzone[id(x)], 'after {}: face {} changed its zone', k, x.GloId)
        else:
            need(any(x.Zone is oldzone[id(y)] for y in gone), 'after {}: new face {} is in a zone none of its sources was in', k, x.GloId)
            need(dat(x) in src, 'after {}: new face {} carries data of no face it came from', k, x.GloId)
    if k in ('divide', 'cut1', 'cut', 'cut2'):
        # each new face lies inside the face it came from: it keeps two or one of its corners
        for x in gone:
            mine = [y for y in fresh if sum(any(n is m for m in x.Nodes) for n in y.Nodes) + sum(all(n is not m for m in (before_nodes(before, g))) for n in y.Nodes) == 3]
            own = [y for y in mine if dat(y) == dat(x)]
            per = {'divide': 3, 'cut1': 2, 'cut': 2, 'cut2': 3}[k]
            need(len(own) == per and (len(mine) == per), 'after {}: {} new faces lie in face {} and {} carry its data, of {}', k, len(mine), x.GloId, len(own), per)
        got = sorted(tuple(round(q, 9) for q in P(n)) for n in g.Nodes[nn:])
        need(got == sorted(tuple(round(q, 9) for q in p) for p in pts), 'after {}: new nodes at {} instead of {}', k, got, pts)
    if k == 'collapse':
        mid = [(x + y) / 2 for x, y in zip(a, b)]
        need(any(vsame(P(n), mid) for n in g.Nodes), 'after collapse: no node at the middle of the edge')


def zonelists(g, k):
    inc = lambda z, at: {id(x) for f in z.Faces for x in getattr(f, at)}
    for at, have in (('Nodes', set(ids(g.Nodes))), ('Edges', set(ids(g.Edges)))):
        for z in g.Zones:
            l = ids(getattr(z, at))
            need(len(l) == len(set(l)), 'after {}: zone {} lists some of its {} twice', k, z.Name, at)
            need(set(l) <= have, 'after {}: zone {} lists {} which are no longer in the grid', k, z.Name, at)
            need(len(g.Zones) > 1 or set(l) == inc(z, at), 'after {}: the only zone does not list exactly the {} of its faces', k, at)


def found(g, k, pts):
    """Looking a position up finds the node that is there, and nothing where no node is."""
    for p in pts:
        q = tuple(round(x, 8) for x in p)
        near = [n for n in g.Nodes if tuple(round(x, 8) for x in P(n)) == q]
        if len(near) < 2:
            got = g.find_near_node(gsu.Node(geom.Vect(*p)))
            need(got is (near[0] if near else None), 'after {}: looking up {} finds {} instead of {}', k, p, got and P(got), near and P(near[0]))


def before_nodes(before, g):
    s = set(before[2])
    return [n for n in g.Nodes if id(n) in s]


def clash(g, pts):
    return any(tuple(round(x, 8) for x in p) == tuple(round(x, 8) for x in P(n)) for p in pts for n in g.Nodes)


def test(c):
    g = build(c)
    for op in c['ops']:
        step(g, op, c.get('strict'))
