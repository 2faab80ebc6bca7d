from base import *
BOUND = 'meshes of at most 60 faces and 7 zones (some empty)'


def cases(r, n):
    for name, s in shapes():
        for nz in (1, 2, 3, 4):
            yield dict(mesh_case(r, s, nz), extra=0)
    for _ in range(250 * n):
        yield dict(mesh_case(r, big=True), extra=r.randrange(3), perm=r.random() < .5, bad=r.choice([None, None, None, 0, 3]), pick=r.randrange(100))


def test(c):
    g = build(c)
    for i in range(c['extra']):
        g.Zones.insert(i, gsu.Zone('empty'))
    zs = list(g.Zones)
    if c.get('perm'):
        zs.reverse()
    if c.get('bad') is not None:
        e = g.Edges[c['pick'] % len(g.Edges)]
        while len(e.Faces) > c['bad']:
            e.Faces.pop()
        while len(e.Faces) < c['bad']:
            e.Faces.append(g.Faces[0])
        try:
            gsu.ZonesAdjacencyMatrix(g.Edges, zs)
        except Exception:
            return
        raise Bad('an edge with %d faces is accepted' % c['bad'])
    k = len(zs)
    ix = {id(z): i for i, z in enumerate(zs)}
    M = [[0] * (k + 1) for _ in range(k + 1)]
    for e in g.Edges:
        q = [ix[id(f.Zone)] for f in e.Faces]
        if len(q) == 1:
            q.append(k)
        M[q[0]][q[1]] += 1
        if q[0] != q[1]:
            M[q[1]][q[0]] += 1
    z = gsu.ZonesAdjacencyMatrix(g.Edges, zs)
    need([list(x) for x in z.M] == M, 'matrix {} instead of {}', z.M, M)
    ec, b = len(g.Edges), sum(len(e.Faces) == 1 for e in g.Edges)
    inn = sum(len(e.Faces) == 2 and e.Faces[0].Zone is e.Faces[1].Zone for e in g.Edges)
    cr = ec - b - inn
    got = z.edges_statistics()
    need(tuple(got[:4]) == (ec, b, inn, cr), 'statistics {} instead of {}', got[:4], (ec, b, inn, cr))
    need(all(same(x, 100. * y / ec) for x, y in zip(got[4:], (b, inn, cr))), 'percentages {}', got[4:])
    st = z.edges_statistics_string()
    need('{0} border ({1:.2f}%), {2} inner ({3:.2f}%), {4} cross ({5:.2f}%)'.format(b, 100. * b / ec, inn, 100. * inn / ec, cr, 100. * cr / ec) in st, 'statistics text {!r}', st)
    off = [[0 if j == i else M[i][j] for j in range(k)] for i in range(k)]
    for i in range(k):
        need(list(z.zone_cross_edges_array(i)) == off[i] + [0], 'cross edges of zone {}: {}', i, z.zone_cross_edges_array(i))
        need(z.zone_cross_edges_count(i) == sum(off[i]), 'cross edge count of zone {}', i)
        need(z.zone_cross_borders_count(i) == sum(x > 0 for x in off[i]), 'border count of zone {}', i)
        need(z.zone_max_cross_border_len(i) == max(off[i]), 'longest border of zone {}', i)
    need(z.max_cross_border_len() == max(max(x) for x in off), 'longest border')
    need([list(x) for x in z.M] == M, 'a query changed the matrix')
    g.print_info(True, False, True)
