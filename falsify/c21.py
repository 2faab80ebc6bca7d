from base import *
BOUND = 'meshes of at most 60 faces, predicates given by face sets, arbitrary earlier marks'


def cases(r, n):
    for name, s in shapes():
        for k in range(4):
            c = mesh_case(r, s, 1)
            yield dict(c, keep=[k == 0 or r.random() < .6 for _ in c['tris']], start=r.randrange(99), marks=[r.random() < .3 for _ in c['tris']], comp=k % 2 == 0)
    for _ in range(300 * n):
        c = mesh_case(r, big=True)
        p = r.choice([.2, .6, .9, 1.])
        yield dict(c, keep=[r.random() < p for _ in c['tris']], start=r.randrange(999), marks=[r.random() < r.choice([0, .5]) for _ in c['tris']], comp=r.random() < .4)


def reach(s, ok):
    seen, todo = [s], [s]
    while todo:
        f = todo.pop()
        for e in f.Edges:
            for x in e.Faces:
                if ok(x) and all(x is not y for y in seen):
                    seen.append(x)
                    todo.append(x)
    return seen


def test(c):
    g = build(c)
    keep = {id(f) for f, k in zip(g.Faces, c['keep']) if k}
    ok = lambda f: id(f) in keep
    s = g.Faces[c['start'] % len(g.Faces)]
    before = (topo(g), [(ids(z.Nodes), ids(z.Edges), ids(z.Faces)) for z in g.Zones], [id(f.Zone) for f in g.Faces])
    if c['comp']:
        for f in g.Faces:
            f.bfs_mark = False
        p = g.bfs_path_connectivity_component(s, ok)
        w = reach(s, ok) if ok(s) else []
        need(sorted(ids(p)) == sorted(ids(w)), 'component path lists {} faces of {}', [f.GloId for f in p], sorted(f.GloId for f in w))
        need(not w or p[0] is s, 'the path does not begin with the start')
    else:
        for f, m in zip(g.Faces, c['marks']):
            f.bfs_mark = m
        p = g.bfs_path(s, ok)
        need(sorted(ids(p)) == sorted(ids([f for f in g.Faces if ok(f)])), 'path lists {} instead of {}', [f.GloId for f in p], [f.GloId for f in g.Faces if ok(f)])
        need(not ok(s) or p[0] is s, 'the path does not begin with the start')
        q = g.bfs_path(s, ok)
        need(ids(p) == ids(q), 'a second traversal differs')
    need(before == (topo(g), [(ids(z.Nodes), ids(z.Edges), ids(z.Faces)) for z in g.Zones], [id(f.Zone) for f in g.Faces]), 'the traversal changed the mesh')
