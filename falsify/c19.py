from base import *
BOUND = 'meshes of at most 60 faces and 4 zones'


def cases(r, n):
    for name, s in shapes():
        for nz in (1, 2, 3):
            yield dict(mesh_case(r, s, nz))
    for _ in range(200 * n):
        yield dict(mesh_case(r, big=True), pick=r.randrange(1000))


def raises(fn, *a):
    try:
        fn(*a)
    except Exception:
        return True
    return False


def test(c):
    g = build(c)
    for e in g.Edges:
        k = len(e.Faces)
        one = k == 1
        same_ = k == 2 and e.Faces[0].Zone is e.Faces[1].Zone
        need(bool(e.is_border()) == one, 'edge {} with {} faces: border {}', e.GloId, k, e.is_border())
        need(bool(e.is_inner()) == same_, 'edge {}: inner {}', e.GloId, e.is_inner())
        need(bool(e.is_cross()) == (k == 2 and not same_), 'edge {}: cross {}', e.GloId, e.is_cross())
        need(bool(e.is_outer()) == (not same_), 'edge {}: outer {}', e.GloId, e.is_outer())
        for x in g.Zones:
            for y in g.Zones:
                w = k == 2 and ((e.Faces[0].Zone is x and e.Faces[1].Zone is y) or (e.Faces[0].Zone is y and e.Faces[1].Zone is x))
                need(bool(e.is_connect_zones(x, y)) == w, 'edge {} connects zones {} and {}: {}', e.GloId, x.Name, y.Name, not w)
        for f in e.Faces:
            nb = f.get_neighbour(e)
            if one:
                need(nb is None, 'a border edge has a neighbour')
            else:
                need(nb is [x for x in e.Faces if x is not f][0], 'wrong neighbour across edge {}', e.GloId)
                need(nb.get_neighbour(e) is f, 'the neighbour of the neighbour is another face')
        for f in g.Faces[:12]:
            if all(f is not x for x in e.Faces):
                need(raises(f.get_neighbour, e), 'a face that is not on the edge is not refused')
    for f in g.Faces:
        m = f.max_edge_from_face()
        need(any(m is e for e in f.Edges), 'the longest edge is not an edge of the face')
        ln = lambda e: norm(sub(P(e.Nodes[0]), P(e.Nodes[1])))
        need(ln(m) >= max(map(ln, f.Edges)) * (1 - 1e-12), 'a longer edge exists')
    e = g.Edges[c.get('pick', 0) % len(g.Edges)]
    e.Faces.append(g.Faces[0])
    while len(e.Faces) < 3:
        e.Faces.append(g.Faces[-1])
    need(raises(e.is_cross) and raises(e.is_inner), 'an edge with three faces is classified')
