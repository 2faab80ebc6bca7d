from base import *
from fractions import Fraction
import c10
BOUND = 'clouds of at most 40 triangles in general position, or with corners on a small lattice (touching contact, decided exactly)'


def tri(r, near):
    o = [r.uniform(-near, near) for _ in range(3)]
    return [[x + r.uniform(-1, 1) for x in o] for _ in range(3)]


def cases(r, n):
    return interleave(touching(r, n), apart(r, n))


def apart(r, n):
    for _ in range(60 * n):
        k = r.choice([1, 2, 3, 5, 8, 13, 25, 40])
        near = r.choice([.1, 1., 3., 6.])
        ts = [tri(r, near) for _ in range(k)]
        if r.random() < .3:
            ts = [[[x + 0., y, z * 1e-3] for x, y, z in t] for t in ts]
        segs = []
        for _ in range(8):
            if r.random() < .7:
                t = r.choice(ts)
                p = [sum(v) / 3 for v in zip(*t)]
                d = [r.uniform(-1, 1) for _ in range(3)]
                l = r.choice([.1, 1., 8.])
                segs.append([[x - l * y for x, y in zip(p, d)], [x + l * y for x, y in zip(p, d)]])
            else:
                segs.append([[r.uniform(-4, 4) for _ in range(3)] for _ in range(2)])
        if r.random() < .4:
            segs.append([[ts[0][0][0], -9., ts[0][0][2]], [ts[0][0][0], 9., ts[0][0][2]]])
        yield {'ts': ts, 'segs': segs, 'other': [tri(r, near) for _ in range(r.choice([1, 2, 4, 9, 16]))]}


def lattice(r):
    """Corners on a coarse lattice: flat and touching boxes, segments that start, end or pass exactly on them."""
    q = [0., 1., 2., 4., -2.]
    while True:
        t = [[r.choice(q) for _ in range(3)] for _ in range(3)]
        if r.random() < .6:
            ax, v = r.randrange(3), r.choice(q)
            for p in t:
                p[ax] = v
        n = cross(t)
        if any(n):
            return t


def cross(t):
    a, b, c = [[Fraction(x) for x in p] for p in t]
    u, v = [y - x for x, y in zip(a, b)], [y - x for x, y in zip(a, c)]
    return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]


def meets(t, s):
    """Exact: does the closed segment meet the closed triangle? None when it is parallel to its plane."""
    n = cross(t)
    a, b, c = [[Fraction(x) for x in p] for p in t]
    p, q = [[Fraction(x) for x in e] for e in s]
    d = sum(x * (y - z) for x, y, z in zip(n, q, p))
    if d == 0:
        return None
    k = sum(x * (y - z) for x, y, z in zip(n, a, p)) / d
    if not 0 <= k <= 1:
        return False
    x = [u + k * (v - u) for u, v in zip(p, q)]
    for u, v in ((a, b), (b, c), (c, a)):
        e, w = [j - i for i, j in zip(u, v)], [j - i for i, j in zip(u, x)]
        if sum(i * j for i, j in zip(n, [e[1] * w[2] - e[2] * w[1], e[2] * w[0] - e[0] * w[2], e[0] * w[1] - e[1] * w[0]])) < 0:
            return False
    return True


def touching(r, n):
    for _ in range(150 * n):
        ts = [lattice(r) for _ in range(r.choice([1, 1, 2, 3, 4, 6, 9]))]
        segs = []
        for _ in range(10):
            t = r.choice(ts)
            w = r.choice([[.5, .25, .25], [.25, .5, .25], [.5, .5, 0.], [1., 0., 0.], [.125, .125, .75]])
            p = [sum(k * x for k, x in zip(w, v)) for v in zip(*t)]
            d = [float(r.choice([0, 0, 1, -1, 2])) for _ in range(3)]
            if not any(d):
                d[r.randrange(3)] = 1.
            k = r.choice([0., 0., 1., -1., .5])
            e = [[x - k * y for x, y in zip(p, d)], [x + y for x, y in zip(p, d)]]
            if k == -1.:
                e = [p, [x - y for x, y in zip(p, d)]]
            segs.append(e if r.random() < .5 else e[::-1])
        yield {'exact': True, 'ts': ts, 'segs': segs, 'other': [lattice(r) for _ in range(r.choice([1, 2, 3]))]}


def exact(c):
    """Touching contact: where the triangle query agrees with exact arithmetic, the cloud must agree with it too."""
    tris = [T(t) for t in c['ts']]
    cl = geom.TrianglesCloud(list(tris))
    tree(cl, tris)
    for s in c['segs']:
        seg = geom.Segment(*[geom.Vect(*p) for p in s])
        truth = [meets(t, s) for t in c['ts']]
        if any(v is None or v != (t.intersection_with_segment(seg) != []) for v, t in zip(truth, tris)):
            continue
        got = cl.first_intersection_with_segment(seg)
        if got is None:
            need(not any(truth), 'no triangle found, checking every triangle finds {}', sum(truth))
        else:
            need(any(got is t and v for t, v in zip(tris, truth)), 'the triangle returned is not met by the segment')
    other = [T(t) for t in c['other']]
    co = geom.TrianglesCloud(list(other))
    pairs = [(a, b) for a in tris for b in other]
    before = [a.intersection_with_triangle(b) != [] for a, b in pairs]
    res = cl.intersection_with_triangles_cloud(co)
    got = set((id(res[i][0]), id(res[i + 1][0])) for i in range(0, len(res) - 1, 2))
    for (a, b), m in zip(pairs, before):
        pa, pb = [list(p.Coords) for p in a.Points], [list(p.Coords) for p in b.Points]
        ts = [meets(t, [o[i], o[(i + 1) % 3]]) for t, o in ((pa, pb), (pb, pa)) for i in range(3)]
        if any(v is None for v in ts) or m != any(ts):
            continue
        need(((id(a), id(b)) in got) == m, 'the cloud query {} a pair that {}', 'omits' if m else 'reports', 'meets' if m else 'does not meet')


def T(t):
    return geom.Triangle(*[geom.Vect(*p) for p in t])


def walk(c):
    yield c
    for s in c.Subclouds:
        yield from walk(s)


def below(c):
    return [t for x in walk(c) for t in x.Triangles]


def tree(cl, tris):
    need(sorted(ids(below(cl))) == sorted(ids(tris)), 'the tree holds {} triangles of {}', len(below(cl)), len(tris))
    for c in walk(cl):
        need(not (c.Triangles and c.Subclouds), 'an inner cloud holds triangles')
        need(bool(c.Triangles) or bool(c.Subclouds), 'an empty cloud')
        b = c.Box
        for t in below(c):
            for p in t.Points:
                need(b.MinX <= p.X <= b.MaxX and b.MinY <= p.Y <= b.MaxY and b.MinZ <= p.Z <= b.MaxZ, 'a box does not enclose a triangle below it')


def test(c):
    if c.get('exact'):
        return exact(c)
    tris = [T(t) for t in c['ts']]
    cl = geom.TrianglesCloud(list(tris))
    tree(cl, tris)
    for s in c['segs']:
        v = [c10.truth(t, s) for t in c['ts']]
        if any(x is None or x[2] < 1e-6 for x in v):
            continue
        hit = [i for i, x in enumerate(v) if x[0]]
        got = cl.first_intersection_with_segment(geom.Segment(*[geom.Vect(*p) for p in s]))
        if got is None:
            need(not hit, 'no triangle found but {} are met', len(hit))
        else:
            need(any(got is tris[i] for i in hit), 'the triangle returned is not met by the segment')
    other = [T(t) for t in c['other']]
    co = geom.TrianglesCloud(list(other))
    tree(co, other)
    want = []
    for a in tris:
        for b in other:
            if met(a, b):
                want.append((id(a), id(b)))
            elif a.intersection_with_triangle(b) != []:
                return
    res = cl.intersection_with_triangles_cloud(co)
    need(len(res) % 2 == 0, 'an odd number of entries')
    got = [(id(res[i][0]), id(res[i + 1][0])) for i in range(0, len(res), 2)]
    need(sorted(got) == sorted(want), 'the cloud query reports {} pairs, checking all pairs gives {}', len(got), len(want))
    need(all(res[i][1] for i in range(len(res))), 'a pair without common points')


def met(a, b):
    pa, pb = [list(p.Coords) for p in a.Points], [list(p.Coords) for p in b.Points]
    for t, o in ((pa, pb), (pb, pa)):
        for i in range(3):
            v = c10.truth(t, [o[i], o[(i + 1) % 3]])
            if v and v[0] and v[2] > 1e-6:
                return True
    return False
