from base import *
from fractions import Fraction as Fr
BOUND = 'coordinates of magnitude at most 1e3'


def pt(r):
    k = r.randrange(3)
    return [float(r.randint(-5, 5)) for _ in range(3)] if k == 0 else [r.uniform(-1, 1) * r.choice([1., 10., 1000.]) for _ in range(3)]


def cases(r, n):
    for _ in range(400 * n):
        yield {'kind': 'vect', 'p': [pt(r), pt(r)], 'k': r.choice([0., 1., -2., r.uniform(-9, 9)])}
        yield {'kind': 'box', 'p': [pt(r) for _ in range(r.randint(1, 6))], 's': [pt(r), pt(r)], 'q': [pt(r) for _ in range(r.randint(1, 4))]}
        yield {'kind': 'tri', 'p': [pt(r) for _ in range(3)]}
        yield {'kind': 'vol', 'p': [pt(r) for _ in range(4)], 'd': pt(r)}


def V(p):
    return geom.Vect(*p)


def L(v):
    return [float(x) for x in v.Coords]


def close(a, b, tol=1e-9, scale=1.0):
    return abs(a - b) <= tol * max(scale, abs(a), abs(b))


def vclose(a, b, scale=1.0):
    return len(a) == len(b) and all(close(x, y, 1e-9, scale) for x, y in zip(a, b))


def test(c):
    k = c['kind']
    ps = c['p']
    m = max([1.] + [abs(x) for p in ps for x in p])
    if k == 'vect':
        a, b = ps
        s = c['k']
        va, vb = V(a), V(b)
        need(vclose(L(va + vb), [x + y for x, y in zip(a, b)]), 'sum')
        need(vclose(L(va - vb), [x - y for x, y in zip(a, b)]), 'difference')
        need(vclose(L(va * s), [x * s for x in a]), 'scaling')
        if s:
            need(vclose(L(va / s), [x / s for x in a]), 'division')
        need(close(geom.Vect.dot_product(va, vb), dot(a, b), scale=m * m), 'dot product')
        need(vclose(L(geom.Vect.cross_product(va, vb)), cross(a, b), m * m), 'cross product')
        need(close(va.mod(), norm(a)) and close(va.mod2(), dot(a, a)), 'length')
        need(close(va.dist_to(vb), norm(sub(a, b))), 'distance')
        need(vclose(L(geom.Vect.middle_point(va, vb)), [(x + y) / 2 for x, y in zip(a, b)]), 'midpoint')
        need([va.X, va.Y, va.Z] == a and [va[0], va[1], va[2]] == a and list(va.coords_list()) == a and tuple(va.coords_tuple()) == tuple(a), 'coordinates')
        if norm(a) > 1e-3:
            need(vclose(L(va.orth()), [x / norm(a) for x in a]), 'unit vector')
        w = V(a)
        w += vb
        need(vclose(L(w), [x + y for x, y in zip(a, b)]), 'sum in place')
        need(L(va) == a and L(vb) == b, 'an operand is changed')
        need(va.is_near(V(a), 1e-15) and va.is_near(vb, norm(sub(a, b)) * 2 + 1e-9), 'nearness')
        if norm(sub(a, b)) > 1e-6:
            need(not va.is_near(vb, norm(sub(a, b)) / 2), 'nearness of distant points')
    elif k == 'box':
        lo, hi = [min(p[i] for p in ps) for i in range(3)], [max(p[i] for p in ps) for i in range(3)]
        b = geom.Box.from_points([V(p) for p in ps])
        need([b.MinX, b.MinY, b.MinZ] == lo and [b.MaxX, b.MaxY, b.MaxZ] == hi, 'box {} instead of {}', [b.MinX, b.MinY, b.MinZ, b.MaxX, b.MaxY, b.MaxZ], lo + hi)
        if len(ps) >= 3:
            t = [geom.Triangle(*[V(p) for p in ps[i:i + 3]]) for i in range(0, len(ps) - 2)]
            bt = geom.Box.from_triangles(t)
            need([bt.MinX, bt.MinY, bt.MinZ, bt.MaxX, bt.MaxY, bt.MaxZ] == lo + hi, 'box of triangles')
        for p in ps + [lo, hi, [lo[0], hi[1], lo[2]], c['q'][0], [hi[0] + 1, hi[1], hi[2]], [lo[0], lo[1] - .5, lo[2]], [lo[0], lo[1], hi[2] + .25]]:
            w = all(l <= x <= h for l, x, h in zip(lo, p, hi))
            need(b.is_point_inside(V(p)) == w, 'point {} is {} inside', p, 'not' if w else '')
        for sg in ([c['s'][0], c['s'][1]], [ps[0], c['s'][1]], [lo, c['s'][0]], [[lo[0] - 1, lo[1], lo[2]], [hi[0] + 1, hi[1], hi[2]]], [[hi[0], hi[1], hi[2]], [hi[0] + 1, hi[1] + 1, hi[2] + 1]]):
            meets = seg_box(sg, lo, hi)
            if meets:
                need(b.is_intersect_with_segment(geom.Segment(V(sg[0]), V(sg[1]))), 'segment {} meets the box but is rejected', sg)
        for qs in (c['q'], [hi, [x + 1 for x in hi]], [lo, [x - 1 for x in lo]], [[(x + y) / 2 for x, y in zip(lo, hi)]]):
            o = geom.Box.from_points([V(p) for p in qs])
            l2, h2 = [min(p[i] for p in qs) for i in range(3)], [max(p[i] for p in qs) for i in range(3)]
            if all(a <= d and c_ <= b_ for a, b_, c_, d in zip(lo, hi, l2, h2)):
                need(b.is_potential_intersect_with_box(o) and o.is_potential_intersect_with_box(b), 'boxes meet but are said not to')
    elif k == 'tri':
        a, b, d = ps
        ar = tri_area(a, b, d)
        if ar < 1e-4 * m:
            return
        n = cross(sub(b, a), sub(d, a))
        n = [x / norm(n) for x in n]
        ms = min(norm(sub(a, b)), norm(sub(b, d)), norm(sub(d, a)))
        for t in ((a, b, d), (b, d, a), (d, a, b)):
            q = geom.Triangle(*[V(p) for p in t])
            need(close(q.area(), ar, 1e-7), 'area {} instead of {}', q.area(), ar)
            need(all(abs(x - y) < 1e-6 for x, y in zip(L(q.normal_orth()), n)), 'normal {} instead of {}', L(q.normal_orth()), n)
            need(vclose(L(q.centroid()), [sum(v) / 3 for v in zip(*ps)], m), 'centroid')
            need(close(q.min_side(), ms), 'shortest side')
            need([L(p) for p in q.Points] == [list(p) for p in t], 'a query moved the corners')
    else:
        a, b, d, e = ps
        want = abs(dot(sub(a, e), cross(sub(b, e), sub(d, e)))) / 6
        for o in itertools.permutations(ps):
            need(close(geom.utils.tetrahedron_volume(*[V(p) for p in o]), want, 1e-8, m ** 3), 'tetrahedron volume')
        t = [a, b, d]
        sh = c['d']
        mm = max(m, max(abs(x) for x in sh))
        got = geom.utils.displaced_triangle_volume(*[V(p) for p in t], *[V([x + y for x, y in zip(p, sh)]) for p in t])
        w = abs(dot(cross(sub(b, a), sub(d, a)), sh)) / 2
        need(close(got, w, 1e-8, mm ** 3), 'swept volume {} instead of {}', got, w)


def seg_box(s, lo, hi):
    t0, t1 = Fr(0), Fr(1)
    for i in range(3):
        p, d = Fr(s[0][i]), Fr(s[1][i]) - Fr(s[0][i])
        l, h = Fr(lo[i]), Fr(hi[i])
        if d == 0:
            if p < l or p > h:
                return False
            continue
        x, y = (l - p) / d, (h - p) / d
        t0, t1 = max(t0, min(x, y)), min(t1, max(x, y))
    return t0 <= t1
