from base import *
from fractions import Fraction as Fr
BOUND = 'triangles and segments with coordinates of magnitude at most 100, at margin at least 1e-6 from the boundary, and exactly representable boundary cases'


def q(r):
    return [float(r.randint(-4, 4)) for _ in range(3)]


def uq(r, k=1.0):
    return [r.uniform(-2, 2) * k for _ in range(3)]


def cases(r, n):
    flat = [[0., 0., 0.], [1., 0., 0.], [0., 1., 0.]]
    for x, y in ((0., 0.), (1., 0.), (0., 1.), (.5, 0.), (0., .5), (.5, .5), (.25, .25), (.5, .75), (-.25, .5), (.5, -.25), (1., 1.), (2., -1.), (-1., 1.), (-1., 2.)):
        for a, b in ((1., -1.), (1., 0.), (0., 1.), (0., -1.), (2., 1.), (-1., -2.), (4., -4.), (1., -.5)):
            yield {'t': flat, 's': [[x, y, a], [x, y, b]], 'exact': True}
            yield {'t': flat, 's': [[x - 1, y, a], [x + 1, y, b]] if a + b == 0 else [[x, y, a], [x, y, b]], 'exact': True}
    for _ in range(400 * n):
        k = r.random()
        t = [q(r) for _ in range(3)] if k < .4 else [uq(r, r.choice([1., 1., 10., .05])) for _ in range(3)]
        if r.random() < .6:
            w = [r.uniform(-.2, 1) for _ in range(2)]
            w.append(1 - sum(w))
            p = [sum(wi * v[a] for wi, v in zip(w, t)) for a in range(3)]
            dr = uq(r)
            u, v = r.uniform(-1.5, .5), r.uniform(-.5, 1.5)
            s = [[x + u * y for x, y in zip(p, dr)], [x + v * y for x, y in zip(p, dr)]]
        else:
            s = [q(r) if k < .4 else uq(r), q(r) if k < .4 else uq(r)]
        yield {'t': t, 's': s}


def det3(a, b, c):
    return dot(a, cross(b, c))


def truth(t, s):
    """None when degenerate, else (meets, point, margin), in exact arithmetic."""
    a, b, c = [[Fr(x) for x in p] for p in t]
    p, w = [[Fr(x) for x in x_] for x_ in s]
    ba, ca, pq, pa = sub(b, a), sub(c, a), sub(p, w), sub(p, a)
    d = det3(ba, ca, pq)
    if abs(d) < Fr(1, 10 ** 8) * 1:
        return None
    al, be, ph = det3(pa, ca, pq) / d, det3(ba, pa, pq) / d, det3(ba, ca, pa) / d
    m = [al, be, 1 - al - be, ph, 1 - ph]
    return min(m) >= 0, [float(x - ph * y) for x, y in zip(p, pq)], float(min(abs(x) for x in m))


def ask(t, s):
    T = geom.Triangle(*[geom.Vect(*p) for p in t])
    S = geom.Segment(*[geom.Vect(*p) for p in s])
    return T.intersection_with_segment(S)


def test(c):
    v = truth(c['t'], c['s'])
    if v is None or v[2] < 1e-6 and not c.get('exact'):
        return
    t, s = c['t'], c['s']
    turns = [(t, s), (t, s[::-1])]
    if not c.get('exact'):
        turns += [([t[i] for i in o], s) for o in ((1, 2, 0), (2, 0, 1), (1, 0, 2), (0, 2, 1), (2, 1, 0))]
    for tt, ss in turns:
        got = ask(tt, ss)
        need(isinstance(got, list) and len(got) == (1 if v[0] else 0), '{} points instead of {} for triangle {} and segment {}', len(got), int(v[0]), tt, ss)
        if v[0]:
            x = list(got[0].Coords)
            need(all(abs(a - b) <= 1e-7 * max(1, abs(b)) for a, b in zip(x, v[1])), 'point {} instead of {}', x, v[1])
