from base import *
import c10, drops
BOUND = 'at most 60 steps, at most 40 air samples, at most 12 triangles'


def cases(r, n):
    for _ in range(150 * n):
        k = r.randint(2, 20)
        air = [[[r.uniform(-3, 3) for _ in range(3)], [r.uniform(-1, 1) * r.choice([.2, 1., 5.]) for _ in range(3)]] for _ in range(k)]
        if r.random() < .5:
            air += [[[a, b, c], [0., 0., 1.]] for a in (-3., 3.) for b in (-3., 3.) for c in (-3., 3.)]
        tr = [[[o + r.uniform(-1, 1) for o in q] for _ in range(3)] for q in [[r.uniform(-3, 3) for _ in range(3)] for _ in range(r.randint(1, 10))]]
        if r.random() < .4:
            tr.append([[-3., -3., 2.], [3., -3., 2.1], [0., 3., 2.]])
        yield {'air': air, 'tris': tr, 'p': [r.uniform(-2, 2) for _ in range(3)] if r.random() < .9 else [9., 0., 0.], 'v': r.choice([[r.uniform(-3, 3) for _ in range(3)]] * 8 + [list(r.choice(air)[1]), [1e-19, 0., 0.]]),
               'd': r.choice([1e-5, 1e-4, 1e-3]), 'dt': r.choice([1e-2, 5e-2, .2, 1e-17]), 'max': r.choice([1, 2, 5, 20, 60])}


def drag(v, a, d):
    w = sub(a, v)
    s = norm(w)
    if s == 0:
        return [0., 0., 0.]
    re = s * d / 1.736e-05
    cd = 24. / re * (1. + .166 * re ** .33) if re <= 350. else .178 * re ** .217
    return [x * .75 * (cd * 1.292 / (d * 1000.)) * s for x in w]


def test(c):
    V = lambda p: geom.Vect(*p)
    ds = [(V(p), V(v)) for p, v in c['air']]
    sp = drops.Space(ds, [p.coords_tuple() for p, _ in ds])
    tris = []
    for i, t in enumerate(c['tris']):
        x = geom.Triangle(*[V(p) for p in t])
        x.BackRef = 'face%d' % i
        tris.append(x)
    cl = geom.TrianglesCloud(list(tris))
    lo = [min(p[a] for p, _ in c['air']) for a in range(3)]
    hi = [max(p[a] for p, _ in c['air']) for a in range(3)]
    code, ref, tr = sp.fly(V(c['p']), V(c['v']), c['d'], c['dt'], cl, c['max'])
    pts = [[float(x) for x in p.Coords] for p in tr.Points]
    need(code in 'COSN' and len(code) == 1, 'diagnosis {!r}', code)
    need(pts[0] == c['p'], 'the path starts at {} instead of {}', pts[0], c['p'])
    need(len(pts) <= c['max'] + 1, '{} points with a limit of {}', len(pts), c['max'])
    inside = lambda p: all(l <= x <= h for l, x, h in zip(lo, p, hi))
    for p in pts[:-1]:
        need(inside(p), 'an earlier point is outside the box')

    def meets(a, b):
        v = [c10.truth(t, [a, b]) for t in c['tris']]
        return v
    sure = True
    for i in range(len(pts) - 1):
        v = meets(pts[i], pts[i + 1])
        if any(x is None or x[2] < 1e-6 for x in v):
            sure = False
            continue
        hit = [k for k, x in enumerate(v) if x[0]]
        if i < len(pts) - 2:
            need(not hit, 'an earlier segment meets a surface')
        elif code == 'C':
            need(ref in ['face%d' % k for k in hit], 'the face returned is not met by the last segment')
        else:
            need(not hit, 'the last segment meets a surface but the diagnosis is {}', code)
    if code == 'C':
        need(len(pts) > 1 and ref is not None, 'a crossing without a segment')
    else:
        need(ref is None, 'a face is returned with diagnosis {}', code)
    if code == 'O':
        need(not inside(pts[-1]), 'diagnosis outside, but the last point is inside')
    if code == 'S':
        need(inside(pts[-1]), 'diagnosis stopped outside the box')
    if code == 'N':
        need(len(pts) == c['max'] + 1, 'diagnosis step limit with {} points of {}', len(pts), c['max'])
    v = c['v']
    for i in range(len(pts) - 1 + (code == 'S')):
        p = pts[i]
        w = [x + y * c['dt'] for x, y in zip(p, v)]
        if i + 1 < len(pts):
            need(all(abs(x - y) <= 1e-9 * (1 + abs(y)) for x, y in zip(pts[i + 1], w)), 'step {} goes to {} instead of {}', i, pts[i + 1], w)
        else:
            need(norm(sub(w, p)) < 1e-14, 'diagnosis stopped, but the droplet moves by {}', norm(sub(w, p)))
            break
        dist = [norm(sub(q, p)) for q, _ in c['air']]
        near = [a for (q, a), x in zip(c['air'], dist) if x <= min(dist) + 1e-12]
        if len(near) != 1:
            return
        a = drag(v, near[0], c['d'])
        v = [x + y * c['dt'] for x, y in zip(v, a)]
        if norm(v) > 1e12:
            return
