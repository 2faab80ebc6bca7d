from base import *
BOUND = 'meshes of at most 60 faces, at most 9 domains, at most 4 levels'


def cases(r, n):
    for name, s in shapes():
        for nz in (1, 2):
            for op in (['linear', 1], ['linear', 2], ['linear', 3], ['linear', 7], ['farhat', 1, []], ['farhat', 2, []], ['farhat', 4, []], ['farhat', 3, ['Z0']], ['hier', 2, []], ['hier', 3, []],
                       ['hier', 4, []], ['hier', 3, ['Z0']]):
                yield dict(mesh_case(r, s, nz), op=op)
    for s in concentric():
        for nz in (1, 2):
            for lev in (2, 3):
                yield dict(mesh_case(r, s, nz), op=['hier', lev, []])
    for _ in range(250 * n):
        c = mesh_case(r, big=True)
        if r.random() < .3:
            c['pts'] = [[float(round(x)) for x in p] if r.random() < .7 else p for p in c['pts']]
            if len({tuple(p) for p in c['pts']}) < len(c['pts']):
                continue
        fixed = r.sample(c['names'], r.randrange(len(c['names']) + 1)) if r.random() < .4 else []
        yield dict(c, op=r.choice([['linear', r.randint(1, 9)], ['farhat', r.randint(1, 8), fixed], ['hier', r.randint(1, 4), fixed]]), pre=r.choice([None, None, ['random', 3], ['mono']]))


def concentric():
    """Meshes some zones of which cannot be split: all their faces have one centre."""
    t = ([[0., 0., 0.], [3., 0., 0.], [0., 3., 0.]], [[0, 1, 2]])
    star = union(t, ([[2., 2., 0.], [-1., 2., 0.], [2., -1., 0.]], [[0, 1, 2]]), (0., 0., 0.))
    three = union(star, ([[1., 1., 3.], [0., 2., -3.], [2., 0., 0.]], [[0, 1, 2]]), (0., 0., 0.))
    return [star, three, union(star, strip(3)), union(three, star, (5., 5., 0.))]


def cut(left, right):
    sl, sr = set(ids(left)), set(ids(right))
    return len({id(e) for f in left for e in f.Edges if len(e.Faces) == 2 and {id(x) in sl for x in e.Faces} == {True, False} and all(id(x) in sl or id(x) in sr for x in e.Faces)})


def mid(f, a):
    p, q, w = [P(n)[a] for n in f.Nodes]
    return (p + q + w) / 3.0


def halves(fs, a):
    s = sorted(mid(f, a) for f in fs)
    b = s[len(s) // 2]
    return [f for f in fs if mid(f, a) < b], [f for f in fs if not mid(f, a) < b]


def options(fs):
    """All splits of the faces by an axis that cuts the fewest edges."""
    o = []
    for a in range(3):
        l, q = halves(fs, a)
        if l and q:
            o.append((cut(l, q), l, q))
    m = min((x[0] for x in o), default=None)
    return [x for x in o if x[0] == m]


def test(c):
    import c03
    g = build(c)
    if c.get('pre'):
        c03.apply(g, c['pre'])
    op = c['op']
    fixed = op[2] if len(op) > 2 else []
    fz = [z for z in g.Zones if z.Name in fixed]
    before = list(g.Zones)
    old = set(ids(before))
    free = [f for f in g.Faces if f.Zone.Name not in fixed]
    if op[0] == 'farhat' and not free:
        return
    c03.apply(g, op)
    new = [z for z in g.Zones if id(z) not in old]
    need(all(id(z) in set(ids(fz)) for z in g.Zones if id(z) in old), 'a zone of the earlier division is kept')
    sizes = [len(z.Faces) for z in new]
    if op[0] in ('linear', 'farhat'):
        need(len(new) == op[1], '{} new zones instead of {}', len(new), op[1])
        need(sum(sizes) == len(free), '{} faces of {} are in the new zones', sum(sizes), len(free))
        need(max(sizes) - min(sizes) <= 1, 'zone sizes {} differ by more than one', sizes)
        if op[0] == 'linear':
            need(ids([f for z in new for f in z.Faces]) == ids(g.Faces), 'zones are not contiguous runs in face order')
        return
    by = {z.Name: z for z in new}
    need(len(by) == len(new), 'zone names repeat')

    def under(p):
        return [f for z in new if z.Name.startswith(p) for f in z.Faces]
    stack = [('h', 1)]
    while stack:
        p, lev = stack.pop()
        fs = under(p)
        if p in by:
            need(not any(q != p and q.startswith(p) for q in by), 'zone {} and its halves both exist', p)
            need(lev >= op[1] or len(fs) < 2 or not options(fs), 'zone {} can be split but is kept whole', p)
            continue
        need(lev < op[1], 'zone {} is split beyond {} levels', p, op[1])
        l, q = under(p + 'l'), under(p + 'r')
        need(l and q and len(l) + len(q) == len(fs), 'zone {}: an empty or missing half', p)
        key = lambda x: sorted(ids(x))
        need(any(key(l) == key(o[1]) and key(q) == key(o[2]) for o in options(fs)), 'zone {} is not split by the median of an axis cutting the fewest edges', p)
        stack += [(p + 'l', lev + 1), (p + 'r', lev + 1)]
    need(sorted(ids(under('h'))) == sorted(ids(free)), 'the parts do not make up the unfixed faces')
