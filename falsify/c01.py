from base import *
BOUND = 'files of at most 60 faces and 4 zones, merging on and off, near-coincident nodes, malformed headers'


def near(r, c):
    """Same points written differently in different zones: within rounding, or just outside."""
    c['jitter'] = [[r.choice([0., 0., 3e-12, -4e-12, 5e-10]) for _ in range(3)] for _ in range(8)]
    return c


def cases(r, n):
    for name, s in shapes():
        for nz in (1, 2, 3):
            for merge in (True, False):
                yield dict(mesh_case(r, s, nz), merge=merge)
    yield from interleave(good(r, n), refused(r, n))


def good(r, n):
    for _ in range(200 * n):
        c = mesh_case(r, big=True, variables=r.choice([VARS, [], ['T'], ['Hi', 'T', 'Q']]))
        c = dict(c, merge=r.random() < .7, order=r.choice(['asc', 'desc']), comment=r.random() < .3, twice=r.random() < .2)
        if r.random() < .4:
            near(r, c)
        if r.random() < .15:
            c['dup'] = True
        yield c


def refused(r, n):
    base = mesh_case(r, strip(4), 2)
    for k in range(len(BADHEAD) + 8):
        for z in (0, 1):
            yield dict(base, merge=True, bad=k, badz=z)
    for _ in range(6 * n):
        yield dict(mesh_case(r, union(rand_shape(r), ([[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [0., -1., 0.3]], [[0, 1, 2], [0, 1, 3], [1, 0, 4]]), (20., 0., 0.))),
                   merge=True, third=True)
    yield dict(mesh_case(r, ([[0., 0., 0.], [1., 0., 0.], [0., 1., 0.]], [[0, 1, 2], [1, 2, 0], [2, 1, 0]])), merge=True, third=True)


BADHEAD = [(0, 'NOTHING'), (0, 'T="Z"'), (1, 'NODE 4'), (1, 'ELEMENTS=2'), (2, 'NODES=2'), (2, 'junk'), (3, 'BLOCK'), (3, 'DATAPACKING=BLOK'), (4, 'FETRIANGLE'), (4, 'ZONETYPE=FETRIANGL'),
           (5, 'CELLCENTERED'), (5, 'VARLOCATION=([4-4]=CELLCENTERED'), (5, 'VARLOCATION=([1-8]=CELLCENTERED)')]


def jit(c, zi, p):
    j = c.get('jitter')
    q = c['pts'][p]
    if not j:
        return tuple(q)
    return tuple(x + d for x, d in zip(q, j[(zi * 3 + p) % len(j)]))


def text(c):
    """The file and what it says: zones [(name, [coords], [[local ids]], [values])]."""
    vs = ['X', 'Y', 'Z'] + c['vars']
    o = []
    if c.get('comment'):
        o.append('# some comment')
    o += ['TITLE="%s"' % c['title'], 'VARIABLES=' + ', '.join('"%s"' % v for v in vs)]
    said = []
    for zi, (name, ns, fs) in enumerate(zone_tables(c)):
        pts = [jit(c, zi, p) for p in ns]
        con = [[ns.index(p) for p in c['tris'][f]] for f in fs]
        if c.get('dup') and len(fs) > 1:
            # the last face of the zone uses its own copies of its points
            con[-1] = [len(pts) + i for i in range(3)]
            pts = pts + [pts[ns.index(p)] for p in c['tris'][fs[-1]]]
            if len(fs) > 2:
                con[-1][0] = ns.index(c['tris'][fs[-1]][0])
        h = ['ZONE T="%s"' % name, 'NODES=%d' % len(pts), 'ELEMENTS=%d' % len(fs), 'DATAPACKING=BLOCK', 'ZONETYPE=FETRIANGLE', 'VARLOCATION=([4-%d]=CELLCENTERED)' % len(vs)]
        if c.get('bad') is not None and zi == c['badz']:
            k = c['bad']
            if k < 5:
                h[k + 1] = ['ELEMENTS=%d' % len(pts), 'FACES=%d' % len(fs), 'DATAPACKING=POINT', 'ZONETYPE=FEQUAD', 'VARLOCATION=([4-%d]=CELLCENTERED)' % (len(vs) + 1)][k]
            elif k == 5:
                h = h[:5] + ['VARLOCATION=([4-%d]=NODAL)' % len(vs)]
            elif k == 6:
                h[1], h[2] = h[2], h[1]
            elif k == 7:
                h[0] = 'ZOME "%s"' % name
            else:
                i, x = BADHEAD[k - 8]
                h[i] = x
        o += h
        if c.get('comment') and False:
            o.append('# x')
        for a in range(3):
            o.append(' '.join(repr(p[a]) for p in pts))
        for j in range(len(c['vars'])):
            o.append(' '.join(repr(c['vals'][f][j]) for f in fs))
        o += [' '.join(str(i + 1) for i in t) for t in con]
        said.append((name, pts, con, [dict(zip(c['vars'], c['vals'][f])) for f in fs]))
    return '\n'.join(o) + '\n', said


def rnd(p):
    return tuple(round(x, 10) + 0.0 for x in p)


def test(c):
    txt, said = text(c)
    # which node each listed point is
    keys, cnt = {}, 0
    ident = []
    for zi, (_, pts, con, _) in enumerate(said):
        row = []
        for p in pts:
            k = rnd(p) if c['merge'] else ('own', cnt)
            if k not in keys:
                keys[k] = cnt
                cnt += 1
            row.append(keys[k])
        ident.append(row)
    faces = [[ident[zi][i] for i in t] for zi, (_, _, con, _) in enumerate(said) for t in con]
    per = {}
    for i, t in enumerate(faces):
        if len(set(t)) != 3:
            return
        for a, b in itertools.combinations(t, 2):
            per.setdefault(frozenset((a, b)), []).append(i)
    third = any(len(v) > 2 for v in per.values())
    with Scratch() as d:
        p = d + '/g.dat'
        with open(p, 'w') as f:
            f.write(txt)
        g = gsu.Grid()
        try:
            g.load(p) if c['merge'] and len(c['pts']) % 2 else g.load(p, c['merge'])
            if c.get('twice'):
                g.load(p, c['merge'])
        except Exception as e:
            if third or c.get('bad') is not None:
                return
            raise Bad('a well-formed file is rejected: %r' % e)
    need(not third, 'a file putting three faces on an edge is accepted')
    need(c.get('bad') is None, 'a malformed zone header (kind {}) is accepted', c.get('bad'))
    m = problems(g)
    need(m is None, '{}', m)
    need(g.Name == c['title'], 'title {!r} instead of {!r}', g.Name, c['title'])
    need([z.Name for z in g.Zones] == [s[0] for s in said], 'zone names {}', [z.Name for z in g.Zones])
    need(len(g.Nodes) == cnt, '{} nodes instead of {}', len(g.Nodes), cnt)
    need(len(g.Faces) == len(faces), '{} faces instead of {}', len(g.Faces), len(faces))
    k = 0
    for zi, (z, (name, pts, con, dat)) in enumerate(zip(g.Zones, said)):
        need(len(z.Faces) == len(con), 'zone {} lists {} faces instead of {}', name, len(z.Faces), len(con))
        for f, t, dv in zip(z.Faces, con, dat):
            need(f is g.Faces[k], 'faces are not in file order')
            need(f.Zone is z, 'face refers to another zone')
            need([n.GloId for n in f.Nodes] == [ident[zi][i] for i in t], 'face {} has nodes {} instead of {}', k, [n.GloId for n in f.Nodes], [ident[zi][i] for i in t])
            for n, i in zip(f.Nodes, t):
                need(rnd(n.P.Coords) == rnd(pts[i]), 'node {} is at {} instead of {}', n.GloId, tuple(n.P.Coords), pts[i])
            need(dict(f.Data) == dv, 'face {} carries {} instead of {}', k, dict(f.Data), dv)
            k += 1
    need(len(g.Edges) == len(per), '{} edges for {} connected node pairs', len(g.Edges), len(per))
    for e in g.Edges:
        want = per.get(frozenset(n.GloId for n in e.Nodes))
        need(want is not None, 'edge {} joins nodes no face connects', e.GloId)
        need(sorted(f.GloId for f in e.Faces) == want, 'edge {} lists faces {} instead of {}', e.GloId, [f.GloId for f in e.Faces], want)
