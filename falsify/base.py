"""Concrete side of the checks: small meshes, an independent reading of the property texts, replay of failing inputs.

Everything here runs the real code of /repo on concrete inputs. It never decides that a property holds: it looks for
inputs on which it fails (replaying refuted obligations) and stands in, bounded, for functions outside the verifier."""
import contextlib, io, itertools, json, math, os, random, shutil, sys, tempfile
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [REPO + '/crysgsu', REPO + '/crysgsu/convert']
import warnings
warnings.simplefilter('ignore')
import geom  # noqa: E402
import gsu  # noqa: E402

VARS = ['T', 'Hw', 'Hi', 'HTC', 'Beta']


class Bad(Exception):
    """The property fails on this case."""


def need(c, msg, *a):
    if not c:
        raise Bad(msg.format(*a) if a else msg)


class Scratch:
    """A private directory removed afterwards."""
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vf_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


# ---------------------------------------------------------------- mesh shapes: (points, triangles)
def grid_patch(n, m, bump=None, step=1.0):
    pts = [[i * step, j * step, (bump(i, j) if bump else 0.0)] for j in range(m + 1) for i in range(n + 1)]
    w = n + 1
    tris = []
    for j in range(m):
        for i in range(n):
            a, b, c, d = j * w + i, j * w + i + 1, (j + 1) * w + i, (j + 1) * w + i + 1
            if (i + j) % 2:
                tris += [[a, b, d], [a, d, c]]
            else:
                tris += [[a, b, c], [b, d, c]]
    return pts, tris


def tetra():
    return ([[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.]], [[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]])


def octa():
    return ([[1., 0., 0.], [-1., 0., 0.], [0., 1., 0.], [0., -1., 0.], [0., 0., 1.], [0., 0., -1.]],
            [[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]])


def fan(k, closed):
    pts = [[0., 0., 0.5]] + [[math.cos(2 * math.pi * i / (k if closed else k + 2)),
                              math.sin(2 * math.pi * i / (k if closed else k + 2)), 0.] for i in range(k if closed else k + 1)]
    return pts, [[0, i + 1, ((i + 1) % k + 1) if closed else i + 2] for i in range(k)]


def strip(k):
    pts = [[0.5 * i, float(i % 2), 0.1 * (i % 3)] for i in range(k + 2)]
    return pts, [[i, i + 1, i + 2] if i % 2 == 0 else [i + 1, i, i + 2] for i in range(k)]


def union(a, b, shift=(10., 3., 1.)):
    n = len(a[0])
    return ([list(p) for p in a[0]] + [[x + s for x, s in zip(p, shift)] for p in b[0]], [list(t) for t in a[1]] + [[i + n for i in t] for t in b[1]])


def compact(m):
    used = sorted({i for t in m[1] for i in t})
    ix = {o: k for k, o in enumerate(used)}
    return [m[0][o] for o in used], [[ix[i] for i in t] for t in m[1]]


def shapes():
    """Enumerated small shapes, each named."""
    one = ([[0., 0., 0.], [1., 0., 0.], [0., 1., 0.25]], [[0, 1, 2]])
    yield 'one', one
    yield 'strip2', strip(2)
    yield 'strip3', strip(3)
    yield 'tetra', tetra()
    yield 'octa', octa()
    yield 'fan5', fan(5, True)
    yield 'fan4open', fan(4, False)
    yield 'patch22', grid_patch(2, 2, lambda i, j: 0.1 * i * j)
    yield 'flat32', grid_patch(3, 2)
    yield 'two', union(one, strip(3))
    yield 'three', union(union(one, tetra()), one, (-5., 2., 7.))
    yield 'bowtie', ([[0., 0., 0.], [1., 0., 0.], [1., 1., 0.2], [-1., 0., 0.], [-1., -1., 0.3]], [[0, 1, 2], [0, 3, 4]])
    yield 'samez', ([[1., 1., 1.], [2., 1., 1.], [1., 2., 1.], [2., 2., 1.]], [[0, 1, 2], [1, 3, 2]])


def rand_shape(r, big=False):
    k = r.randrange(6)
    if k == 0:
        m = strip(r.randint(1, 9))
    elif k == 1:
        m = fan(r.randint(3, 8), r.random() < .5)
    elif k == 2:
        n, q = r.randint(1, 5 if big else 3), r.randint(1, 5 if big else 3)
        a = r.choice([0., .3])
        m = grid_patch(n, q, lambda i, j: a * math.sin(i * 1.7 + j))
        if r.random() < .5:
            t = [x for x in m[1] if r.random() < .7]
            m = compact((m[0], t or m[1][:1]))
    elif k == 3:
        m = union(rand_shape(r), rand_shape(r))
    elif k == 4:
        m = r.choice([tetra, octa])()
    else:
        m = union(strip(r.randint(1, 4)), fan(r.randint(3, 6), True), (4., -2., 3.))
    pts = [[x + (r.uniform(-.05, .05) if a != 2 or any(abs(p[2]) > 0 for p in m[0]) else 0.) for a, x in enumerate(p)] for p in m[0]]
    tris = [list(t) for t in m[1]]
    r.shuffle(tris)
    tris = [t[j:] + t[:j] for t in tris for j in (r.randrange(3),)]
    return pts, tris


def mesh_case(r, shape=None, zones=None, variables=None, big=False):
    pts, tris = shape if shape else rand_shape(r, big)
    nz = zones if zones is not None else r.choice([1, 1, 2, 2, 3, 4])
    nz = max(1, min(nz, len(tris)))
    z = [r.randrange(nz) for _ in tris]
    for i, t in enumerate(r.sample(range(len(tris)), nz)):
        z[t] = i
    vs = variables if variables is not None else VARS
    vals = [[r.choice([r.uniform(-5, 5), r.uniform(0, 1e-3), float(r.randrange(4))]) for _ in vs] for _ in tris]
    names = ['Z%d' % i for i in range(nz)]
    r.shuffle(names)
    return {'pts': [list(p) for p in pts], 'tris': [list(t) for t in tris], 'zone': z, 'names': names, 'vars': vs, 'vals': vals, 'title': 'grid %d' % r.randrange(100)}


def zone_tables(c):
    """Per zone: (name, [point index], [face index]); faces of the file, in zone order."""
    out = []
    for zi, name in enumerate(c['names']):
        fs = [i for i, z in enumerate(c['zone']) if z == zi]
        ns = []
        for i in fs:
            for p in c['tris'][i]:
                if p not in ns:
                    ns.append(p)
        if c.get('order') == 'desc':
            ns.reverse()
        out.append((name, ns, fs))
    return out


def dat_text(c):
    vs = ['X', 'Y', 'Z'] + c['vars']
    o = []
    if c.get('title') is not None:
        o.append('TITLE="%s"' % c['title'])
    o.append('VARIABLES=' + ', '.join('"%s"' % v for v in vs))
    for name, ns, fs in zone_tables(c):
        o += ['ZONE T="%s"' % name, 'NODES=%d' % len(ns), 'ELEMENTS=%d' % len(fs), 'DATAPACKING=BLOCK', 'ZONETYPE=FETRIANGLE',
              'VARLOCATION=([4-%d]=CELLCENTERED)' % len(vs)]
        for a in range(3):
            o.append(' '.join(repr(c['pts'][p][a]) for p in ns))
        for j in range(len(c['vars'])):
            o.append(' '.join(repr(c['vals'][f][j]) for f in fs))
        for f in fs:
            o.append(' '.join(str(ns.index(p) + 1) for p in c['tris'][f]))
    return '\n'.join(o) + '\n'


def face_order(c):
    return [f for _, _, fs in zone_tables(c) for f in fs]


def load_case(c, merge=True):
    with Scratch() as d:
        p = d + '/g.dat'
        with open(p, 'w') as f:
            f.write(dat_text(c))
        g = gsu.Grid()
        g.load(p, merge)
    return g


def build(c):
    """The mesh of the case as a Grid: loaded by the code; rebuilt by hand when the loader does not deliver it."""
    try:
        g = load_case(c)
        if not problems(g) and shape_ok(g, c):
            return g
    except Exception:
        pass
    return by_hand(c)


def shape_ok(g, c):
    fo = face_order(c)
    if len(g.Faces) != len(fo) or [z.Name for z in g.Zones] != c['names'] or zone_list_problem(g):
        return False
    return all([tuple(n.P.Coords) for n in f.Nodes] == [tuple(c['pts'][p]) for p in c['tris'][i]] and
               dict(f.Data) == dict(zip(c['vars'], c['vals'][i])) for f, i in zip(g.Faces, fo))


def by_hand(c):
    g = gsu.Grid()
    g.Name = c.get('title') or ''
    key = {}
    nodes = {}
    for name, ns, fs in zone_tables(c):
        z = gsu.Zone(name)
        g.Zones.append(z)
        for p in ns:
            k = tuple(round(x, 10) for x in c['pts'][p])
            if k not in key:
                n = gsu.Node(geom.Vect(*c['pts'][p]))
                n.GloId = len(g.Nodes)
                g.Nodes.append(n)
                g.RoundedCoordsBag.add(n.RoundedCoords)
                key[k] = n
            nodes[p] = key[k]
        for i in fs:
            f = gsu.Face(list(c['vars']), list(c['vals'][i]))
            f.GloId = len(g.Faces)
            f.Zone = z
            z.Faces.append(f)
            g.Faces.append(f)
            for p in c['tris'][i]:
                f.Nodes.append(nodes[p])
                nodes[p].Faces.append(f)
    em = {}
    for f in g.Faces:
        a, b, d = f.Nodes
        for x, y in ((a, b), (a, d), (b, d)):
            k = frozenset((id(x), id(y)))
            if k not in em:
                e = gsu.Edge()
                e.GloId = len(g.Edges)
                g.Edges.append(e)
                e.Nodes += [x, y]
                x.Edges.append(e)
                y.Edges.append(e)
                em[k] = e
            em[k].Faces.append(f)
            f.Edges.append(em[k])
    for z in g.Zones:
        z.Nodes += [n for n in g.Nodes if any(f.Zone is z for f in n.Faces)]
        z.Edges += [e for e in g.Edges if any(f.Zone is z for f in e.Faces)]
    return g


# ---------------------------------------------------------------- oracles
def ids(l):
    return [id(x) for x in l]


def problems(g, dense=True, positions=True):
    """First violated link or identifier rule of a consistent triangle mesh, or None."""
    for name, l in (('node', g.Nodes), ('edge', g.Edges), ('face', g.Faces), ('zone', g.Zones)):
        if len(set(ids(l))) != len(l):
            return 'a %s is listed twice in the grid' % name
    sn, se, sf = set(ids(g.Nodes)), set(ids(g.Edges)), set(ids(g.Faces))
    for f in g.Faces:
        if len(f.Nodes) != 3 or len(set(ids(f.Nodes))) != 3:
            return 'face %s has %d nodes' % (f.GloId, len(set(ids(f.Nodes))))
        if len(f.Edges) != 3 or len(set(ids(f.Edges))) != 3:
            return 'face %s has %d edges' % (f.GloId, len(f.Edges))
        if not set(ids(f.Nodes)) <= sn or not set(ids(f.Edges)) <= se:
            return 'face %s refers to a node or edge outside the grid' % f.GloId
        for n in f.Nodes:
            if sum(x is f for x in n.Faces) != 1:
                return 'face %s is listed %d times by its node %s' % (f.GloId, sum(x is f for x in n.Faces), n.GloId)
        for e in f.Edges:
            if sum(x is f for x in e.Faces) != 1:
                return 'face %s is listed %d times by its edge %s' % (f.GloId, sum(x is f for x in e.Faces), e.GloId)
            if not set(ids(e.Nodes)) <= set(ids(f.Nodes)):
                return 'edge %s of face %s does not join nodes of the face' % (e.GloId, f.GloId)
    pairs = {}
    for e in g.Edges:
        if len(e.Nodes) != 2 or e.Nodes[0] is e.Nodes[1]:
            return 'edge %s does not join two nodes' % e.GloId
        if not set(ids(e.Nodes)) <= sn or not set(ids(e.Faces)) <= sf:
            return 'edge %s refers to a node or face outside the grid' % e.GloId
        k = frozenset(ids(e.Nodes))
        if k in pairs:
            return 'two edges join the same nodes'
        pairs[k] = e
        if not 1 <= len(e.Faces) <= 2 or len(set(ids(e.Faces))) != len(e.Faces):
            return 'edge %s has %d faces' % (e.GloId, len(e.Faces))
        for f in e.Faces:
            if not any(x is e for x in f.Edges):
                return 'edge %s lists a face that does not list it' % e.GloId
        for n in e.Nodes:
            if sum(x is e for x in n.Edges) != 1:
                return 'edge %s is listed %d times by its node %s' % (e.GloId, sum(x is e for x in n.Edges), n.GloId)
    for f in g.Faces:
        for a, b in itertools.combinations(f.Nodes, 2):
            e = pairs.get(frozenset((id(a), id(b))))
            if e is None or not any(x is e for x in f.Edges):
                return 'face %s lacks the edge of two of its nodes' % f.GloId
    for n in g.Nodes:
        for e in n.Edges:
            if id(e) not in se or not any(x is n for x in e.Nodes):
                return 'node %s lists an edge that does not join it' % n.GloId
        for f in n.Faces:
            if id(f) not in sf or not any(x is n for x in f.Nodes):
                return 'node %s lists a face that does not contain it' % n.GloId
    for name, l in (('node', g.Nodes), ('edge', g.Edges), ('face', g.Faces)):
        got = [x.GloId for x in l]
        if positions and got != list(range(len(l))):
            return '%s identifiers are not the positions: %s' % (name, got[:20])
        if dense and sorted(got) != list(range(len(l))):
            return '%s identifiers are not 0..%d: %s' % (name, len(l) - 1, sorted(got)[:20])
    return None


def partition_problem(g):
    for f in g.Faces:
        where = [z for z in g.Zones for x in z.Faces if x is f]
        if len(where) != 1:
            return 'face %s is listed %d times by the zones' % (f.GloId, len(where))
        if f.Zone is not where[0]:
            return 'face %s refers to another zone than the one listing it' % f.GloId
    if sum(len(z.Faces) for z in g.Zones) != len(g.Faces):
        return 'zones list faces that are not in the grid'
    return None


def zone_list_problem(g):
    for z in g.Zones:
        wn = [n for n in g.Nodes if any(f.Zone is z for f in n.Faces)]
        we = [e for e in g.Edges if any(f.Zone is z for f in e.Faces)]
        if ids(wn) != ids(z.Nodes):
            return 'zone %s lists nodes %s instead of %s' % (z.Name, [n.GloId for n in z.Nodes], [n.GloId for n in wn])
        if ids(we) != ids(z.Edges):
            return 'zone %s lists edges %s instead of %s' % (z.Name, [n.GloId for n in z.Edges], [n.GloId for n in we])
    return None


def topo(g):
    """Geometry, connectivity and data of a mesh, without its zones."""
    return ([tuple(n.P.Coords) for n in g.Nodes], [[n.GloId for n in f.Nodes] for f in g.Faces], [[e.GloId for e in f.Edges] for f in g.Faces],
            [[n.GloId for n in e.Nodes] for e in g.Edges], [[f.GloId for f in e.Faces] for e in g.Edges], [dict(f.Data) for f in g.Faces],
            [[e.GloId for e in n.Edges] for n in g.Nodes], [[f.GloId for f in n.Faces] for n in g.Nodes])


def same(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def vsame(a, b, tol=1e-9):
    return all(same(x, y, tol) for x, y in zip(a, b))


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def norm(a):
    return math.sqrt(dot(a, a))


def tri_area(a, b, c):
    return norm(cross(sub(b, a), sub(c, a))) / 2


def P(n):
    return list(n.P.Coords)


def interleave(*gens):
    """Cases of several generators in turn, so that every kind is reached early."""
    gens = list(gens)
    while gens:
        for g in list(gens):
            for _ in range(5):
                try:
                    yield next(g)
                except StopIteration:
                    gens.remove(g)
                    break
