"""Small helpers for the demonstrations (copied beside each demo)."""
import contextlib, io, os, random, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path[:0] = [os.getcwd() + '/crysgsu', os.getcwd() + '/crysgsu/convert']
import geom, gsu


def dat(zones, pts, data=None, title='t', names=None):
    """zones: list of (name, [faces as point triples]); every zone lists the points its faces use."""
    vs = names or ['T', 'Hw', 'Hi', 'HTC', 'Beta']
    o = ['TITLE="%s"' % title, 'VARIABLES=' + ', '.join('"%s"' % v for v in ['X', 'Y', 'Z'] + vs)]
    k = 0
    for name, fs in zones:
        ns = sorted({p for f in fs for p in f})
        o += ['ZONE T="%s"' % name, 'NODES=%d' % len(ns), 'ELEMENTS=%d' % len(fs), 'DATAPACKING=BLOCK', 'ZONETYPE=FETRIANGLE',
              'VARLOCATION=([4-%d]=CELLCENTERED)' % (3 + len(vs))]
        for a in range(3):
            o.append(' '.join(repr(float(pts[p][a])) for p in ns))
        for j in range(len(vs)):
            o.append(' '.join(repr(float(100 * j + k + i) if data is None else data(j, k + i)) for i in range(len(fs))))
        for f in fs:
            o.append(' '.join(str(ns.index(p) + 1) for p in f))
        k += len(fs)
    return '\n'.join(o) + '\n'


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='demo_')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load(text, merge=True):
    with scratch() as d:
        with open(d + '/g.dat', 'w') as f:
            f.write(text)
        g = gsu.Grid()
        g.load(d + '/g.dat', merge)
    return g


def patch(n, m, bump=lambda i, j: 0.0):
    pts = [(i, j, bump(i, j)) for j in range(m + 1) for i in range(n + 1)]
    w = n + 1
    return pts, [t for j in range(m) for i in range(n) for t in ((j * w + i, j * w + i + 1, (j + 1) * w + i),
                                                                  (j * w + i + 1, (j + 1) * w + i + 1, (j + 1) * w + i))]


def check(ok, what):
    if not ok:
        print('FAIL:', what)
        sys.exit(1)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def partition(g):
    for f in g.Faces:
        check(sum(x is f for z in g.Zones for x in z.Faces) == 1, 'a face is not listed exactly once')
        check(any(f.Zone is z and any(x is f for x in z.Faces) for z in g.Zones), 'face and zone disagree')
    check(sum(len(z.Faces) for z in g.Zones) == len(g.Faces), 'zones list foreign faces')


def consistent(g):
    for name, l in (('node', g.Nodes), ('edge', g.Edges), ('face', g.Faces)):
        check(sorted(x.GloId for x in l) == list(range(len(l))), name + ' identifiers are not dense')
    pairs = set()
    for e in g.Edges:
        check(len(e.Nodes) == 2 and 1 <= len(e.Faces) <= 2, 'edge shape')
        k = frozenset(map(id, e.Nodes))
        check(len(k) == 2 and k not in pairs, 'one edge per node pair')
        pairs.add(k)
        for f in e.Faces:
            check(any(x is e for x in f.Edges), 'edge lists a face that does not list it')
        for n in e.Nodes:
            check(sum(x is e for x in n.Edges) == 1, 'node-edge link')
    for f in g.Faces:
        check(len(f.Nodes) == 3 and len(set(map(id, f.Nodes))) == 3 and len(f.Edges) == 3, 'face shape')
        for n in f.Nodes:
            check(sum(x is f for x in n.Faces) == 1, 'node-face link')
        for e in f.Edges:
            check(sum(x is f for x in e.Faces) == 1, 'edge-face link')
        for i in range(3):
            check(frozenset((id(f.Nodes[i]), id(f.Nodes[i - 1]))) in pairs, 'face without the edge of two of its nodes')
    ns, es, fs = [set(map(id, l)) for l in (g.Nodes, g.Edges, g.Faces)]
    for n in g.Nodes:
        check(all(id(e) in es and any(x is n for x in e.Nodes) for e in n.Edges), 'stale edge at a node')
        check(all(id(f) in fs and any(x is n for x in f.Nodes) for f in n.Faces), 'stale face at a node')


def zone_lists(g):
    for z in g.Zones:
        check([id(n) for n in z.Nodes] == [id(n) for n in g.Nodes if any(f.Zone is z for f in n.Faces)], 'zone node list')
        check([id(e) for e in z.Edges] == [id(e) for e in g.Edges if any(f.Zone is z for f in e.Faces)], 'zone edge list')
