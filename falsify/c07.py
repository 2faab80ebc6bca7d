from base import *
import ast
BOUND = 'meshes of at most 60 faces and 7 zones (some empty)'
DATA = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor']


def borders_fn():
    """get_mpi_borders of crys.py, taken from its source (importing the module would start MPI)."""
    src = open(REPO + '/crysgsu/crys.py').read()
    keep = [n for n in ast.parse(src).body if isinstance(n, ast.FunctionDef)]
    ns = {'gsu': gsu, 'ZonesAdjacencyMatrix': gsu.ZonesAdjacencyMatrix}
    try:
        import numpy
        ns['np'] = numpy
    except ImportError:
        pass
    exec(compile(ast.Module(keep, []), REPO + '/crysgsu/crys.py', 'exec'), ns)
    return ns['get_mpi_borders']


def cases(r, n):
    for name, s in shapes():
        for nz in (1, 2, 3, 4):
            yield dict(mesh_case(r, s, nz, DATA[:nz + 2]), op=None)
    for _ in range(200 * n):
        c = mesh_case(r, big=True, variables=r.choice([DATA, DATA[:5], DATA[::-1]]))
        yield dict(c, op=r.choice([None, ['linear', r.randint(1, 8)], ['random', r.randint(1, 5)], ['farhat', r.randint(1, 4), []], ['hier', 3, []]]), sf=r.choice(['.cry', '.txt']))


def parse(path):
    L = [x.rstrip('\n') for x in open(path)]
    d = {'head': {}}
    i = 0
    while L[i] != 'NODES COORDINATES:':
        k, v = L[i].split('=', 1)
        d['head'][k] = v
        i += 1
    i += 1
    nums = lambda s: [float(x) for x in s.split()]
    d['xyz'] = [nums(L[i + k]) for k in range(3)]
    i += 3
    need(L[i] == 'FACES DATA:', 'line {!r} instead of FACES DATA:', L[i])
    d['glo'] = [int(x) for x in L[i + 1].split()]
    vs = [v.strip().strip('"') for v in d['head']['VARIABLES'].split(',')]
    d['data'] = {v: nums(L[i + 2 + k]) for k, v in enumerate(vs[4:])}
    i += 2 + len(vs) - 4
    for key, title, cnt in (('fn', 'FACE-NODE CONNECTIVITY LIST:', 'FACES'), ('fe', 'FACE-EDGE CONNECTIVITY LIST:', 'FACES'), ('en', 'EDGE-NODE CONNECTIVITY LIST:', 'EDGES')):
        need(L[i] == title, 'line {!r} instead of {!r}', L[i], title)
        k = int(d['head'][cnt])
        d[key] = [[int(x) for x in L[i + 1 + j].split()] for j in range(k)]
        i += 1 + k
    need(L[i].startswith('MPI-BORDERS='), 'line {!r} instead of MPI-BORDERS', L[i])
    d['nb'] = int(L[i].split('=')[1])
    d['b'] = {}
    for x in L[i + 1:]:
        k, v = x.split(']')
        z = int(k.strip('['))
        need(z not in d['b'], 'border with zone {} listed twice', z)
        d['b'][z] = [int(y) for y in v.split()]
    return d


def test(c):
    import c03
    g = build(c)
    if c['op']:
        c03.apply(g, c['op'])
        if zone_list_problem(g) or partition_problem(g):
            return
    zs = g.Zones
    edges = lambda a, b: [e for e in g.Edges if len(e.Faces) == 2 and {id(f.Zone) for f in e.Faces} == {id(zs[a]), id(zs[b])}]
    before = (topo(g), [(ids(z.Nodes), ids(z.Edges), ids(z.Faces)) for z in zs])
    with Scratch() as d:
        sf = c.get('sf', '.cry')
        g.store_mpi(d + '/base', '000000000000', sf)
        need(sorted(os.listdir(d)) == ['base_%05d_000000000000%s' % (i, sf) for i in range(len(zs))], 'files {}', sorted(os.listdir(d)))
        need(before == (topo(g), [(ids(z.Nodes), ids(z.Edges), ids(z.Faces)) for z in zs]), 'storing changed the mesh')
        fs = [parse(d + '/base_%05d_000000000000%s' % (i, sf)) for i in range(len(zs))]
    shared = {}
    for i, (z, f) in enumerate(zip(zs, fs)):
        h = f['head']
        cross = [e for e in g.Edges if len(e.Faces) == 2 and e.Faces[0].Zone is not e.Faces[1].Zone and any(x.Zone is z for x in e.Faces)]
        want = {'MPI': i, 'NODES': len(z.Nodes), 'EDGES': len(z.Edges), 'FACES': len(z.Faces), 'CROSS-EDGES': len(cross)}
        for k, v in want.items():
            need(h.get(k) == str(v), 'file {}: {}={} instead of {}', i, k, h.get(k), v)
        need(h['TITLE'] == '"%s"' % z.Name, 'file {}: title {}', i, h['TITLE'])
        need(f['xyz'] == [[float(n.P.Coords[a]) for n in z.Nodes] for a in range(3)], 'file {}: node coordinates', i)
        need(f['glo'] == [x.GloId for x in z.Faces], 'file {}: global face identifiers {}', i, f['glo'])
        need(list(f['data']) == DATA, 'file {}: variables {}', i, list(f['data']))
        for k, v in f['data'].items():
            need(v == [float(x.Data.get(k, 0.0)) for x in z.Faces], 'file {}: values of {}', i, k)
        need([[id(z.Nodes[k]) for k in t] for t in f['fn']] == [ids(x.Nodes) for x in z.Faces], 'file {}: face-node connectivity', i)
        need([[id(z.Edges[k]) for k in t] for t in f['fe']] == [ids(x.Edges) for x in z.Faces], 'file {}: face-edge connectivity', i)
        need([[id(z.Nodes[k]) for k in t] for t in f['en']] == [ids(x.Nodes) for x in z.Edges], 'file {}: edge-node connectivity', i)
        nb = {j for j in range(len(zs)) if j != i and edges(i, j)}
        need(set(f['b']) == nb and f['nb'] == len(nb), 'file {}: borders with {} ({} declared) instead of {}', i, sorted(f['b']), f['nb'], sorted(nb))
        for j, es in f['b'].items():
            got = [z.Edges[k] for k in es]
            need(sorted(ids(got)) == sorted(ids(edges(i, j))), 'file {}: border with {} lists other edges', i, j)
            shared[i, j] = ids(got)
    for i, j in shared:
        need(shared[i, j] == shared[j, i], 'zones {} and {} list their border in different orders', i, j)
    gb = borders_fn()
    zam = gsu.ZonesAdjacencyMatrix(g.Edges, zs)
    for i, z in enumerate(zs):
        m = {k: list(v) for k, v in gb(i, zam, z, g).items()}
        need(m == fs[i]['b'], 'in-memory borders of {}: {} instead of {}', i, m, fs[i]['b'])
