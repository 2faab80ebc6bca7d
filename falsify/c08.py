from base import *
import merge as merge_mod
BOUND = 'meshes of at most 40 faces, at most 6 calculation files per timestamp, 3 timestamps'


def cases(r, n):
    return interleave(imports(r, n), merges(r, n))


def imports(r, n):
    for _ in range(120 * n):
        c = mesh_case(r)
        yield dict(c, kind='load', files=[table(r, len(c['tris']), r.choice([['T', 'Hw', 'Hi'], ['T'], ['Hi', 'T', 'Hw', 'Q']]), .5) for _ in range(r.randint(1, 3))])


def merges(r, n):
    for _ in range(40 * n):
        c = mesh_case(r)
        k = r.randint(1, 4)
        own = [r.randrange(k) for _ in c['tris']]
        ts = r.sample(['000010000000', '000020000000', '000000000000', '123456789012', '000010000001'], r.randint(1, 3))
        files = {}
        for t in ts:
            for p in range(k):
                if r.random() < .85:
                    files['g_%05d_%s.txt' % (p, t)] = [['T', 'Hw', 'Hi'], [[i, [r.uniform(0, 9) for _ in range(3)]] for i in range(len(own)) if own[i] == p]]
        noise = r.sample(['g_0000x_%s.txt' % ts[0], 'gg_00000_%s.txt' % ts[0], 'g_00000_%s.cry' % ts[0], 'g_00000_00001000000x.txt', 'readme.md', 'g_.txt'], r.randint(0, 4))
        rows = r.randint(1, 4)
        csv = [[[float(i)] + [float(r.randint(-9, 99)) for _ in range(9)] for i in range(rows)] for _ in range(r.randint(0, 3))]
        yield dict(c, kind='merge', files=files, noise=noise, csv=csv, stamp=r.random() < .4)


def table(r, nf, vs, part):
    return [vs, [[i, [r.uniform(-9, 9) for _ in vs]] for i in r.sample(range(nf), r.randint(0, nf) if r.random() < .7 else nf)]]


def write(path, t):
    with open(path, 'w') as f:
        f.write('VARIABLES="GloId", ' + ', '.join('"%s"' % v for v in t[0]) + '\n')
        for i, vs in t[1]:
            f.write(' '.join([str(i)] + [repr(v) for v in vs]) + '\n')


def expect(data, t):
    for i, vs in t[1]:
        data[i] = dict(zip(t[0], vs))


def test(c):
    with Scratch() as d:
        if c['kind'] == 'load':
            g = build(c)
            data = [dict(f.Data) for f in g.Faces]
            before = topo(g)
            part = [(z.Name, ids(z.Faces)) for z in g.Zones]
            for t in c['files']:
                write(d + '/x.txt', t)
                g.load_faces_calc_data(d + '/x.txt')
                expect(data, t)
                for f, w in zip(g.Faces, data):
                    need(dict(f.Data) == w, 'face {} carries {} instead of {}', f.GloId, dict(f.Data), w)
                a = topo(g)
                need(a[:5] == before[:5] and a[6:] == before[6:] and part == [(z.Name, ids(z.Faces)) for z in g.Zones], 'the import changed more than face data')
            return
        os.mkdir(d + '/in')
        os.mkdir(d + '/src')
        gf = d + '/in/g' + ('_000000000077' if c['stamp'] else '') + '.dat'
        with open(gf, 'w') as f:
            f.write(dat_text(c))
        by = {}
        for nm, t in c['files'].items():
            write(d + '/src/' + nm, t)
            by.setdefault(nm[-16:-4], []).append(t)
        for nm in c['noise']:
            with open(d + '/src/' + nm, 'w') as f:
                f.write('VARIABLES="GloId", "T"\n0 777.0\n')
        for i, rows in enumerate(c['csv']):
            with open(d + '/src/p%d.csv' % i, 'w') as f:
                f.write('time;M_imp;M_es;M_stall;M_ini_water;M_water;M_ini_ice;M_ice;Q_conv;Q_es\n')
                for row in rows:
                    f.write(';'.join(repr(x) for x in row) + '\n')
        merge_mod.merge(gf, d + '/src', d + '/out/res')
        got = sorted(x for x in os.listdir(d + '/out/res') if x != 'report.txt')
        need(got == sorted('g_r_%s.dat' % t for t in by), 'merged meshes {} for timestamps {}', got, sorted(by))
        want0 = load_ref(c)
        for t, tabs in by.items():
            data = [dict(x) for _, x in want0]
            for tab in tabs:
                expect(data, tab)
            faces = read_dat(d + '/out/res/g_r_%s.dat' % t)
            need(len(faces) == len(data), 'merged mesh {}: {} faces instead of {}', t, len(faces), len(data))
            for i, ((p, x), (wp, _)) in enumerate(zip(faces, want0)):
                need(p == wp, 'merged mesh {}: corners of face {}', t, i)
                need(all(k in x and x[k] == v for k, v in data[i].items() if k in x) and all(k in x for k in data[0]), 'merged mesh {}: face {} carries {} instead of {}', t, i, x, data[i])
        if c['csv']:
            f = d + '/out/g.csv'
            need(os.path.exists(f), 'no totals table')
            rows = [[float(x) for x in l.split(';')] for l in list(open(f))[1:]]
            want = [[r0[0]] + [sum(t[i][j] for t in c['csv']) for j in range(1, 10)] for i, r0 in enumerate(c['csv'][0])]
            need(len(rows) == len(want) and all(vsame(a, b) and len(a) == len(b) for a, b in zip(rows, want)), 'totals {} instead of {}', rows, want)
        else:
            need(not os.path.exists(d + '/out/g.csv'), 'totals without tables')


def load_ref(c):
    return [([tuple(c['pts'][p]) for p in c['tris'][i]], dict(zip(c['vars'], c['vals'][i]))) for i in face_order(c)]


def read_dat(path):
    """Independent reader of stored meshes: [(corner coordinates, values)] in file order."""
    L = open(path).read().split('\n')
    out, vs, i = [], None, 0
    while i < len(L):
        s = L[i]
        if s.startswith('VARIABLES='):
            vs = s.split('=')[1].replace('"', '').replace(',', ' ').split()
        elif s.startswith('ZONE'):
            n, m = int(L[i + 1].split('=')[1]), int(L[i + 2].split('=')[1])
            xyz = [[float(x) for x in L[i + 6 + a].split()] for a in range(3)]
            dat = [[float(x) for x in L[i + 9 + a].split()] for a in range(len(vs) - 3)]
            i += 6 + len(vs)
            for k in range(m):
                out.append(([tuple(xyz[a][int(x) - 1] for a in range(3)) for x in L[i + k].split()], {v: dat[a][k] for a, v in enumerate(vs[3:])}))
            i += m - 1
        i += 1
    return out
