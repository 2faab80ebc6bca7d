from base import *
import ansys_to_crystal as A
BOUND = 'files of at most 5 zones, 8 nodes and 8 elements per zone, 10 variables'
A.is_silent = True
FV = ['X', 'Y', 'Z', 'Static temperature', 'SF1', 'SF2', 'SF3', 'Classical heat flux']
DV = ['X', 'Y', 'Z', 'Collection efficiency-Droplet']
AV = ['X', 'Y', 'Z', 'Static temperature']
REST = ['Pressure (N/m^2)', 'Mach number', 'Density', 'Y+', 'XX', 'Vorticity', 'Total temperature']


def num(r):
    return r.choice(['%.6e' % r.uniform(-1e3, 1e3), '%g' % r.uniform(-1, 1), str(r.randint(-9, 9)), '0.0', '-1.25E-03'])


def mk(r, zones, vs, shared=None):
    z = []
    for i, (nm, nn, ne) in enumerate(zones):
        nodes = shared[i] if shared else None
        z.append({'name': nm, 'nodes': [[(nodes[j][a] if nodes and a < 3 else num(r)) for a in range(len(vs))] for j in range(nn)],
                  'els': [[r.randint(1, nn) for _ in range(4)] for _ in range(ne)]})
    return {'title': r.random() < .8, 'vars': vs, 'zones': z, 'style': r.randrange(3)}


def names(r):
    return r.sample(['wall', 'wing', 'tail', 'ICE-1', 'slat 2', 'w', 'wall2', 'fuse 10'], r.randint(1, 5))


def long(v):
    return {'Static temperature': 'Static temperature (K)', 'SF1': 'SF1-Shear stress x', 'SF2': 'SF2 (Pa)', 'SF3': 'SF3', 'Classical heat flux': 'Classical heat flux (W/m^2)',
            'Collection efficiency-Droplet': 'Collection efficiency-Droplet'}.get(v, v)


def mixed(r, base):
    """The wanted variables in their order with others in between, X Y Z first."""
    v = base[:3]
    for w in base[3:]:
        v += r.sample(REST, r.randint(0, 2)) if r.random() < .5 else []
        v.append(long(w) if r.random() < .7 else w)
    v = [x for i, x in enumerate(v) if x not in v[:i]]
    return v + [x for x in r.sample(REST, r.randint(0, 2)) if x not in v]


def cases(r, n):
    for _ in range(80 * n):
        zn = [(nm, r.randint(1, 8), r.randint(0, 8)) for nm in names(r)]
        base = r.choice([FV, DV, AV])
        f = mk(r, zn, mixed(r, base))
        yield {'kind': 'zones', 'f': f, 'want': r.sample([z[0] for z in zn] + ['nothing'], r.randint(0, len(zn)))}
        yield {'kind': 'vars', 'f': f, 'base': base}
        sh = [[[num(r) for _ in range(3)] for _ in range(z[1])] for z in zn]
        ff, df, af = mk(r, zn, FV, sh), mk(r, zn, DV, sh), mk(r, zn, AV, sh)
        for g in (df, af):
            g['title'] = ff['title']
            g['style'] = ff['style']
            for a, b in zip(g['zones'], ff['zones']):
                a['els'] = b['els']
        yield {'kind': 'merge', 'f': ff, 'd': df, 'a': af}
        hv = ['X', 'Y', 'Z', 'Flux', 'Beta', 'TauX', 'TauY', 'TauZ', 'Ts', 'StatT']
        h = mk(r, zn, hv)
        t0 = r.uniform(240, 290)
        for z in h['zones']:
            for nd in z['nodes']:
                nd[8] = '%.4f' % r.uniform(150, 230)
                nd[9] = '%.4f' % r.uniform(250, 400)
                nd[3] = '%.5e' % r.uniform(-1e5, 1e5)
        yield {'kind': 'htc', 'f': h, 't': t0, 'v': r.uniform(5, 200), 'cp': r.uniform(900, 1100)}


def lines(f):
    q = ['"%s"' % v for v in f['vars']]
    sep = [', ', ',', ', '][f['style']]
    o = [('title', 'TITLE = "x"\n')] if f['title'] else []
    # the variables filter splits at commas and drops quotes; names carry no blanks around in this style
    o.append(('vars', 'VARIABLES=' + ','.join(q) + '\n'))
    for i, z in enumerate(f['zones']):
        h = ['ZONE T="%s", N=%d, E=%d, F=FEPOINT, ET=QUADRILATERAL\n', 'ZONE T="%s" N=%d E=%d ZONETYPE=FEQ\n', 'ZONE T="%s",  N=%d,E=%d\n'][f['style']]
        o.append((('zone', i), h % (z['name'], len(z['nodes']), len(z['els']))))
        o += [(('node', i, j), '  ' * (j % 2) + ' '.join(nd) + '\n') for j, nd in enumerate(z['nodes'])]
        o += [(('el', i, j), ' '.join(map(str, e)) + '\n') for j, e in enumerate(z['els'])]
    return o


def put(path, f):
    with open(path, 'w') as o:
        o.write(''.join(t for _, t in lines(f)))


def got(path):
    with open(path) as f:
        return f.read().splitlines(True)


def pick(v, base):
    for b in base:
        if (b == v) if len(b) == 1 else (b in v):
            return b
    return None


def test(c):
    k, f = c['kind'], c['f']
    with Scratch() as d:
        i, o = d + '/in.dat', d + '/out.dat'
        put(i, f)
        src = open(i).read()
        ls = lines(f)
        if k == 'zones':
            A.zones_to_extract = list(c['want'])
            try:
                A.filter_zones(i, o)
            finally:
                A.zones_to_extract = []
            want = [t for w, t in ls if w in ('title', 'vars') or f['zones'][w[1]]['name'] in c['want']]
            need(got(o) == want, 'filtered zones {}: got {} lines, want {}', c['want'], len(got(o)), len(want))
        elif k == 'vars':
            A.filter_variables(i, o, list(c['base']))
            g = got(o)
            need(len(g) == len(ls), '{} lines of {}', len(g), len(ls))
            m = [j for j, v in enumerate(f['vars']) if pick(v, c['base'])]
            for x, (w, t) in zip(g, ls):
                if w == 'vars':
                    need([s.strip().strip('"') for s in x.split('=')[1].strip().split(',')] == [last(f['vars'][j], c['base']) for j in m], 'variables line {!r}', x)
                elif w[0] == 'node':
                    need(x.split() == [f['zones'][w[1]]['nodes'][w[2]][j] for j in m], 'node line {!r} became {!r}', t, x)
                else:
                    need(x == t, 'line {!r} became {!r}', t, x)
        elif k == 'merge':
            put(d + '/d.dat', c['d'])
            put(d + '/a.dat', c['a'])
            A.merge_fensap_drop3d_adiabatic(i, d + '/d.dat', d + '/a.dat', o)
            g = got(o)
            need(len(g) == len(ls), '{} lines of {}', len(g), len(ls))
            for x, (w, t) in zip(g, ls):
                if w == 'vars':
                    need([s.strip().strip('"') for s in x.split('=')[1].strip().split(',')] == ['X', 'Y', 'Z', 'Flux', 'Beta', 'TauX', 'TauY', 'TauZ', 'Ts', 'StatT'], 'variables line {!r}', x)
                elif w[0] == 'node':
                    nf, nd, na = [q['zones'][w[1]]['nodes'][w[2]] for q in (f, c['d'], c['a'])]
                    need(x.split() == nf[:3] + [nf[7], nd[3], nf[4], nf[5], nf[6], nf[3], na[3]], 'node line {!r}', x)
                else:
                    need(x == t, 'line {!r} became {!r}', t, x)
        else:
            A.calculate_htc_recovery_factor(i, o, c['t'], c['v'], c['cp'])
            g = got(o)
            need(len(g) == len(ls), '{} lines of {}', len(g), len(ls))
            for x, (w, t) in zip(g, ls):
                if w == 'vars':
                    need([s.strip().strip('"') for s in x.split('=')[1].strip().split(',')] == ['X', 'Y', 'Z', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor'], 'variables line {!r}', x)
                elif w[0] == 'node':
                    nd = f['zones'][w[1]]['nodes'][w[2]]
                    y = x.split()
                    rf = 2 * c['cp'] * (float(nd[9]) - c['t']) / c['v'] ** 2
                    htc = -float(nd[3]) / (float(nd[8]) - float(nd[9]))
                    need(len(y) == 9 and y[:3] == nd[:3] and y[4:8] == nd[4:8], 'node line {!r} became {!r}', t, x)
                    need(same(float(y[8]), rf, 1e-7), 'recovery factor {} instead of {}', y[8], rf)
                    need(same(float(y[3]), htc, 1e-6), 'coefficient {} instead of {}', y[3], htc)
                else:
                    need(x == t, 'line {!r} became {!r}', t, x)
        need(open(i).read() == src, 'the input file is changed')


def last(v, base):
    v = v + '\n' if False else v
    for b in base:
        if (b == v) if len(b) == 1 else (b in v):
            v = b
    return v
