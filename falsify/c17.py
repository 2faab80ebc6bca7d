from base import *
import gsu_converter as G
BOUND = 'files of at most 3 zones, 12 nodes and 12 elements per zone'


def cases(r, n):
    for _ in range(150 * n):
        zs = []
        for i in range(r.randint(1, 3)):
            nn = r.randint(4, 12)
            els = []
            for _ in range(r.randint(1, 12)):
                e = r.sample(range(1, nn + 1), 4)
                k = r.randrange(8)
                if k < 6:
                    a, b = list(itertools.combinations(range(4), 2))[k]
                    if r.random() < .7:
                        e[b] = e[a]
                els.append(e)
            zs.append(['zone %d' % i, [[round(r.uniform(-9, 9), 5) for _ in range(9)] for _ in range(nn)], els])
        yield {'zones': zs, 'rev': r.random() < .5}


def turn(t):
    k = t.index(min(t))
    return tuple(t[k:] + t[:k])


def test(c):
    with Scratch() as d:
        p = d + '/n.dat'
        with open(p, 'w') as f:
            f.write('TITLE = "t"\nVARIABLES = "X", "Y", "Z", "HTC", "Beta", "TauX", "TauY", "TauZ", "RecoveryFactor"\n')
            for nm, nodes, els in c['zones']:
                f.write('ZONE T="%s", N=%d, E=%d, F=FEPOINT\n' % (nm, len(nodes), len(els)))
                for nd in nodes:
                    f.write(' '.join(repr(x) for x in nd) + '\n')
                for e in els:
                    f.write(' '.join(map(str, e)) + '\n')
        g = G.Grid()
        g.LoadNodesData(p, c['rev'])
        need([z.Title for z in g.Zones] == [z[0] for z in c['zones']], 'zones {}', [z.Title for z in g.Zones])
        con = []
        for z, (nm, nodes, els) in zip(g.Zones, c['zones']):
            need([[n.Point.X, n.Point.Y, n.Point.Z, n.HTC, n.Beta, n.Tau.X, n.Tau.Y, n.Tau.Z, n.RecoveryFactor] for n in z.Nodes] == nodes, 'nodes of zone {}', nm)
            ix = {id(n): i + 1 for i, n in enumerate(z.Nodes)}
            fs = [[ix.get(id(n)) for n in f.Nodes] for f in z.Faces]
            need(all(len(t) == 3 and None not in t for t in fs), 'a face has corners outside its zone')
            con.append(fs)
            k = 0
            for e in els:
                e = e[::-1] if c['rev'] else e
                cy = [x for i, x in enumerate(e) if x not in e[:i]]
                need(k < len(fs), 'faces are missing for element {}', e)
                if len(cy) == 4:
                    need(k + 1 < len(fs), 'a triangle is missing for element {}', e)
                    two = {turn(fs[k]), turn(fs[k + 1])}
                    ok = [{turn([e[0], e[1], e[2]]), turn([e[0], e[2], e[3]])}, {turn([e[0], e[1], e[3]]), turn([e[1], e[2], e[3]])}]
                    need(two in ok, 'element {} becomes {} and {}', e, fs[k], fs[k + 1])
                    k += 2
                else:
                    if len(cy) == 3:
                        adj = any(e[i] == e[(i + 1) % 4] for i in range(4))
                        need(set(fs[k]) == set(cy) and (not adj or turn(fs[k]) == turn(cy)), 'element {} becomes {}', e, fs[k])
                    k += 1
            need(k == len(fs), '{} faces too many in zone {}', len(fs) - k, nm)
        g.ConvertDataFromNodesToFaces()
        vals = []
        for z, (nm, nodes, els), fs in zip(g.Zones, c['zones'], con):
            row = []
            for f, t in zip(z.Faces, fs):
                w = [sum(nodes[i - 1][k] for i in t) / 3 for k in range(3, 9)]
                v = [f.HTC, f.Beta, f.Tau.X, f.Tau.Y, f.Tau.Z, f.RecoveryFactor]
                need(vsame(v, w), 'face {} of zone {} carries {} instead of {}', t, nm, v, w)
                row.append(v)
            vals.append(row)
            need([[ix_(z, n) for n in f.Nodes] for f in z.Faces] == fs, 'averaging changed the faces')
        g.Export(d + '/e.dat')
        L = open(d + '/e.dat').read().split('\n')
        need(L[0].replace('"', '').replace(' ', '') == 'VARIABLES=X,Y,Z,HTC,Beta,TauX,TauY,TauZ,RecoveryFactor', 'variables line {!r}', L[0])
        i = 1
        fl = lambda s: [float(x) for x in s.split()]
        near = lambda a, b: len(a) == len(b) and all(abs(x - y) <= 6e-7 for x, y in zip(a, b))
        for (nm, nodes, els), fs, row in zip(c['zones'], con, vals):
            need(L[i:i + 6] == ['ZONE T="%s"' % nm, 'NODES=%d' % len(nodes), 'ELEMENTS=%d' % len(fs), 'DATAPACKING=BLOCK', 'ZONETYPE=FETRIANGLE', 'VARLOCATION=([4-9]=CELLCENTERED)'], 'zone header {}', L[i:i + 6])
            for a in range(3):
                need(near(fl(L[i + 6 + a]), [nd[a] for nd in nodes]), 'exported coordinates {} of zone {}', a, nm)
            for a in range(6):
                need(near(fl(L[i + 9 + a]), [v[a] for v in row]), 'exported quantity {} of zone {}', a, nm)
            need([[int(x) for x in s.split()] for s in L[i + 15:i + 15 + len(fs)]] == fs, 'exported connectivity of zone {}', nm)
            i += 15 + len(fs)
        need(L[i:] == [''], 'extra lines {}', L[i:i + 3])


def ix_(z, n):
    return [k + 1 for k, x in enumerate(z.Nodes) if x is n][0]
