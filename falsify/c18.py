from base import *
import interpolate
BOUND = 'meshes of at most 60 faces'


def cases(r, n):
    for _ in range(100 * n):
        a, b = mesh_case(r, big=True), mesh_case(r, big=True, variables=r.choice([VARS, ['Hi', 'T', 'Q', 'Hw'], ['Q']]))
        yield {'a': a, 'b': dict(b, pts=[[x * 1.5 + r.uniform(-.1, .1) for x in p] for p in b['pts']])}


def cen(f):
    return [sum(v) / 3 for v in zip(*[P(n) for n in f.Nodes])]


def test(c):
    s, t = build(c['a']), build(c['b'])
    sd, td = [dict(f.Data) for f in s.Faces], [dict(f.Data) for f in t.Faces]
    ts, tt = topo(s)[:5], topo(t)[:5]
    interpolate.face_centered_interpolation(s, t)
    need([dict(f.Data) for f in s.Faces] == sd, 'source data changed')
    need(topo(s)[:5] == ts and topo(t)[:5] == tt, 'a mesh changed')
    cs = [cen(f) for f in s.Faces]
    for f, d in zip(t.Faces, td):
        ds = [norm(sub(x, cen(f))) for x in cs]
        near = [g for g, x in zip(s.Faces, ds) if x <= min(ds) + 1e-12]
        need(any(f['T'] == g['T'] and f['Hw'] == g['Hw'] for g in near), 'face {} has T {} and Hw {} of no nearest face', f.GloId, f['T'], f['Hw'])
        need({k: v for k, v in f.Data.items() if k not in ('T', 'Hw')} == {k: v for k, v in d.items() if k not in ('T', 'Hw')}, 'other data of face {} changed', f.GloId)
