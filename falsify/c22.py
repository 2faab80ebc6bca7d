from base import *
import remeshing
import split as split_mod
BOUND = 'configurations with any subset of the options and a few values each, meshes of at most 40 faces'
OPT = {'export_stl': ('export_stl', False), 'verbose': ('remesh_verbose', False), 'nsteps_min': ('remesh_nsteps_min', 0), 'nsteps_max': ('remesh_nsteps_max', 10),
       'nsteps_hi_side_fact': ('remesh_nsteps_hi_side_fact', .1), 'nsteps_ignore_part': ('remesh_nsteps_ignore_part', .05), 'nsmooth_steps': ('remesh_nsmooth_steps', 0),
       'nsmooth_s': ('remesh_nsmooth_s', 10.), 'nsmooth_k': ('remesh_nsmooth_k', .15), 'hsmooth_steps': ('remesh_hsmooth_steps', 0), 'hsmooth_alfa': ('remesh_hsmooth_alfa', .2),
       'hsmooth_beta': ('remesh_hsmooth_beta', .1), 'rest_volume_redistr': ('remesh_rest_volume_redistr', True), 'nss_steps': ('remesh_nss_steps', 0), 'nss_epsilon': ('remesh_nss_epsilon', .01),
       'nss_st': ('remesh_nss_st', .2), 'nss_fix_nodes': ('remesh_nss_fix_nodes', True), 'pseudo_2d_oz': ('remesh_pseudo_2d_oz', False)}


def value(r, d):
    return (not d if r.random() < .7 else d) if isinstance(d, bool) else r.choice([0, 1, 7, 42, .5, r.uniform(0, 3), d])


def cases(r, n):
    yield {'kind': 'opt', 'data': {}}
    for a, (k, d) in OPT.items():
        yield {'kind': 'opt', 'data': {k: (not d) if isinstance(d, bool) else 77}}
        yield {'kind': 'opt', 'data': {q: (not e) if isinstance(e, bool) else 55 for q, e in OPT.values() if q != k}}
    for _ in range(80 * n):
        yield {'kind': 'opt', 'data': {k: value(r, d) for k, d in OPT.values() if r.random() < .5}, 'noise': r.random() < .5, 'v': r.random() < .2}
        yield {'kind': 'split', 'data': {k: v for k, v in {'split_strategy': r.choice(['n4', 'h3', 'n1', 'h0']), 'recovery_factor': r.choice([1., .5, 0., r.uniform(0, 2)]),
                                                           'heating_system': {'elements': [{'zone': z, 'w': 1} for z in r.sample(['a', 'b', 'c d'], r.randint(0, 3))]}}.items() if r.random() < .6}}
        lo = r.randint(0, 12)
        c = mesh_case(r)
        yield dict(c, kind='nsteps', min=lo, max=lo + r.choice([0, 1, 3, 10, -1, -5]), fact=r.choice([.01, .1, 1.]), part=r.choice([0., .05, .3, .9]), hi=[r.choice([0., r.uniform(0, .3), r.uniform(0, 5)]) for _ in range(9)])


def test(c):
    k = c['kind']
    with Scratch() as d:
        p = d + '/c.json'
        if k != 'nsteps':
            data = dict(c['data'])
            if c.get('noise'):
                data.update({'remesh_other': 3, 'split_strategy': 'n2', 'nsteps_max': 99})
            with open(p, 'w') as f:
                json.dump(data, f)
        if k == 'opt':
            t = remeshing.TongRemesher('m.dat', p, '.', verbose=c.get('v', False))
            for a, (q, df) in OPT.items():
                w = c['data'].get(q, df)
                if a == 'verbose' and c.get('v'):
                    w = True
                g = getattr(t, a)
                need(type(g) is type(w) and g == w, 'option {} is {!r} instead of {!r}', q, g, w)
            t = remeshing.TongRemesher('m.dat', None, '.')
            for a, (q, df) in OPT.items():
                need(getattr(t, a) == df and type(getattr(t, a)) is type(df), 'default of {} is {!r} instead of {!r}', q, getattr(t, a), df)
        elif k == 'split':
            x = c['data']
            need(split_mod.extract_strategy_from_json(p) == x.get('split_strategy', 'n1'), 'strategy')
            need(split_mod.extract_fixed_zones_from_json(p) == [e['zone'] for e in x.get('heating_system', {}).get('elements', [])], 'fixed zones')
            need(split_mod.extract_recovery_factor_from_json(p) == x.get('recovery_factor', 1.0), 'recovery factor')
        else:
            g = build(c)
            if any(tri_area(*[P(n) for n in f.Nodes]) < 1e-3 for f in g.Faces):
                return
            for i, f in enumerate(g.Faces):
                f['Hi'] = c['hi'][i % len(c['hi'])]
            t = remeshing.TongRemesher('m.dat', None, '.')
            t.grid = g
            t.nsteps_min, t.nsteps_max, t.nsteps_hi_side_fact, t.nsteps_ignore_part = c['min'], c['max'], c['fact'], c['part']
            try:
                n = t.calculate_nsteps()
            except Exception:
                need(c['min'] > c['max'], 'a consistent pair {}..{} is refused', c['min'], c['max'])
                return
            need(c['min'] <= c['max'], 'an inconsistent pair {}..{} is accepted', c['min'], c['max'])
            need(c['min'] <= n <= c['max'], '{} steps are outside {}..{}', n, c['min'], c['max'])
