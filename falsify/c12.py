from base import *
import remeshing
BOUND = 'meshes of at most 40 faces, at most 6 steps; swept volume checked for pure translations of a face'

QUIET = {'remesh_nss_steps': 0}


def cases(r, n):
    for name, s in shapes():
        yield dict(mesh_case(r, s, 1), opt={}, **{'hi': 'small'})
    yield from interleave(runs(r, n), areas(r, n), moves(r, n), strong(r, n))


def runs(r, n):
    for _ in range(60 * n):
        o = {}
        if r.random() < .6:
            o['remesh_hsmooth_steps'] = r.randint(1, 3)
            o['remesh_hsmooth_alfa'] = r.choice([.1, .2, .5])
            o['remesh_hsmooth_beta'] = r.choice([.05, .1])
        if r.random() < .3:
            o['remesh_nsmooth_steps'] = 1
        if r.random() < .3:
            o['remesh_rest_volume_redistr'] = False
        if r.random() < .5:
            o['remesh_nss_fix_nodes'] = False
        o['remesh_nsteps_max'] = r.randint(1, 6)
        o['remesh_nsteps_min'] = r.choice([0, 1, o['remesh_nsteps_max']])
        yield dict(mesh_case(r), opt=o, hi=r.choice(['small', 'zero', 'mixed', 'flat']))


def areas(r, n):
    for _ in range(40 * n):
        yield dict(mesh_case(r), area=True, scale=r.choice([.5, 1.7, 3.]), move=[r.uniform(-.02, .02) for _ in range(60)])


def moves(r, n):
    for _ in range(40 * n):
        yield dict(mesh_case(r), translate=[r.uniform(-1, 1) for _ in range(3)], redistr=r.random() < .7, rest=[r.choice([0., r.uniform(0, .5), r.uniform(0, 5)]) for _ in range(12)])


def strong(r, n):
    # smoothing strong enough to take more ice from a face than it has
    for _ in range(30 * n):
        yield dict(mesh_case(r), strong=[r.choice([1, 1, 2]), r.choice([.2, 1., 3.]), r.choice([.3, 1., 2.])], hi=r.choice(['zero', 'mixed', 'mixed', 'flat']), one=r.randrange(40))


def heights(c, g):
    for i, f in enumerate(g.Faces):
        h = .02 + .01 * (i % 3)
        f['Hi'] = {'small': h, 'zero': 0., 'mixed': h if i % 2 else 0., 'flat': .03}[c['hi']]


def area(f):
    return tri_area(*[P(n) for n in f.Nodes])


def test(c):
    g = build(c)
    if any(area(f) < 1e-3 for f in g.Faces):
        return
    t = remeshing.TongRemesher('x.dat', None, '.')
    if c.get('area'):
        t.grid = g
        rest = []
        for i, f in enumerate(g.Faces):
            f.rest_ice = .1 * (i % 5)
            rest.append(f.rest_ice)
        t.remember_current_areas()
        a0 = [area(f) for f in g.Faces]
        for i, n in enumerate(g.Nodes):
            n.P = geom.Vect(*[c['scale'] * (x + c['move'][(3 * i + k) % 60]) for k, x in enumerate(P(n))])
        t.correction_by_area()
        for f, x, a in zip(g.Faces, rest, a0):
            need(same(f.rest_ice, x * area(f) / a), 'rest {} of face {} is not {} scaled by the ratio of areas {}', f.rest_ice, f.GloId, x, area(f) / a)
        return
    if 'translate' in c:
        t.grid = g
        t.rest_volume_redistr = c['redistr']
        d = c['translate']
        st = []
        for i, f in enumerate(g.Faces):
            f.rest_ice = c['rest'][i % len(c['rest'])]
            f.actual_ice = .25 * (i % 3)
            st.append((f.rest_ice, f.actual_ice))
        l = norm(d)
        for n in g.Nodes:
            n.ice_dir, n.ice_shift = geom.Vect(*[x / l for x in d]), l
        vol = [abs(dot(cross(sub(P(f.Nodes[1]), P(f.Nodes[0])), sub(P(f.Nodes[2]), P(f.Nodes[0]))), d)) / 2 for f in g.Faces]
        t.move_nodes()
        for f, (x, a), v in zip(g.Faces, st, vol):
            need(same(f.actual_ice, a + v, 1e-8), 'accreted ice of face {} grew by {} instead of {}', f.GloId, f.actual_ice - a, v)
            w = max(0., x - v) if c['redistr'] else x
            need(same(f.rest_ice, w, 1e-8), 'rest of face {} became {} instead of {}', f.GloId, f.rest_ice, w)
        return
    if 'strong' in c:
        t.grid = g
        heights(c, g)
        t.hsmooth_steps, t.hsmooth_alfa, t.hsmooth_beta = c['strong']
        g.Faces[c['one'] % len(g.Faces)]['Hi'] = .01
        for f in g.Faces:
            f.rest_ice = f.target_ice = area(f) * f['Hi']
            f.actual_ice = 0.0
        t.calc_ice_chunks(1)
        t.init_ice_dirs()
        t.define_ice_shifts()
        b = [f.ice_chunk for f in g.Faces]
        t.define_ice_shifts = lambda: None      # the shifts of the next step are not of interest here
        try:
            t.heights_smoothing()
        except Exception as e:
            if 'Negative node ice shift' in str(e):
                return
            raise
        a = [f.ice_chunk for f in g.Faces]
        for comp in parts(g):
            need(same(sum(a[i] for i in comp), sum(b[i] for i in comp), 1e-9), 'smoothing of heights changes the ice of a connected part from {} to {}', sum(b[i] for i in comp), sum(a[i] for i in comp))
        return
    heights(c, g)
    t.try_to_read_options(dict(c['opt'], **QUIET))
    log = {'left': None, 'steps': 0}
    nst = t.calculate_nsteps
    a0 = [area(f) * f['Hi'] for f in g.Faces]
    other = [{k: v for k, v in f.Data.items() if k != 'Hi'} for f in g.Faces]

    def nsteps():
        for f, w in zip(g.Faces, a0):
            need(same(f.target_ice, w) and same(f.rest_ice, w) and f.actual_ice == 0.0, 'face {} starts with plan {} rest {} accreted {} instead of {}', f.GloId, f.target_ice, f.rest_ice, f.actual_ice, w)
        log['left'] = k = nst()
        log['all'] = k
        return k
    t.calculate_nsteps = nsteps
    step = t.remesh_step

    def one():
        if log['left'] is None:
            return step()
        for f in g.Faces:
            need(same(f.ice_chunk, f.rest_ice / log['left']), 'step plans {} of rest {} with {} steps left', f.ice_chunk, f.rest_ice, log['left'])
        log['left'] -= 1
        step()
    t.remesh_step = one
    hs = t.heights_smoothing

    def smooth():
        b = [f.ice_chunk for f in g.Faces]
        e = smooth_ref(t, g) if t.hsmooth_steps == 1 else None
        hs()
        a = [f.ice_chunk for f in g.Faces]
        need(same(sum(a), sum(b), 1e-9), 'smoothing of heights changes the total ice from {} to {}', sum(b), sum(a))
        if t.hsmooth_steps == 0:
            need(a == b, 'ice moves without smoothing')
        if e:
            # ice only crosses edges: per connected part the total is kept too
            for comp in parts(g):
                need(same(sum(a[i] for i in comp), sum(b[i] for i in comp), 1e-9), 'ice moved between parts that share no edge')
    t.heights_smoothing = smooth
    mv = t.move_nodes

    def move():
        b = [(f.rest_ice, f.actual_ice, f.ice_chunk) for f in g.Faces]
        p0 = [[P(n) for n in f.Nodes] for f in g.Faces]
        sh = [[[d * n.ice_shift for d in n.ice_dir.Coords] for n in f.Nodes] for f in g.Faces]
        mv()
        for f, (x, a, ch), p, s in zip(g.Faces, b, p0, sh):
            q = [[u + w for u, w in zip(pp, ss)] for pp, ss in zip(p, s)]
            v = sum(abs(dot(sub(o[0], o[3]), cross(sub(o[1], o[3]), sub(o[2], o[3])))) / 6 for o in ((p[0], p[1], p[2], q[2]), (p[0], p[1], q[1], q[2]), (p[0], q[0], q[1], q[2])))
            need(same(f.actual_ice, a + v, 1e-8), 'accreted ice of face {} grew by {} instead of {}', f.GloId, f.actual_ice - a, v)
            w = max(0., x - v) if t.rest_volume_redistr else x
            need(same(f.rest_ice, w, 1e-8), 'rest of face {} became {} instead of {}', f.GloId, f.rest_ice, w)
    t.move_nodes = move
    try:
        t(g)
    except Exception as e:
        if 'Negative node ice shift' in str(e):
            return
        raise
    need(not log['left'], '{} of {} steps were not made', log['left'], log.get('all'))
    for f, o in zip(g.Faces, other):
        need(f['Hi'] == 0.0, 'face {} ends with ice height {}', f.GloId, f['Hi'])
        need({k: v for k, v in f.Data.items() if k != 'Hi'} == o, 'other data of face {} changed', f.GloId)


def smooth_ref(t, g):
    return True


def parts(g):
    ix = {id(f): i for i, f in enumerate(g.Faces)}
    seen, out = set(), []
    for i, f in enumerate(g.Faces):
        if i in seen:
            continue
        comp, todo = [], [f]
        seen.add(i)
        while todo:
            x = todo.pop()
            comp.append(ix[id(x)])
            for e in x.Edges:
                for y in e.Faces:
                    if ix[id(y)] not in seen:
                        seen.add(ix[id(y)])
                        todo.append(y)
        out.append(comp)
    return out
