from base import *
BOUND = 'meshes of at most 50 faces, at most 9 zones, sequences of at most 3 decompositions'


def ops(r, names):
    k = r.randrange(5)
    fixed = r.sample(names, r.randrange(len(names) + 1)) if r.random() < .6 else []
    return [['mono'], ['random', r.randint(1, 5)], ['linear', r.randint(1, 7)], ['hier', r.randint(1, 4), fixed], ['farhat', r.randint(1, 6), fixed]][k]


def cases(r, n):
    for name, s in shapes():
        for nz in (1, 2, 3):
            for op in (['mono'], ['random', 3], ['linear', 2], ['linear', 5], ['hier', 2, []], ['hier', 3, ['Z0']], ['farhat', 1, []], ['farhat', 3, ['Z1']]):
                yield dict(mesh_case(r, s, nz), ops=[op])
    import c04
    for s in c04.concentric():
        for nz in (1, 2):
            for op in (['hier', 2, []], ['hier', 4, []]):
                yield dict(mesh_case(r, s, nz), ops=[op, op])
    for _ in range(250 * n):
        c = mesh_case(r, big=True)
        yield dict(c, ops=[ops(r, c['names'] + ['hl', 'hr', 'farhat 0', 'linear 1', 'mono']) for _ in range(r.randint(1, 3))])


def apply(g, op):
    k = op[0]
    if k == 'mono':
        g.decompose_mono()
    elif k == 'random':
        g.decompose_random(op[1])
    elif k == 'linear':
        g.decompose_linear(op[1])
    elif k == 'hier':
        g.decompose_hierarchical(levels=op[1], fixed_zones=list(op[2]))
    else:
        g.decompose_farhat(count=op[1], fz_names=list(op[2]))


def test(c):
    g = build(c)
    for op in c['ops']:
        before = topo(g)
        fixed = {z.Name: ids(z.Faces) for z in g.Zones if op[0] in ('hier', 'farhat') and z.Name in op[2]}
        apply(g, op)
        p = partition_problem(g)
        need(p is None, 'after {}: {}', op, p)
        need(topo(g) == before, 'after {}: geometry, connectivity or data changed', op)
        for nm, fs in fixed.items():
            z = [z for z in g.Zones if z.Name == nm and sorted(ids(z.Faces)) == sorted(fs)]
            need(len(z) >= 1, 'after {}: fixed zone {} does not keep its faces', op, nm)
