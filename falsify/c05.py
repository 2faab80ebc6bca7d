from base import *
BOUND = 'meshes of at most 60 faces, sequences of at most 4 decompositions'


def cases(r, n):
    import c03
    for name, s in shapes():
        for nz in (1, 2, 3):
            yield dict(mesh_case(r, s, nz), ops=[['linear', 3], ['mono']])
    for _ in range(250 * n):
        c = mesh_case(r, big=True)
        yield dict(c, ops=[c03.ops(r, c['names'] + ['hl', 'farhat 0', 'linear 1']) for _ in range(r.randint(0, 4))], order=r.choice(['asc', 'desc']))


def test(c):
    import c03
    g = load_case(c)
    if problems(g):
        g = by_hand(c)
    else:
        m = zone_list_problem(g)
        need(m is None, 'after loading: {}', m)
    for op in c['ops']:
        c03.apply(g, op)
        m = zone_list_problem(g)
        need(m is None, 'after {}: {}', op, m)
