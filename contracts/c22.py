from .common import *

R = 'Real'
SCHEMA = mesh()
OPTS = {}
C = Contract
T = 'remeshing.TongRemesher'
# option -> (configuration key, documented default)
OPT = {'export_stl': ('export_stl', False), 'verbose': ('remesh_verbose', False), 'nsteps_min': ('remesh_nsteps_min', 0), 'nsteps_max': ('remesh_nsteps_max', 10),
       'nsteps_hi_side_fact': ('remesh_nsteps_hi_side_fact', '1/10'), 'nsteps_ignore_part': ('remesh_nsteps_ignore_part', '1/20'), 'nsmooth_steps': ('remesh_nsmooth_steps', 0),
       'nsmooth_s': ('remesh_nsmooth_s', 10), 'nsmooth_k': ('remesh_nsmooth_k', '3/20'), 'hsmooth_steps': ('remesh_hsmooth_steps', 0), 'hsmooth_alfa': ('remesh_hsmooth_alfa', '1/5'),
       'hsmooth_beta': ('remesh_hsmooth_beta', '1/10'), 'rest_volume_redistr': ('remesh_rest_volume_redistr', True), 'nss_steps': ('remesh_nss_steps', 0),
       'nss_epsilon': ('remesh_nss_epsilon', '1/100'), 'nss_st': ('remesh_nss_st', '1/5'), 'nss_fix_nodes': ('remesh_nss_fix_nodes', True), 'pseudo_2d_oz': ('remesh_pseudo_2d_oz', False)}
me = lambda s: s.arg('self')


def is_default(s, a, d):
    v = s.fld(me(s), a)
    if v is None:
        return z3.BoolVal(False)
    if isinstance(d, bool):
        return zb(v) == d
    return zreal(v) == z3.RealVal(d)


def read(s):
    """An option is the value of its own key when the key is present, and is untouched otherwise."""
    c = s.ex.st.cells[s.arg('data').cid]
    val, has = c[1], c[2]
    return [('option %s' % a, zreal(s.fld(me(s), a)) == If(has[z3.StringVal(k)], val[z3.StringVal(k)], zreal(s.old.fld(me(s), a)))) for a, (k, _) in OPT.items()]


CONTRACTS = [
    C(T + '.set_default_options', {'self': ('Obj', T, {})}, opts={'obj_frame_off': True},
      ensures=lambda s: [('default of %s' % a, is_default(s, a, d)) for a, (_, d) in OPT.items()]),
    C(T + '.try_to_read_options', {'self': ('Obj', T, {a: R for a in OPT}), 'data': ('SymDict', 'Str', R)}, opts={'obj_frame_off': True, 'merge': True}, ensures=read),
]
f_ = const('f', 'Face')
gr = lambda s: s.fld(me(s), 'grid').t
num = lambda s, n: zreal(s.fld(me(s), n))
HI = z3.StringVal('Hi')
MINSIDE_C = C('Triangle.min_side', {'self': TRI}, modular=True, result='Real', ensures=lambda s: [('not negative', s.result >= 0)])


def nsteps_req(s):
    lists = s.cnt('Grid.Faces', gr(s))[f_] >= 1
    return [('faces', s.n('Grid.Faces', gr(s)) >= 1), ('ignored part is a proper part', And(num(s, 'nsteps_ignore_part') >= 0, num(s, 'nsteps_ignore_part') < 1)),
            ('faces have three nodes and an ice height', ForAll([f_], Implies(lists, And([f_ != null('Face'), s.H('Face.Data#has')[f_][HI], s.n('Face.Nodes', f_) == 3] + [
                s.el('Face.Nodes', f_)[j] != null('Node') for j in range(3)])), patterns=[s.cnt('Grid.Faces', gr(s))[f_]]))]


CONTRACTS += [
    MINSIDE_C,
    C(T + '.calculate_nsteps', {'self': ('Obj', T, {'grid': G, 'nsteps_min': 'Int', 'nsteps_max': 'Int', 'nsteps_hi_side_fact': R, 'nsteps_ignore_part': R, 'verbose': ('Const', False)})},
      opts={'fixed': {'Face.Nodes': [3]}}, requires=nsteps_req, raises={'must:Exception': lambda s: num(s, 'nsteps_min') > num(s, 'nsteps_max'), 'ZeroDivisionError': None},
      ensures=lambda s: [('at least the minimum', zreal(s.result) >= num(s, 'nsteps_min')), ('at most the maximum', zreal(s.result) <= num(s, 'nsteps_max'))],
      frame=[], loops=[LoopSpec('ignore', 'range', lambda L: [('still the maximum', zreal(L.loct('nsteps')) == num(L, 'nsteps_max'))])]),
]
ABOUT = {'level_note': 'set_default_options, try_to_read_options and calculate_nsteps proved for every configuration: given values are used, others keep their defaults.',
         'bounded': ['the command line driver (crys.py)']}
