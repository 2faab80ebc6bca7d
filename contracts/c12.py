from .common import *

R = 'Real'
SCHEMA = mesh(Face={k: R for k in ('ice_chunk', 'rest_ice', 'actual_ice', 'target_ice', 'saved_area', 'ice_shift', 'loc_ice_chunk')},
              Node={'ice_dir': V, 'shift': V, 'ice_shift': R})
SCHEMA['Face']['ice_dir'] = V
OPTS = {}
FIX = {'fixed': {'Face.Nodes': [3]}}
C = Contract
f_, n_, e_, i_ = const('f', 'Face'), const('n', 'Node'), const('e', 'Edge'), z3.Int('i')
ME = {'grid': G}


def tong(**kw):
    return ('Obj', 'remeshing.TongRemesher', dict(ME, **kw))


def g(s):
    r = s.fld(s.arg('self'), 'grid') if 'grid' not in s.args else None
    return r.t if r is not None else s.grid


def inF(s, f):
    return s.cnt('Grid.Faces', g(s))[f] >= 1


def inN(s, n):
    return s.cnt('Grid.Nodes', g(s))[n] >= 1


def fld(name, cls='Face'):
    return lambda s, o: s.get(cls, name, o)


chunk, rest, actual, target, saved, shift, loc = [fld(k) for k in ('ice_chunk', 'rest_ice', 'actual_ice', 'target_ice', 'saved_area', 'ice_shift', 'loc_ice_chunk')]


def pts(s, f):
    return [s.get('Node', 'P', s.el('Face.Nodes', f)[j]) for j in range(3)]


def area(s, f):
    return AREA(*pts(s, f))


def faces(s, body, pats):
    return ForAll([f_], Implies(inF(s, f_), body(f_)), patterns=[pats(f_)])


def wf(s):
    return wf_of(s, g(s))


def wf_of(s, gr):
    """Faces of the grid have three nodes of the grid; every face is listed once."""
    inF, inN = [(lambda k: lambda s, o: s.cnt(k, gr)[o] >= 1)(k) for k in ('Grid.Faces', 'Grid.Nodes')]
    g = lambda s: gr
    return [('faces listed once', ForAll([f_], s.cnt('Grid.Faces', g(s))[f_] <= 1, patterns=[s.cnt('Grid.Faces', g(s))[f_]])),
            ('faces are objects', ForAll([f_], Implies(inF(s, f_), f_ != null('Face')), patterns=[s.cnt('Grid.Faces', g(s))[f_]])),
            ('faces have three nodes', ForAll([f_], Implies(inF(s, f_), And([s.n('Face.Nodes', f_) == 3] + [
                And(s.el('Face.Nodes', f_)[j] != null('Node'), inN(s, s.el('Face.Nodes', f_)[j])) for j in range(3)])), patterns=[s.n('Face.Nodes', f_)]))]


def seen_then(field, spec):
    """Loop over the faces: visited ones satisfy spec, the others keep the field."""
    def inv(L):
        se = L.seen()
        k = 'Face.' + field
        return [('%s of visited faces' % field, ForAll([f_], Implies(se[f_] >= 1, spec(L, f_)), patterns=[L.get('Face', field, f_)])),
                ('%s of other faces kept' % field, ForAll([f_], Implies(se[f_] == 0, L.get('Face', field, f_) == L.pre.get('Face', field, f_)), patterns=[L.get('Face', field, f_)]))]
    return inv


CHUNK = lambda s, f: chunk(s, f) * zreal(s.rest_iterations) == rest(s.old, f)
SCALED = lambda s, f: rest(s, f) * saved(s, f) == rest(s.old, f) * area(s.old, f)
CONTRACTS = [
    C('remeshing.TongRemesher.calc_ice_chunks', {'self': tong(), 'rest_iterations': 'Int'}, modular=True, modifies=['Face.ice_chunk'], requires=lambda s: wf(s) + [('steps remain', s.rest_iterations >= 1)],
      ensures=lambda s: [('planned ice is the rest divided by the remaining steps', faces(s, lambda f: CHUNK(s, f), lambda f: chunk(s, f)))],
      frame=['Face.ice_chunk'], loops=[LoopSpec('faces', 'Grid.Faces', seen_then('ice_chunk', CHUNK))]),
    AREA_C, SWEPT_C,
    C('remeshing.TongRemesher.remember_current_areas', {'self': tong()}, opts=FIX, requires=wf, modular=True, modifies=['Face.saved_area'],
      ensures=lambda s: [('the saved area is the area', faces(s, lambda f: saved(s, f) == area(s.old, f), lambda f: saved(s, f)))],
      frame=['Face.saved_area'], loops=[LoopSpec('faces', 'Grid.Faces', seen_then('saved_area', lambda s, f: saved(s, f) == area(s.old, f)))]),
    C('remeshing.TongRemesher.correction_by_area', {'self': tong()}, opts=FIX, requires=wf, modular=True, modifies=['Face.rest_ice'],
      raises={'AssertionError': None},
      ensures=lambda s: [('the rest is scaled by the ratio of areas', faces(s, lambda f: SCALED(s, f), lambda f: rest(s, f)))],
      frame=['Face.rest_ice'], loops=[LoopSpec('faces', 'Grid.Faces', seen_then('rest_ice', SCALED))]),
]

nget = lambda s, k, n: s.get('Node', k, n)
SHIFT = lambda s, n: veq(v3(nget(s, 'shift', n)), vscale(v3(nget(s.old, 'ice_dir', n)), nget(s.old, 'ice_shift', n)))


def swept(s, f):
    """Volume swept by face f when every corner moves by its shift."""
    o = s.old
    p = pts(o, f)
    q = [mk(vadd(v3(x), v3(nget(s, 'shift', n)))) for x, n in zip(p, [o.el('Face.Nodes', f)[j] for j in range(3)])]
    return SWEPT(*(p + q))


def accreted(s, f):
    v = swept(s, f)
    r0 = rest(s.old, f)
    redistr = zb(s.fld(s.arg('self'), 'rest_volume_redistr'))
    return And(actual(s, f) == actual(s.old, f) + v, rest(s, f) == If(redistr, If(r0 - v < 0, 0, r0 - v), r0), v >= 0)


def moved(s, n):
    return veq(v3(nget(s, 'P', n)), vadd(v3(nget(s.old, 'P', n)), v3(nget(s, 'shift', n))))


def nodes_then(field, spec):
    def inv(L):
        se = L.seen()
        return [('%s of visited nodes' % field, ForAll([n_], Implies(se[n_] >= 1, spec(L, n_)), patterns=[nget(L, field, n_)])),
                ('%s of other nodes kept' % field, ForAll([n_], Implies(se[n_] == 0, nget(L, field, n_) == nget(L.pre, field, n_)), patterns=[nget(L, field, n_)]))]
    return inv


def faces_acc(L):
    se = L.seen()
    return [('visited faces accrete the swept volume', ForAll([f_], Implies(se[f_] >= 1, accreted(L, f_)), patterns=[actual(L, f_), rest(L, f_)]))] + [
        ('other faces keep their ice', ForAll([f_], Implies(se[f_] == 0, And(rest(L, f_) == rest(L.pre, f_), actual(L, f_) == actual(L.pre, f_))), patterns=[actual(L, f_), rest(L, f_)]))]


def wfn(s):
    return wf(s) + [('nodes listed once', ForAll([n_], And(s.cnt('Grid.Nodes', g(s))[n_] <= 1, Implies(inN(s, n_), n_ != null('Node'))), patterns=[s.cnt('Grid.Nodes', g(s))[n_]]))]


MOVE = C('remeshing.TongRemesher.move_nodes', {'self': tong(rest_volume_redistr='Bool')}, opts=FIX, requires=wfn,
         ensures=lambda s: [
             ('accreted ice grows by the swept volume, the rest falls by it and never below zero', ForAll([f_], Implies(inF(s, f_), And(
                 accreted(s, f_), Implies(rest(s.old, f_) >= 0, And(rest(s, f_) >= 0, rest(s, f_) <= rest(s.old, f_))))), patterns=[actual(s, f_), rest(s, f_)])),
             ('nodes move by direction times height', ForAll([n_], Implies(inN(s, n_), And(moved(s, n_), SHIFT(s, n_))), patterns=[nget(s, 'P', n_)]))],
         frame=['Node.shift', 'Node.P', 'Face.rest_ice', 'Face.actual_ice'], modular=True, modifies=['Node.shift', 'Node.P', 'Face.rest_ice', 'Face.actual_ice'],
         loops=[LoopSpec('shifts', 'Grid.Nodes', nodes_then('shift', SHIFT), nth=0), LoopSpec('faces', 'Grid.Faces', faces_acc),
                LoopSpec('move', 'Grid.Nodes', nodes_then('P', moved), nth=1)])
CONTRACTS.append(MOVE)

BS = bagsum('Face')


def total(s, field):
    return BS(s.H('Grid.Faces#cnt')[g(s)], s.H('Face.' + field))


def theory(ex, vals):
    ex.st.pc.extend(bagsum_theory('Face'))


def wfe(s):
    return wfn(s) + [
        ('faces on an edge are faces of the grid', ForAll([e_, i_], Implies(And(s.cnt('Grid.Edges', g(s))[e_] >= 1, 0 <= i_, i_ < s.n('Edge.Faces', e_)),
                                                                            inF(s, s.el('Edge.Faces', e_)[i_])), patterns=[s.el('Edge.Faces', e_)[i_]])),
        ('at least one face', s.n('Grid.Faces', g(s)) >= 1)]


DEFINE = C('remeshing.TongRemesher.define_ice_shifts', {'self': tong()}, opts=FIX, modular=True,
           requires=lambda s: wfn(s) + [('every node has a face', ForAll([n_], Implies(inN(s, n_), s.n('Node.Faces', n_) >= 1), patterns=[s.n('Node.Faces', n_)]))],
           ensures=lambda s: [('no negative height', ForAll([n_], Implies(inN(s, n_), nget(s, 'ice_shift', n_) >= 0), patterns=[nget(s, 'ice_shift', n_)]))],
           modifies=['Face.ice_shift', 'Node.ice_shift'], frame=['Face.ice_shift', 'Node.ice_shift'], raises={'Exception': None, 'ZeroDivisionError': None},
           loops=[LoopSpec('faces', 'Grid.Faces', lambda L: []),
                  LoopSpec('nodes', 'Grid.Nodes', lambda L: [('heights of visited nodes', ForAll([n_], Implies(L.seen()[n_] >= 1, nget(L, 'ice_shift', n_) >= 0), patterns=[nget(L, 'ice_shift', n_)]))])])
SAME = lambda L: [('total planned ice', total(L, 'ice_chunk') == total(L.old, 'ice_chunk'))]
HS = C('remeshing.TongRemesher.heights_smoothing', {'self': tong(hsmooth_steps='Int', hsmooth_alfa='Real', hsmooth_beta='Real')}, opts=FIX, setup=theory, modular=True,
       modifies=['Face.ice_chunk', 'Face.loc_ice_chunk', 'Face.ice_shift', 'Node.ice_shift'], requires=lambda s: wfe(s) + DEFINE.requires(s)[-1:],
       ensures=lambda s: [('smoothing conserves the total planned ice', total(s, 'ice_chunk') == total(s.old, 'ice_chunk'))],
       frame=['Face.ice_chunk', 'Face.loc_ice_chunk', 'Face.ice_shift', 'Node.ice_shift'], raises={'Exception': None, 'ZeroDivisionError': None},
       loops=[LoopSpec('steps', 'range', SAME),
              LoopSpec('copy', 'Grid.Faces', seen_then('loc_ice_chunk', lambda s, f: loc(s, f) == chunk(s, f)), nth=0),
              LoopSpec('edges', 'Grid.Edges', lambda L: [('ice moved across edges', total(L, 'loc_ice_chunk') == total(L, 'ice_chunk'))]),
              LoopSpec('back', 'Grid.Faces', seen_then('ice_chunk', lambda s, f: chunk(s, f) == loc(s, f)), nth=1)])
CONTRACTS += [DEFINE, HS]

# ---------------------------------------------------------------- the whole run
HI = z3.StringVal('Hi')
hi = lambda s, f: s.H('Face.Data#val')[f][HI]
STEP_MODS = ['Face.ice_dir', 'Node.ice_dir', 'Face.ice_shift', 'Node.ice_shift', 'Face.ice_chunk', 'Face.loc_ice_chunk', 'Node.shift', 'Node.P',
             'Face.rest_ice', 'Face.actual_ice', 'Face.saved_area']
MARK = C('Grid.mark_all_fixed_nodes', {'self': G}, modular=True, modifies=['Edge.border', 'Node.border', 'Grid.number_of_border_nodes'])
NST = C('remeshing.TongRemesher.calculate_nsteps', {'self': tong()}, modular=True, result='Int', raises={'Exception': None})
RAISES = {'Exception': None, 'ZeroDivisionError': None, 'AssertionError': None}
DIRS = ['Face.ice_dir', 'Node.ice_dir']
INIT = C('remeshing.TongRemesher.init_ice_dirs', {'self': tong()}, opts=FIX, modular=True, modifies=DIRS, frame=DIRS, raises=RAISES, requires=wfn,
         loops=[LoopSpec('faces', 'Grid.Faces', lambda L: []), LoopSpec('nodes', 'Grid.Nodes', lambda L: [])])
def node_links(s):
    return [('faces of a node are faces of the grid', ForAll([n_, i_], Implies(And(inN(s, n_), 0 <= i_, i_ < s.n('Node.Faces', n_)),
                                                                              inF(s, s.el('Node.Faces', n_)[i_])), patterns=[s.el('Node.Faces', n_)[i_]]))]


NSM = C('remeshing.TongRemesher.normals_smoothing', {'self': tong(nsmooth_steps='Int', nsmooth_s='Real', nsmooth_k='Real')}, opts=FIX, modular=True,
        modifies=DIRS, frame=DIRS, raises=RAISES, requires=lambda s: wfn(s) + node_links(s),
        loops=[LoopSpec('steps', 'range', lambda L: []), LoopSpec('faces', 'Grid.Faces', lambda L: []), LoopSpec('nodes', 'Grid.Nodes', lambda L: [])])
NSS = C('remeshing.TongRemesher.null_space_smoothing', {'self': tong()}, modular=True, modifies=['Node.P'])
TRUSTED = [MARK, NST, NSS]
OPTIONS = dict(nsmooth_steps='Int', nsmooth_s='Real', nsmooth_k='Real', hsmooth_steps='Int', hsmooth_alfa='Real', hsmooth_beta='Real', rest_volume_redistr='Bool')
incident = lambda s: DEFINE.requires(s)[-1:] + node_links(s)
STEP = C('remeshing.TongRemesher.remesh_step', {'self': tong(pseudo_2d_oz=('Const', False), **OPTIONS)}, opts=FIX, modular=True, modifies=STEP_MODS, frame=STEP_MODS,
         raises=RAISES, setup=theory, requires=lambda s: wfe(s) + incident(s))
CONTRACTS += [INIT, NSM, STEP]


def ices(L, upto=None):
    return [('planned ice is area times height', faces(L, lambda f: target(L, f) == area(L.old, f) * hi(L.old, f), lambda f: target(L, f))),
            ('nothing done yet', Implies(L.k == 0, ForAll([f_], Implies(inF(L, f_), And(rest(L, f_) == target(L, f_), actual(L, f_) == 0)), patterns=[rest(L, f_), actual(L, f_)])))]


def prep(L):
    se = L.seen()
    return [('visited faces are prepared', ForAll([f_], Implies(se[f_] >= 1, And(
        target(L, f_) == area(L.old, f_) * hi(L.old, f_), rest(L, f_) == target(L, f_), actual(L, f_) == 0)), patterns=[target(L, f_), rest(L, f_), actual(L, f_)]))]


CALLABLE = ('Obj', 'remeshing.TongRemesher', dict(grid=('Const', None), verbose=('Const', False), pseudo_2d_oz=('Const', False), nss_fix_nodes='Bool', **OPTIONS))


def gq(s):
    return s.grid


CALL = C('remeshing.TongRemesher.__call__', {'self': CALLABLE, 'grid': G}, opts=dict(FIX, obj_frame_off=True),
         requires=lambda s: wfe(s) + incident(s) + [
             ('faces carry an ice height', ForAll([f_], Implies(s.cnt('Grid.Faces', s.grid)[f_] >= 1, s.H('Face.Data#has')[f_][HI]), patterns=[s.cnt('Grid.Faces', s.grid)[f_]]))],
         ensures=lambda s: [
             ('planned ice was area times height', ForAll([f_], Implies(s.cnt('Grid.Faces', s.grid)[f_] >= 1, target(s, f_) == area(s.old, f_) * hi(s.old, f_)), patterns=[target(s, f_)])),
             ('no ice height left', ForAll([f_], Implies(s.cnt('Grid.Faces', s.grid)[f_] >= 1, hi(s, f_) == 0), patterns=[hi(s, f_)]))],
         raises=RAISES,
         loops=[LoopSpec('prepare', 'Grid.Faces', prep, nth=0), LoopSpec('steps', 'range', ices),
                LoopSpec('clear', 'Grid.Faces', lambda L: [('visited faces carry no ice height', ForAll([f_], Implies(L.seen()[f_] >= 1, hi(L, f_) == 0), patterns=[hi(L, f_)]))], nth=1)])
CONTRACTS.append(CALL)
ABOUT = {'level_note': 'The chunking of ice, its correction by area, movement of nodes, smoothing steps, one remeshing step and the whole call are proved over every mesh with exact real arithmetic; zone file handling around them is bounded.',
         'bounded': ['reading and storing of the mesh around the remeshing (crys.py driver)'],
         'trusted': ['sums over a list: changing one term changes the sum by the difference, equal terms give equal sums']}
