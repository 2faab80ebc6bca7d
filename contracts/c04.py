from .common import *
from pydv import lib
from .decomp import *
from .decomp import f_, z_, i_

SCHEMA = mesh()
OPTS = {}
C = Contract
I = z3.IntSort()
j_ = z3.Int('j')
FPOS = z3.Function('position_of_face', ref_sort('Face'), I)
ZPOS = z3.Function('number_of_new_zone', ref_sort('Zone'), I)


def fpos_setup(ex, vals):
    """Position of a face in the list of the grid (its faces are distinct)."""
    from pydv.contract import View
    s = View(ex, ex.st, vals)
    el, n = s.el('Grid.Faces', s.self), s.n('Grid.Faces', s.self)
    p = FPOS(f_)
    ex.st.pc += [ForAll([i_], Implies(And(0 <= i_, i_ < n), FPOS(el[i_]) == i_), patterns=[el[i_]]),
                 ForAll([f_], Implies(inF(s, f_), And(0 <= p, p < n, el[p] == f_)), patterns=[p, s.cnt('Grid.Faces', s.self)[f_]])]


# ---------------------------------------------------------------- linear
def share(s):
    fc = s.old.n('Grid.Faces', s.self)
    q = fc / s.count
    r = fc - s.count * q
    size = lambda i: If(i < r, q + 1, q)
    start = lambda i: i * q + If(i < r, i, r)
    return size, start


def run(s, i, n, start):
    """Zone i holds n consecutive faces."""
    z = s.el('Grid.Zones', s.self)[i]
    g = s.old.el('Grid.Faces', s.self)
    e = s.el('Zone.Faces', z)[j_]
    return And(s.n('Zone.Faces', z) == n, ForAll([j_], Implies(And(0 <= j_, j_ < n), e == g[start + j_]), patterns=[e]))


def runs(s, upto):
    size, start = share(s)
    z = s.el('Grid.Zones', s.self)[i_]
    e = s.el('Zone.Faces', z)[j_]
    return [('zones hold their shares', ForAll([i_], Implies(And(0 <= i_, i_ < upto), s.n('Zone.Faces', z) == size(i_)), patterns=[z])),
            ('contiguous runs in face order', ForAll([i_, j_], Implies(And(0 <= i_, i_ < upto, 0 <= j_, j_ < size(i_)), e == s.old.el('Grid.Faces', s.self)[start(i_) + j_]), patterns=[e]))]


def linear_post(s):
    return partition(s) + [('as many zones as asked for', s.n('Grid.Zones', s.self) == s.count)] + runs(s, s.count)


def placed(L, cur):
    """Faces before position cur sit in the zones of the grid, which list nothing else."""
    p = L.pre0 if hasattr(L, 'pre0') else L.pre
    dealt = lambda f: And(inF(L, f), FPOS(f) < cur)
    return [('faces dealt with are in a zone of the grid', ForAll([f_], Implies(dealt(f_), And(inZ(L, zone(L, f_)), fcnt(L, zone(L, f_))[f_] == 1)), patterns=[zone(L, f_)])),
            ('other faces are not yet in a zone', ForAll([f_], Implies(And(inF(L, f_), FPOS(f_) >= cur), Or(zone(L, f_) == null('Zone'), And(L.old.H('Zone.@alloc')[zone(L, f_)], fcnt(L, zone(L, f_))[f_] == 1))), patterns=[zone(L, f_)])),
            ('zones of the grid list faces dealt with only', ForAll([z_, f_], Implies(And(inZ(L, z_), fcnt(L, z_)[f_] >= 1), And(dealt(f_), zone(L, f_) == z_)), patterns=[fcnt(L, z_)[f_]]))]


def new_zones(L):
    return [('zones of the grid are new', ForAll([z_], Implies(inZ(L, z_), And(fresh_zone(L, z_), L.H('Zone.@alloc')[z_])), patterns=[L.cnt('Grid.Zones', L.self)[z_]]))]


def give_inv(L):
    size, start = share(L)
    z = L.el('Grid.Zones', L.self)[i_]
    return [('faces dealt with', zn(L.loct('cur_face_i')) == start(L.k))] + runs(L, L.k) + placed(L, start(L.k)) + new_zones(L) + [
        ('zones to come are empty', ForAll([i_], Implies(And(L.k <= i_, i_ < L.count), L.n('Zone.Faces', z) == 0), patterns=[z]))]


def one_inv(L):
    k = L.ks[-1]
    size, start = share(L)
    me = L.el('Grid.Zones', L.self)[k]
    e = L.el('Zone.Faces', me)[j_]
    zz = L.el('Grid.Zones', L.self)[i_]
    return [('this zone so far', And(L.n('Zone.Faces', me) == L.k, ForAll([j_], Implies(And(0 <= j_, j_ < L.k), e == L.old.el('Grid.Faces', L.self)[start(k) + j_]), patterns=[e])))] + \
        placed(L, start(k) + L.k) + new_zones(L) + [
        ('other zones of the grid', ForAll([z_], Implies(And(inZ(L, z_), z_ != me), And(L.n('Zone.Faces', z_) == L.pre.n('Zone.Faces', z_), L.el('Zone.Faces', z_) == L.pre.el('Zone.Faces', z_), fcnt(L, z_) == fcnt(L.pre, z_))),
                                            patterns=[L.n('Zone.Faces', z_), L.el('Zone.Faces', z_), fcnt(L, z_)]))]


def create_many(L):
    a, b = [L.el('Grid.Zones', L.self)[x] for x in (i_, j_)]
    return create_inv(L) + [('zones are distinct', ForAll([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ < L.k), a != b), patterns=[z3.MultiPattern(a, b)]))]


NAME = {'new_name': ('Const', None)}
LINEAR = C('Grid.decompose_linear', dict({'self': G, 'count': 'Int'}, **NAME), requires=lambda s: pre_decompose(s) + [('count', s.count >= 1)], setup=fpos_setup,
           ensures=linear_post, frame=FRAME,
           loops=[LoopSpec('ids', 'Grid.Zones', lambda L: []), LoopSpec('zones', 'Grid.Zones', give_inv, nth=0), LoopSpec('unlink', 'Grid.Faces', unlink_inv, nth=0), LoopSpec('create', 'range', create_many),
                  LoopSpec('faces of a zone', 'range', one_inv, inside='zones'), LoopSpec('check', 'Grid.Faces', check_inv, nth=1)])


# ---------------------------------------------------------------- splitting a zone by a median
R = z3.RealSort()
ARR = z3.ArraySort(I, R)
FACE = ref_sort('Face')
AXES = ['first', 'second', 'third']
k_ = z3.Int('k')
e_ = const('e', 'Edge')
SIGN = {h: z3.Function('coordinate_' + h, FACE, R) for h in AXES}           # an axis: the coordinate of a face
FARR, FBAG = z3.ArraySort(I, FACE), z3.ArraySort(FACE, I)
SIGNS = {h: z3.Function('coordinates_' + h, FARR, ARR) for h in AXES}       # of the faces of a list
HEAPS = ['Face.Edges#el', 'Face.Edges#len', 'Edge.Faces#el', 'Edge.Faces#len']


def cut(s, h, z, k, j):
    """Crossings met in the first k faces of zone z and the first j edges of the next one."""
    a = [s.H(x) for x in HEAPS] + [s.el('Zone.Faces', z), fcnt(s, z), s.n('Zone.Faces', z)]
    return z3.Function('cut_so_far_' + h, *[x.sort() for x in a], I, I, I)(*a, zn(k), zn(j))


def axis(h):
    """A function that gives a face its coordinate (it depends on the face only)."""
    def call(ex, a, kw):
        return SIGN[h](a[0].t)
    b = Builtin('axis ' + h, call)
    b.axis = h
    return b


def blade(s, h, z):
    """Middle element of the sorted coordinates of the faces of zone z."""
    n = s.n('Zone.Faces', z)
    return lib.sorted_of(ARR)(SIGNS[h](s.el('Zone.Faces', z)), n)[n / 2]


def crossing(s, h, z, e):
    """The edge joins a face of the zone below the median and one not below."""
    n = s.n('Zone.Faces', z)
    fs = s.el('Edge.Faces', e)
    a, b = [SIGN[h](fs[q]) < blade(s, h, z) for q in range(2)]
    return And(s.n('Edge.Faces', e) == 2, fcnt(s, z)[fs[0]] >= 1, fcnt(s, z)[fs[1]] >= 1, a != b)


def axes_def(s, h, z):
    """Definitions of SIGNS and CUT for axis h and zone z."""
    fs, n = s.el('Zone.Faces', z), s.n('Zone.Faces', z)
    f = fs[k_]
    ed = lambda q: s.el('Face.Edges', f)[q]
    rng = And(0 <= k_, k_ < n)
    c = lambda k, j: cut(s, h, z, k, j)
    sg = SIGNS[h](fs)[k_]
    return [ForAll([k_], Implies(rng, sg == SIGN[h](f)), patterns=[sg, f]), c(0, 0) == 0,
            ForAll([k_, j_], Implies(And(rng, 0 <= j_, j_ < s.n('Face.Edges', f)), c(k_, j_ + 1) == c(k_, j_) + If(crossing(s, h, z, ed(j_)), 1, 0)), patterns=[ed(j_)]),
            ForAll([k_], Implies(rng, c(k_ + 1, 0) == c(k_, s.n('Face.Edges', f))), patterns=[f])]


def below(s, h, z, f):
    return And(fcnt(s, z)[f] >= 1, SIGN[h](f) < blade(s, h, z))


def no_split(s, h, z):
    """No face is below the median."""
    return ForAll([f_], Not(below(s, h, z, f_)), patterns=[fcnt(s, z)[f_]])


def zone_ok(s, z):
    return [('faces of the zone refer to it', ForAll([f_], Implies(fcnt(s, z)[f_] >= 1, And(f_ != null('Face'), zone(s, f_) == z, fcnt(s, z)[f_] == 1)), patterns=[fcnt(s, z)[f_]])),
            ('edges of the faces', ForAll([f_, j_], Implies(And(fcnt(s, z)[f_] >= 1, 0 <= j_, j_ < s.n('Face.Edges', f_)), s.el('Face.Edges', f_)[j_] != null('Edge')), patterns=[s.el('Face.Edges', f_)[j_]])),
            ('faces of the edges', ForAll([e_, j_], Implies(And(0 <= j_, j_ < s.n('Edge.Faces', e_)), s.el('Edge.Faces', e_)[j_] != null('Face')), patterns=[s.el('Edge.Faces', e_)[j_]]))]


def metric_pre(s):
    h = s.arg('fun').axis
    z = s.zone
    return zone_ok(s, z) + [
        ('the zone has faces', s.n('Zone.Faces', z) >= 1), ('two other zones', z3.Distinct(z, s.zl, s.zr, null('Zone'))),
        ('no face is in the new zones', ForAll([f_], And(zone(s, f_) != s.zl, zone(s, f_) != s.zr), patterns=[zone(s, f_)]))]


def metric_post(s):
    h = s.arg('fun').axis
    z = s.zone
    n = s.old.n('Zone.Faces', z)
    kept = [('zones of the faces unchanged', ForAll([f_], zone(s, f_) == zone(s.old, f_), patterns=[zone(s, f_)]))]
    if s.result is INF:
        return [('nothing below the median', no_split(s.old, h, z))] + kept
    return [('some face is below the median', Not(no_split(s.old, h, z))), ('the measure is the number of crossings', zn(s.result) == cut(s.old, h, z, n, 0))] + kept


def metric_result(ex, old):
    h = old.arg('fun').axis
    return INF if ex.branch(no_split(old, h, old.zone), 'no split') else ex.fresh('cut', I)


def sign_inv(L):
    h = L.arg('fun').axis
    z = L.zone
    seen = L.seen()
    b = SIGN[h](f_) < blade(L.old, h, z)
    return [('faces seen so far are marked by their side', ForAll([f_], Implies(seen[f_] >= 1, zone(L, f_) == If(b, L.zl, L.zr)), patterns=[seen[f_], zone(L, f_)])),
            ('others are not', ForAll([f_], Implies(seen[f_] == 0, zone(L, f_) == zone(L.old, f_)), patterns=[zone(L, f_)])),
            ('counts', And(zn(L.loct('zlc')) >= 0, zn(L.loct('zrc')) >= 0, zn(L.loct('zlc')) + zn(L.loct('zrc')) == L.k)),
            ('some below', Implies(zn(L.loct('zlc')) > 0, Exists([i_], And(0 <= i_, i_ < L.k, SIGN[h](L.src.el[i_]) < blade(L.old, h, z))))),
            ('none below', Implies(zn(L.loct('zlc')) == 0, ForAll([i_], Implies(And(0 <= i_, i_ < L.k), Not(SIGN[h](L.src.el[i_]) < blade(L.old, h, z))), patterns=[L.src.el[i_]]))),
            ('some not below', Implies(zn(L.loct('zrc')) == 0, ForAll([i_], Implies(And(0 <= i_, i_ < L.k), SIGN[h](L.src.el[i_]) < blade(L.old, h, z)), patterns=[L.src.el[i_]])))]


def back_inv(L):
    seen = L.seen()
    return [('faces seen so far are back', ForAll([f_], zone(L, f_) == If(seen[f_] >= 1, L.zone, zone(L.pre, f_)), patterns=[zone(L, f_)]))]


def count_inv(L):
    h = L.arg('fun').axis
    return [('crossings so far', zn(L.loct('r')) == cut(L.old, h, L.zone, L.k, 0))] if L.has('r') else back_inv(L)


def count_in(L):
    h = L.arg('fun').axis
    return [('crossings so far', zn(L.loct('r')) == cut(L.old, h, L.zone, L.ks[-1], L.k))]


def metric(h):
    return C('Grid.split_zone_metric', {'self': G, 'zone': Z, 'zl': Z, 'zr': Z, 'fun': lambda ex: axis(h)}, note=h, requires=metric_pre, ensures=metric_post, modular=True,
             opts={'sorted_is_function': True}, setup=sort_setup, result=metric_result, modifies=['Face.Zone'], frame=['Face.Zone'],
             loops=[LoopSpec('mark', 'Zone.Faces', sign_inv, nth=0), LoopSpec('undo', 'Zone.Faces', back_inv), LoopSpec('count', 'Zone.Faces', count_inv, nth=1),
                    LoopSpec('edges', 'Face.Edges', count_in)])


def sort_setup(ex, vals):
    from pydv.contract import View
    s = View(ex, ex.st, vals)
    ex.st.pc += lib.sorted_theory(ARR) + [x for h in AXES for x in axes_def(s, h, s.zone)]


def can_split(s):
    z = s.zone
    return And(Not(s.get('Zone', 'IsFixed', z)), s.n('Zone.Faces', z) >= 2, Or([Not(no_split(s, h, z)) for h in AXES]))


def split_pre(s):
    z = s.zone
    return zone_ok(s, z) + [
        ('a zone of the grid', And(z != null('Zone'), s.cnt('Grid.Zones', s.self)[z] == 1)),
        ('faces lie in existing zones', ForAll([f_], Or(zone(s, f_) == null('Zone'), s.H('Zone.@alloc')[zone(s, f_)]), patterns=[zone(s, f_)]))]


def new_pair(s):
    e, n = s.el('Grid.Zones', s.self), s.n('Grid.Zones', s.self)
    return z3.simplify(e[n - 2]), z3.simplify(e[n - 1])


def split_post(s):
    o, z = s.old, s.zone
    cnt, cnt0 = s.cnt('Grid.Zones', s.self), o.cnt('Grid.Zones', s.self)
    n, n0 = s.n('Grid.Zones', s.self), o.n('Grid.Zones', s.self)
    zl, zr = new_pair(s)
    ok = can_split(o)
    nf = o.n('Zone.Faces', z)
    best = lambda h: And([Not(no_split(o, h, z))] + [Or(no_split(o, g, z), cut(o, h, z, nf, 0) <= cut(o, g, z, nf, 0)) for g in AXES if g != h])
    to = lambda h: ForAll([f_], And(Implies(fcnt(o, z)[f_] >= 1, zone(s, f_) == If(below(o, h, z, f_), zl, zr)), fcnt(s, zl)[f_] == If(below(o, h, z, f_), 1, 0),
                                    fcnt(s, zr)[f_] == If(And(fcnt(o, z)[f_] >= 1, Not(below(o, h, z, f_))), 1, 0)), patterns=[zone(s, f_), fcnt(s, zl)[f_], fcnt(s, zr)[f_]])
    same = lambda q: And(fcnt(s, q) == fcnt(o, q), s.el('Zone.Faces', q) == o.el('Zone.Faces', q), s.n('Zone.Faces', q) == o.n('Zone.Faces', q))
    return [
        ('a zone that cannot be split stays whole', Implies(Not(ok), And(cnt == cnt0, n == n0, s.el('Grid.Zones', s.self)[n - 1] == z))),
        ('zones of faces unless split', Implies(Not(ok), ForAll([f_], zone(s, f_) == zone(o, f_), patterns=[zone(s, f_)]))),
        ('two new zones', Implies(ok, And(n == n0 + 1, zl != zr, *[And(q != null('Zone'), Not(o.H('Zone.@alloc')[q]), s.H('Zone.@alloc')[q], s.n('Zone.Faces', q) >= 1) for q in (zl, zr)]))),
        ('the zone is replaced by them', Implies(ok, ForAll([z_], cnt[z_] == If(Or(z_ == zl, z_ == zr), 1, If(z_ == z, 0, cnt0[z_])), patterns=[cnt[z_]]))),
        ('left below the median of the axis with the fewest crossings', Implies(ok, Or([And(best(h), to(h)) for h in AXES]))),
        ('other faces stay', ForAll([f_], Implies(fcnt(o, z)[f_] == 0, zone(s, f_) == zone(o, f_)), patterns=[zone(s, f_)])),
        ('other zones stay', ForAll([z_], Implies(And(o.H('Zone.@alloc')[z_], Or(z_ != z, Not(ok))), same(z_)), patterns=[fcnt(s, z_), s.n('Zone.Faces', z_), s.el('Zone.Faces', z_)])),
        ('fixed zones stay fixed', ForAll([z_], Implies(o.H('Zone.@alloc')[z_], s.get('Zone', 'IsFixed', z_) == o.get('Zone', 'IsFixed', z_)), patterns=[s.get('Zone', 'IsFixed', z_)]))]


def move_inv(which):
    def inv(L):
        t = new_pair(L)[which]
        z = L.zone
        seen, p = L.seen(), L.pre
        same = lambda q: And(fcnt(L, q) == fcnt(p, q), L.el('Zone.Faces', q) == p.el('Zone.Faces', q), L.n('Zone.Faces', q) == p.n('Zone.Faces', q))
        return [('faces moved', ForAll([f_], zone(L, f_) == If(seen[f_] >= 1, t, zone(p, f_)), patterns=[zone(L, f_)])),
                ('they are listed', ForAll([f_], fcnt(L, t)[f_] == seen[f_], patterns=[fcnt(L, t)[f_]])), ('their number', L.n('Zone.Faces', t) == L.k),
                ('and leave the zone', ForAll([f_], fcnt(L, z)[f_] == fcnt(p, z)[f_] - seen[f_], patterns=[fcnt(L, z)[f_]])),
                ('other zones', ForAll([z_], Implies(And(z_ != t, z_ != z), same(z_)), patterns=[fcnt(L, z_), L.n('Zone.Faces', z_), L.el('Zone.Faces', z_)]))]
    return inv


SPLIT = C('Grid.split_zone', {'self': G, 'zone': Z, 'extract_signs_funs': lambda ex: ex.new_list(CList([axis(h) for h in AXES]))}, requires=split_pre, ensures=split_post, modular=True,
          opts={'sorted_is_function': True, 'feas_ms': 80}, weight=9, setup=sort_setup, modifies=['Zone.@alloc', 'Grid.Zones', 'Zone.Faces', 'Face.Zone', 'Zone.IsFixed', 'Zone.Name', 'Zone.Id', 'Zone.Nodes', 'Zone.Edges'],
          loops=[LoopSpec('left', 'local', move_inv(0), nth=0), LoopSpec('right', 'local', move_inv(1), nth=1)])


# ---------------------------------------------------------------- level by level
def existing(s):
    return [('edges of the faces', ForAll([f_, j_], Implies(And(0 <= j_, j_ < s.n('Face.Edges', f_)), s.el('Face.Edges', f_)[j_] != null('Edge')), patterns=[s.el('Face.Edges', f_)[j_]])),
            ('faces of the edges', ForAll([e_, j_], Implies(And(0 <= j_, j_ < s.n('Edge.Faces', e_)), s.el('Edge.Faces', e_)[j_] != null('Face')), patterns=[s.el('Edge.Faces', e_)[j_]]))]


def fixing_pre(s):
    return distinct(s, 'Grid.Faces', 'Grid.Nodes', 'Grid.Edges') + links(s) + partition(s) + existing(s) + [
        ('faces exist', ForAll([f_], Implies(inF(s, f_), f_ != null('Face')), patterns=[s.cnt('Grid.Faces', s.self)[f_]])),
        ('zones exist', ForAll([z_], Implies(inZ(s, z_), z_ != null('Zone')), patterns=[s.cnt('Grid.Zones', s.self)[z_]]))]


def named(s, names, z):
    return s.lst(s.arg(names)).cnt[s.get('Zone', 'Name', z)] >= 1


def keeps(s, names):
    """Zones declared fixed stay in the grid with exactly their faces."""
    o = s.old
    fx = And(inZ(o, z_), named(o, names, z_))
    return [('fixed zones keep exactly their faces', ForAll([z_, f_], Implies(And(fx, inF(s, f_)), And(fcnt(s, z_)[f_] == fcnt(o, z_)[f_], (zone(s, f_) == z_) == (zone(o, f_) == z_))), patterns=[fcnt(s, z_)[f_]])),
            ('fixed zones stay in the grid', ForAll([z_], Implies(fx, inZ(s, z_)), patterns=[inZ(o, z_).arg(0)]))]


def fix_inv(names):
    return lambda L: [('zones seen are fixed when named', ForAll([z_], Implies(L.seen()[z_] >= 1, L.get('Zone', 'IsFixed', z_) == named(L.old, names, z_)), patterns=[L.get('Zone', 'IsFixed', z_)]))]


def rest_inv(L):
    """The faces without a zone go to the last zone of the grid."""
    h = L.el('Grid.Zones', L.self)[L.n('Grid.Zones', L.self) - 1]
    h = z3.simplify(h)
    p, seen = L.pre, L.seen()
    free = And(seen[f_] >= 1, zone(p, f_) == null('Zone'))
    same = lambda q: And(fcnt(L, q) == fcnt(p, q), L.n('Zone.Faces', q) == p.n('Zone.Faces', q))
    return [('faces dealt with have a zone', ForAll([f_], zone(L, f_) == If(free, h, zone(p, f_)), patterns=[zone(L, f_)])),
            ('they are listed', ForAll([f_], fcnt(L, h)[f_] == If(free, 1, 0), patterns=[fcnt(L, h)[f_]])),
            ('other zones', ForAll([z_], Implies(z_ != h, same(z_)), patterns=[fcnt(L, z_), L.n('Zone.Faces', z_)]))]


def level_inv(names):
    return lambda L: partition(L) + keeps(L, names) + [
        ('there are zones', L.n('Grid.Zones', L.self) >= 1),
        ('zones exist', ForAll([z_], Implies(inZ(L, z_), And(z_ != null('Zone'), L.H('Zone.@alloc')[z_])), patterns=[L.cnt('Grid.Zones', L.self)[z_]])),
        ('fixed zones are marked', ForAll([z_], Implies(And(inZ(L.old, z_), named(L.old, names, z_)), L.get('Zone', 'IsFixed', z_)), patterns=[inZ(L.old, z_).arg(0)]))]


NEWMODS = sorted({x for x in FRAME + SPLIT.modifies if not x.endswith('@alloc')})
HIER = C('Grid.decompose_hierarchical', dict({'self': G, 'extract_signs_funs': lambda ex: ex.new_list(CList([axis(h) for h in AXES])), 'levels': 'Int', 'fixed_zones': ('List', 'Str')}, **NAME),
         requires=fixing_pre, ensures=lambda s: partition(s) + keeps(s, 'fixed_zones'), frame=NEWMODS, raises={'Exception': lambda s: s.levels < 1},
         loops=[LoopSpec('ids', 'Grid.Zones', lambda L: []), LoopSpec('fix', 'Grid.Zones', fix_inv('fixed_zones'), nth=0), LoopSpec('unlink', 'Grid.Faces', unlink_inv, nth=0),
                LoopSpec('rest', 'Grid.Faces', rest_inv, nth=1), LoopSpec('check', 'Grid.Faces', check_inv, nth=2),
                LoopSpec('levels', 'range', level_inv('fixed_zones')), LoopSpec('zones of a level', 'range', level_inv('fixed_zones'), inside='levels')])


# ---------------------------------------------------------------- along breadth-first paths
from . import c21
UC = lambda s: z3.Function('faces_without_zone', z3.ArraySort(FACE, ref_sort('Zone')), FBAG, I)(s.H('Face.Zone'), s.cnt('Grid.Faces', s.self))
UCf = z3.Function('faces_without_zone', z3.ArraySort(FACE, ref_sort('Zone')), FBAG, I)


def without(s):
    return And(inF(s, f_), zone(s, f_) == null('Zone'))


def cardinality(ex, vals):
    """The number of faces of the grid that have no zone (mathematics of finite sets, trusted)."""
    from pydv.contract import View
    s = View(ex, ex.st, vals)
    c = s.cnt('Grid.Faces', s.self)
    h, x = z3.Const('h', s.H('Face.Zone').sort()), const('x', 'Zone')
    new = z3.Store(h, f_, x)
    b = z3.Const('b', FBAG)
    d = z3.Function('bags_differ_at', h.sort(), FBAG, FBAG, FACE)(h, c, b)
    ex.st.pc += [ForAll([h], UCf(h, c) >= 0, patterns=[UCf(h, c)]),
                 ForAll([h, f_, x], Implies(And(c[f_] >= 1, h[f_] == null('Zone'), x != null('Zone')), UCf(new, c) == UCf(h, c) - 1), patterns=[UCf(new, c)]),
                 ForAll([h, b], Or(c21.CARD(b) == UCf(h, c), b[d] != If(And(c[d] >= 1, h[d] == null('Zone')), 1, 0)), patterns=[z3.MultiPattern(c21.CARD(b), UCf(h, c))]),
                 ForAll([h, f_], Implies(And(UCf(h, c) == 0, c[f_] >= 1), h[f_] != null('Zone')), patterns=[z3.MultiPattern(UCf(h, c), h[f_])])]


MASKED = z3.Function('sizes_of_fixed', z3.ArraySort(I, ref_sort('Zone')), z3.ArraySort(ref_sort('Zone'), z3.BoolSort()), z3.ArraySort(ref_sort('Zone'), I), z3.ArraySort(I, I))


def in_fixed(s):
    """Sum of the sizes of the fixed zones of the grid."""
    return lib.psum(I)(MASKED(s.el('Grid.Zones', s.self), s.H('Zone.IsFixed'), s.H('Zone.Faces#len')), s.n('Grid.Zones', s.self))


def mask_setup(ex, vals):
    from pydv.contract import View
    s = View(ex, ex.st, vals)
    e, fx, ln = s.el('Grid.Zones', s.self), s.H('Zone.IsFixed'), s.H('Zone.Faces#len')
    m = MASKED(e, fx, ln)
    a, b = z3.Consts('a b', z3.ArraySort(I, I))
    P = lib.psum(I)
    d = z3.Function('sums_differ_at', a.sort(), b.sort(), I, I)(a, b, k_)
    ex.st.pc += [ForAll([k_], m[k_] == If(fx[e[k_]], ln[e[k_]], 0), patterns=[m[k_]]),
                 ForAll([a, b, k_], Or(P(a, k_) == P(b, k_), And(0 <= d, d < k_, a[d] != b[d])), patterns=[z3.MultiPattern(P(a, k_), P(b, k_))])]


def fixed_only(s):
    """Faces that have a zone are in a fixed zone of the grid; fixed zones list just their faces."""
    fx = lambda z: And(inZ(s, z), s.get('Zone', 'IsFixed', z))
    return distinct(s, 'Grid.Zones', 'Grid.Faces') + [
        ('faces with a zone are in a fixed one', ForAll([f_], Implies(And(inF(s, f_), zone(s, f_) != null('Zone')), And(fx(zone(s, f_)), fcnt(s, zone(s, f_))[f_] == 1)), patterns=[zone(s, f_)])),
        ('fixed zones list only their own faces', ForAll([z_, f_], Implies(And(fx(z_), fcnt(s, z_)[f_] >= 1), And(inF(s, f_), zone(s, f_) == z_)), patterns=[fcnt(s, z_)[f_]]))]


INFIXED = C('Grid.faces_count_in_fixed_zones', {'self': G}, requires=fixed_only, setup=mask_setup, modular=True, result='Int', opts={'filter_sum': True},
            ensures=lambda s: [('the sum of the sizes of the fixed zones', s.result == in_fixed(s))],
            lemmas=lambda s: [('faces with and without a zone', in_fixed(s) + UC(s) == s.n('Grid.Faces', s.self))])


def far_pre(s):
    return fixing_pre(s) + c21.mesh_ok(s) + [('count', s.count >= 1), ('there are faces', s.n('Grid.Faces', s.self) >= 1)]


def far_create(L):
    g, p = L.self, L.pre
    e, n, n0 = L.el('Grid.Zones', g), L.n('Grid.Zones', g), p.n('Grid.Zones', g)
    cnt, cnt0 = L.cnt('Grid.Zones', g), p.cnt('Grid.Zones', g)
    old = L.old.H('Zone.@alloc')
    return [('zones so far', n == n0 + L.k), ('fixed zones first', ForAll([i_], Implies(And(0 <= i_, i_ < n0), e[i_] == p.el('Grid.Zones', g)[i_]), patterns=[e[i_]])),
            ('then new empty ones', ForAll([i_], Implies(And(n0 <= i_, i_ < n), And(fresh_zone(L, e[i_]), L.H('Zone.@alloc')[e[i_]])), patterns=[e[i_]])),
            ('new zones are empty', ForAll([z_], Implies(And(inZ(L, z_), Not(old[z_])), And(L.n('Zone.Faces', z_) == 0, Not(L.get('Zone', 'IsFixed', z_)), z_ != null('Zone'))), patterns=[cnt[z_]])),
            ('they are distinct', ForAll([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ < n), e[i_] != e[j_]), patterns=[z3.MultiPattern(e[i_], e[j_])])),
            ('zones are listed once', ForAll([z_], And(cnt[z_] <= 1, Implies(old[z_], cnt[z_] == cnt0[z_])), patterns=[cnt[z_]])),
            ('old zones untouched', ForAll([z_], Implies(old[z_], And(fcnt(L, z_) == fcnt(p, z_), L.n('Zone.Faces', z_) == p.n('Zone.Faces', z_), L.el('Zone.Faces', z_) == p.el('Zone.Faces', z_),
                                                                     L.get('Zone', 'IsFixed', z_) == p.get('Zone', 'IsFixed', z_))), patterns=[fcnt(L, z_), L.n('Zone.Faces', z_), L.get('Zone', 'IsFixed', z_)]))]


def far_sizes(L, fc):
    q = fc / L.count
    r = fc - L.count * q
    return (lambda i: If(i < r, q + 1, q)), (lambda i: i * q + If(i < r, i, r))


def far_state(L, p):
    """Faces that had a zone before the distribution keep it; the others have none or one of the zones of the grid."""
    return [('assigned faces keep their zone', ForAll([f_], Implies(zone(p, f_) != null('Zone'), zone(L, f_) == zone(p, f_)), patterns=[zone(L, f_)])),
            ('a face has no zone or is listed once in a zone of the grid', ForAll([f_], Implies(inF(L, f_), Or(zone(L, f_) == null('Zone'), And(inZ(L, zone(L, f_)), fcnt(L, zone(L, f_))[f_] == 1))), patterns=[zone(L, f_)])),
            ('zones list only their own faces', ForAll([z_, f_], Implies(And(inZ(L, z_), fcnt(L, z_)[f_] >= 1), And(inF(L, f_), zone(L, f_) == z_)), patterns=[fcnt(L, z_)[f_]])),
            ('fixed zones unchanged', ForAll([z_], Implies(L.get('Zone', 'IsFixed', z_), And(fcnt(L, z_) == fcnt(p, z_), L.n('Zone.Faces', z_) == p.n('Zone.Faces', z_))), patterns=[fcnt(L, z_), L.n('Zone.Faces', z_)]))]


def zlist(s):
    return z3.simplify(s.el('Grid.Zones', s.self)), z3.simplify(s.n('Grid.Zones', s.self))


def far_inv(L):
    p = L.pre
    g = L.self
    e, n = zlist(L)
    fz = z3.simplify(n - L.count)
    size, start = far_sizes(L, UC(p))
    zs = L.lst(L.loc('zone_sizes'), 'Int')
    return far_state(L, p) + [
        ('new zones are not fixed', ForAll([j_], Implies(And(fz <= j_, j_ < n), And(e[j_] != null('Zone'), inZ(L, e[j_]), Not(L.get('Zone', 'IsFixed', e[j_])))), patterns=[e[j_]])),
        ('faces left', UC(L) == UC(p) - start(L.k)), ('start is a face of the grid', inF(L, L.loct('start'))),
        ('zones hold their shares', ForAll([j_], Implies(And(fz <= j_, j_ < fz + L.k), L.n('Zone.Faces', e[j_]) == zs.el[j_ - fz]), patterns=[e[j_]])),
        ('zones to come are empty', ForAll([j_], Implies(And(fz + L.k <= j_, j_ < n), L.n('Zone.Faces', e[j_]) == 0), patterns=[e[j_]]))]


def far_in(L):
    p, g, k = L.pre, L.self, L.ks[-1]
    e, n = zlist(L)
    me = z3.simplify(e[n - L.count + k])
    path = L.lst(L.loc('path'), F)
    same = lambda q: And(fcnt(L, q) == fcnt(p, q), L.n('Zone.Faces', q) == p.n('Zone.Faces', q))
    return [('this zone', And(me != null('Zone'), inZ(L, me), Not(L.get('Zone', 'IsFixed', me)))), ('faces taken', ForAll([i_], Implies(And(0 <= i_, i_ < path.n), zone(L, path.el[i_]) == If(i_ < L.k, me, null('Zone'))), patterns=[path.el[i_]])),
            ('other faces', ForAll([f_], Implies(Not(And(inF(L, f_), zone(p, f_) == null('Zone'))), zone(L, f_) == zone(p, f_)), patterns=[zone(L, f_)])),
            ('a face of the path has this zone or none', ForAll([f_], Implies(And(inF(L, f_), zone(p, f_) == null('Zone')), Or(zone(L, f_) == me, zone(L, f_) == null('Zone'))), patterns=[zone(L, f_)])),
            ('they are listed', ForAll([f_], fcnt(L, me)[f_] == If(And(inF(L, f_), zone(L, f_) == me), 1, 0), patterns=[fcnt(L, me)[f_], zone(L, f_)])),
            ('their number', L.n('Zone.Faces', me) == L.k), ('faces left', UC(L) == UC(p) - L.k),
            ('other zones', ForAll([z_], Implies(z_ != me, same(z_)), patterns=[fcnt(L, z_), L.n('Zone.Faces', z_)]))]


def far_post(s):
    g, o = s.self, s.old
    e, n = zlist(s)
    a, b = [s.n('Zone.Faces', e[x]) for x in (i_, j_)]
    rng = And(n - s.count <= i_, i_ < j_, j_ < n)
    return partition(s) + keeps(s, 'fz_names') + [
        ('as many new zones as asked for', And(n >= s.count, ForAll([i_], Implies(And(n - s.count <= i_, i_ < n), Not(o.H('Zone.@alloc')[e[i_]])), patterns=[e[i_]]))),
        ('the rest are the fixed zones', ForAll([i_], Implies(And(0 <= i_, i_ < n - s.count), And(inZ(o, e[i_]), named(o, 'fz_names', e[i_]))), patterns=[e[i_]])),
        ('their sizes differ by at most one', ForAll([i_, j_], Implies(rng, And(b <= a, a <= b + 1)), patterns=[z3.MultiPattern(e[i_], e[j_])]))]


FARHAT = C('Grid.decompose_farhat', dict({'self': G, 'count': 'Int', 'fz_names': ('List', 'Str')}, **NAME), requires=far_pre, ensures=far_post, setup=cardinality, opts={'unique_index': True},
           frame=sorted(set(FRAME) | {'Face.bfs_mark'}),
           loops=[LoopSpec('ids', 'Grid.Zones', lambda L: []), LoopSpec('fix', 'Grid.Zones', fix_inv('fz_names'), nth=0), LoopSpec('unlink', 'Grid.Faces', unlink_inv, nth=0),
                  LoopSpec('faces of a zone', 'range', far_in, inside='zones', nth=0), LoopSpec('create', 'range', far_create, nth=0), LoopSpec('zones', 'range', far_inv, nth=1),
                  LoopSpec('check', 'Grid.Faces', check_inv, nth=1)])
FAR = [c21.COMP, c21.NEXT, c21.PATH, INFIXED, FARHAT]
CONTRACTS = [LINK, LINEAR, metric('first'), SPLIT] + FAR
ABOUT = {'level_note': 'decompose_linear (contiguous runs, sizes differ by at most one), split_zone (halves by the median of the axis with the fewest crossings, sizes differ by at most one) and decompose_farhat (sizes differ by at most one, as many zones as asked for, fixed zones kept) are proved for every mesh; contiguity of the regions Farhat grows and the number of levels of the hierarchical split are bounded.',
         'bounded': ['the level structure of the hierarchical decomposition', 'growth of Farhat regions along shared edges beyond the contract of bfs_path'],
         'trusted': ['sorting yields an ordered permutation and looks only at the keys of the listed faces', 'number of faces not assigned yet is a finite cardinality', 'double counting of the faces of the fixed zones', 'the length of a list of distinct faces is the size of its set']}
