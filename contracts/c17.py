from .common import *
from pydv import text as X
from .c16 import title, variables, zone as header, meta, counts, header_ok, NR, ER

M = 'gsu_converter.'
T = ('Sort', X.TEXT)
r = lambda c: ref(M + c)
SCHEMA = {M + 'Vector': {'X': 'Real', 'Y': 'Real', 'Z': 'Real'},
          M + 'Node': {'Id': 'Int', 'Point': r('Vector'), 'HTC': 'Real', 'Beta': 'Real', 'Tau': r('Vector'), 'RecoveryFactor': 'Real'},
          M + 'Face': {'Nodes': ('List', r('Node')), 'HTC': 'Real', 'Beta': 'Real', 'Tau': r('Vector'), 'RecoveryFactor': 'Real'},
          M + 'Zone': {'Title': T, 'Nodes': ('List', r('Node')), 'Faces': ('List', r('Face'))},
          M + 'Grid': {'Zones': ('List', r('Zone'))}}
OPTS = {'text': True}
C = Contract
I = z3.IntSort()
kc = lambda n, c: z3.Const(n, ref_sort(M + c))
f_, z_, n_, g_, v_ = kc('f', 'Face'), kc('z', 'Zone'), kc('n', 'Node'), kc('g', 'Grid'), kc('v', 'Vector')
p_, q_, i_, j_ = z3.Int('p'), z3.Int('q'), z3.Int('i'), z3.Int('j')
NULL = lambda c: null(M + c)
FIX = {'fixed': {M + 'Face.Nodes': [3]}}


def get(s, c, f, o):
    return s.get(M + c, f, o)


def el(s, k, o):
    return s.el(M + k, o)


def ln(s, k, o):
    return s.n(M + k, o)


def cnt(s, k, o):
    return s.cnt(M + k, o)


# ---------------------------------------------------------------- averages
SCAL = ['HTC', 'Beta', 'RecoveryFactor']


def averaged(s, o, f):
    """Every quantity of face f is the mean over its three corners (of the state o)."""
    ns = [el(o, 'Face.Nodes', f)[k] for k in range(3)]
    out = [3 * get(s, 'Face', q, f) == sum(get(o, 'Node', q, n) for n in ns) for q in SCAL]
    t = get(s, 'Face', 'Tau', f)
    out += [3 * get(s, 'Vector', c, t) == sum(get(o, 'Vector', c, get(o, 'Node', 'Tau', n)) for n in ns) for c in 'XYZ']
    return And(out + [s.H(M + 'Vector.@alloc')[t], t != NULL('Vector')])


def same(s, o, f):
    return And([get(s, 'Face', q, f) == get(o, 'Face', q, f) for q in SCAL + ['Tau']])


def avg_pre(s):
    return [('faces have three corners', ForAll([f_], And([ln(s, 'Face.Nodes', f_) == 3] + [el(s, 'Face.Nodes', f_)[k] != NULL('Node') for k in range(3)]), patterns=[ln(s, 'Face.Nodes', f_)])),
            ('nodes have a shear vector', ForAll([n_], And(get(s, 'Node', 'Tau', n_) != NULL('Vector'), s.H(M + 'Vector.@alloc')[get(s, 'Node', 'Tau', n_)]), patterns=[get(s, 'Node', 'Tau', n_)]))]


def pats(s, f):
    return [get(s, 'Face', q, f) for q in SCAL + ['Tau']]


def zones_done(s, o, zs):
    return [('faces of the zones dealt with are averaged', ForAll([z_, f_], Implies(And(zs[z_] >= 1, cnt(o, 'Zone.Faces', z_)[f_] >= 1), averaged(s, o, f_)), patterns=[z3.MultiPattern(cnt(o, 'Zone.Faces', z_)[f_], zs[z_])]))]


def vect_kept(s, o):
    old = o.H(M + 'Vector.@alloc')
    return [('shear vectors of the nodes are not touched', ForAll([v_], Implies(old[v_], And([get(s, 'Vector', c, v_) == get(o, 'Vector', c, v_) for c in 'XYZ'] + [s.H(M + 'Vector.@alloc')[v_]])),
                                                                  patterns=[get(s, 'Vector', c, v_) for c in 'XYZ'] + [s.H(M + 'Vector.@alloc')[v_]]))]


def avg_zones(L):
    return zones_done(L, L.old, L.seen()) + vect_kept(L, L.old)


def avg_faces(L):
    se = L.seen()
    return [
        ('faces dealt with are averaged', ForAll([f_], Implies(se[f_] >= 1, averaged(L, L.old, f_)), patterns=[se[f_]])),
        ('an averaged face stays so', ForAll([f_], Implies(averaged(L.pre, L.old, f_), averaged(L, L.old, f_)), patterns=pats(L, f_)))] + vect_kept(L, L.old)


def avg_post(s):
    return zones_done(s, s.old, cnt(s.old, 'Grid.Zones', s.self))


# ---------------------------------------------------------------- reading a quadrilateral file
ZC = z3.Function('zones_before_line', I, I)                  # zones opened by the lines before p
NB = z3.Function('nodes_of_zone_before_line', I, I)          # nodes / triangles of the current zone before line p
FB = z3.Function('faces_of_zone_before_line', I, I)
NTOT = z3.Function('nodes_of_zone', I, I)                    # nodes / triangles of zone k
FTOT = z3.Function('faces_of_zone', I, I)
NODE = ref_sort(M + 'Node')
CORN = z3.ArraySort(I, NODE)
ONE = z3.Function('triangle_of_corners', CORN, NODE, NODE, NODE, NODE, z3.BoolSort())
TWO = z3.Function('two_triangles_of_corners', CORN, CORN, NODE, NODE, NODE, NODE, z3.BoolSort())


def pieces(l):
    return X.SPLIT(l, X.BLANKS)


def corner_numbers(l):
    return [X.INT(pieces(l)[k]) for k in range(4)]


def quad(l):
    return z3.Distinct(*corner_numbers(l))


def cyc(x, a, b, c):
    """The corners of x are a, b, c in this cyclic order."""
    return Or([And([x[(k + s) % 3] == v for k, v in enumerate((a, b, c))]) for s in range(3)])


def splitting():
    """Definitions: what the triangles of an element are (either diagonal, either triangle first)."""
    x, y = z3.Const('x', CORN), z3.Const('y', CORN)
    a, b, c, d = [z3.Const(k, NODE) for k in 'abcd']
    one = lambda u: And([Or([u[k] == v for v in (a, b, c, d)]) for k in range(3)])
    exact = [Implies(And(a == b, z3.Distinct(a, c, d)), cyc(x, a, c, d)), Implies(And(b == c, z3.Distinct(a, b, d)), cyc(x, a, b, d)),
             Implies(And(c == d, z3.Distinct(a, b, c)), cyc(x, a, b, c)), Implies(And(d == a, z3.Distinct(a, b, c)), cyc(x, a, b, c)),
             # a corner met twice on the way round: the order of the other two is free
             Implies(And(a == c, z3.Distinct(a, b, d)), Or(cyc(x, a, b, d), cyc(x, a, d, b))), Implies(And(b == d, z3.Distinct(a, b, c)), Or(cyc(x, a, b, c), cyc(x, a, c, b)))]
    pair = lambda p, q: Or(And(p(x), q(y)), And(p(y), q(x)))
    two = Or(pair(lambda u: cyc(u, a, b, c), lambda u: cyc(u, a, c, d)), pair(lambda u: cyc(u, a, b, d), lambda u: cyc(u, b, c, d)))
    return [ForAll([x, a, b, c, d], ONE(x, a, b, c, d) == And([one(x)] + exact), patterns=[ONE(x, a, b, c, d)]),
            ForAll([x, y, a, b, c, d], TWO(x, y, a, b, c, d) == two, patterns=[TWO(x, y, a, b, c, d)])]


def load_pre(s):
    name = s.filename
    l, n = X.LINE(name, p_), X.NLINES(name)
    rng = And(0 <= p_, p_ < n)
    a, b = counts(l)
    hd = And(Not(title(l)), Not(variables(l)), header(l))
    node = And(Not(meta(l)), NR(p_) > 0)
    elem = And(Not(meta(l)), NR(p_) <= 0, ER(p_) > 0)
    tail = X.SPLIT(l, L_('T='))[1]
    return [('def', f) for f in (
        NR(0) == 0, ER(0) == 0, ZC(0) == 0, NB(0) == 0, FB(0) == 0,
        ForAll([p_], Implies(rng, And(
            NR(p_ + 1) == If(hd, a, If(node, NR(p_) - 1, NR(p_))), ER(p_ + 1) == If(hd, b, If(elem, ER(p_) - 1, ER(p_))),
            ZC(p_ + 1) == If(hd, ZC(p_) + 1, ZC(p_)), NB(p_ + 1) == If(hd, 0, If(node, NB(p_) + 1, NB(p_))),
            FB(p_ + 1) == If(hd, 0, If(elem, If(quad(l), FB(p_) + 2, FB(p_) + 1), FB(p_))),
            Implies(hd, And(NTOT(ZC(p_) - 1) == NB(p_), FTOT(ZC(p_) - 1) == FB(p_))))), patterns=[l]),
        NTOT(ZC(n) - 1) == NB(n), FTOT(ZC(n) - 1) == FB(n), *splitting())] + [
        ('zone headers have counts and a title', ForAll([p_], Implies(And(rng, hd), And(header_ok(l), X.SPLITN(l, L_('T=')) >= 2, X.SPLITN(tail, L_('"')) >= 2)), patterns=[l])),
        ('node lines', ForAll([p_], Implies(And(rng, node), And([X.SPLITN(l, X.BLANKS) == 9] + [X.ISFLOAT(pieces(l)[k]) for k in range(3, 9)])), patterns=[l])),
        ('element lines', ForAll([p_], Implies(And(rng, elem), And([X.SPLITN(l, X.BLANKS) == 4] + [And(X.ISINT(pieces(l)[k]), 1 <= c, c <= NB(p_)) for k, c in enumerate(corner_numbers(l))])), patterns=[l])),
        ('a new grid', ln(s, 'Grid.Zones', s.self) == 0)]


def zone_at(s, k):
    return el(s, 'Grid.Zones', s.self)[k]


def loaded(s, q):
    """What the lines before q gave."""
    name = s.filename
    l = X.LINE(name, p_)
    rng = And(0 <= p_, p_ < q)
    hd = And(Not(title(l)), Not(variables(l)), header(l))
    node = And(Not(meta(l)), NR(p_) > 0)
    elem = And(Not(meta(l)), NR(p_) <= 0, ER(p_) > 0)
    z = zone_at(s, ZC(p_) - 1)
    nd = el(s, 'Zone.Nodes', z)[NB(p_)]
    coord = lambda k: If(X.ISFLOAT(pieces(l)[k]), X.FLOAT(pieces(l)[k]), z3.RealVal(0))
    at = lambda c, o: get(s, 'Vector', c, o)
    vals = [at(c, get(s, 'Node', 'Point', nd)) == coord(k) for k, c in enumerate('XYZ')] + \
           [get(s, 'Node', c, nd) == X.FLOAT(pieces(l)[k]) for k, c in ((3, 'HTC'), (4, 'Beta'), (8, 'RecoveryFactor'))] + \
           [at(c, get(s, 'Node', 'Tau', nd)) == X.FLOAT(pieces(l)[5 + k]) for k, c in enumerate('XYZ')]
    cs = [el(s, 'Zone.Nodes', z)[c - 1] for c in corner_numbers(l)]
    rev = s.is_reversed_normals
    cs = [If(rev, a, b) for a, b in zip(cs[::-1], cs)]
    x, y = [el(s, 'Face.Nodes', el(s, 'Zone.Faces', z)[FB(p_) + k]) for k in range(2)]
    pat = [l]
    return [('as many zones as headers', ln(s, 'Grid.Zones', s.self) == ZC(q)),
            ('titles', ForAll([p_], Implies(And(rng, hd), get(s, 'Zone', 'Title', zone_at(s, ZC(p_))) == X.SPLIT(X.SPLIT(l, L_('T='))[1], L_('"'))[1]), patterns=pat)),
            ('nodes', ForAll([p_], Implies(And(rng, node), And(vals)), patterns=pat)),
            ('quadrilaterals', ForAll([p_], Implies(And(rng, elem, quad(l)), TWO(x, y, *cs)), patterns=pat)),
            ('triangles', ForAll([p_], Implies(And(rng, elem, Not(quad(l))), ONE(x, *cs)), patterns=pat))]


def load_post(s):
    n = X.NLINES(s.filename)
    return loaded(s, n) + [
        ('nothing else in the zones', ForAll([i_], Implies(And(0 <= i_, i_ < ZC(n)), And(ln(s, 'Zone.Nodes', zone_at(s, i_)) == NTOT(i_), ln(s, 'Zone.Faces', zone_at(s, i_)) == FTOT(i_))), patterns=[zone_at(s, i_)])),
        ('nodes carry their position', ids(s))]


def ids(s):
    z = zone_at(s, i_)
    n = el(s, 'Zone.Nodes', z)[j_]
    return ForAll([i_, j_], Implies(And(0 <= i_, i_ < ln(s, 'Grid.Zones', s.self), 0 <= j_, j_ < ln(s, 'Zone.Nodes', z)), get(s, 'Node', 'Id', n) == j_), patterns=[n])


def load_inv(L):
    name = L.filename
    pos = zn(L.fld(L.loc('f'), 'pos'))
    q = pos - 1
    al = lambda c, o: And(L.H(M + c + '.@alloc')[o], o != NULL(c))
    nz = ln(L, 'Grid.Zones', L.self)
    z, w = zone_at(L, i_), zone_at(L, j_)
    n, f = el(L, 'Zone.Nodes', z)[j_], el(L, 'Zone.Faces', z)[j_]
    inz = And(0 <= i_, i_ < nz)
    inn = And(inz, 0 <= j_, j_ < ln(L, 'Zone.Nodes', z))
    inf = And(inz, 0 <= j_, j_ < ln(L, 'Zone.Faces', z))
    return [('position', And(pos >= 1, q <= X.NLINES(name), L.loct('l') == X.LINE(name, q))),
            ('counters', And(L.loct('nodes_to_read') == NR(q), L.loct('elements_to_read') == ER(q), ZC(q) >= 0, NB(q) >= 0, FB(q) >= 0, Implies(Or(NR(q) > 0, ER(q) > 0), ZC(q) >= 1))),
            ('zones are allocated', ForAll([i_], Implies(inz, al('Zone', z)), patterns=[z])),
            ('zones are distinct', ForAll([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ < nz), z != w), patterns=[z3.MultiPattern(z, w)])),
            ('nodes are allocated', ForAll([i_, j_], Implies(inn, And(al('Node', n), al('Vector', get(L, 'Node', 'Point', n)), al('Vector', get(L, 'Node', 'Tau', n)))), patterns=[n])),
            ('faces are allocated', ForAll([i_, j_], Implies(inf, al('Face', f)), patterns=[f])),
            ('ids', ids(L)),
            ('current zone', Implies(ZC(q) >= 1, And(ln(L, 'Zone.Nodes', zone_at(L, ZC(q) - 1)) == NB(q), ln(L, 'Zone.Faces', zone_at(L, ZC(q) - 1)) == FB(q)))),
            ('earlier zones', ForAll([i_], Implies(And(0 <= i_, i_ < ZC(q) - 1), And(ln(L, 'Zone.Nodes', z) == NTOT(i_), ln(L, 'Zone.Faces', z) == FTOT(i_))), patterns=[z])),
            ('where lines go', ForAll([p_], Implies(And(0 <= p_, p_ < q), And(0 <= ZC(p_), ZC(p_) <= ZC(q), 0 <= NB(p_), 0 <= FB(p_), place(L, name, q))), patterns=[X.LINE(name, p_)])),
            ] + loaded(L, q)


def place(s, name, q):
    """The lines of a zone lie within it."""
    l = X.LINE(name, p_)
    z = zone_at(s, ZC(p_) - 1)
    hd = And(Not(title(l)), Not(variables(l)), header(l))
    node = And(Not(meta(l)), NR(p_) > 0)
    elem = And(Not(meta(l)), NR(p_) <= 0, ER(p_) > 0)
    inn = lambda: And([c <= ln(s, 'Zone.Nodes', z) for c in corner_numbers(l)])
    return And(Implies(hd, ZC(p_) < ZC(q)), Implies(Or(node, elem), ZC(p_) >= 1), Implies(node, NB(p_) < ln(s, 'Zone.Nodes', z)),
               Implies(elem, And(FB(p_) + If(quad(l), 2, 1) <= ln(s, 'Zone.Faces', z), inn())))


L_ = X.lit
LOAD = C(M + 'Grid.LoadNodesData', {'self': r('Grid'), 'filename': T, 'is_reversed_normals': 'Bool'}, requires=load_pre, ensures=load_post,
         frame=[M + 'Grid.Zones'] + [M + 'Zone.' + k for k in ('Title', 'Nodes', 'Faces')] + [M + 'Node.' + k for k in SCHEMA[M + 'Node']] +
         [M + 'Face.' + k for k in SCHEMA[M + 'Face']] + [M + 'Vector.' + k for k in 'XYZ'],
         loops=[LoopSpec('lines', 'while', load_inv)])


# ---------------------------------------------------------------- writing the surface file
W0 = z3.Function('required_before_zone', I, X.TEXT)
WX = z3.Function('required_in_zone', I, I, I, X.TEXT)        # zone, block, items of the block
HEADLINE = 'VARIABLES="X", "Y", "Z", "HTC", "Beta", "TauX", "TauY", "TauZ", "RecoveryFactor"\n'
FMT = z3.Function('fmt_f_Real', z3.RealSort(), X.TEXT)
STR = z3.Function('fmt_str_Int', I, X.TEXT)
BLOCKS = [('Zone.Nodes', lambda s, n, c=c: get(s, 'Vector', c, get(s, 'Node', 'Point', n))) for c in 'XYZ'] + \
         [('Zone.Faces', lambda s, f, c=c: get(s, 'Face', c, f)) for c in ('HTC', 'Beta')] + \
         [('Zone.Faces', lambda s, f, c=c: get(s, 'Vector', c, get(s, 'Face', 'Tau', f))) for c in 'XYZ'] + \
         [('Zone.Faces', lambda s, f: get(s, 'Face', 'RecoveryFactor', f))]


def export_pre(s):
    k, j = i_, j_
    z = zone_at(s, k)
    head = X.cat(W0(k), 'ZONE T="', get(s, 'Zone', 'Title', z), '"\nNODES=', STR(ln(s, 'Zone.Nodes', z)), '\nELEMENTS=', STR(ln(s, 'Zone.Faces', z)),
                 '\nDATAPACKING=BLOCK\nZONETYPE=FETRIANGLE\nVARLOCATION=([4-9]=CELLCENTERED)\n')
    out = [W0(0) == X.cat(X.EMPTY, HEADLINE), ForAll([k], WX(k, 0, 0) == head, patterns=[z])]
    for m, (lst, val) in enumerate(BLOCKS):
        x = el(s, lst, z)[j]
        out += [ForAll([k, j], Implies(j >= 0, WX(k, m, j + 1) == X.cat(WX(k, m, j), FMT(val(s, x)), ' ')), patterns=[x]),
                ForAll([k], WX(k, m + 1, 0) == X.cat(WX(k, m, ln(s, lst, z)), '\n'), patterns=[z])]
    f = el(s, 'Zone.Faces', z)[j]
    ids = [STR(get(s, "Node", "Id", el(s, "Face.Nodes", f)[c]) + 1) for c in range(3)]
    out += [ForAll([k, j], Implies(j >= 0, WX(k, 9, j + 1) == X.cat(WX(k, 9, j), ids[0], ' ', ids[1], ' ', ids[2], '\n')), patterns=[f]),
            ForAll([k], W0(k + 1) == WX(k, 9, ln(s, 'Zone.Faces', z)), patterns=[z])]
    return [('def', f) for f in out] + avg_pre(s) + [
        ('nodes have a place', ForAll([n_], get(s, 'Node', 'Point', n_) != NULL('Vector'), patterns=[get(s, 'Node', 'Point', n_)])),
        ('faces have a shear vector', ForAll([f_], get(s, 'Face', 'Tau', f_) != NULL('Vector'), patterns=[get(s, 'Face', 'Tau', f_)]))]


def out_is(L, t):
    return [('output so far', L.fld(L.loc('fl'), 'out') == t)]


def block(m):
    """Items of block m of the zone at hand: its number is the number of zones written before."""
    return lambda L: out_is(L, WX(L.ks[-1], m, L.k))


EXPORT = C(M + 'Grid.Export', {'self': r('Grid'), 'filename': T}, opts=FIX, requires=export_pre, frame=[],
           ensures=lambda s: [('one file is written', z3.BoolVal(X.nwritten(s) == 1)), ('the output file', s.st.ghost['written'][0][0] == s.filename),
                              ('the output is the required one', X.written(s) == W0(ln(s, 'Grid.Zones', s.self)))],
           loops=[LoopSpec('zones', M + 'Grid.Zones', lambda L: out_is(L, W0(L.k)))] +
           [LoopSpec('block %d' % m, M + b, block(m), nth=sum(1 for x, _ in BLOCKS[:m] if x == b), inside='zones') for m, (b, _) in enumerate(BLOCKS)] +
           [LoopSpec('connectivity', M + 'Zone.Faces', block(9), nth=6, inside='zones')])


CONTRACTS = [LOAD, EXPORT,
    C(M + 'Grid.ConvertDataFromNodesToFaces', {'self': r('Grid')}, opts=FIX, requires=avg_pre, ensures=avg_post,
      frame=[M + 'Face.' + q for q in SCAL + ['Tau']] + [M + 'Vector.X', M + 'Vector.Y', M + 'Vector.Z'],
      loops=[LoopSpec('zones', M + 'Grid.Zones', avg_zones), LoopSpec('faces', M + 'Zone.Faces', avg_faces, inside='zones')]),
]
ABOUT = {'level_note': 'Loading (every element of every quadrilateral file, both orientations), averaging and export are proved over whole files; numbers in the exported text are the %f rendering of the values (its six decimals are assumed of Python).',
         'bounded': ['the executable script around the converter, malformed files'],
         'trusted': ['text operations are functions of their arguments', 're.findall of a digit run yields numbers', 'a file is a finite sequence of non-empty lines followed by empty ones',
                     '%f renders a number to six decimals']}
