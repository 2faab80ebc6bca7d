from .common import *
from pydv import text as X

SCHEMA = X.text_schema(mesh())
OPTS = {'text': True}
C = Contract
T = ('Sort', X.TEXT)
MOD = 'convert.ansys_to_crystal:'
I = z3.IntSort()
p_, i_, j_ = z3.Int('p'), z3.Int('i'), z3.Int('j')
l_ = z3.Const('l', X.TEXT)
L_ = X.lit


# ---------------------------------------------------------------- what a line is
def title(l):
    return X.HAS(l, L_('TITLE'))


def variables(l):
    return X.HAS(l, L_('VARIABLES'))


def zone(l):
    return X.HAS(l, L_('ZONE'))


def meta(l):
    return Or(title(l), variables(l), zone(l))


def counts(l):
    """Node and element counts of a zone header: the first two numbers after N=."""
    tail = X.SPLIT(l, L_('N='))[1]
    return [X.INT(X.FINDALL(X.DIGITS, tail)[k]) for k in range(2)]


def header_ok(l):
    tail = X.SPLIT(l, L_('N='))[1]
    return And(X.SPLITN(l, L_('N=')) >= 2, X.FINDALLN(X.DIGITS, tail) >= 2)


REQ = z3.Function('requested', X.TEXT, z3.BoolSort())        # the header names a requested zone
WHICH = z3.Function('requested_by', X.TEXT, I)
NR = z3.Function('node_lines_left', I, I)                    # before line n: node lines of the current zone still to come
ER = z3.Function('element_lines_left', I, I)
WANT = z3.Function('wanted_output', I, X.TEXT)               # required output for the lines before n


def zone_text(z):
    return X.cat(X.cat(L_('T'), '="'), z, '"')


def req_setup(ex, vals):
    """REQ(l): some requested zone is named in l."""
    from pydv.contract import View
    zs = View(ex, ex.st, vals).lst(vals['global:zones_to_extract'])
    n, el = zs.n, zs.el
    w = WHICH(l_)
    ex.st.pc += [ForAll([l_], Implies(REQ(l_), And(0 <= w, w < n, X.HAS(l_, zone_text(el[w])))), patterns=[REQ(l_)]),
                 ForAll([l_, i_], Implies(And(0 <= i_, i_ < n, X.HAS(l_, zone_text(el[i_]))), REQ(l_)), patterns=[X.HAS(l_, zone_text(el[i_]))])]


def is_text(f):
    return lambda s: [('the line kind', zb(s.result) == f(s.s))]


KINDS = [C(MOD + 'is_str_zone_to_extract', {'s': T, 'global:zones_to_extract': ('List', T)}, setup=req_setup, modular=True, result='Bool',
           ensures=is_text(lambda l: And(zone(l), REQ(l))),
           loops=[LoopSpec('zones', 'local', lambda L: [('no requested zone so far', ForAll([i_], Implies(And(0 <= i_, i_ < L.k), Not(X.HAS(L.s, zone_text(L.src.el[i_])))), patterns=[X.HAS(L.s, zone_text(L.src.el[i_]))]))])])]


def reading(s, name, zones, node):
    """Line by line meaning of a solution file: which lines are header, node and element lines, and the required output.

    zones(l): the zone of header l is wanted; node(t, p): output t extended by node line p."""
    l = X.LINE(name, p_)
    nx = z3.simplify(p_ + 1)
    nr, er = NR(p_), ER(p_)
    return l, nx, nr, er


def wf(s, name, n):
    """Headers come after all lines of the zone before; zone headers have both counts."""
    l = X.LINE(name, p_)
    rng = And(0 <= p_, p_ < n)
    return [('zones are complete', ForAll([p_], Implies(And(rng, meta(l)), And(NR(p_) <= 0, ER(p_) <= 0)), patterns=[l])),
            ('zone headers have counts', ForAll([p_], Implies(And(rng, zone(l)), header_ok(l)), patterns=[l]))]


def define(name, wanted, on_title, on_vars, on_zone, on_node):
    """Definitions by recursion over the lines of a file."""
    l = X.LINE(name, p_)
    a, b = counts(l)
    take = And(Not(title(l)), Not(variables(l)), zone(l), wanted(l))
    data = And(Not(meta(l)), NR(p_) > 0)
    elem = And(Not(meta(l)), NR(p_) <= 0, ER(p_) > 0)
    w = WANT(p_)
    nxt = If(title(l), on_title(w, l), If(variables(l), on_vars(w, l), If(zone(l), If(wanted(l), on_zone(w, l), w),
             If(NR(p_) > 0, on_node(w, l, p_), If(ER(p_) > 0, X.cat(w, l), w)))))
    return [('def', f) for f in (
        NR(0) == 0, ER(0) == 0, WANT(0) == X.EMPTY,
        ForAll([p_], Implies(p_ >= 0, And(NR(p_ + 1) == If(take, a, If(data, NR(p_) - 1, NR(p_))), ER(p_ + 1) == If(take, b, If(elem, ER(p_) - 1, ER(p_))),
                                          WANT(p_ + 1) == nxt)), patterns=[l]))]


copy = lambda w, l, *_: X.cat(w, l)


def output(s, name, n):
    return [('one file is written', z3.BoolVal(X.nwritten(s) == 1)), ('the output file', s.st.ghost['written'][0][0] == s.ofilename),
            ('the output is the required one', X.written(s) == WANT(n))]


def inv(L, name, extra=()):
    """Before each round the current line is the one after the lines dealt with."""
    pos = zn(L.fld(L.loc('f'), 'pos'))
    out = L.fld(L.loc('of'), 'out')
    p = pos - 1
    n = X.NLINES(name)
    return [('position', And(pos >= 1, p <= n, L.loct('l') == X.LINE(name, p))),
            ('counters', And(L.loct('nodes_to_read') == NR(p), L.loct('elements_to_read') == ER(p))),
            ('output so far', out == WANT(p))]


TXT2 = {'filename': T, 'ofilename': T}
ZD = lambda s: define(s.filename, REQ, copy, copy, copy, copy)
CONTRACTS = KINDS + [
    C(MOD + 'filter_zones', dict(TXT2), requires=lambda s: ZD(s) + wf(s, s.filename, X.NLINES(s.filename)),
      ensures=lambda s: output(s, s.filename, X.NLINES(s.filename)), frame=[],
      loops=[LoopSpec('lines', 'while', lambda L: inv(L, L.filename))]),
]

# ---------------------------------------------------------------- three files into one
MERGED = 'VARIABLES = "X", "Y", "Z", "Flux", "Beta", "TauX", "TauY", "TauZ", "Ts", "StatT"\n'
COLUMNS = [('f', 0), ('f', 1), ('f', 2), ('f', 7), ('d', 3), ('f', 4), ('f', 5), ('f', 6), ('f', 3), ('a', 3)]


def merged_line(s):
    def node(w, l, p):
        src = {c: X.SPLIT(X.LINE(n, p), X.BLANKS) for c, n in (('f', s.ffilename), ('d', s.dfilename), ('a', s.afilename))}
        ps = []
        for c, k in COLUMNS:
            ps += ([' '] if ps else []) + [src[c][k]]
        return X.cat(w, *(ps + ['\n']))
    return node


def merge_pre(s):
    n, l = X.NLINES(s.ffilename), X.LINE(s.ffilename, p_)
    wide = And([X.SPLITN(X.LINE(nm, p_), X.BLANKS) >= k for nm, k in ((s.ffilename, 8), (s.dfilename, 4), (s.afilename, 4))])
    return define(s.ffilename, lambda l: z3.BoolVal(True), copy, lambda w, l: X.cat(w, MERGED), copy, merged_line(s)) + wf(s, s.ffilename, n) + [
        ('node lines have their columns', ForAll([p_], Implies(And(0 <= p_, p_ < n, Not(meta(l)), NR(p_) > 0), wide), patterns=[l]))]


def merge_inv(L):
    pos = zn(L.fld(L.loc('ff'), 'pos'))
    p = pos - 1
    return [('position', And(pos >= 1, p <= X.NLINES(L.ffilename))),
            ('current lines', And([L.loct(v) == X.LINE(nm, p) for v, nm in (('fl', L.ffilename), ('dl', L.dfilename), ('al', L.afilename))])),
            ('files in step', And([zn(L.fld(L.loc(f), 'pos')) == pos for f in ('df', 'af')])),
            ('counters', And(L.loct('nodes_to_read') == NR(p), L.loct('elements_to_read') == ER(p))),
            ('output so far', L.fld(L.loc('of'), 'out') == WANT(p))]


CONTRACTS += [
    C(MOD + 'merge_fensap_drop3d_adiabatic', {n: T for n in ('ffilename', 'dfilename', 'afilename', 'ofilename')}, requires=merge_pre,
      ensures=lambda s: output(s, s.ffilename, X.NLINES(s.ffilename)), frame=[], loops=[LoopSpec('lines', 'while', merge_inv)]),
]

# ---------------------------------------------------------------- recovery factor and heat transfer coefficient
HTCVARS = 'VARIABLES = "X", "Y", "Z", "HTC", "Beta", "TauX", "TauY", "TauZ", "RecoveryFactor"\n'
RF = z3.Function('recovery_factor_of', I, z3.RealSort())
HTC = z3.Function('htc_of', I, z3.RealSort())
ROW = z3.Function('htc_row', I, z3.ArraySort(I, X.TEXT))


def fl(l, k):
    return X.FLOAT(X.SPLIT(l, X.BLANKS)[k])


def htc_pre(s):
    n, l = X.NLINES(s.filename), X.LINE(s.filename, p_)
    v, cp, t0 = s.air_velocity, s.heat_capacity, s.air_temperature
    ts, surf, flux = fl(l, 9), fl(l, 8), fl(l, 3)
    f = X.SPLIT(l, X.BLANKS)
    isnode = And(0 <= p_, p_ < n, Not(meta(l)), NR(p_) > 0)
    count = X.SPLITN(l, X.BLANKS)
    str_ = z3.Function('fmt_str_Real', z3.RealSort(), X.TEXT)

    def node(w, l, p):
        return X.cat(X.CAT(w, X.JOIN(L_(' '), X.SPLITN(l, X.BLANKS) - 1, ROW(p))), '\n')
    return define(s.filename, lambda l: z3.BoolVal(True), copy, lambda w, l: X.cat(w, HTCVARS), copy, node) + wf(s, s.filename, n) + [
        ('flow parameters', And(v != 0, cp != 0)),
        ('node lines have their columns', ForAll([p_], Implies(isnode, And([count >= 10] + [X.ISFLOAT(f[k]) for k in (3, 8, 9)])), patterns=[l])),
        ('surface and static temperature differ', ForAll([p_], Implies(isnode, surf != ts), patterns=[l])),
        # what is asked of the two numbers, and the line they go to
        ('def', ForAll([p_], Implies(isnode, RF(p_) * (v * v) == 2 * cp * (ts - t0)), patterns=[l])),
        ('def', ForAll([p_], Implies(isnode, HTC(p_) * (surf - ts) == -flux), patterns=[l])),
        ('def', ForAll([p_, i_], ROW(p_)[i_] == If(i_ == 3, str_(HTC(p_)), If(i_ == count - 2, str_(RF(p_)), f[i_])), patterns=[ROW(p_)[i_]]))] + X.join_theory_()


CONTRACTS += [
    C(MOD + 'calculate_htc_recovery_factor', dict(TXT2, air_temperature='Real', air_velocity='Real', heat_capacity='Real'), requires=htc_pre,
      ensures=lambda s: output(s, s.filename, X.NLINES(s.filename)), frame=[], loops=[LoopSpec('lines', 'while', lambda L: inv(L, L.filename))]),
]

# ---------------------------------------------------------------- choosing columns
from pydv.lib import psum
K = psum(I)
IA = z3.ArraySort(I, I)
IND = z3.Function('indicator', IA, IA)                       # 1 where the mask is not zero
m_ = z3.Const('m', IA)
s_, t_ = z3.Const('s', X.TEXT), z3.Const('t', X.TEXT)


TA = z3.ArraySort(I, X.TEXT)
LM = z3.Function('last_match', TA, I, X.TEXT, I)             # last of the first n requested names that matches, else -1
r_, n_ = z3.Const('r', TA), z3.Int('n')


def match(fn, sn):
    """A one-letter request matches that very name, a longer one every name that contains it."""
    return If(X.LEN(sn) == 1, sn == fn, X.HAS(fn, sn))


def theory(ex, vals):
    lm = LM(r_, n_, s_)
    ex.st.pc += [ForAll([m_, i_], IND(m_)[i_] == If(m_[i_] != 0, 1, 0), patterns=[IND(m_)[i_]]),
                 ForAll([r_, n_, s_], And(-1 <= lm, Or(lm == -1, And(lm < n_, match(s_, r_[lm])))), patterns=[lm]),
                 ForAll([r_, n_, s_, j_], Implies(And(0 <= j_, j_ < n_, match(s_, r_[j_])), j_ <= lm), patterns=[z3.MultiPattern(lm, r_[j_])])] + psum_theory(I)


def lo(a, b):
    return If(a < b, a, b)


def masked(s, r, a, m):
    """r lists the elements of a whose mask is not zero, in order."""
    n = lo(a.n, m.n)
    return [('as many as the mask asks for', r.n == K(IND(m.el), n)),
            ('nothing else', ForAll([j_], Implies(And(0 <= j_, j_ < r.n), Exists([i_], And(0 <= i_, i_ < n, m.el[i_] != 0, K(IND(m.el), i_) == j_, r.el[j_] == a.el[i_]))), patterns=[r.el[j_]])),
            ('every chosen column at its place', ForAll([i_], Implies(And(0 <= i_, i_ < n, m.el[i_] != 0), r.el[K(IND(m.el), i_)] == a.el[i_]), patterns=[a.el[i_], K(IND(m.el), i_)]))]


FWM = C(MOD + 'filter_with_mask', {'a': ('List', T), 'm': ('List', 'Int')}, opts={'filter_count': True}, modular=True, result=('List', T),
        setup=theory, ensures=lambda s: masked(s, s.lst(s.result), s.old.lst(s.arg('a')), s.old.lst(s.arg('m'))))


def named(s, f, m, o, r, n):
    """Names f and mask m for the first n of the names o: a matched name is replaced by its last match and chosen."""
    lm = LM(r.el, r.n, o.el[i_])
    done = And(0 <= i_, i_ < n)
    pats = [f.el[i_], m.el[i_], o.el[i_]]
    return [('lengths', And(f.n == o.n, m.n == o.n)), ('chosen exactly when matched', ForAll([i_], Implies(done, And(m.el[i_] == If(lm >= 0, 1, 0))), patterns=pats)),
            ('matched names are the requested ones', ForAll([i_], Implies(done, f.el[i_] == If(lm >= 0, r.el[lm], o.el[i_])), patterns=pats))]


def names_inv(L):
    f, m, o, r = [L.lst(x) for x in (L.arg('fnames'), L.loc('mask'))] + [L.old.lst(L.arg(x)) for x in ('fnames', 'snames')]
    rest = And(L.k <= i_, i_ < o.n)
    return named(L, f, m, o, r, L.k) + [('the rest is untouched', ForAll([i_], Implies(rest, And(m.el[i_] == 0, f.el[i_] == o.el[i_])), patterns=[f.el[i_], m.el[i_], o.el[i_]]))]


def one_name(L):
    f, m, o, r = [L.lst(x) for x in (L.arg('fnames'), L.loc('mask'))] + [L.old.lst(L.arg(x)) for x in ('fnames', 'snames')]
    f0, m0 = [L.pre.lst(x) for x in (L.arg('fnames'), L.loc('mask'))]
    fi = L.loct('fi')
    lm = LM(r.el, L.k, o.el[fi])
    return [('this name', And(f.el[fi] == If(lm >= 0, r.el[lm], o.el[fi]), m.el[fi] == If(lm >= 0, 1, 0))),
            ('other names', And(f.n == f0.n, m.n == m0.n, ForAll([i_], Implies(And(i_ != fi, 0 <= i_, i_ < o.n), And(f.el[i_] == f0.el[i_], m.el[i_] == m0.el[i_])), patterns=[f.el[i_], m.el[i_]])))]


VNM = C(MOD + 'variables_names_and_mask', {'fnames': ('List', T), 'snames': ('List', T)}, setup=theory, modular=True, locals_mut=['fnames'], result=lambda ex, old: (old.arg('fnames'), ex.fresh_result(('List', 'Int'))),
        ensures=lambda s: named(s, s.lst(s.result[0]), s.lst(s.result[1]), s.old.lst(s.arg('fnames')), s.old.lst(s.arg('snames')), s.old.lst(s.arg('fnames')).n),
        loops=[LoopSpec('names', 'local', names_inv), LoopSpec('requests', 'local', one_name, inside='names')])
CONTRACTS += [FWM, VNM]

VLINE = z3.Function('variables_line_before', I, I)
MASK = z3.Function('column_mask', I, IA)                     # of the names in a VARIABLES line
NAMES = z3.Function('chosen_names', I, TA)
KEPT = z3.Function('chosen_columns', I, TA)


def file_names(l):
    h = X.REPL(X.SPLIT(l, L_('='))[1], L_('"'), X.EMPTY)
    return X.SPLITN(h, L_(',')), X.SPLIT(h, L_(','))


def fv_pre(s):
    n, l = X.NLINES(s.filename), X.LINE(s.filename, p_)
    req = s.lst(s.arg('variables_names'))
    nh, hn = file_names(l)
    mk_ = MASK(p_)
    lm = LM(req.el, req.n, hn[i_])
    v = VLINE(p_)
    vn, vh = file_names(X.LINE(s.filename, v))
    isvars = And(Not(title(l)), variables(l))
    cols, width = X.SPLIT(l, X.BLANKS), X.SPLITN(l, X.BLANKS)

    def on_vars(w, l):
        return X.cat(X.CAT(X.cat(w, 'VARIABLES='), X.JOIN(X.lit(', '), K(IND(mk_), nh), NAMES(p_))), '\n')

    def on_node(w, l, p):
        return X.cat(X.CAT(w, X.JOIN(L_(' '), K(IND(MASK(v)), lo(width, vn)), KEPT(p))), '\n')
    rng = And(0 <= p_, p_ < n)
    d = lambda f: ('def', f)
    return define(s.filename, lambda l: z3.BoolVal(True), copy, on_vars, copy, on_node) + wf(s, s.filename, n) + [
        d(VLINE(0) == -1), d(ForAll([p_], Implies(p_ >= 0, VLINE(p_ + 1) == If(isvars, p_, v)), patterns=[l])),
        d(ForAll([p_, i_], mk_[i_] == If(lm >= 0, 1, 0), patterns=[mk_[i_]])),
        d(ForAll([p_, i_], Implies(And(rng, isvars, 0 <= i_, i_ < nh, lm >= 0), NAMES(p_)[K(IND(mk_), i_)] == X.cat(L_('"'), req.el[lm], '"')), patterns=[z3.MultiPattern(l, hn[i_])])),
        d(ForAll([p_, i_], Implies(And(rng, Not(meta(l)), 0 <= i_, i_ < lo(width, vn), MASK(v)[i_] != 0), KEPT(p_)[K(IND(MASK(v)), i_)] == cols[i_]), patterns=[cols[i_]])),
        ('variable lines name the variables', ForAll([p_], Implies(And(rng, isvars), X.SPLITN(l, L_('=')) >= 2), patterns=[l])),
        ('variables come before node lines', ForAll([p_], Implies(And(rng, Not(meta(l)), NR(p_) > 0), v >= 0), patterns=[l])),
    ] + X.join_theory_()


def fv_inv(L):
    p = zn(L.fld(L.loc('f'), 'pos')) - 1
    v = VLINE(p)
    m = L.lst(L.loc('mask'))
    nh, _ = file_names(X.LINE(L.filename, v))
    return inv(L, L.filename) + [('mask known', And(v < p, v >= -1, zb(L.loc('?mask')) == (v >= 0))),
                                 ('mask of the last variables line', Implies(v >= 0, And(m.n == nh, ForAll([i_], Implies(And(0 <= i_, i_ < m.n), m.el[i_] == MASK(v)[i_]), patterns=[m.el[i_], MASK(v)[i_]]))))]


CONTRACTS += [
    C(MOD + 'filter_variables', dict(TXT2, variables_names=('List', T)), setup=theory, opts={'unbound': {'mask': ('List', 'Int')}}, requires=fv_pre,
      ensures=lambda s: output(s, s.filename, X.NLINES(s.filename)), frame=[], loops=[LoopSpec('lines', 'while', fv_inv)]),
]
ABOUT = {'level_note': 'Every line-by-line converter (zone and variable filters, merge, heat transfer step) is proved to write exactly the required output for every well-formed input; the command line driver is bounded.',
         'bounded': ['the command line driver (order of the phases, file names)'],
         'trusted': ['text operations are functions of their arguments; joining looks at the joined elements only', 'sums of equal prefixes are equal (induction)',
                     're.findall of a digit run yields numbers', 'a file is a finite sequence of non-empty lines followed by empty ones']}
