from .common import *
from pydv import text as X

SCHEMA = X.text_schema(mesh())
OPTS = {'text': True}
C = Contract
f_, p_, q_, j_, g_ = const('f', 'Face'), z3.Int('p'), z3.Int('q'), z3.Int('j'), z3.Int('g')
K_ = z3.Const('key', X.TEXT)
I = z3.IntSort()


def line(s, p):
    return X.LINE(s.filename, p)


def pieces(s, p):
    return X.SPLIT(line(s, p), X.BLANKS)


def header(s):
    """The variables the header line names, the first (the identifier) left out: (count, k-th name)."""
    l0 = line(s, z3.IntVal(0))
    h = X.SPLIT(l0, X.lit('='))[X.SPLITN(l0, X.lit('=')) - 1]
    h = X.REPL(X.REPL(h, X.lit('"'), X.EMPTY), X.lit(','), X.EMPTY)
    return X.SPLITN(h, X.BLANKS) - 1, X.SPLIT(h, X.BLANKS)


def ident(s, p):
    return X.INT(pieces(s, p)[0])


LASTLINE = z3.Function('last_line_of', I, I, I)            # (identifier, n): the last of the lines 1..n-1 with that identifier, else 0
LASTCOL = z3.Function('last_column_of', I, X.TEXT, I)      # (line, variable): its last column among those with a value, else -1


def width(s, p):
    n, _ = header(s)
    v = X.SPLITN(line(s, p), X.BLANKS) - 1
    return If(n <= v, n, v)


def definitions(s):
    n, names = header(s)
    l, c = LASTLINE(g_, q_), LASTCOL(p_, K_)
    return [('def', f) for f in (
        ForAll([g_, q_], And(0 <= l, Or(l == 0, And(l < q_, ident(s, l) == g_))), patterns=[l]),
        ForAll([g_, q_, p_], Implies(And(1 <= p_, p_ < q_, ident(s, p_) == g_), p_ <= l), patterns=[z3.MultiPattern(l, line(s, p_))]),
        ForAll([p_, K_], And(-1 <= c, Or(c == -1, And(c < width(s, p_), names[c + 1] == K_))), patterns=[c]),
        ForAll([p_, K_, j_], Implies(And(1 <= j_, j_ <= width(s, p_), names[j_] == K_), j_ - 1 <= c), patterns=[z3.MultiPattern(c, names[j_])]))]


def import_pre(s):
    fs = s.el('Grid.Faces', s.self)
    n = s.n('Grid.Faces', s.self)
    return definitions(s) + [
        ('identifiers are positions', ForAll([j_], Implies(And(0 <= j_, j_ < n), And(fs[j_] != null('Face'), s.get('Face', 'GloId', fs[j_]) == j_)), patterns=[fs[j_]])),
        ('identifiers in the file are not negative', ForAll([p_], Implies(And(1 <= p_, p_ < X.NLINES(s.filename)), ident(s, p_) >= 0), patterns=[line(s, p_)]))]


def data(s, f):
    return s.H('Face.Data#val')[f], s.H('Face.Data#has')[f]


def exactly(s, f, p):
    """The data of f are the variables and values of line p."""
    v, h = data(s, f)
    c = LASTCOL(p, K_)
    return ForAll([K_], And(h[K_] == (c >= 0), Implies(h[K_], v[K_] == X.FLOAT(pieces(s, p)[c + 1]))), patterns=[h[K_], v[K_]])


def upto(s, o, n):
    """The lines 1..n-1 are imported: each named face has the data of its last line, every other one keeps what it had in o."""
    fs = o.el('Grid.Faces', s.self)
    inn = And(0 <= g_, g_ < o.n('Grid.Faces', s.self))
    l = LASTLINE(g_, n)
    f = fs[g_]
    (v, h), (v0, h0) = data(s, f), data(o, f)
    c = LASTCOL(l, K_)
    F_ = [('named faces have exactly the listed variables', ForAll([g_, K_], Implies(And(inn, l > 0), h[K_] == (c >= 0)), patterns=[z3.MultiPattern(fs[g_], h[K_])])),
          ('named faces have the listed values', ForAll([g_, K_], Implies(And(inn, l > 0, h[K_]), v[K_] == X.FLOAT(pieces(s, l)[c + 1])), patterns=[z3.MultiPattern(fs[g_], v[K_])])),
          ('other faces keep their data', ForAll([g_], Implies(And(inn, l == 0), And(v == v0, h == h0)), patterns=[fs[g_]]))]
    other = ForAll([f_], Implies(o.cnt('Grid.Faces', s.self)[f_] == 0, And(data(s, f_)[0] == data(o, f_)[0], data(s, f_)[1] == data(o, f_)[1])), patterns=[data(s, f_)[0], data(s, f_)[1]])
    return F_ + [('faces of no other grid change', other)]


def total(s):
    """The line after the last one (the header line counts even when the file is empty)."""
    n = X.NLINES(s.filename)
    return If(n >= 1, n, 1)


def import_inv(L):
    pos = zn(L.fld(L.loc('f'), 'pos'))
    n, names = header(L)
    vs = L.lst(L.loc('variables'))
    return [('current line', And(pos >= 2, pos - 1 <= total(L), L.loct('line') == line(L, pos - 1))),
            ('variables', And(vs.n == If(n >= 0, n, 0), ForAll([j_], Implies(And(0 <= j_, j_ < vs.n), vs.el[j_] == names[j_ + 1]), patterns=[vs.el[j_]]),
                              ForAll([j_], Implies(And(1 <= j_, j_ <= vs.n), vs.el[j_ - 1] == names[j_]), patterns=[names[j_]]))),
            ] + upto(L, L.pre, pos - 1)


CONTRACTS = [
    C('Grid.load_faces_calc_data', {'self': G, 'filename': ('Sort', X.TEXT)}, requires=import_pre, raises={'ValueError': None, 'IndexError': None},
      ensures=lambda s: upto(s, s.old, total(s)), frame=['Face.Data'],
      loops=[LoopSpec('lines', 'while', import_inv)]),
]
ABOUT = {'level_note': 'The import of one calculation file is proved for every file content and every mesh whose identifiers are positions (the last line of a face counts when it is listed twice); the merge of a directory is bounded.',
         'bounded': ['merge.merge (directory listing, numpy tables)'],
         'trusted': ['str.split, str.replace, int, float of text: functions of their arguments', 'a file is a finite sequence of non-empty lines followed by empty ones']}
