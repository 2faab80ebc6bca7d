"""Text as an uninterpreted sort, and files as sequences of lines (contract option 'text').

A text operation is a total function of its arguments (assumed contract of str); nothing else is known of it, except what
is stated here: lengths decide truth, splitting at a separator yields at least one piece, an input file is a finite
sequence of non-empty lines followed by empty ones, the content of an output file is the concatenation of what was
written. Concatenation is kept in normal form (one literal character or one atom at a time) so that grouping the same
pieces differently gives the same term."""
import z3
from .values import *

TEXT = z3.DeclareSort('Text')
T = ('Sort', TEXT)
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
LEN = z3.Function('text_len', TEXT, I)
HAS = z3.Function('text_contains', TEXT, TEXT, B)
SPLITN = z3.Function('split_count', TEXT, TEXT, I)
SPLIT = z3.Function('split_pieces', TEXT, TEXT, z3.ArraySort(I, TEXT))
REPL = z3.Function('replaced', TEXT, TEXT, TEXT, TEXT)
INT = z3.Function('int_of_text', TEXT, I)
ISINT = z3.Function('is_int_text', TEXT, B)
FLOAT = z3.Function('float_of_text', TEXT, R)
ISFLOAT = z3.Function('is_float_text', TEXT, B)
CAT = z3.Function('concat', TEXT, TEXT, TEXT)
JOIN = z3.Function('joined', TEXT, I, z3.ArraySort(I, TEXT), TEXT)
LINE = z3.Function('file_line', TEXT, I, TEXT)        # file name, line number
NLINES = z3.Function('file_line_count', TEXT, I)
FINDALL = z3.Function('findall', TEXT, TEXT, z3.ArraySort(I, TEXT))
FINDALLN = z3.Function('findall_count', TEXT, TEXT, I)
WS = None


def lit(s):
    return z3.Const('lit:' + s, TEXT)


EMPTY = lit('')
DIGITS = lit('<digits>')           # pattern of a run of decimal digits
BLANKS = lit('<white space>')     # separator of split() without arguments


def is_text(v):
    return is_z(v) and v.sort() == TEXT


def textish(v):
    return isinstance(v, (str, TStr)) or is_text(v)


def atom(ex, spec, val):
    if is_text(val) and not spec:
        return val
    if isinstance(val, Ref) or val is None:
        raise Unsupported('text of an object')
    if is_text(val):
        return z3.Function('fmt_%s_text' % spec, TEXT, TEXT)(val)
    if is_num(val):
        s = R if is_real(val) else I
        return z3.Function('fmt_%s_%s' % (spec or 'str', s), s, TEXT)(zreal(val) if is_real(val) else zn(val))
    raise Unsupported('text of %r' % (val,))


def term(ex, v):
    """The text term of a value."""
    if isinstance(v, str):
        return lit(v)
    if is_text(v):
        return v
    if isinstance(v, TStr):
        out = None
        for t in chars(ex, v):
            out = t if out is None else CAT(out, t)
        return out
    raise Unsupported('text expected, got %r' % (v,))


def chars(ex, v):
    """Normal form: the pieces to concatenate, literals one character at a time."""
    if isinstance(v, str):
        return [lit(c) for c in v]
    if is_text(v):
        return [v]
    if isinstance(v, TStr):
        out = []
        for p in v.pieces:
            out += [lit(c) for c in p] if isinstance(p, str) else [atom(ex, p[1], p[2])]
        return out
    raise Unsupported('text expected, got %r' % (v,))


def cat(t, *ps):
    """t followed by pieces (specifications use the normal form too)."""
    for p in ps:
        for q in ([lit(c) for c in p] if isinstance(p, str) else [p]):
            t = CAT(t, q)
    return t


def text_list(ex, n, el):
    ex.st.pc.append(n >= 0)
    return ex.new_list(SymList(n, el, None, T))


def meth(ex, o, n, a, kw):
    t = term(ex, o)
    if n == 'split' and not kw and len(a) <= 1:
        sep = BLANKS if not a or a[0] is None else term(ex, a[0])
        k = SPLITN(t, sep)
        ex.st.pc.append(k >= (0 if sep.eq(BLANKS) else 1))
        return text_list(ex, k, SPLIT(t, sep))
    if n == 'replace' and len(a) == 2:
        return REPL(t, term(ex, a[0]), term(ex, a[1]))
    if n in ('strip', 'rstrip', 'lstrip', 'lower', 'upper') and not kw:
        return z3.Function('text_' + n, *([TEXT] * (len(a) + 2)))(t, *[term(ex, x) for x in a])
    if n in ('startswith', 'endswith') and len(a) == 1:
        return z3.Function('text_' + n, TEXT, TEXT, B)(t, term(ex, a[0]))
    raise Unsupported('text method ' + n)


def join(ex, sep, v):
    it = ex.iter_of(v)
    if isinstance(it, list):
        return None
    c = ex.tosym(ex.content(v))
    if c.ety != T:
        raise Unsupported('join of %r' % (c.ety,))
    return JOIN(term(ex, sep), c.n, c.el)


def join_theory():
    """join looks at the first n elements only (assumed contract)."""
    A = z3.ArraySort(I, TEXT)
    s, n, a, b = z3.Const('s', TEXT), z3.Int('n'), z3.Const('a', A), z3.Const('b', A)
    w = z3.Function('join_diff', I, A, A, I)(n, a, b)
    x, y = JOIN(s, n, a), JOIN(s, n, b)
    return [z3.ForAll([s, n, a, b], z3.Or(x == y, z3.And(0 <= w, w < n, a[w] != b[w])), patterns=[z3.MultiPattern(x, y)])]


def to_int(ex, v):
    ex.guard(ISINT(v), 'ValueError', 'int() of text')
    return INT(v)


def to_float(ex, v):
    ex.guard(ISFLOAT(v), 'ValueError', 'float() of text')
    return FLOAT(v)


# ---------------------------------------------------------------- files
def b_open(ex, a, kw):
    if not ex.opts.get('text'):
        raise Unsupported('open')
    mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
    name = term(ex, a[0])
    if mode in ('r', 'rt'):
        p = z3.Int('p')
        key = ('file', name.get_id())
        if key not in ex.st.ghost:
            ex.st.ghost[key] = name
            ex.st.pc += [NLINES(name) >= 0, z3.ForAll([p], (LEN(LINE(name, p)) > 0) == z3.And(0 <= p, p < NLINES(name)), patterns=[LINE(name, p)])]
        for w in ex.st.ghost.get('written', ()):
            raise Unsupported('reading a file after writing one')
        return ex.new_obj('@FileR', {'name': name, 'pos': 0})
    if mode in ('w', 'wt'):
        f = ex.new_obj('@FileW', {'name': name, 'out': EMPTY})
        ex.st.ghost['written'] = ex.st.ghost.get('written', ()) + ((name, f.oid),)
        return f
    raise Unsupported('file mode %r' % (mode,))


def written(s, i=0, name=None):
    """Content of the i-th file the function opened for writing (as a text term), in a post-state view."""
    w = s.st.ghost.get('written', ())
    if name is not None:
        w = [x for x in w if x[0].eq(name)]
    if len(w) <= i:
        raise Unsupported('the code no longer opens that file for writing')
    return s.st.objs[w[i][1]]['out']


def nwritten(s):
    return len(s.st.ghost.get('written', ()))


def file_meth(ex, o, n, a, kw):
    fs = ex.st.objs[o.oid]
    if n in ('close', 'flush'):
        return None
    if o.cls == '@FileR':
        if n == 'readline' and not a:
            l = LINE(fs['name'], zn(fs['pos']))
            ex.setattr_(o, 'pos', z3.simplify(zn(fs['pos']) + 1))
            return l
        if n == 'readlines' and not a:
            return ex.new_list(rest(ex, o))
    elif n == 'write':
        ex.setattr_(o, 'out', cat(fs['out'], *chars(ex, a[0])))
        return None
    raise Unsupported('file method ' + n)


def rest(ex, o):
    """The remaining lines of a file opened for reading, as a list; the file is at its end afterwards."""
    fs = ex.st.objs[o.oid]
    name, pos = fs['name'], zn(fs['pos'])
    n = z3.simplify(z3.If(NLINES(name) > pos, NLINES(name) - pos, 0))
    el = ex.fresh('lines', z3.ArraySort(I, TEXT))
    i = z3.Int('i')
    ex.st.pc.append(z3.ForAll([i], el[i] == LINE(name, pos + i), patterns=[el[i]]))
    ex.setattr_(o, 'pos', z3.simplify(pos + n))
    return SymList(n, el, None, T)


def file_iter(ex, o):
    fs = ex.st.objs[o.oid]
    name, pos = fs['name'], zn(fs['pos'])
    n = z3.simplify(z3.If(NLINES(name) > pos, NLINES(name) - pos, 0))
    ex.setattr_(o, 'pos', z3.simplify(pos + n))
    return IterSp(n, lambda k: LINE(name, z3.simplify(pos + k)), None, 'file')


def text_schema(s):
    """The schema with every string attribute a text."""
    def conv(d):
        if d == 'Str':
            return T
        if isinstance(d, tuple):
            return tuple(conv(x) for x in d)
        return d
    return {c: {f: conv(d) for f, d in fs.items()} for c, fs in s.items()}


def join_theory_():
    return [('join', f) for f in join_theory()]
