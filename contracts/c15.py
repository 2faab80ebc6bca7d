from .common import *

SCHEMA = mesh()
OPTS = {}
C = Contract
S = z3.StringVal
DIG = z3.Range('0', '9')
LEN = z3.Length


def digits(t, n):
    return z3.InRe(t, z3.Loop(DIG, n, n))


def cat(*a):
    return z3.Concat(*[S(x) if isinstance(x, str) else x for x in a])


def zs(s, v):
    return s.ex.zstr(v)


base, ts = z3.String('base'), z3.String('ts')
STAMPED = C('utils:has_filename_timestamp', {'s': 'Str'}, result='Bool',
            ensures=lambda s: [('true of a name that ends with an underscore and twelve digits', Implies(And(s.s == cat(base, '_', ts), digits(ts, 12)), zb(s.result))),
                               ('true of no other', Implies(zb(s.result), z3.InRe(s.s, z3.Concat(z3.Full(z3.ReSort(z3.StringSort())), z3.Re('_'), z3.Loop(DIG, 12, 12)))))])
PAIR = C('utils:get_filename_and_timestamp_pair', {'s': 'Str'},
         ensures=lambda s: [('a timestamped name splits into base and timestamp', Implies(And(s.s == cat(base, '_', ts), digits(ts, 12)), And(zs(s, s.result[0]) == base, zs(s, s.result[1]) == ts))),
                            ('a name without timestamp is unchanged and gets the zero timestamp', Implies(Not(z3.InRe(s.s, z3.Concat(z3.Full(z3.ReSort(z3.StringSort())), z3.Re('_'), z3.Loop(DIG, 12, 12)))),
                                                                                                         And(zs(s, s.result[0]) == s.s, zs(s, s.result[1]) == S('0' * 12))))])
CONTRACTS = [STAMPED, PAIR]
stem, mpi, ext = z3.String('stem'), z3.String('mpi'), z3.String('ext')


def built(s):
    """The name is built from stem, process, timestamp and extension fields of the documented widths."""
    return And(s.fn == cat(stem, '_', mpi, '_', ts, '.', ext), LEN(mpi) == 5, LEN(ts) == 12, LEN(ext) == 3)


def number(s, r, t):
    """The field as a number, None when it is not all digits."""
    d = z3.InRe(t, z3.Plus(DIG))
    return Not(d) if r is None else And(d, r == z3.StrToInt(t))


def field(s, lo, hi):
    """The Python slice name[lo:hi]."""
    return s.ex.zstr(s.ex.getslice(s.fn, lo, hi, None))


def parts(s):
    a, m, t, e = s.result
    return [('stem', Implies(built(s), zs(s, a) == stem)), ('process number', number(s, m, field(s, -22, -17))), ('the process field', Implies(built(s), field(s, -22, -17) == mpi)),
            ('timestamp', number(s, t, field(s, -16, -4))), ('the timestamp field', Implies(built(s), field(s, -16, -4) == ts)), ('extension', Implies(built(s), zs(s, e) == ext))]


def accepted(x):
    return lambda s: [('accepted exactly when stem, digit fields and extension match',
                       Implies(built(s), zb(s.result) == And(s.stem == stem, z3.InRe(mpi, z3.Plus(DIG)), z3.InRe(ts, z3.Plus(DIG)), ext == S(x))))]


CONTRACTS += [C('utils:dummy_split_filename', {'s': 'Str'}, ensures=lambda s: parts(Fn(s))),
              C('utils:is_filename_correct_crys_cry_file', {'fn': 'Str', 'stem': 'Str'}, ensures=accepted('cry')),
              C('utils:is_filename_correct_crys_txt_file', {'fn': 'Str', 'stem': 'Str'}, ensures=accepted('txt'))]


class Fn:
    def __init__(self, s):
        self.fn, self.result, self.ex = s.args['s'], s.result, s.ex


# ---------------------------------------------------------------- grouping
# only the identity of the names and of their timestamp slices matters here
NAME = z3.DeclareSort('Text')
TEXT = ('Sort', NAME)
FS = z3.Const('files', z3.ArraySort(z3.IntSort(), NAME))
TS = z3.Const('timestamp_of', z3.ArraySort(z3.IntSort(), NAME))
COUNT = z3.Function('files_with_timestamp', NAME, z3.IntSort(), z3.IntSort())
i_, k_, key = z3.Int('i'), z3.Int('k'), z3.Const('key', NAME)


def stamp(s, f):
    """The timestamp characters of a file name."""
    return s.ex.getslice(f, -16, -4, None)


def group_setup(ex, vals):
    """TS: the timestamp characters of the files; COUNT(k, n): how many of the first n files have timestamp k."""
    from pydv.contract import View
    s = View(ex, ex.st, vals)
    fs = s.lst(vals['fs'])
    ex.st.pc += [ForAll([i_], TS[i_] == stamp(s, fs.el[i_]), patterns=[fs.el[i_]]),
                 ForAll([key], COUNT(key, 0) == 0, patterns=[COUNT(key, 0)]),
                 ForAll([key, i_], Implies(i_ >= 0, COUNT(key, i_ + 1) == COUNT(key, i_) + If(TS[i_] == key, 1, 0)), patterns=[COUNT(key, i_ + 1)])]


def grouped(s, d, n):
    fs = s.lst(s.arg('fs'))
    c = s.st.cells[d.cid]
    l = row_sort(NAME)[2]
    v, h = c[1], c[2]
    t = lambda i: TS[i]
    return [('a group exists exactly for the timestamps that occur', ForAll([key], h[key] == (COUNT(key, n) >= 1), patterns=[h[key]])),
            ('its size is the number of files with the timestamp', ForAll([key], And(COUNT(key, n) >= 0, Implies(h[key], l[0](v[key]) == COUNT(key, n))), patterns=[h[key]])),
            ('every file is in the group of its timestamp, in order', ForAll([i_], Implies(And(0 <= i_, i_ < n), And(h[t(i_)], COUNT(t(i_), i_) < COUNT(t(i_), n), l[1](v[t(i_)])[COUNT(t(i_), i_)] == fs.el[i_])), patterns=[fs.el[i_]]))]


def groups_of(L):
    ds = [v for v in L.fr.env.values() if isinstance(v, DCell)]
    return grouped(L, ds[0], L.k)


CONTRACTS.append(C('utils:group_txt_files_by_timestamps', {'fs': ('List', TEXT)}, setup=group_setup, opts={'dict': (TEXT, ('Row', TEXT))},
                   ensures=lambda s: grouped(s, s.result, s.lst(s.arg('fs')).n) + [('the list of files is unchanged', And(s.lst(s.arg('fs')).n == s.old.lst(s.old.arg('fs')).n, s.lst(s.arg('fs')).el == s.old.lst(s.old.arg('fs')).el))],
                   loops=[LoopSpec('files', 'local', groups_of)]))
ABOUT = {'level_note': 'Every name function and the grouping are proved for all strings (ASCII digits, no newline in names); flattening of nested lists is bounded.',
         'bounded': ['utils.flatten (recursion over lists of unknown nesting)'], 'trusted': ['re.search on the timestamp pattern; \\d read as 0-9']}
