"""Path-replay symbolic executor over the Python AST: generates the proof obligations."""
import ast, itertools, time
import z3
from fractions import Fraction
from .values import *
from . import prog as P
from . import text as X

I0 = z3.IntVal(0)
MAX_UNROLL = 40


def modular_table(m):
    """Contracts callers rely on: those of the module marked modular (verified there) and its trusted ones (assumed)."""
    t = {}
    for c in getattr(m, 'TRUSTED', []):
        c.trusted = True
        t[c.qual] = c
    t.update({c.qual: c for c in m.CONTRACTS if c.modular})
    return t


class State:
    def __init__(self):
        self.heap, self.objs, self.cells, self.pc = {}, {}, {}, []
        self.ghost = {}

    def snap(self):
        s = State()
        s.heap = dict(self.heap)
        s.objs = {k: dict(v) for k, v in self.objs.items()}
        s.cells = dict(self.cells)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        return s


class Frame:
    def __init__(self, module, cls=None, parent=None, fname=''):
        self.env, self.module, self.cls, self.parent, self.fname = {}, module, cls, parent, fname
        self.globals_, self.nonlocals = set(), set()
        self.loop_seen = {}
        self.contract = None
        self.excstack = []


class Obligation:
    __slots__ = ('fn', 'label', 'hyps', 'goal', 'kind', 'status', 'time', 'backend', 'model', 'path')

    def __init__(self, fn, label, hyps, goal, kind, path):
        self.fn, self.label, self.hyps, self.goal, self.kind, self.path = fn, label, hyps, goal, kind, path
        self.status, self.time, self.backend, self.model = None, 0.0, None, None


def has_quant(t, _c={}):
    k = t.get_id()
    if k in _c:
        return _c[k][0]
    r = False
    if z3.is_quantifier(t):
        r = True
    else:
        for c in t.children():
            if has_quant(c):
                r = True
                break
    _c[k] = (r, t)
    return r


class Exec:
    def __init__(self, prog, schema, contracts=None, opts=None):
        self.prog = prog
        self.schema = schema            # cls -> {field: descriptor}
        self.contracts = contracts or {}
        self.opts = dict(opts or {})
        self.obls = []
        self.seen_obl = set()
        self.mute = 0
        self.dec, self.pos = [], 0
        self.answers = {}
        self.inlined = set()
        self.used_contracts = set()
        self.trusted_used = set()
        self.assumed = set()
        self.paths = 0
        self.max_paths = self.opts.get('max_paths', 4000)
        self.keep = []
        self.cur = None
        self.solver = None
        self.writes = None
        self.query_time = 0.0
        self.deadline = None
        self.contract = None
        self.modcache = {}
        self.allowed_exc = ()

    # ------------------------------------------------------------------ basic state
    def reset(self):
        self.created, self.chosen = [], []
        self.frozen = set()
        self.rowed, self.row_shared, self.loop_cid0 = set(), False, 0
        self.st = State()
        self.nfresh = 0
        self.noid = 0
        self.ncid = 0
        self.depth = 0
        self.solver = None
        self.qs_done = 0
        self.frames = []
        self.pccache = {}
        self.epoch = 0
        self.log = []
        self.loop_counts = {}
        self.lstack, self.kstack = [], []
        self.loops_seen = []
        self.last_filter = None

    def fresh(self, name, sort):
        self.nfresh += 1
        return z3.Const('%s!%d' % (name, self.nfresh), sort)

    def freshf(self, name, *sorts):
        self.nfresh += 1
        return z3.Function('%s!%d' % (name, self.nfresh), *sorts)

    def assume(self, f):
        f = zb(f)
        if z3.is_true(f):
            return
        self.st.pc.append(f)
        if z3.is_false(f):
            raise PathEnd()

    # ------------------------------------------------------------------ queries on the current path
    def _qf(self):
        pcs = self.st.pc
        if self.solver is None or self.qs_done > len(pcs) or (self.qs_done and self.qs_last is not pcs[self.qs_done - 1]):
            self.solver = z3.SolverFor('AUFLIRA') if False else z3.Solver()
            self.solver.set('timeout', 400)
            self.qs_done = 0
        for f in pcs[self.qs_done:]:
            if not has_quant(f):
                self.solver.add(f)
        self.qs_done = len(pcs)
        self.qs_last = pcs[-1] if pcs else None
        return self.solver

    def quant_solver(self, ms):
        """For queries with quantifiers: by patterns only (model construction may ignore the time limit)."""
        s = z3.Solver()
        s.set('timeout', ms)
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        s.push()        # the incremental core
        return s

    def feasible(self, cond, full=True):
        t0 = time.time()
        try:
            s = self._qf()
            r = s.check(cond)
            if r == z3.unsat:
                return False
            if full and any(has_quant(f) for f in self.st.pc):
                s2 = self.quant_solver(self.opts.get('feas_ms', 300))
                s2.add(self.st.pc)
                s2.add(cond)
                if s2.check() == z3.unsat:
                    return False
            return True
        finally:
            self.query_time += time.time() - t0

    def entails(self, goal, ms=1500):
        goal = zb(goal)
        if z3.is_true(z3.simplify(goal)):
            return True
        # paths are replayed from the start: the same terms (kept alive) give the same answer
        key = (goal.get_id(), ms, tuple(f.get_id() for f in self.st.pc))
        if key not in self.answers:
            self.answers[key] = (self.entails_now(goal, ms), goal, list(self.st.pc))
        return self.answers[key][0]

    def entails_now(self, goal, ms):
        t0 = time.time()
        try:
            s = self._qf()
            if s.check(z3.Not(goal)) == z3.unsat:
                return True
            if ms <= 0 or not any(has_quant(f) for f in self.st.pc):
                return False
            s2 = self.quant_solver(ms)
            s2.add(self.st.pc)
            s2.add(z3.Not(goal))
            return s2.check() == z3.unsat
        finally:
            self.query_time += time.time() - t0

    def choose(self, n, label=''):
        if n == 1:
            return 0
        if self.pos < len(self.dec):
            d = self.dec[self.pos][0]
        else:
            self.dec.append([0, n, label])
            d = 0
        self.pos += 1
        return d

    def branch(self, cond, label='if'):
        """Decide a boolean on this path."""
        cond = zb(cond)
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        # deterministic under replay: the same decision prefix gives the same state
        if self.pos < len(self.dec):
            d = self.dec[self.pos][0]
            lab = self.dec[self.pos][2]
            self.pos += 1
            if lab == 'forced':
                v = (self.dec[self.pos - 1][3] == 1)
            else:
                v = (d == 0)
        else:
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond)) if t else True
            if t and f:
                self.dec.append([0, 2, label])
                v = True
            else:
                v = t
                self.dec.append([0, 1, 'forced', 1 if v else 0])
            self.pos += 1
        self.assume(cond if v else z3.Not(cond))
        return v

    def truth(self, v):
        """Python truth value as bool or z3 Bool."""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, Fraction)):
            return v != 0
        if is_z(v):
            if z3.is_bool(v):
                return v
            if v.sort().kind() in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT):
                return v != 0
            if v.sort() == z3.StringSort():
                return z3.Length(v) > 0
            if X.is_text(v):
                return X.LEN(v) > 0
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, (tuple,)):
            return len(v) > 0
        if isinstance(v, (LCell, HList, Row)):
            n = self.llen(v)
            return (n > 0)
        if isinstance(v, Ref):
            return v.t != null(v.cls)
        if isinstance(v, TStr):
            return True if any(isinstance(p, str) and p for p in v.pieces) else Exec._uns('truth of text')
        if isinstance(v, DCell):
            c = self.st.cells[v.cid]
            return len(c.d) > 0
        if isinstance(v, SCell):
            c = self.st.cells[v.cid]
            if isinstance(c, CList):
                return len(c.items) > 0
        if isinstance(v, (Obj, Func, Builtin, ClassV, ModV, Nd)):
            return True
        raise Unsupported('truth of %r' % (v,))

    @staticmethod
    def _uns(m):
        raise Unsupported(m)

    def test(self, v, label='if'):
        t = self.truth(v)
        if isinstance(t, bool):
            return t
        return self.branch(t, label)

    # ------------------------------------------------------------------ obligations
    def prove(self, goal, label, kind='post'):
        goal = zb(goal)
        if z3.is_true(z3.simplify(goal)):
            goal = z3.BoolVal(True)
        if not self.mute:
            hy = list(self.st.pc)
            key = (label, goal.get_id(), tuple(h.get_id() for h in hy))
            self.keep.append((goal, hy))
            if key not in self.seen_obl:
                self.seen_obl.add(key)
                self.obls.append(Obligation(self.cur, label, hy, goal, kind,
                                            ''.join(str(d[0]) for d in self.dec[:self.pos])))
        if not z3.is_true(goal):
            self.st.pc.append(goal)

    def rootof(self, x):
        """The square root of a real term (one term per polynomial normal form)."""
        xs = z3.simplify(zreal(x), som=True)
        t = z3.Function('sqrt', z3.RealSort(), z3.RealSort())(xs)
        raw = zreal(x)
        if ('sqrt', raw.get_id()) not in self.st.ghost:
            self.st.ghost[('sqrt', raw.get_id())] = raw
            self.st.pc.append(z3.Implies(raw >= 0, z3.And(t >= 0, t * t == raw)))
        return t

    # ------------------------------------------------------------------ heap
    def fdesc(self, cls, field):
        return self.schema.get(cls, {}).get(field)

    def h0(self, key, sort):
        c = z3.Const('H0_' + key, sort)
        return c

    def keysort(self, key):
        base, _, part = key.partition('#')
        cls, field = base.rsplit('.', 1)
        rs = ref_sort(cls)
        if field == '@alloc':
            return z3.ArraySort(rs, z3.BoolSort())
        d = self.schema[cls][field]
        if isinstance(d, tuple) and d[0] == 'List':
            es = ety_sort(d[1])
            if part == 'len':
                return z3.ArraySort(rs, z3.IntSort())
            if part == 'el':
                return z3.ArraySort(rs, z3.ArraySort(z3.IntSort(), es))
            return z3.ArraySort(rs, z3.ArraySort(es, z3.IntSort()))
        if isinstance(d, tuple) and d[0] == 'Dict':
            ks, vs = ety_sort(d[1]), ety_sort(d[2])
            return z3.ArraySort(rs, z3.ArraySort(ks, vs if part == 'val' else z3.BoolSort()))
        if isinstance(d, tuple) and d[0] == 'Set':
            return z3.ArraySort(rs, z3.ArraySort(ety_sort(d[1]), z3.BoolSort()))
        return z3.ArraySort(rs, ety_sort(d))

    def hget(self, key, heap=None):
        heap = self.st.heap if heap is None else heap
        if key not in heap:
            c = self.h0(key, self.keysort(key))
            heap[key] = c
            if ('h0', key) not in self.st.ghost:
                self.st.ghost[('h0', key)] = True
                for ax in self.wf_axioms(key, c):
                    self.st.pc.append(ax)
            return c
        return heap[key]

    def wf_axioms(self, key, c):
        """Type-safety facts about a heap array constant (sound for any Python heap)."""
        base, _, part = key.partition('#')
        cls, field = base.rsplit('.', 1)
        if field == '@alloc':
            return [z3.Not(z3.Select(c, null(cls)))]
        rs = ref_sort(cls)
        o = z3.Const('o', rs)
        d = self.schema[cls][field]
        out = []
        if isinstance(d, tuple) and d[0] == 'List':
            if part == 'len':
                out.append(z3.ForAll([o], c[o] >= 0, patterns=[c[o]]))
            elif part == 'cnt' and d[1] and d[1][0] == 'Ref':
                pass
        return out

    def list_wf(self, key, ln, el, cnt, allowed=None):
        """Coherence of the three views of every list stored in field `key` (el/len/cnt constants)."""
        cls, field = key.rsplit('.', 1)
        d = self.schema[cls][field]
        rs, es = ref_sort(cls), ety_sort(d[1])
        o, i, x = z3.Const('o', rs), z3.Int('i'), z3.Const('x', es)
        ix = self.freshf('ix_' + key, rs, es, z3.IntSort())
        ax = [z3.ForAll([o], ln[o] >= 0, patterns=[ln[o]]),
              z3.ForAll([o, i], z3.Implies(z3.And(0 <= i, i < ln[o]), cnt[o][el[o][i]] >= 1), patterns=[el[o][i]]),
              z3.ForAll([o, x], cnt[o][x] >= 0, patterns=[cnt[o][x]]),
              z3.ForAll([o, x], z3.Implies(cnt[o][x] >= 1,
                                           z3.And(0 <= ix(o, x), ix(o, x) < ln[o], el[o][ix(o, x)] == x)),
                        patterns=[cnt[o][x]])]
        if self.opts.get('unique_index'):
            ax.append(z3.ForAll([o, i], z3.Implies(z3.And(0 <= i, i < ln[o], cnt[o][el[o][i]] == 1), ix(o, el[o][i]) == i), patterns=[el[o][i]]))
        if d[1] and d[1][0] == 'Ref':
            al = self.hget(d[1][1] + '.@alloc')
            ax.append(z3.ForAll([o, x], z3.Implies(cnt[o][x] >= 1, al[x]), patterns=[cnt[o][x]]))
        return ax

    def hkeys(self, cls, field):
        d = self.schema[cls][field]
        k = cls + '.' + field
        if isinstance(d, tuple) and d[0] == 'List':
            return [k + '#len', k + '#el', k + '#cnt']
        if isinstance(d, tuple) and d[0] == 'Dict':
            return [k + '#val', k + '#has']
        return [k]

    def ensure_field(self, base):
        """Create the initial constants (and axioms) of a field once per path."""
        cls, field = base.rsplit('.', 1)
        if ('init', base) in self.st.ghost:
            return
        self.st.ghost[('init', base)] = True
        if field == '@alloc':
            self.hget(base)
            return
        d = self.schema[cls][field]
        if isinstance(d, tuple) and d[0] == 'List':
            cs = [self.h0(k, self.keysort(k)) for k in self.hkeys(cls, field)]
            for ax in self.list_wf(base, *cs):
                self.st.pc.append(ax)
        elif isinstance(d, tuple) and d[0] == 'Ref':
            c = self.h0(base, self.keysort(base))
            self._refwf(base, c, d)

    def _refwf(self, base, c, d):
        o = z3.Const('o', ref_sort(base.rsplit('.', 1)[0]))
        al = self.hget(d[1] + '.@alloc')
        self.st.pc.append(z3.ForAll([o], z3.Or(c[o] == null(d[1]), al[c[o]]), patterns=[c[o]]))

    def H(self, key):
        self.ensure_field(key.partition('#')[0])
        heap = self.st.heap
        if key not in heap:
            heap[key] = self.h0(key, self.keysort(key))
        return heap[key]

    def HO(self, snap, key):
        """Heap array in an older snapshot."""
        if key in snap.heap:
            return snap.heap[key]
        self.ensure_field(key.partition('#')[0])
        return self.h0(key, self.keysort(key))

    def hset(self, key, t, o=None):
        self.H(key)
        if self.frozen and key.partition('#')[0] in self.frozen:
            raise Unsupported('change of %s while lists of it are held by value' % key)
        self.st.heap[key] = t
        if self.writes is not None:
            self.writes.add(('heap', key, o))

    def havoc_field(self, base):
        cls, field = base.rsplit('.', 1)
        if field == '@alloc':
            old = self.H(base)
            c = self.fresh('H_' + base, self.keysort(base))
            x = z3.Const('x', ref_sort(cls))
            self.hset(base, c)
            self.st.pc.append(z3.ForAll([x], z3.Implies(old[x], c[x]), patterns=[old[x]]))
            self.st.pc.append(z3.Not(c[null(cls)]))
            return
        d = self.schema[cls][field]
        ks = self.hkeys(cls, field)
        for k in ks:
            self.H(k)
        cs = [self.fresh('H_' + k, self.keysort(k)) for k in ks]
        for k, c in zip(ks, cs):
            self.hset(k, c)
        if isinstance(d, tuple) and d[0] == 'List':
            for ax in self.list_wf(base, *cs):
                self.st.pc.append(ax)
        elif isinstance(d, tuple) and d[0] == 'Ref':
            self._refwf(base, cs[0], d)

    def read_field(self, r, field):
        d = self.fdesc(r.cls, field)
        key = r.cls + '.' + field
        if isinstance(d, tuple) and d[0] in ('List',):
            return HList(key, r.t)
        if isinstance(d, tuple) and d[0] == 'Dict':
            return HDict(key, r.t)
        if isinstance(d, tuple) and d[0] == 'Set':
            return HSet(key, r.t)
        v = self.decode(z3.Select(self.H(key), r.t), d)
        if isinstance(v, Obj):
            self.mark_shared(v)
        return v

    def mark_shared(self, v):
        """A vector stored in the heap is a value from here on: changing it in place leaves the subset."""
        fs = dict(self.st.objs[v.oid])
        fs['@shared'] = True
        self.st.objs[v.oid] = fs

    def write_field(self, r, field, v):
        d = self.fdesc(r.cls, field)
        key = r.cls + '.' + field
        if isinstance(d, tuple) and d[0] == 'List':
            if isinstance(v, HList) and v.key == key and v.o.eq(r.t):
                return
            c = self.tosym(self.content(v), d[1])
            self.set_content(HList(key, r.t), c)
            if isinstance(v, LCell):
                # the field now owns the list object; the local name keeps aliasing it
                self.st.cells[v.cid] = ('alias', HList(key, r.t))
            return
        if isinstance(d, tuple) and d[0] == 'Dict':
            val, has = self.dict_terms(v)
            self.hset(key + '#val', z3.Store(self.H(key + '#val'), r.t, val), r.t)
            self.hset(key + '#has', z3.Store(self.H(key + '#has'), r.t, has), r.t)
            return
        if isinstance(d, tuple) and d[0] == 'Set':
            self.hset(key, z3.Store(self.H(key), r.t, self.set_term(v, d[1])), r.t)
            return
        if isinstance(v, Obj):
            self.mark_shared(v)
        self.hset(key, z3.Store(self.H(key), r.t, self.encode(v, d)), r.t)

    # ------------------------------------------------------------------ encoding
    def encode(self, v, e):
        if e == 'Int':
            if isinstance(v, bool) or is_int(v) or (is_z(v) and z3.is_bool(v)):
                return zn(v)
            raise Unsupported('int expected, got %r' % (v,))
        if e == 'Real':
            if is_num(v):
                return zreal(v)
            raise Unsupported('real expected, got %r' % (v,))
        if e == 'Bool':
            t = self.truth(v)
            return zb(t)
        if e == 'Str':
            return self.zstr(v)
        if e[0] == 'Ref':
            if v is None:
                return null(e[1])
            if isinstance(v, Ref) and v.cls == e[1]:
                return v.t
            raise Unsupported('%s expected, got %r' % (e[1], v))
        if e[0] == 'Vect':
            xs = self.vect_coords(v)
            return V3mk(*[zreal(x) for x in xs])
        if e[0] == 'Tup':
            s, mk, acc = tup_sort([ety_sort(x) for x in e[1]])
            if isinstance(v, tuple) and len(v) == len(e[1]):
                return mk(*[self.encode(a, b) for a, b in zip(v, e[1])])
            if is_z(v) and v.sort() == s:
                return v
            if isinstance(v, (LCell,)):
                c = self.content(v)
                if isinstance(c, CList) and len(c.items) == len(e[1]):
                    return mk(*[self.encode(a, b) for a, b in zip(c.items, e[1])])
            raise Unsupported('tuple expected, got %r' % (v,))
        if e[0] == 'Row':
            if isinstance(v, HList):
                self.frozen.add(v.key)     # stored by value: later changes of such lists leave the subset
            if isinstance(v, Row):
                self.row_shared = True     # now reachable through two containers
            if isinstance(v, LCell):
                # stored by value: the list may be reached under one name only from now on
                if v.cid in self.rowed or v.cid <= self.loop_cid0:
                    self.row_shared = True
                self.rowed.add(v.cid)
            c = self.tosym(self.content(v), e[1])
            s, mk, acc = row_sort(ety_sort(e[1]))
            return mk(c.n, c.el)
        if e[0] == 'Sort':
            if e[1] == X.TEXT:
                return X.term(self, v)
            if not (is_z(v) and v.sort() == e[1]):
                raise Unsupported('%s expected, got %r' % (e[1], v))
            return v
        raise Unsupported('encode %r' % (e,))

    def decode(self, t, e, lst=None, idx=None):
        if e in ('Int', 'Real', 'Bool', 'Str'):
            return conc(z3.simplify(t)) if not has_quant(t) else t
        if e[0] == 'Ref':
            t = z3.simplify(t, **{'push_ite_arith': False}) if False else t
            return Ref(e[1], t)
        if e[0] == 'Vect':
            return self.new_vect([conc(z3.simplify(a(t))) for a in V3acc])
        if e[0] == 'Tup':
            s, mk, acc = tup_sort([ety_sort(x) for x in e[1]])
            return tuple(self.decode(a(t), x) for a, x in zip(acc, e[1]))
        if e[0] == 'Row':
            return Row(lst, idx)
        if e[0] == 'Sort':
            return t
        raise Unsupported('decode %r' % (e,))

    def ety_of(self, v):
        if isinstance(v, bool) or (is_z(v) and z3.is_bool(v)):
            return 'Bool'
        if is_real(v):
            return 'Real'
        if is_int(v):
            return 'Int'
        if self.opts.get('text') and X.textish(v):
            return X.T
        if isinstance(v, (str, TStr)) or (is_z(v) and v.sort() == z3.StringSort()):
            return 'Str'
        if isinstance(v, Ref):
            return ('Ref', v.cls)
        if isinstance(v, Obj) and v.cls == 'Vect':
            return ('Vect',)
        if isinstance(v, tuple):
            return ('Tup', tuple(self.ety_of(x) for x in v))
        if isinstance(v, (LCell, Row, HList)):
            c = self.content(v)
            if isinstance(c, SymList):
                return ('Row', c.ety)
            if c.items:
                es = [self.ety_of(x) for x in c.items]
                if any(e != es[0] and {str(e), str(es[0])} != {'Int', 'Real'} for e in es):
                    return ('Tup', tuple(es))       # a record: items of different types
                return ('Row', es[0])
        if is_z(v):
            return ('Sort', v.sort())
        raise Unsupported('element type of %r' % (v,))

    def zstr(self, v):
        if isinstance(v, str):
            return z3.StringVal(v)
        if is_z(v) and v.sort() == z3.StringSort():
            return v
        if isinstance(v, TStr):
            parts = []
            for p in v.pieces:
                if isinstance(p, str):
                    parts.append(z3.StringVal(p))
                else:
                    _, spec, val = p
                    if is_z(val) and val.sort() == z3.StringSort():
                        parts.append(val)
                    elif is_num(val):
                        srt = z3.RealSort() if is_real(val) else z3.IntSort()
                        f = z3.Function('fmt_%s_%s' % (spec or 'str', srt), srt, z3.StringSort())
                        parts.append(f(zreal(val) if is_real(val) else zn(val)))
                    else:
                        raise Unsupported('format atom %r' % (val,))
            return z3.Concat(*parts) if len(parts) > 1 else parts[0]
        raise Unsupported('string expected, got %r' % (v,))

    # ------------------------------------------------------------------ objects
    def new_obj(self, cls, fields=None, origin=None):
        self.noid += 1
        self.st.objs[self.noid] = dict(fields or {})
        return Obj(cls, self.noid, origin)

    def new_list(self, content):
        self.ncid += 1
        self.st.cells[self.ncid] = content
        return LCell(self.ncid)

    def new_dict(self, d):
        ty = self.opts.get('dict')
        if ty and not d:
            from . import lib
            ks, vs = ety_sort(ty[0]), ety_sort(ty[1])
            return lib.sym_dict(self, self.fresh('dict', z3.ArraySort(ks, vs)), z3.K(ks, z3.BoolVal(False)), *ty)
        self.ncid += 1
        self.st.cells[self.ncid] = CDict(d)
        return DCell(self.ncid)

    def new_set(self, content):
        self.ncid += 1
        self.st.cells[self.ncid] = content
        return SCell(self.ncid)

    def new_vect(self, xs):
        return self.new_obj('Vect', {'Coords': self.new_list(CList(xs))})

    def vect_coords(self, v):
        if isinstance(v, Obj) and v.cls == 'Vect':
            c = self.content(self.st.objs[v.oid]['Coords'])
            return self.as_items(c, 3)
        raise Unsupported('Vect expected, got %r' % (v,))

    def as_items(self, c, n):
        if isinstance(c, CList):
            return c.items
        return [self.decode(z3.Select(c.el, i), c.ety) for i in range(n)]

    def alloc(self, cls):
        key = cls + '.@alloc'
        al = self.H(key)
        t = self.fresh('new_' + cls.replace('.', '_'), ref_sort(cls))
        self.created.append(t)
        self.assume(z3.And(z3.Not(al[t]), t != null(cls)))
        self.hset(key, z3.Store(al, t, z3.BoolVal(True)), t)
        return Ref(cls, t)

    # ------------------------------------------------------------------ lists
    def content(self, l):
        if isinstance(l, LCell):
            c = self.st.cells[l.cid]
            if isinstance(c, tuple) and c[0] == 'alias':
                return self.content(c[1])
            return c
        if isinstance(l, HList):
            d = self.schema[l.key.rsplit('.', 1)[0]][l.key.rsplit('.', 1)[1]]
            return SymList(self.H(l.key + '#len')[l.o], self.H(l.key + '#el')[l.o], self.H(l.key + '#cnt')[l.o], d[1])
        if isinstance(l, Row):
            if isinstance(l.lst, DCell):
                c = self.st.cells[l.lst.cid]
                e = c[4][1]
                acc = row_sort(ety_sort(e))[2]
                r = z3.Select(c[1], l.i)
                return SymList(acc[0](r), acc[1](r), None, e)
            c = self.content(l.lst)
            if isinstance(c, CList):
                return self.content(c.items[l.i])
            s, mk, acc = row_sort(ety_sort(c.ety[1]))
            r = z3.Select(c.el, zn(l.i))
            return SymList(acc[0](r), acc[1](r), None, c.ety[1])
        if isinstance(l, tuple):
            return CList(l)
        if isinstance(l, DView):
            return self.dview_content(l)
        raise Unsupported('list expected, got %r' % (l,))

    def set_content(self, l, c):
        if isinstance(l, LCell):
            cc = self.st.cells[l.cid]
            if isinstance(cc, tuple) and cc[0] == 'alias':
                return self.set_content(cc[1], c)
            if l.cid in self.rowed:
                raise Unsupported('change of a list held by value')
            self.st.cells[l.cid] = c
            if self.writes is not None:
                self.writes.add(('cell', l.cid))
            return
        if isinstance(l, HList):
            d = self.schema[l.key.rsplit('.', 1)[0]][l.key.rsplit('.', 1)[1]]
            c = self.tosym(c, d[1])
            cnt = c.cnt if c.cnt is not None else self.derive_cnt(c)
            for part, t in (('#len', c.n), ('#el', c.el), ('#cnt', cnt)):
                self.hset(l.key + part, z3.Store(self.H(l.key + part), l.o, t), l.o)
            return
        if isinstance(l, Row):
            if self.frozen or self.row_shared:
                raise Unsupported('change of a list held by value')
            if isinstance(l.lst, DCell):
                d = self.st.cells[l.lst.cid]
                e = d[4][1]
                c = self.tosym(c, e)
                self.st.cells[l.lst.cid] = ('sym', z3.Store(d[1], l.i, row_sort(ety_sort(e))[1](c.n, c.el))) + d[2:]
                if self.writes is not None:
                    self.writes.add(('cell', l.lst.cid))
                return
            lc = self.content(l.lst)
            if isinstance(lc, CList):
                return self.set_content(lc.items[l.i], c)
            e = lc.ety[1]
            c = self.tosym(c, e)
            s, mk, acc = row_sort(ety_sort(e))
            self.set_content(l.lst, SymList(lc.n, z3.Store(lc.el, zn(l.i), mk(c.n, c.el)), None, lc.ety))
            return
        raise Unsupported('mutation of %r' % (l,))

    def tosym(self, c, ety=None):
        if isinstance(c, SymList):
            if ety is not None and c.ety != ety:
                if ety == 'Real' and c.ety == 'Int':
                    el = self.fresh('el', z3.ArraySort(z3.IntSort(), z3.RealSort()))
                    i = z3.Int('i')
                    self.st.pc.append(z3.ForAll([i], el[i] == z3.ToReal(c.el[i]), patterns=[el[i]]))
                    return SymList(c.n, el, None, 'Real')
                if c.ety is None:
                    return self.empty(ety)
                raise Unsupported('list of %r where %r expected' % (c.ety, ety))
            return c
        if isinstance(c, CList):
            if ety is None:
                if not c.items:
                    return SymList(I0, None, None, None)
                etys = [self.ety_of(v) for v in c.items]
                ety = 'Real' if 'Real' in etys else etys[0]
            es = ety_sort(ety)
            n = len(c.items)
            enc = [self.encode(v, ety) for v in c.items]
            el = self.K0(es)
            for i, t in enumerate(enc):
                el = z3.Store(el, i, t)
            cnt = z3.K(es, I0)
            for t in enc:
                cnt = z3.Store(cnt, t, cnt[t] + 1)
            return SymList(z3.IntVal(n), el, cnt, ety)
        raise Unsupported('list content %r' % (c,))

    def K0(self, es):
        return z3.Const('emptyel_%s' % abs(hash(es.sexpr())), z3.ArraySort(z3.IntSort(), es))

    def empty(self, ety):
        es = ety_sort(ety)
        return SymList(I0, self.K0(es), z3.K(es, I0), ety)

    def derive_cnt(self, c):
        """Multiplicities of a symbolic list that was built without them."""
        es = ety_sort(c.ety)
        cnt = self.fresh('cnt', z3.ArraySort(es, z3.IntSort()))
        self.add_list_axioms(c.n, c.el, cnt, c.ety)
        return cnt

    def add_list_axioms(self, n, el, cnt, ety):
        es = ety_sort(ety)
        i, x = z3.Int('i'), z3.Const('x', es)
        ix = self.freshf('ix', es, z3.IntSort())
        self.st.pc.append(n >= 0)
        self.st.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), cnt[el[i]] >= 1), patterns=[el[i]]))
        self.st.pc.append(z3.ForAll([x], z3.And(cnt[x] >= 0, z3.Implies(
            cnt[x] >= 1, z3.And(0 <= ix(x), ix(x) < n, el[ix(x)] == x))), patterns=[cnt[x]]))
        if self.opts.get('unique_index'):
            # an element listed once has one position
            self.st.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, cnt[el[i]] == 1), ix(el[i]) == i), patterns=[el[i]]))

    def fresh_list(self, ety, name='l', n=None, cnt=True):
        es = ety_sort(ety)
        n = self.fresh(name + '_n', z3.IntSort()) if n is None else n
        el = self.fresh(name + '_el', z3.ArraySort(z3.IntSort(), es))
        c = None
        if cnt:
            c = self.fresh(name + '_cnt', z3.ArraySort(es, z3.IntSort()))
            self.add_list_axioms(n, el, c, ety)
        else:
            self.st.pc.append(n >= 0)
        return SymList(n, el, c, ety)

    def need_cnt(self, l):
        c = self.tosym(self.content(l))
        if c.cnt is None and c.ety is not None:
            c = SymList(c.n, c.el, self.derive_cnt(c), c.ety, c.flags)
            if isinstance(l, LCell):
                self.set_content(l, c)
        return c

    def llen(self, l):
        c = self.content(l)
        if isinstance(c, CList):
            return len(c.items)
        return conc(z3.simplify(c.n))

    def known_len(self, l, hints=(3, 2, 1, 0)):
        c = self.content(l)
        if isinstance(c, CList):
            return len(c.items)
        n = conc(z3.simplify(c.n))
        if isinstance(n, int):
            return n
        hs = hints
        if isinstance(l, HList):
            hs = self.opts.get('fixed', {}).get(l.key, ())
        else:
            hs = self.opts.get('fixed_local', (0,))
        ms = 1500 if isinstance(l, HList) or 'fixed_local' in self.opts else 0
        for m in ([250, ms] if ms and len(hs) > 1 else [ms]):
            for h in hs:
                if self.entails(c.n == h, m):
                    return h
        return None

    def norm_index(self, l, i, c, what='index'):
        n = len(c.items) if isinstance(c, CList) else c.n
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int) and isinstance(n, int):
            if not -n <= i < n:
                raise PyRaise('IndexError')
            return i % n if n else i
        if isinstance(i, int):
            if i < 0:
                ok = n + i >= 0
                idx = n + i
            else:
                ok = n > i
                idx = z3.IntVal(i)
        else:
            if not is_int(i):
                raise Unsupported('index %r' % (i,))
            iz = zn(i)
            nz = zn(n)
            if self.opts.get('neg_index', False):
                idx = z3.If(iz < 0, iz + nz, iz)
                ok = z3.And(iz < nz, iz >= -nz)
            else:
                idx = iz
                ok = z3.And(iz >= 0, iz < nz)
        self.guard(ok, 'IndexError', 'index in range')
        return idx

    def guard(self, ok, exc, label):
        """Implicit exception: either handled by a surrounding try or excluded by an obligation."""
        ok = zb(ok)
        if z3.is_true(z3.simplify(ok)):
            return
        if self.catching(exc):
            if self.branch(ok, 'guard'):
                return
            raise PyRaise(exc)
        self.prove(ok, 'no %s (%s)' % (exc, label), 'safety')

    def catching(self, exc):
        for fr in reversed(self.frames):
            if fr.excstack:
                return True
        al = getattr(self, 'allowed_exc', None)
        return bool(al) and exc in al

    def lget(self, l, i):
        if isinstance(l, tuple):
            if isinstance(i, int):
                if not -len(l) <= i < len(l):
                    raise PyRaise('IndexError')
                return l[i]
        c = self.content(l)
        idx = self.norm_index(l, i, c)
        if isinstance(c, CList):
            if isinstance(idx, int):
                return c.items[idx]
            ci = conc(z3.simplify(idx))
            if isinstance(ci, int):
                return c.items[ci]
            return self.pick(c.items, idx)
        if c.ety == ('Row',) or (isinstance(c.ety, tuple) and c.ety[0] == 'Row'):
            return Row(l, idx)
        v = self.decode(z3.Select(c.el, zn(idx)), c.ety)
        return v

    def pick(self, items, idx):
        """items[idx] for a symbolic in-range index into a concrete list."""
        for j, v in enumerate(items[:-1]):
            if self.branch(zn(idx) == j, 'pick'):
                return v
        return items[-1]

    def lset(self, l, i, v):
        c = self.content(l)
        idx = self.norm_index(l, i, c)
        if isinstance(c, CList):
            ci = idx if isinstance(idx, int) else conc(z3.simplify(idx))
            if isinstance(ci, int):
                it = list(c.items)
                it[ci] = v
                self.set_content(l, CList(it))
                self.write_through(l)
                return
            c = self.tosym(c)
        t = self.encode(v, c.ety) if not (c.ety == 'Int' and is_real(v)) else None
        if t is None:
            c = self.tosym(c, 'Real')
            t = zreal(v)
        cnt = None
        if c.cnt is not None:
            old = z3.Select(c.el, zn(idx))
            cn = z3.Store(c.cnt, old, c.cnt[old] - 1)
            cnt = z3.Store(cn, t, cn[t] + 1)
        self.set_content(l, SymList(c.n, z3.Store(c.el, zn(idx), t), cnt, c.ety))
        self.write_through(l)

    def write_through(self, l):
        """In-place change of the coordinates of a shared vector is outside the subset."""
        if isinstance(l, LCell):
            for oid, fs in self.st.objs.items():
                co = fs.get('Coords')
                if isinstance(co, LCell) and co.cid == l.cid and fs.get('@shared'):
                    raise Unsupported('in-place change of a shared vector')

    def lappend(self, l, v):
        c = self.content(l)
        if isinstance(c, CList):
            self.set_content(l, CList(c.items + [v]))
            return
        if c.ety is None:
            c = self.empty(self.ety_of(v))
        if c.ety == 'Int' and is_real(v):
            c = self.tosym(c, 'Real')
        t = self.encode(v, c.ety)
        cnt = z3.Store(c.cnt, t, c.cnt[t] + 1) if c.cnt is not None else None
        self.set_content(l, SymList(z3.simplify(c.n + 1), z3.Store(c.el, c.n, t), cnt, c.ety))

    def eq_is_identity(self, ety):
        if isinstance(ety, tuple) and ety[0] == 'Ref':
            ci = self.prog.find_class(ety[1])
            return not (ci and '__eq__' in ci.methods)
        return True

    def near_ok(self, c, x, what):
        """`==` on this class is user defined; show it coincides with identity on this list."""
        if not self.eq_is_identity(c.ety):
            cls = c.ety[1]
            key = self.opts.get('eqkey', {}).get(cls)
            if key is None:
                raise Unsupported('membership by user-defined __eq__ on ' + cls)
            m = z3.Const('m', ref_sort(cls))
            K = self.H(cls + '.' + key)
            self.check_eq_method(cls, key)
            self.prove(z3.ForAll([m], z3.Implies(z3.And(c.cnt[m] >= 1, K[m] == K[x]), m == x), patterns=[c.cnt[m]]),
                       'near nodes coincide (%s)' % what, 'safety')

    def check_eq_method(self, cls, key):
        """The class's __eq__ must indeed be equality of field `key` (checked symbolically, once)."""
        if ('eqm', cls) in self.st.ghost:
            return
        self.st.ghost[('eqm', cls)] = True
        a, b = Ref(cls, self.fresh('a', ref_sort(cls))), Ref(cls, self.fresh('b', ref_sort(cls)))
        ci = self.prog.find_class(cls)

        def run():
            return self.call_func(Func(ci.methods['__eq__'], self.prog.mod(ci.module), None, ci), [a, b], {})
        res = self.nested(run)
        K = self.H(cls + '.' + key)
        conds = [z3.Implies(z3.And(*d), zb(self.truth(v)) == (K[a.t] == K[b.t])) for d, v, _ in res]
        self.prove(z3.And(*conds), '%s.__eq__ compares %s' % (cls, key), 'safety')

    def lin(self, l, x, what='in'):
        """x in l, as a z3 Bool / bool."""
        c = self.content(l)
        if isinstance(c, CList):
            conds = []
            for v in c.items:
                e = self.eq(v, x)
                if e is True:
                    return True
                if e is not False:
                    conds.append(e)
            return z3.Or(*conds) if conds else False
        if c.ety is None:
            return False
        c = self.need_cnt(l)
        try:
            t = self.encode(x, c.ety)
        except Unsupported:
            if isinstance(x, (Ref, type(None))):
                return False
            raise
        self.near_ok(c, t, what)
        return c.cnt[t] >= 1

    def lremove(self, l, x):
        c = self.content(l)
        if isinstance(c, CList):
            for j, v in enumerate(c.items):
                if self.test(self.eq(v, x), 'remove'):
                    self.set_content(l, CList(c.items[:j] + c.items[j + 1:]))
                    return
            raise PyRaise('ValueError')
        c = self.need_cnt(l)
        t = self.encode(x, c.ety)
        self.near_ok(c, t, 'remove')
        self.guard(c.cnt[t] >= 1, 'ValueError', 'remove of an absent element')
        j = self.fresh('rmj', z3.IntSort())
        i = z3.Int('i')
        el = self.fresh('rm_el', c.el.sort())
        n1 = z3.simplify(c.n - 1)
        cnt = z3.Store(c.cnt, t, c.cnt[t] - 1)
        self.st.pc += [0 <= j, j < c.n, c.el[j] == t,
                       z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < j), c.el[i] != t), patterns=[c.el[i]]),
                       z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n1), el[i] == z3.If(i < j, c.el[i], c.el[i + 1])),
                                 patterns=[el[i]])]
        # small lists: spell the shift out
        k = self.known_len(l)
        if k is not None and k <= 4:
            for q in range(k - 1):
                self.st.pc.append(el[q] == z3.If(q < j, c.el[q], c.el[q + 1]))
            n1 = z3.IntVal(k - 1)
        self.add_list_axioms(n1, el, cnt, c.ety)
        self.set_content(l, SymList(n1, el, cnt, c.ety))

    def lindex(self, l, x):
        c = self.content(l)
        if isinstance(c, CList):
            for j, v in enumerate(c.items):
                if self.test(self.eq(v, x), 'index'):
                    return j
            raise PyRaise('ValueError')
        c = self.need_cnt(l)
        t = self.encode(x, c.ety)
        self.near_ok(c, t, 'index')
        self.guard(c.cnt[t] >= 1, 'ValueError', 'index of an absent element')
        j = self.fresh('idx', z3.IntSort())
        i = z3.Int('i')
        self.st.pc += [0 <= j, j < c.n, c.el[j] == t,
                       z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < j), c.el[i] != t), patterns=[c.el[i]])]
        return j

    def lconcat(self, a, b):
        ca, cb = self.content(a), self.content(b)
        if isinstance(ca, CList) and isinstance(cb, CList):
            return self.new_list(CList(ca.items + cb.items))
        if isinstance(ca, CList) and not ca.items:
            return self.new_list(cb)
        if isinstance(cb, CList) and not cb.items:
            return self.new_list(ca)
        ety = ca.ety if isinstance(ca, SymList) else cb.ety
        if isinstance(cb, CList):
            l = self.new_list(ca)
            for v in cb.items:
                self.lappend(l, v)
            return l
        ca, cb = self.tosym(ca, ety), self.tosym(cb, ety)
        es = ety_sort(ety)
        el = self.fresh('cc_el', ca.el.sort())
        i, x = z3.Int('i'), z3.Const('x', es)
        n = z3.simplify(ca.n + cb.n)
        self.st.pc += [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n),
                                                 el[i] == z3.If(i < ca.n, ca.el[i], cb.el[i - ca.n])), patterns=[el[i]])]
        cnt = None
        if ca.cnt is not None and cb.cnt is not None:
            cnt = self.fresh('cc_cnt', ca.cnt.sort())
            self.st.pc += [z3.ForAll([x], cnt[x] == ca.cnt[x] + cb.cnt[x], patterns=[cnt[x]])]
            self.add_list_axioms(n, el, cnt, ety)
        return self.new_list(SymList(n, el, cnt, ety))

    def PC(self, c):
        """Prefix multiplicities of a symbolic list: PC(k) counts the first k elements."""
        key = (c.n.get_id(), c.el.get_id())
        if key in self.pccache:
            return self.pccache[key][0]
        es = ety_sort(c.ety)
        pcf = self.freshf('PC', z3.IntSort(), z3.ArraySort(es, z3.IntSort()))
        self.pccache[key] = (pcf, c.n, c.el)
        x, k = z3.Const('x', es), z3.Int('k')
        self.st.pc += [pcf(I0) == z3.K(es, I0)]
        if c.cnt is not None:
            self.st.pc += [z3.Implies(c.n >= 0, pcf(c.n) == c.cnt),
                           z3.ForAll([k, x], z3.Implies(z3.And(0 <= k, k <= c.n), z3.And(pcf(k)[x] >= 0, pcf(k)[x] <= c.cnt[x])),
                                     patterns=[pcf(k)[x]])]
        return pcf

    def pc_step(self, c, k):
        pcf = self.PC(c)
        e = z3.Select(c.el, k)
        self.st.pc.append(z3.Implies(z3.And(0 <= k, k < c.n), pcf(k + 1) == z3.Store(pcf(k), e, pcf(k)[e] + 1)))
        if c.cnt is not None:
            self.st.pc.append(z3.Implies(z3.And(0 <= k, k < c.n), pcf(k + 1)[e] <= c.cnt[e]))
        return pcf

    def lslice(self, l, lo, hi, step):
        if isinstance(l, tuple) and all(isinstance(v, (int, type(None))) for v in (lo, hi, step)):
            return l[lo:hi:step]
        c = self.content(l)
        if all(v is None or isinstance(v, int) for v in (lo, hi, step)):
            kn = self.known_len(l) if not isinstance(c, CList) else None
            if kn is not None:
                c = CList([self.lget(l, j) for j in range(kn)])
            if isinstance(c, CList):
                return self.new_list(CList(c.items[lo:hi:step]))
        if step is not None:
            raise Unsupported('slice step')
        c = self.tosym(c)
        n = c.n

        def clamp(v, dflt):
            if v is None:
                return dflt
            v = zn(v)
            v = z3.If(v < 0, v + n, v)
            return z3.If(v < 0, z3.IntVal(0), z3.If(v > n, n, v))
        lo_, hi_ = z3.simplify(clamp(lo, I0)), z3.simplify(clamp(hi, n))
        if lo is None and hi is None:
            return self.new_list(c)
        m = z3.If(hi_ > lo_, hi_ - lo_, I0)
        m = z3.simplify(m)
        el = self.fresh('sl_el', c.el.sort())
        i = z3.Int('i')
        self.st.pc += [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), el[i] == c.el[lo_ + i]), patterns=[el[i]])]
        cnt = None
        if c.cnt is not None:
            es = ety_sort(c.ety)
            x = z3.Const('x', es)
            pcf = self.PC(c)
            cnt = self.fresh('sl_cnt', c.cnt.sort())
            self.st.pc += [z3.ForAll([x], cnt[x] == z3.If(hi_ > lo_, pcf(hi_)[x] - pcf(lo_)[x], I0), patterns=[cnt[x]])]
            self.add_list_axioms(m, el, cnt, c.ety)
        return self.new_list(SymList(m, el, cnt, c.ety))

    # ------------------------------------------------------------------ dicts / sets
    def dict_terms(self, v):
        if isinstance(v, HDict):
            return self.H(v.key + '#val')[v.o], self.H(v.key + '#has')[v.o]
        if isinstance(v, DCell):
            c = self.st.cells[v.cid]
            if isinstance(c, tuple) and c[0] == 'sym':
                return c[1], c[2]
            if isinstance(c, CDict):
                ks, vs = z3.StringSort(), z3.RealSort()
                val = z3.K(ks, z3.RealVal(0))
                has = z3.K(ks, z3.BoolVal(False))
                for k, x in c.d.items():
                    val = z3.Store(val, self.zstr(k), zreal(x))
                    has = z3.Store(has, self.zstr(k), z3.BoolVal(True))
                return val, has
        raise Unsupported('dict expected, got %r' % (v,))

    def set_term(self, v, ety):
        if isinstance(v, HSet):
            return self.H(v.key)[v.o]
        if isinstance(v, SCell):
            c = self.st.cells[v.cid]
            if isinstance(c, SymSet):
                return c.mem
            m = z3.K(ety_sort(ety), z3.BoolVal(False))
            for x in c.items:
                m = z3.Store(m, self.encode(x, ety), z3.BoolVal(True))
            return m
        raise Unsupported('set expected, got %r' % (v,))

    def dview_content(self, v):
        raise Unsupported('dict view as list')

    # ------------------------------------------------------------------ equality
    def eq(self, a, b):
        """Python ==, as bool or z3 Bool (may branch inside user-defined __eq__)."""
        if isinstance(a, IdV) or isinstance(b, IdV):
            return self.is_(a.v, b.v) if isinstance(a, IdV) and isinstance(b, IdV) else False
        if isinstance(a, _InfT) or isinstance(b, _InfT):
            return a is b
        if is_num(a) and is_num(b):
            if not is_z(a) and not is_z(b):
                return a == b
            if is_z(a) and is_z(b) and z3.is_bool(a) and z3.is_bool(b):
                return a == b
            x, y = zn(a), zn(b)
            if x.sort() != y.sort():
                x, y = zreal(a), zreal(b)
            return conc(z3.simplify(x == y))
        if a is None or b is None:
            if a is None and b is None:
                return True
            o = b if a is None else a
            if isinstance(o, Ref):
                return o.t == null(o.cls)
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.cls != b.cls:
                return False
            ci = self.prog.find_class(a.cls)
            if ci and '__eq__' in ci.methods:
                if a.t.eq(b.t):
                    pass
                r = self.call_method(a, '__eq__', [b])
                return self.truth(r)
            return conc(z3.simplify(a.t == b.t))
        if isinstance(a, Obj):
            ci = self.prog.find_class(a.cls)
            if ci and '__eq__' in ci.methods:
                return self.truth(self.call_method(a, '__eq__', [b]))
            return isinstance(b, Obj) and a.oid == b.oid
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            out = []
            for x, y in zip(a, b):
                e = self.eq(x, y)
                if e is False:
                    return False
                if e is not True:
                    out.append(e)
            return z3.And(*out) if out else True
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        strs = (str, TStr)
        if (X.is_text(a) and X.textish(b)) or (X.is_text(b) and X.textish(a)) or (
                self.opts.get('text') and X.textish(a) and X.textish(b)):
            return conc(z3.simplify(X.term(self, a) == X.term(self, b)))
        if (isinstance(a, strs) or (is_z(a) and a.sort() == z3.StringSort())) and \
                (isinstance(b, strs) or (is_z(b) and b.sort() == z3.StringSort())):
            return conc(z3.simplify(self.zstr(a) == self.zstr(b)))
        if isinstance(a, (LCell, HList, Row)) and isinstance(b, (LCell, HList, Row)):
            ca, cb = self.content(a), self.content(b)
            if isinstance(ca, CList) and isinstance(cb, CList):
                return self.eq(tuple(ca.items), tuple(cb.items))
            for u, w in ((ca, cb), (cb, ca)):
                if isinstance(u, CList) and not u.items:
                    return conc(z3.simplify(w.n == 0))
            ca, cb = self.tosym(ca), self.tosym(cb)
            i = z3.Int('i')
            if ca.el.sort() == cb.el.sort():
                return z3.And(ca.n == cb.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ca.n), ca.el[i] == cb.el[i])))
        if isinstance(a, (ClassV,)) and isinstance(b, (ClassV,)):
            return a.ci.key == b.ci.key
        if is_z(a) and is_z(b) and a.sort() == b.sort():
            return conc(z3.simplify(a == b))
        if type(a) != type(b):
            return False
        raise Unsupported('== on %r, %r' % (a, b))

    def is_(self, a, b):
        if a is None or b is None:
            return self.eq(a, b) if (isinstance(a, Ref) or isinstance(b, Ref)) else (a is None and b is None)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return conc(z3.simplify(a.t == b.t)) if a.cls == b.cls else False
        if isinstance(a, Obj) and isinstance(b, Obj):
            return a.oid == b.oid
        if isinstance(a, _InfT) or isinstance(b, _InfT):
            return a is b
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return a.ci.key == b.ci.key
        if isinstance(a, ExtClass) and isinstance(b, ExtClass):
            return a.name == b.name
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, HList) and isinstance(b, HList):
            return a.key == b.key and conc(z3.simplify(a.o == b.o))
        if is_z(a) or is_z(b):
            return self.eq(a, b)
        if isinstance(a, (ClassV, ExtClass)) or isinstance(b, (ClassV, ExtClass)):
            return False
        return a is b

    # ------------------------------------------------------------------ arithmetic
    def arith(self, op, a, b):
        a, b = [zn(x) if is_z(x) and z3.is_bool(x) else int(x) if isinstance(x, bool) else x for x in (a, b)]      # True is 1
        if isinstance(a, _InfT) or isinstance(b, _InfT):
            return self.inf_arith(op, a, b)
        if isinstance(a, (LCell, HList, Row)) and isinstance(b, (LCell, HList, Row)) and op == '+':
            return self.lconcat(a, b)
        if isinstance(a, (LCell, Row)) and op == '*' and is_int(b):
            return self.lrepeat(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == '+':
            return a + b
        if isinstance(a, (str, TStr)) and isinstance(b, (str, TStr)) and op == '+':
            return self.tcat([a, b])
        if op == '+' and (X.is_text(a) and X.textish(b) or X.is_text(b) and X.textish(a)):
            return self.tcat([a, b])
        if op == '+' and (is_z(a) and a.sort() == z3.StringSort() or is_z(b) and b.sort() == z3.StringSort()):
            return self.tcat([a, b])
        if isinstance(a, str) and op == '%':
            return self.fmt_percent(a, b)
        if isinstance(a, str) and op == '*' and isinstance(b, int):
            return a * b
        dunder = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__', '//': '__floordiv__',
                  '%': '__mod__', '**': '__pow__'}[op]
        if isinstance(a, (Obj, Ref)):
            m = self.find_method(a, dunder)
            if m is not None:
                return self.call_func(m, [a, b], {})
        if isinstance(b, (Obj, Ref)):
            m = self.find_method(b, dunder.replace('__', '__r', 1))
            if m is not None:
                return self.call_func(m, [b, a], {})
        if isinstance(a, (Nd, NdSym)) or isinstance(b, (Nd, NdSym)):
            from . import lib
            return lib.nd_arith(self, op, a, b)
        if not (is_num(a) and is_num(b)):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return Opaque()
            raise Unsupported('%s on %r, %r' % (op, a, b))
        ca, cb = not is_z(a), not is_z(b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if ca and cb:
            fl = isinstance(a, Fraction) or isinstance(b, Fraction)
            if op in ('/', '//', '%') and b == 0:
                raise PyRaise('ZeroDivisionError')
            if op == '+':
                r = a + b
            elif op == '-':
                r = a - b
            elif op == '*':
                r = a * b
            elif op == '/':
                return Fraction(a) / Fraction(b)
            elif op == '//':
                r = a // b
            elif op == '%':
                r = a % b
            elif op == '**':
                if isinstance(b, int) or (isinstance(b, Fraction) and b.denominator == 1):
                    r = Fraction(a) ** int(b) if fl or b < 0 else a ** b
                else:
                    raise Unsupported('power')
            return Fraction(r) if fl else r
        if op == '**':
            if cb and Fraction(b).denominator == 1 and 0 <= b <= 6:
                x = zn(a)
                if b == 0:
                    return 1
                r = x
                for _ in range(int(b) - 1):
                    r = r * x
                return zreal(r) if isinstance(b, Fraction) else r
            raise Unsupported('power')
        real = is_real(a) or is_real(b) or op == '/'
        x, y = (zreal(a), zreal(b)) if real else (zn(a), zn(b))
        if op == '+':
            r = x + y
        elif op == '-':
            r = x - y
        elif op == '*':
            r = x * y
        elif op == '/':
            self.guard(y != 0, 'ZeroDivisionError', 'divisor')
            r = x / y
        elif op in ('//', '%') and not real:
            self.guard(y != 0, 'ZeroDivisionError', 'divisor')
            if cb and b > 0:
                q = x / y
            else:
                q = z3.If(y > 0, x / y, (-x) / (-y))
            r = q if op == '//' else x - y * q
            if op == '%' and cb and b > 0:
                r = x % y
        else:
            raise Unsupported('real %s' % op)
        return conc(z3.simplify(r)) if (ca or cb) else r

    def inf_arith(self, op, a, b):
        if op == '-' and b is NINF:
            b, op = INF, '+'
        elif op == '-' and b is INF:
            b, op = NINF, '+'
        if op == '+':
            if isinstance(a, _InfT) and isinstance(b, _InfT):
                if a is b:
                    return a
                raise Unsupported('inf - inf')
            return a if isinstance(a, _InfT) else b
        raise Unsupported('inf arithmetic')

    def cmp(self, op, a, b):
        if isinstance(a, _InfT) or isinstance(b, _InfT):
            if isinstance(a, _InfT) and isinstance(b, _InfT):
                x, y = a.s, b.s
            else:
                x = a.s if isinstance(a, _InfT) else 0
                y = b.s if isinstance(b, _InfT) else 0
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        if is_num(a) and is_num(b):
            if not is_z(a) and not is_z(b):
                return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
            real = is_real(a) or is_real(b)
            x, y = (zreal(a), zreal(b)) if real else (zn(a), zn(b))
            return conc(z3.simplify({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]))
        dn = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}
        if isinstance(a, (Obj, Ref)):
            m = self.find_method(a, dn[op])
            if m is not None:
                return self.truth(self.call_func(m, [a, b], {}))
            sw = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
            m = self.find_method(b, dn[sw])
            if m is not None:
                return self.truth(self.call_func(m, [b, a], {}))
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                if not self.test(self.eq(x, y)):
                    return self.cmp(op, x, y)
            return {'<': len(a) < len(b), '<=': len(a) <= len(b), '>': len(a) > len(b), '>=': len(a) >= len(b)}[op]
        raise Unsupported('%s on %r, %r' % (op, a, b))

    def lrepeat(self, a, n):
        c = self.content(a)
        if isinstance(n, int) and isinstance(c, CList):
            return self.new_list(CList(c.items * n))
        if isinstance(c, CList) and len(c.items) == 1:
            v = c.items[0]
            ety = self.ety_of(v)
            es = ety_sort(ety)
            t = self.encode(v, ety)
            nn = zn(n)
            m = z3.If(nn > 0, nn, I0)
            cnt = z3.Store(z3.K(es, I0), t, m)
            return self.new_list(SymList(m, z3.K(z3.IntSort(), t), cnt, ety))
        raise Unsupported('list repetition')

    # ------------------------------------------------------------------ text
    def tcat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                ps = [p]
            elif isinstance(p, TStr):
                ps = p.pieces
            elif is_z(p):
                ps = [('fmt', '', p)]
            else:
                raise Unsupported('text of %r' % (p,))
            for q in ps:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != '':
                    out.append(q)
        if not out:
            return ''
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        return TStr(out)

    def fmt_value(self, v, spec=''):
        spec = 'f' if spec == '.6f' else spec
        if isinstance(v, str):
            return format(v, spec)
        if isinstance(v, TStr) and not spec:
            return v
        if isinstance(v, bool):
            return str(v)
        if isinstance(v, int):
            return format(v, spec)
        if isinstance(v, (Fraction,)) or is_z(v):
            return TStr([('fmt', spec, v)])
        return TStr([('fmt', spec, v)])

    def fmt_percent(self, s, args):
        import re as _re
        if not isinstance(args, tuple):
            args = (args,)
        out, k, pos = [], 0, 0
        for m in _re.finditer(r'%(%|[-0-9.]*[a-zA-Z])', s):
            out.append(s[pos:m.start()])
            pos = m.end()
            if m.group(1) == '%':
                out.append('%')
                continue
            whole = m.group(1) == 'd' and not is_real(args[k]) and not isinstance(args[k], Fraction)
            out.append(self.fmt_value(args[k], '' if m.group(1) == 's' or whole else m.group(1)))
            k += 1
        out.append(s[pos:])
        return self.tcat(out)

    def fmt_format(self, s, args, kw):
        import string
        out, auto = [], 0
        for lit, fld, spec, conv in string.Formatter().parse(s):
            out.append(lit)
            if fld is None:
                continue
            if fld == '':
                v = args[auto]
                auto += 1
            elif fld.isdigit():
                v = args[int(fld)]
            elif fld in kw:
                v = kw[fld]
            else:
                raise Unsupported('format field %s' % fld)
            out.append(self.fmt_value(v, spec))
        return self.tcat(out)

    # ------------------------------------------------------------------ nested exploration
    def nested(self, fn):
        """Explore every path of fn() from the current state. Returns [(added pc, value, end state)]."""
        base = self.st
        sd, sp, ssolver = self.dec, self.pos, self.solver
        out = []
        dec = []
        nf0, no0, nc0 = self.nfresh, self.noid, self.ncid
        maxf, maxo, maxc = nf0, no0, nc0
        pcc = dict(self.pccache)
        nframes = len(self.frames)
        envs = [(f, dict(f.env), dict(f.loop_seen)) for f in self.frames]
        lc0, ls0, dep0, ks0 = dict(self.loop_counts), list(self.lstack), self.depth, self.kstack
        exc0 = [(f, list(f.excstack)) for f in self.frames]
        while True:
            self.loop_counts, self.lstack, self.depth, self.kstack = dict(lc0), list(ls0), dep0, ks0
            for f, e in exc0:
                f.excstack[:] = e
            self.dec, self.pos = dec, 0
            self.st = base.snap()
            self.nfresh, self.noid, self.ncid = maxf, maxo, maxc
            self.nfresh = nf0 + 0
            self.pccache = dict(pcc)
            for f, e, ls in envs:
                f.env.clear()
                f.env.update(e)
                f.loop_seen = dict(ls)
            try:
                v = fn()
                out.append((self.st.pc[len(base.pc):], v, self.st))
            except PathEnd:
                pass
            finally:
                del self.frames[nframes:]
            maxf, maxo, maxc = max(maxf, self.nfresh), max(maxo, self.noid), max(maxc, self.ncid)
            self.paths += 1
            self.check_budget()
            if not self.advance(dec):
                break
        self.dec, self.pos = sd, sp
        self.st = base
        self.solver = None
        self.nfresh, self.noid, self.ncid = maxf + 1, maxo, maxc
        self.loop_counts, self.lstack, self.depth, self.kstack = dict(lc0), list(ls0), dep0, ks0
        for f, e in exc0:
            f.excstack[:] = e
        self.pccache = pcc
        for f, e, ls in envs:
            f.env.clear()
            f.env.update(e)
            f.loop_seen = dict(ls)
        return out

    def check_budget(self):
        if self.paths > self.max_paths:
            raise Unsupported('too many paths')
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('path exploration out of time')

    @staticmethod
    def advance(dec):
        while dec:
            d = dec[-1]
            if d[0] + 1 < d[1]:
                d[0] += 1
                return True
            dec.pop()
        return False

    # methods mixed in from interp.py


_InfT = type(INF)
from . import interp as _interp  # noqa: E402
for _n in dir(_interp.Interp):
    if not _n.startswith('__'):
        setattr(Exec, _n, getattr(_interp.Interp, _n))
from . import contract as _contract  # noqa: E402
for _n in dir(_contract.Mixin):
    if not _n.startswith('__'):
        setattr(Exec, _n, getattr(_contract.Mixin, _n))
