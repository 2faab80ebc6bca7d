"""Contracts on the functions of /repo and the driver that turns a function and its contract into obligations."""
import ast, time
import z3
from .values import *
from .wset import WSet
from . import prog as P

I0 = z3.IntVal(0)


def ref(cls):
    return ('Ref', cls)


def after_while(node):
    """The statements a function executes after its first while loop, except those that mention the file of the with statement around it."""
    def tail(body, handles):
        for i, st in enumerate(body):
            if isinstance(st, ast.While):
                rest = []
            elif isinstance(st, ast.With):
                rest = tail(st.body, handles | {x.optional_vars.id for x in st.items if isinstance(x.optional_vars, ast.Name)})
                if rest is None:
                    continue
            else:
                continue
            return rest + [x for x in body[i + 1:] if not any(isinstance(y, ast.Name) and y.id in handles for y in ast.walk(x))]
        return None
    rest = tail(node.body, set())
    if not rest:
        raise Unsupported('no statements after a while loop')
    new = ast.FunctionDef(name=node.name, args=node.args, body=rest, decorator_list=node.decorator_list, returns=None, type_comment=None)
    if hasattr(node, 'type_params'):
        new.type_params = []
    ast.copy_location(new, node)
    return new


class LoopSpec:
    def __init__(self, name, prov, inv, nth=None, inside=None, variant=None, optional=False):
        self.optional = optional
        self.name, self.prov, self.inv, self.nth, self.inside, self.variant = name, prov, inv, nth, inside, variant


class Contract:
    """Pre/postcondition, frame and loop invariants of one function of /repo.

    params: ordered {name: descriptor}; requires(s)/ensures(s) -> [(label, formula)];
    modifies: list of heap bases ('Zone.Faces') or (base, targets(s)) used when a caller relies on the contract;
    raises: {exception: condition(s)} (allowed exactly when the condition held on entry) or {exception: None}."""
    def __init__(self, qual, params, requires=None, ensures=None, modifies=(), loops=(), result=None, raises=None,
                 modular=False, opts=None, setup=None, locals_mut=(), pure=False, note='', frame=None, weight=1, lemmas=None, fragment=None, facts=None, split=(), hints=None, ghost=None, split_on=None):
        self.qual, self.params = qual, params
        self.requires = requires or (lambda s: [])
        self.ensures = ensures or (lambda s: [])
        self.modifies, self.loops, self.result = list(modifies), list(loops), result
        self.raises = raises or {}
        self.modular, self.opts, self.setup, self.pure, self.note = modular, dict(opts or {}), setup, pure, note
        self.locals_mut, self.weight, self.lemmas = locals_mut, weight, lemmas       # lemmas: facts of pure mathematics given to callers, trusted
        self.split_on = split_on or (lambda s: [])      # further objects split on like the created ones
        self.ghost = ghost      # ghost code at the exit: sets ghost fields (that the code does not have) and nothing else
        self.hints = hints      # facts about the path, proved first and then given to every clause (or those named after the formula)
        self.facts, self.split = facts, dict(split) if isinstance(split, dict) else {x: 'facts' for x in split}      # facts about the result, and the clauses that follow from them where no created object is meant
        self.fragment = fragment        # the contract speaks of these statements of the function only (cut out of the real body)
        self.frame = frame if frame is not None else (self.modifies if modular else None)


class View:
    """Read access to a state in specifications."""
    def __init__(self, ex, st, args=None, old=None, result=None):
        self.ex, self.st, self.args, self.old, self.result = ex, st, args or {}, old, result

    def __getattr__(self, name):
        a = self.__dict__.get('args') or {}
        if name in a:
            v = a[name]
            return v.t if isinstance(v, Ref) else v
        raise AttributeError(name)

    def arg(self, name):
        return self.args[name]

    def H(self, key):
        return self.ex.HO(self.st, key)

    def get(self, cls, field, o):
        return self.H(cls + '.' + field)[o]

    def root(self, x):
        return self.ex.rootof(x)

    def n(self, key, o):
        return self.H(key + '#len')[o]

    def el(self, key, o):
        return self.H(key + '#el')[o]

    def cnt(self, key, o):
        return self.H(key + '#cnt')[o]

    def pred(self, name):
        """The z3 predicate behind a predicate parameter."""
        p = self.args[name]
        if getattr(p, 'zf', None) is None:
            from .values import Func
            if isinstance(p, Func):
                return lambda f: self.closure_at(p, f)
            raise Unsupported('predicate passed to %s is not a parameter' % name)
        return p.zf

    def closure_at(self, p, t):
        """Truth of a function of one object at object t in this state. Its evaluation at an arbitrary (non-null) object of
        the class may not fail: those obligations are kept once per state."""
        ex = self.ex
        cls = t.sort().name()
        memo = self.__dict__.setdefault('closures', {})
        if p not in memo:
            x = ex.fresh('any', ref_sort(cls))
            cur = ex.st
            ex.st = self.st.snap()
            ex.st.pc.append(x != null(cls))
            base = len(ex.st.pc)
            try:
                rows = ex.nested(lambda: zb(ex.truth(ex.call(p, [Ref(cls, x)]))))
            finally:
                ex.st = cur
            memo[p] = x, z3.simplify(z3.Or([z3.And(*(st.pc[base:] + [v])) for _, v, st in rows]))
        x, fm = memo[p]
        return z3.substitute(fm, (x, t))

    def lst(self, v, ety=None):
        """Content of a list value in this state (as SymList)."""
        ex = self.ex
        cur = ex.st
        ex.st = self.st
        by_value = set(ex.rowed), ex.row_shared
        try:
            c = ex.content(v)
            return ex.tosym(c, ety)
        finally:
            ex.st = cur
            ex.rowed, ex.row_shared = by_value

    def items(self, v):
        cur = self.ex.st
        self.ex.st = self.st
        try:
            c = self.ex.content(v)
            return c.items if isinstance(c, CList) else None
        finally:
            self.ex.st = cur

    def fld(self, obj, name):
        """Field of a concrete-identity object."""
        return self.st.objs[obj.oid].get(name)

    def vect(self, v):
        cur = self.ex.st
        self.ex.st = self.st
        try:
            return [zreal(x) for x in self.ex.vect_coords(v)]
        finally:
            self.ex.st = cur


class LoopView(View):
    def __init__(self, ex, fr, entry, entry_env, it, k):
        View.__init__(self, ex, ex.st, ex.cargs, ex.old_view)
        self.fr, self.it, self.k = fr, it, k
        self.ks = ex.kstack          # iteration numbers of the enclosing loops
        self.pre = View(ex, entry, ex.cargs, ex.old_view)
        self.pre_env = entry_env

    def loc(self, name):
        f = self.fr
        while f is not None:
            if name in f.env:
                return f.env[name]
            f = f.parent
        raise Unsupported('invariant refers to local %s, which the code no longer has' % name)

    def loct(self, name):
        v = self.loc(name)
        return v.t if isinstance(v, Ref) else (zn(v) if is_num(v) else v)

    def has(self, name):
        f = self.fr
        while f is not None:
            if name in f.env:
                return True
            f = f.parent
        return False

    @property
    def src(self):
        return self.it.src

    def seen(self):
        """Multiplicities of the first k elements of the iterated list."""
        return self.ex.PC(self.it.src)(self.k)


class Mixin:
    """Parts of the executor that deal with contracts."""

    def make_param(self, name, d, s=None):
        if callable(d):
            return d(self)
        if d in ('Int', 'Real', 'Bool', 'Str'):
            srt = {'Int': z3.IntSort(), 'Real': z3.RealSort(), 'Bool': z3.BoolSort(), 'Str': z3.StringSort()}[d]
            return z3.Const('arg_' + name, srt)
        if d[0] == 'Ref':
            t = z3.Const('arg_' + name, ref_sort(d[1]))
            self.assume(z3.And(t != null(d[1]), self.H(d[1] + '.@alloc')[t]))
            return Ref(d[1], t)
        if d[0] == 'RefOrNone':
            t = z3.Const('arg_' + name, ref_sort(d[1]))
            self.assume(z3.Or(t == null(d[1]), self.H(d[1] + '.@alloc')[t]))
            return Ref(d[1], t)
        if d[0] == 'Vect':
            return self.new_vect([z3.Real('arg_%s_%s' % (name, c)) for c in 'xyz'])
        if d[0] == 'List':
            l = self.fresh_list(d[1], 'arg_' + name)
            if isinstance(d[1], tuple) and d[1][0] == 'Ref':
                i = z3.Int('i')
                al = self.H(d[1][1] + '.@alloc')
                self.st.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l.n), z3.And(
                    al[l.el[i]], l.el[i] != null(d[1][1]))), patterns=[l.el[i]]))
            return self.new_list(l)
        if d[0] == 'CList':
            return self.new_list(CList([self.make_param('%s_%d' % (name, i), x) for i, x in enumerate(d[1])]))
        if d[0] == 'Obj':
            o = self.new_obj(d[1])
            self.st.objs[o.oid] = {f: self.make_param(name + '_' + f, x) for f, x in d[2].items()}
            return o
        if d[0] == 'Const':
            return d[1]
        if d[0] == 'NdRows':
            n = z3.Int('arg_%s_rows' % name)
            self.assume(n >= 0)
            cols = [z3.Const('arg_%s_%d' % (name, i), z3.ArraySort(z3.IntSort(), z3.RealSort())) for i in range(d[1])]
            return NdSym(n, lambda k: [c[k] for c in cols], d[1], None, lambda k: cols[0][k])
        if d[0] == 'Pred':
            # total, side-effect free predicate over objects of a class, arbitrary otherwise
            f = z3.Function('pred_' + name, ref_sort(d[1]), z3.BoolSort())
            b = Builtin('pred', lambda ex, args, kw: f(args[0].t))
            b.zf = f
            return b
        if d[0] == 'Sort':
            return z3.Const('arg_' + name, d[1])
        if d[0] == 'SymDict':
            ks, vs = ety_sort(d[1]), ety_sort(d[2])
            self.ncid += 1
            self.st.cells[self.ncid] = ('sym', z3.Const('arg_%s_val' % name, z3.ArraySort(ks, vs)),
                                        z3.Const('arg_%s_has' % name, z3.ArraySort(ks, z3.BoolSort())), d[1], d[2])
            return DCell(self.ncid)
        raise Unsupported('parameter descriptor %r' % (d,))

    def verify(self, c):
        """Explore every path of the function under contract c and collect its obligations."""
        found = self.prog.find_func(c.qual)
        if not found:
            raise Unsupported('function %s not found' % c.qual)
        mi, ci, node = found
        if c.fragment:
            node = c.fragment(node)
        f = Func(node, mi, None, ci)
        self.cur = c.qual
        self.contract = c
        saved_opts = dict(self.opts)
        self.opts.update(c.opts)
        self.modcache = {}
        self.all_loops = set()
        self.smokes, self.body_smokes = [], {}
        dec = []
        npaths = 0
        ends = {'return': 0, 'raise': 0, 'dead': 0}
        try:
            while True:
                self.reset()
                self.dec, self.pos = dec, 0
                self.allowed_exc = tuple(c.raises)
                self.cargs, self.old_view = {}, None
                kind = 'dead'
                try:
                    vals = {}
                    for name, d in c.params.items():
                        vals[name] = self.make_param(name, d)
                    self.cargs = vals
                    if c.setup:
                        c.setup(self, vals)
                    v0 = View(self, self.st, vals)
                    for lab, fm in c.requires(v0):
                        self.assume(fm)
                    if 'path0' not in self.st.ghost and npaths == 0:
                        self.pre_formulas = list(self.st.pc)
                    pre = list(self.st.pc)
                    self.old_view = View(self, self.st.snap(), vals)
                    self.depth = 0
                    try:
                        names = [p.arg for p in node.args.posonlyargs + node.args.args]
                        args, kw = [], {}
                        for nme in vals:
                            if nme in names or nme in [p.arg for p in node.args.kwonlyargs]:
                                kw[nme] = vals[nme]
                        if node.args.vararg is not None and '*' in vals:
                            args = vals['*']
                        res = self.run_contract_body(f, args, kw)
                        kind = 'return'
                        if c.ghost:
                            c.ghost(self, View(self, self.st, vals, self.old_view, res))
                        post = View(self, self.st, vals, self.old_view, res)
                        for exc, cond in c.raises.items():
                            if cond is not None and exc == 'must:' + exc[5:]:
                                self.prove(z3.Not(cond(self.old_view)), 'must raise %s' % exc[5:], 'post')
                        self.smokes.append(list(self.st.pc))
                        scoped = []
                        for lab, fm, *only in c.hints(post) if c.hints else []:
                            n = len(self.st.pc)
                            self.prove(fm, 'hint "%s"' % lab, 'post')
                            if only:
                                del self.st.pc[n:]
                                scoped += [(x, fm) for x in only]
                        facts = c.facts(post) if c.facts else []
                        for lab, fm in facts + c.ensures(post):
                            n = len(self.st.pc)
                            self.st.pc += [h for x, h in scoped if x == lab]
                            if lab in c.split:
                                self.prove_split(fm, lab, [f for _, f in facts] if c.split[lab] != 'path' and not any(fm is f for _, f in facts) else None, pre)
                            else:
                                self.prove_post(fm, lab)
                            del self.st.pc[n:]
                        self.prove_frame(c)
                    except PyRaise as e:
                        kind = 'raise'
                        self.finish_raise(c, e, vals)
                except PathEnd:
                    kind = 'loop' if kind == 'dead' else kind
                ends[kind] = ends.get(kind, 0) + 1
                npaths += 1
                self.paths += 1
                self.check_budget()
                if not self.advance(dec):
                    break
        finally:
            self.opts = saved_opts
        return {'paths': npaths, 'ends': ends}

    def shape(self):
        """Differences between the loops of the code and those the contract has invariants for."""
        c = self.contract
        bare = ['a loop over %s has no invariant' % p for p, n in sorted(self.all_loops, key=str) if n is None]
        seen = set(n for _, n in self.all_loops)
        return bare + ['no loop matches the invariant "%s"' % L.name for L in c.loops if L.name not in seen and not L.optional]

    def run_contract_body(self, f, args, kw):
        # depth 0 marks the function under verification: its own contract is not used for the outermost call
        return self.run_func(f, args, kw)

    def prove_frame(self, c):
        """Nothing outside the declared frame changed on objects that existed on entry."""
        if c.frame is None:
            return
        allowed = {}
        for m in c.frame:
            if isinstance(m, tuple):
                allowed[m[0]] = m[1]
            else:
                allowed[m] = None
        old = self.old_view.st
        for key in sorted(self.st.heap):
            base = key.partition('#')[0]
            cls, field = base.rsplit('.', 1)
            if base in allowed and allowed[base] is None:
                continue
            new, o0 = self.st.heap[key], self.HO(old, key)
            if new.eq(o0):
                continue
            if field == '@alloc':
                if c.modular:
                    self.prove_post(z3.BoolVal(False), 'frame: creates no %s' % cls)
                continue
            o = z3.Const('o', ref_sort(cls))
            al = self.HO(old, cls + '.@alloc')
            ok = [al[o]]
            if base in allowed:
                ok.append(z3.And([o != t for t in allowed[base](self.old_view)]))
            self.prove_post(z3.ForAll([o], z3.Implies(z3.And(ok), new[o] == o0[o])), 'frame: %s of other objects unchanged' % key)
        for v in self.cargs.values():
            if isinstance(v, Obj):
                a, b = old.objs.get(v.oid), self.st.objs.get(v.oid)
                if isinstance(a, dict) and a.keys() <= b.keys() and not c.opts.get('obj_frame_off'):
                    for f in a:
                        if a[f] is not b[f] and not (is_z(a[f]) and is_z(b[f]) and a[f].eq(b[f])) and f not in ('@shared',) \
                                and ('%s.%s' % (v.cls, f)) not in allowed:
                            self.prove_post(zb(self.eq(a[f], b[f])) if is_num(a[f]) else z3.BoolVal(False),
                                            'frame: %s.%s unchanged' % (v.cls, f))

    def prove_post(self, fm, lab):
        n = len(self.st.pc)
        self.prove(fm, 'post "%s"' % lab, 'post')
        del self.st.pc[n:]

    def prove_split(self, fm, lab, facts, pre):
        """A clause about every object: for each object the function created, from the path; for the others, from the
        precondition and the facts proved about the result alone (the final heap is then any heap with those facts; not for the
        facts themselves, which need the path)."""
        vs = [self.fresh('some_' + fm.var_name(i), fm.var_sort(i)) for i in range(fm.num_vars())]
        body = z3.substitute_vars(fm.body(), *reversed(vs))
        mine = [x for x in self.created + self.contract.split_on(self.old_view) if x.sort() == vs[0].sort()]
        n = len(self.st.pc)
        cross = [x for x in self.created if len(vs) > 1 and x.sort() == vs[1].sort()] if self.contract.split[lab] == 'cross' else []
        for x in mine:
            for y in cross:
                self.prove(z3.Implies(z3.And(vs[0] == x, vs[1] == y), body), 'post "%s" (created objects)' % lab, 'post')
                del self.st.pc[n:]
            self.prove(z3.Implies(z3.And([vs[0] == x] + [vs[1] != y for y in cross]), body), 'post "%s" (created object)' % lab, 'post')
            del self.st.pc[n:]
        full = self.st.pc
        if facts is None:
            self.prove(z3.Implies(z3.And([vs[0] != x for x in mine]), body), 'post "%s" (other objects)' % lab, 'post')
            del self.st.pc[n:]
            return
        subst = []
        for key in sorted(self.st.heap):
            new, o0 = self.st.heap[key], self.HO(self.old_view.st, key)
            if not new.eq(o0):
                subst.append((new, self.fresh('R_' + key, new.sort())))
        try:
            ab = [z3.substitute(f, *subst) for f in facts]
            al = [z3.And(z3.Not(self.HO(self.old_view.st, x.sort().name() + '.@alloc')[x]), x != null(x.sort().name())) for x in self.created]
            apart = [vs[0] != x for x in mine]
            for v in vs[1:]:
                if v.sort() == vs[0].sort():
                    for x in mine:
                        self.prove(z3.Implies(z3.And(apart + [v == x]), body), 'post "%s" (another and a created object)' % lab, 'post')
                        del self.st.pc[n:]
                    apart += [v != x for x in mine]
            self.st.pc = pre + al + ab + apart
            self.prove(z3.substitute(body, *subst), 'post "%s" (other objects)' % lab, 'post')
        finally:
            self.st.pc = full
            del self.st.pc[n:]

    def finish_raise(self, c, e, vals):
        ok = None
        for exc, cond in c.raises.items():
            nm = exc[5:] if exc.startswith('must:') else exc
            if e.name == nm:
                ok = z3.BoolVal(True) if cond is None else cond(self.old_view)
        if ok is None:
            self.prove(z3.BoolVal(False), 'no %s is raised (%s)' % (e.name, e.val or ''), 'safety')
        else:
            self.prove(ok, '%s only when its condition holds' % e.name, 'raises')

    def apply_contract(self, c, f, args, kw):
        """A call checked against the callee's contract instead of its body."""
        from .execr import Frame
        (self.trusted_used if getattr(c, 'trusted', False) else self.used_contracts).add(c.qual)
        fr = Frame(f.module, f.cls, None, f.name)
        vals = self.bind(f, fr, args, kw)
        pre = View(self, self.st, vals)
        for lab, fm in c.requires(pre):
            self.prove(fm, 'call of %s: requires "%s"' % (c.qual, lab), 'pre')
        for exc, cond in c.raises.items():
            nm = exc[5:] if exc.startswith('must:') else exc
            if cond is None:
                mine = self.contract.raises
                if any(fr0.excstack for fr0 in self.frames) or mine.get(nm) is not None or mine.get('must:' + nm) is not None:
                    if self.branch(self.fresh('raises', z3.BoolSort()), 'raises'):
                        raise PyRaise(nm)
                elif nm not in self.allowed_exc:
                    self.prove(z3.BoolVal(False), 'call of %s may raise %s' % (c.qual, nm), 'pre')
                continue
            t = zb(cond(pre))
            if self.catching(nm):
                if self.branch(t, 'raises'):
                    raise PyRaise(nm)
            else:
                self.prove(z3.Not(t), 'call of %s does not raise %s' % (c.qual, nm), 'pre')
        old = View(self, self.st.snap(), vals)
        for mo in c.modifies:
            if isinstance(mo, tuple):
                base, tf = mo
                self.havoc_targets(base, tf(pre))
            else:
                self.havoc_field(mo)
        for name in c.locals_mut:
            # list arguments the callee may change
            v = vals[name]
            if isinstance(v, HList):
                self.havoc_targets(v.key, [v.o])
            elif isinstance(v, LCell):
                pre0 = self.tosym(self.content(v))
                self.set_content(v, self.fresh_content(pre0, pre0.ety))
            else:
                raise Unsupported('contract mutating %r' % (v,))
        res = None
        if c.result is not None:
            d = c.result
            if callable(d):
                res = d(self, old)
            else:
                res = self.fresh_result(d)
        post = View(self, self.st, vals, old, res)
        for name, v in vals.items():
            if isinstance(v, Func):
                cl = c.params[name][1]
                x = z3.Const('any', ref_sort(cl))
                if not old.closure_at(v, x).eq(post.closure_at(v, x)):
                    raise Unsupported('%s changes what the predicate passed to it reads' % c.qual)
        for lab, fm in c.ensures(post) + (c.lemmas(post) if c.lemmas else []):
            self.assume(fm)
        if c.lemmas:
            self.trusted_used.add('lemma of ' + c.qual)
        return res

    def fresh_result(self, d):
        if d in ('Int', 'Real', 'Bool', 'Str'):
            srt = {'Int': z3.IntSort(), 'Real': z3.RealSort(), 'Bool': z3.BoolSort(), 'Str': z3.StringSort()}[d]
            return self.fresh('res', srt)
        if d[0] in ('Ref', 'RefOrNone'):
            t = self.fresh('res', ref_sort(d[1]))
            al = self.H(d[1] + '.@alloc')[t]
            self.st.pc.append(z3.Or(t == null(d[1]), al) if d[0] == 'RefOrNone' else z3.And(al, t != null(d[1])))
            return Ref(d[1], t)
        if d[0] == 'List':
            return self.new_list(self.fresh_list(d[1], 'res'))
        if d[0] == 'CList':
            return self.new_list(CList([self.fresh_result(x) for x in d[1]]))
        if d[0] == 'Vect':
            return self.new_vect([self.fresh('res', z3.RealSort()) for _ in range(3)])
        if d[0] == 'Tup':
            return tuple(self.fresh_result(x) for x in d[1])
        raise Unsupported('result descriptor %r' % (d,))
