"""Discharge of obligations: a pool of forked solver processes (z3 in several configurations, then cvc5)."""
import os, time, signal, subprocess, tempfile, select, struct, json, sys
import z3
from .execr import has_quant


def consts(t, c):
    k = t.get_id()
    if k in c:
        return c[k][0]
    r = set()
    if z3.is_quantifier(t):
        r |= consts(t.body(), c)
    elif z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r.add(t.decl().name())
        for ch in t.children():
            r |= consts(ch, c)
    c[k] = (frozenset(r), t)
    return c[k][0]


def relevant(hyps, goal, rounds):
    """Hypotheses connected to the goal through shared symbols (dropping hypotheses is sound)."""
    c = {}
    hs = [(h, consts(h, c)) for h in hyps]
    freq = {}
    for _, s in hs:
        for n in s:
            freq[n] = freq.get(n, 0) + 1
    cur = set(consts(goal, c))
    keep = [False] * len(hs)
    for _ in range(rounds):
        add = set()
        for i, (h, s) in enumerate(hs):
            if not keep[i] and (not s or s & cur):
                keep[i] = True
                add |= s
        cur |= add
    return [h for (h, _), k in zip(hs, keep) if k]


def is_nl(t, c):
    """Does an arithmetic term contain a product of two non-constants?"""
    k = t.get_id()
    if k in c:
        return c[k][0]
    r = False
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_MUL and sum(1 for x in t.children() if not z3.is_rational_value(x) and not z3.is_int_value(x)) > 1:
            r = True
        else:
            r = any(is_nl(x, c) for x in t.children()) if t.decl().kind() in (
                z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV) else False
    c[k] = (r, t)
    return r


def abstract(hyps, goal, inner=False, lin=False):
    """Replace composite factors of products by fresh constants (a sound generalisation)."""
    nl, found, seen = {}, {}, set()
    ADDS = (z3.Z3_OP_ADD, z3.Z3_OP_SUB)

    def walk(t):
        if t.get_id() in seen or not z3.is_app(t):
            return
        seen.add(t.get_id())
        ch = t.children()
        if t.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_POWER):
            for x in ch:
                if z3.is_app(x) and x.decl().kind() in ADDS and (lin or is_nl(x, nl)):
                    if inner:
                        n0 = len(found)
                        walk(x)
                        if len(found) == n0:
                            found[x.get_id()] = x
                    else:
                        found[x.get_id()] = x
                elif not (z3.is_app(x) and x.decl().name() == 'sqrt'):
                    walk(x)
            return
        if t.decl().name() == 'sqrt':
            return
        for x in ch:
            walk(x)
    for h in hyps:
        walk(h)
    walk(goal)
    sub = [(t, z3.Real('abs!%d' % i)) for i, t in enumerate(found.values()) if t.sort() == z3.RealSort()]
    if not sub:
        return None
    # square roots become plain constants too
    return [z3.substitute(h, *sub) for h in hyps], z3.substitute(goal, *sub)


def symbols(t, out=None, seen=None):
    """Uninterpreted symbols of a term."""
    out, seen = set() if out is None else out, set() if seen is None else seen
    if t.get_id() in seen:
        return out
    seen.add(t.get_id())
    if z3.is_quantifier(t):
        symbols(t.body(), out, seen)
    elif z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and (t.num_args() or t.sort().kind() == z3.Z3_ARRAY_SORT):
            out.add(t.decl().name())
        for x in t.children():
            symbols(x, out, seen)
    return out


_ghosts = {}


def ghosts(t):
    """Functions introduced by contracts (not by the generator) that a term mentions."""
    k = t.get_id()
    if k not in _ghosts:
        out, seen, st = set(), set(), [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
            elif z3.is_app(x):
                if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' not in x.decl().name():
                    out.add(x.decl().name())
                st += x.children()
        _ghosts[k] = out, t
    return _ghosts[k][0]


def directed(hyps, goal, rounds):
    """Quantified hypotheses whose patterns can match terms made of the symbols of the goal (grown for some rounds)."""
    S = set(symbols(goal))
    todo = [(h, [symbols(h.pattern(i)) - {'pattern'} for i in range(h.num_patterns())], symbols(h)) for h in hyps if z3.is_quantifier(h)]
    got = []
    for _ in range(rounds):
        new = [(h, p, y) for h, p, y in todo if any(q <= S for q in p)]
        todo = [x for x in todo if x not in new]
        got += [h for h, _, _ in new]
        for _, _, y in new:
            S |= y
    return got


_nonlin = {}


def nonlinear(t):
    """Contains a product or quotient of two unknowns."""
    k = t.get_id()
    if k in _nonlin:
        return _nonlin[k][0]
    if z3.is_quantifier(t):
        r = nonlinear(t.body())
    elif z3.is_app(t):
        d = t.decl().kind()
        ch = t.children()
        lit = lambda x: z3.is_rational_value(x) or z3.is_int_value(x) or x.decl().kind() == z3.Z3_OP_UMINUS and lit(x.children()[0])
        r = d == z3.Z3_OP_MUL and sum(not (z3.is_app(x) and lit(x)) for x in ch) > 1 or \
            d in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_app(ch[1]) and lit(ch[1])) or \
            any(nonlinear(x) for x in ch)
    else:
        r = False
    _nonlin[k] = r, t
    return r


MUL = z3.Function('product!', z3.RealSort(), z3.RealSort(), z3.RealSort())
INV = z3.Function('inverse!', z3.RealSort(), z3.RealSort())


def opaque_products(t, c):
    """Products and quotients of reals become uninterpreted functions (sound: what follows for every function follows for these)."""
    k = t.get_id()
    if k in c:
        return c[k][0]
    if not nonlinear(t):
        r = t
    elif z3.is_quantifier(t):
        vs = [z3.FreshConst(t.var_sort(i), 'q') for i in range(t.num_vars())]
        sv = lambda x: z3.substitute_vars(x, *reversed(vs))
        pats = [z3.MultiPattern(*[opaque_products(sv(x), c) for x in t.pattern(i).children()]) for i in range(t.num_patterns())]
        r = (z3.ForAll if t.is_forall() else z3.Exists)(vs, opaque_products(sv(t.body()), c), patterns=pats)
    else:
        ch = [opaque_products(x, c) for x in t.children()]
        d = t.decl().kind()
        lit = lambda x: z3.is_rational_value(z3.simplify(x))
        if d in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) and t.sort() == z3.RealSort():
            if d == z3.Z3_OP_DIV:
                ch = [ch[0], z3.RealVal(1) / ch[1] if lit(ch[1]) else INV(ch[1])]
            fs = sorted([x for x in ch if not lit(x)], key=lambda x: x.get_id())
            r = fs[0] if fs else z3.RealVal(1)
            for x in fs[1:]:
                r = MUL(r, x)
            for x in ch:
                if lit(x):
                    v = z3.simplify(x)
                    r = r if v.as_fraction() == 1 else v * r
        else:
            r = t.decl()(*ch)
    c[k] = r, t
    return r


def run_z3(hyps, goal, ms, opts=None, tactic=None):
    if tactic:
        s = z3.Then(*tactic).solver() if not isinstance(tactic, str) else z3.Tactic(tactic).solver()
    else:
        s = z3.Solver()
    s.set('timeout', ms)
    for k, v in (opts or {}).items():
        if k != 'push':
            s.set(k, v)
    if opts and 'push' in opts:
        s.push()            # the incremental core, which keeps quantifiers and their patterns as they are
    s.add(hyps)
    s.add(z3.Not(goal))
    r = s.check()
    return r, s


def run_cvc5(hyps, goal, sec):
    s = z3.Solver()
    s.add(hyps)
    s.add(z3.Not(goal))
    txt = s.to_smt2()
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write('(set-logic ALL)\n' + txt)
        r = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % (sec * 1000), p], capture_output=True, text=True,
                           timeout=sec + 5)
        return r.stdout.strip().split('\n')[0]
    except Exception:
        return 'unknown'
    finally:
        os.unlink(p)


def model_text(s, limit=60):
    try:
        m = s.model()
        out = []
        for d in m.decls():
            if d.arity() == 0 and not str(d.name()).startswith('k!'):
                v = m[d]
                t = str(v)
                if len(t) < 200:
                    out.append('%s = %s' % (d.name(), t))
        return sorted(out)[:limit]
    except Exception:
        return []


def decide(o, scale=1.0):
    """-> (status, backend, model)"""
    hy, g = o.hyps, o.goal
    quant = any(has_quant(h) for h in hy) or has_quant(g)
    T = lambda x: max(50, int(x * 1000 * scale))
    if z3.is_true(g):
        return 'proved', 'trivial', None
    if not quant:
        r, s = run_z3(hy, g, T(5))
        if r == z3.unsat:
            return 'proved', 'z3', None
        if r == z3.sat:
            return 'refuted', 'z3', model_text(s)
        rel = relevant(hy, g, 2)
        for kw in ({}, {'inner': True}, {'lin': True, 'inner': True}):
            ab = abstract(hy, g, **kw)
            if ab is not None:
                for tac in (None, 'qfnra-nlsat'):
                    try:
                        r, s = run_z3(ab[0], ab[1], T(4), tactic=tac)
                        if r == z3.unsat:
                            return 'proved', 'z3-abstraction', None
                    except z3.Z3Exception:
                        pass
        for tac in (('simplify', 'solve-eqs', 'nlsat'), 'qfnra-nlsat'):
            try:
                r, s = run_z3(hy, g, T(20), tactic=tac)
                if r == z3.unsat:
                    return 'proved', 'z3-nlsat', None
                if r == z3.sat:
                    return 'refuted', 'z3-nlsat', model_text(s)
            except z3.Z3Exception:
                pass
        r, s = run_z3(rel, g, T(10))
        if r == z3.unsat:
            return 'proved', 'z3-relevant', None
        a = run_cvc5(hy, g, int(30 * scale) + 1)
        if a == 'unsat':
            return 'proved', 'cvc5', None
        if a == 'sat':
            return 'refuted', 'cvc5', None
        return 'unknown', None, None
    qf = [h for h in hy if not has_quant(h)]
    if not has_quant(g):
        r, s = run_z3(qf, g, T(1))
        if r == z3.unsat:
            return 'proved', 'z3-qf', None
    E = {'smt.mbqi': False, 'auto_config': False}
    P = dict(E, push=1)
    sets = [(hy, T(2), P, 'z3-incremental')]
    gs = ghosts(g)
    gf = [h for h in hy if ghosts(h) <= gs and not (z3.is_quantifier(h) and any(h.var_sort(q).kind() == z3.Z3_ARRAY_SORT for q in range(h.num_vars())))]
    if len(gf) < len(hy):
        sets.append((gf, T(2), P, 'z3-ghost'))          # without what is said about ghost functions the goal does not mention, and about whole heaps
    if nonlinear(g) or any(nonlinear(h) for h in hy if not has_quant(h)):
        c = {}
        sets.append(([opaque_products(h, c) for h in hy], T(2), P, 'z3-products', opaque_products(g, c)))
    lin = [] if nonlinear(g) else [h for h in gf if not nonlinear(h)]
    if lin and len(lin) < len(gf):
        sets.append((lin, T(2), P, 'z3-linear'))
    sets.append((hy, T(4), E, 'z3-ematch'))
    if len(hy) > 60:
        ground = [h for h in hy if not has_quant(h) and (nonlinear(g) or not nonlinear(h))]
        sets += [(ground + directed(hy, g, k), T(1), P, 'z3-directed') for k in (2, 3)]
    sets += [(relevant(hy, g, 2), T(3), E, 'z3-ematch-rel'), (hy, T(6), {}, 'z3'),
             (hy, T(15), dict(E, **{'smt.random_seed': 7, 'smt.case_split': 3}), 'z3-ematch-seed'),
             (relevant(hy, g, 3), T(8), {}, 'z3-rel')]
    for hs, ms, op, nm, *gl in sets:
        try:
            r, s = run_z3(hs, gl[0] if gl else g, ms, op)
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            return 'proved', nm, None
        if r == z3.sat and hs is hy:
            return 'refuted', nm, model_text(s)
    a = run_cvc5(hy, g, int(30 * scale) + 1)
    if a == 'unsat':
        return 'proved', 'cvc5', None
    return 'unknown', None, None


class Worker:
    def __init__(self, obls, scale):
        self.r, cw = os.pipe()
        cr, self.w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(self.r)
                os.close(self.w)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                while True:
                    b = os.read(cr, 4)
                    if len(b) < 4:
                        break
                    i = struct.unpack('i', b)[0]
                    t0 = time.time()
                    try:
                        st, be, mo = decide(obls[i], scale)
                    except Exception as e:
                        st, be, mo = 'unknown', 'error: %s' % str(e)[:200], None
                    d = json.dumps([i, st, be, mo, time.time() - t0]).encode()
                    os.write(cw, struct.pack('i', len(d)) + d)
            finally:
                os._exit(0)
        os.close(cw)
        os.close(cr)
        self.pid, self.idx, self.t0 = pid, None, 0

    def give(self, i):
        self.idx, self.t0 = i, time.time()
        os.write(self.w, struct.pack('i', i))

    def take(self):
        def rd(n):
            b = b''
            while len(b) < n:
                c = os.read(self.r, n - len(b))
                if not c:
                    raise EOFError
                b += c
            return b
        n = struct.unpack('i', rd(4))[0]
        return json.loads(rd(n))

    def close(self, kill=False):
        try:
            if kill:
                os.kill(self.pid, signal.SIGKILL)
            os.close(self.w)
            os.close(self.r)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


def unsat_within(pc, ms):
    """The hypotheses are contradictory, as found within ms milliseconds (in a child: a solver may overrun its limit)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            res = z3.unknown
            for op in ({'smt.mbqi': False, 'auto_config': False}, {}):
                res, _ = run_z3(pc, z3.BoolVal(False), ms, op)
                if res != z3.unknown:
                    break
            os.write(w, b'u' if res == z3.unsat else b'n')
        finally:
            os._exit(0)
    os.close(w)
    ok = select.select([r], [], [], 2.5 * ms / 1000 + 5)[0] and os.read(r, 1) == b'u'
    os.close(r)
    try:
        os.kill(pid, 9)
    except OSError:
        pass
    os.waitpid(pid, 0)
    return bool(ok)


def vacuous(smokes, ms=4000, limit=6):
    """True when no normal exit of the function is reachable under its own hypotheses (a contract about nothing)."""
    sm = smokes[:limit]
    return bool(sm) and all(unsat_within(pc, ms) for pc in sm)


def vacuous_bodies(bodies, ms=2000):
    """Loops no pass through whose body is possible under the hypotheses (their invariants say nothing)."""
    return [n for n, pcs in bodies.items() if len(pcs) <= 4 and vacuous(pcs, ms)]


def discharge(obls, jobs=8, scale=1.0, hard=None, deadline=None):
    """Fill in status/backend/time of every obligation."""
    hard = hard or 120 * scale + 30
    todo = [i for i, o in enumerate(obls) if o.status is None]
    for i in list(todo):
        if z3.is_true(obls[i].goal):
            obls[i].status, obls[i].backend = 'proved', 'trivial'
            todo.remove(i)
    todo.reverse()
    if not todo:
        return
    sys.stdout.flush()
    ws = [Worker(obls, scale) for _ in range(min(jobs, len(todo)))]
    for w in ws:
        w.give(todo.pop())
    while any(w.idx is not None for w in ws):
        act = [w for w in ws if w.idx is not None]
        rd, _, _ = select.select([w.r for w in act], [], [], 1.0)
        for k, w in enumerate(ws):
            if w.idx is None:
                continue
            if w.r in rd:
                try:
                    i, st, be, mo, tm = w.take()
                    o = obls[i]
                    o.status, o.backend, o.model, o.time = st, be, mo, tm
                    w.idx = None
                except EOFError:
                    obls[w.idx].status, obls[w.idx].backend = 'unknown', 'solver process died'
                    w.close(True)
                    ws[k] = w = Worker(obls, scale)
            elif time.time() - w.t0 > hard:
                obls[w.idx].status, obls[w.idx].backend, obls[w.idx].time = 'unknown', 'time limit', hard
                w.close(True)
                ws[k] = w = Worker(obls, scale)
            if w.idx is None:
                if deadline and time.time() > deadline:
                    while todo:
                        j = todo.pop()
                        obls[j].status, obls[j].backend = 'unknown', 'budget'
                elif todo:
                    w.give(todo.pop())
    for w in ws:
        w.close(True)
