"""Statements, expressions, calls and loops of the Python subset, executed symbolically."""
import ast
import z3
from fractions import Fraction
from .values import *
from . import text as X

I0 = z3.IntVal(0)
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**'}
CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}
EXC_PARENTS = {'KeyError': ('LookupError', 'Exception'), 'IndexError': ('LookupError', 'Exception'),
               'ValueError': ('Exception',), 'ZeroDivisionError': ('ArithmeticError', 'Exception'),
               'AssertionError': ('Exception',), 'RuntimeError': ('Exception',), 'TypeError': ('Exception',),
               'NotImplementedError': ('RuntimeError', 'Exception'), 'FileExistsError': ('OSError', 'Exception'),
               'AttributeError': ('Exception',), 'UnboundLocalError': ('NameError', 'Exception'),
               'NameError': ('Exception',), 'Exception': ()}


def assigned_names(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
    return out


from .wset import WSet


def has_new(targets):
    return any(isinstance(t, str) and t == 'NEW' for t in targets)


def conjuncts(t):
    return [x for c in t.children() for x in conjuncts(c)] if z3.is_and(t) else [t]


class Interp:
    # ------------------------------------------------------------------ names
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.env:
                if '?' + name in f.env:
                    self.guard(f.env['?' + name], 'UnboundLocalError', 'local %s' % name)
                return f.env[name]
            f = f.parent
        return self.module_name(fr.module, name)

    def module_name(self, mi, name, strict=True):
        if name in mi.funcs:
            return Func(mi.funcs[name], mi, None, None)
        if name in mi.classes:
            return ClassV(mi.classes[name])
        if name in mi.imports:
            imp = mi.imports[name]
            if imp[0] == 'mod':
                return ModV(imp[1])
            _, base, nm = imp
            m = self.prog.mod(base) if base else None
            if m is not None:
                v = self.module_name(m, nm, False)
                if v is not None:
                    return v
            sub = self.prog.mod((base + '.' if base else '') + nm)
            if sub is not None:
                return ModV((base + '.' if base else '') + nm)
            return self.ext_attr(base, nm)
        if name in mi.assigns and 'global:' + name in getattr(self, 'cargs', {}):
            return self.cargs['global:' + name]
        if name in mi.assigns:
            return self.ev(mi.assigns[name], self.mframe(mi))
        from . import lib
        if name in lib.BUILTINS:
            return Builtin(name)
        if name in lib.TYPES:
            return ExtClass(name)
        if name in EXC_PARENTS:
            return ExtClass(name)
        if strict:
            raise PyRaise('NameError', name)
        return None

    def mframe(self, mi):
        from .execr import Frame
        return Frame(mi)

    def ext_attr(self, mod, name):
        full = mod + '.' + name
        if full in ('math.inf', 'numpy.inf', 'np.inf'):
            return INF
        return Builtin(full)

    # ------------------------------------------------------------------ expressions
    def ev(self, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(n).__name__)
        return m(n, fr)

    def e_Constant(self, n, fr):
        v = n.value
        if isinstance(v, float):
            if v == float('inf'):
                return INF
            return Fraction(repr(v))
        if isinstance(v, (bool, int, str)) or v is None:
            return v
        if v is Ellipsis:
            return None
        raise Unsupported('constant %r' % (v,))

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def e_Attribute(self, n, fr):
        return self.getattr_(self.ev(n.value, fr), n.attr)

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        op = OPS.get(type(n.op))
        if op is None:
            raise Unsupported('operator')
        return self.arith(op, a, b)

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if isinstance(n.op, ast.USub):
            if v is INF:
                return NINF
            if v is NINF:
                return INF
            if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
                return -v
            if is_z(v):
                return -zn(v)
            if isinstance(v, (Obj, Ref)):
                m = self.find_method(v, '__neg__')
                if m:
                    return self.call_func(m, [v], {})
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported('unary')

    def pure_bool(self, n):
        """Syntactically effect-free operand that cannot raise (so and/or need not branch)."""
        return False

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, s in enumerate(n.values):
            v = self.ev(s, fr)
            if i == len(n.values) - 1:
                return v
            t = self.test(v, 'bool')
            if t != isand:
                if is_z(v) and z3.is_bool(v):
                    return t
                return v
        return v

    def e_Compare(self, n, fr):
        a = self.ev(n.left, fr)
        res = None
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            b = self.ev(c, fr)
            r = self.cmp1(op, a, b)
            if i == len(n.ops) - 1:
                return r
            if not self.test(r, 'chain'):
                return False
            a = b
        return res

    def cmp1(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(a, b)
            if isinstance(op, ast.NotEq):
                return (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            if isinstance(op, ast.IsNot):
                return (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                return (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        return self.cmp(CMP[type(op)], a, b)

    def contains(self, c, x):
        if X.is_text(c) or (X.textish(c) and X.is_text(x)):
            return X.HAS(X.term(self, c), X.term(self, x))
        if isinstance(c, (str, TStr)) or (is_z(c) and c.sort() == z3.StringSort()):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            return z3.Contains(self.zstr(c), self.zstr(x))
        if isinstance(c, (LCell, HList, Row, tuple)):
            return self.lin(c, x)
        if isinstance(c, (HDict, DCell)):
            return self.dhas(c, x)
        if isinstance(c, DView) and c.kind == 'keys':
            return self.dhas(c.d, x)
        if isinstance(c, HSet):
            d = self.set_ety(c)
            return self.H(c.key)[c.o][self.encode(x, d)]
        if isinstance(c, SCell):
            cc = self.st.cells[c.cid]
            if isinstance(cc, SymSet):
                return cc.mem[self.encode(x, cc.ety)]
            out = []
            for v in cc.items:
                e = self.eq(v, x)
                if e is True:
                    return True
                if e is not False:
                    out.append(e)
            return z3.Or(*out) if out else False
        raise Unsupported('in %r' % (c,))

    def e_IfExp(self, n, fr):
        return self.ev(n.body if self.test(self.ev(n.test, fr)) else n.orelse, fr)

    def e_List(self, n, fr):
        return self.new_list(CList(self.ev_args(n.elts, fr)))

    def e_Tuple(self, n, fr):
        return tuple(self.ev_args(n.elts, fr))

    def e_Set(self, n, fr):
        return self.new_set(CList([self.ev(e, fr) for e in n.elts]))

    def e_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Unsupported('dict unpacking')
            d[self.ckey(self.ev(k, fr))] = self.ev(v, fr)
        return self.new_dict(d)

    def ckey(self, k):
        if isinstance(k, (str, int, bool, Fraction)) or k is None:
            return k
        if isinstance(k, tuple):
            return tuple(self.ckey(x) for x in k)
        raise Unsupported('symbolic dict key')

    def ev_args(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                it = self.iter_of(self.ev(e.value, fr))
                if isinstance(it, IterSp):
                    raise Unsupported('star of symbolic list')
                out += it
            else:
                out.append(self.ev(e, fr))
        return out

    def e_Lambda(self, n, fr):
        return Func(n, fr.module, fr, fr.cls, '<lambda>')

    def e_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                spec = ''
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec, fr)
                    if not isinstance(sp, str):
                        raise Unsupported('format spec')
                    spec = sp
                parts.append(self.fmt_value(self.ev(v.value, fr), spec))
        return self.tcat(parts)

    def first_match(self, n, fr):
        """[x for x in short list if condition][0] for objects, without a case split on which element it is."""
        from .execr import Frame
        fs = Frame(fr.module, fr.cls, fr, fr.fname)
        out = []

        def cond(c):
            if isinstance(c, ast.BoolOp):
                return (z3.And if isinstance(c.op, ast.And) else z3.Or)([cond(x) for x in c.values])
            if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
                return z3.Not(cond(c.operand))
            return zb(self.truth(self.ev(c, fs)))

        def rec(gi, g):
            if gi == len(n.generators):
                out.append((g, self.ev(n.elt, fs)))
                return True
            gen = n.generators[gi]
            it = self.iter_of(self.ev(gen.iter, fr if gi == 0 else fs))
            if isinstance(it, IterSp):
                return False
            for v in it:
                self.assign(gen.target, v, fs)
                h = g
                for c in gen.ifs:
                    h = z3.And(h, cond(c))
                if not rec(gi + 1, z3.simplify(h)):
                    return False
            return True
        self.frames.append(fs)
        try:
            if not rec(0, z3.BoolVal(True)) or not out or not all(isinstance(v, Ref) and v.cls == out[0][1].cls for _, v in out):
                return None
        finally:
            self.frames.remove(fs)
        self.guard(z3.Or([g for g, _ in out]), 'IndexError', 'some element meets the condition')
        t = out[-1][1].t
        for g, v in reversed(out[:-1]):
            t = z3.If(g, v.t, t)
        return Ref(out[0][1].cls, self.named(t))

    def named(self, t):
        """A constant equal to t (patterns cannot match conditional terms)."""
        if not z3.is_app_of(t, z3.Z3_OP_ITE):
            return t
        c = self.fresh('chosen', t.sort())
        self.assume(c == t)
        self.chosen.append(c)
        return c

    def e_Subscript(self, n, fr):
        if isinstance(n.value, ast.ListComp) and isinstance(n.slice, ast.Constant) and n.slice.value == 0 and type(n.slice.value) is int and self.opts.get('first_match'):
            r = self.first_match(n.value, fr)
            if r is not None:
                return r
        o = self.ev(n.value, fr)
        if isinstance(n.slice, ast.Slice):
            lo = self.ev(n.slice.lower, fr) if n.slice.lower else None
            hi = self.ev(n.slice.upper, fr) if n.slice.upper else None
            st = self.ev(n.slice.step, fr) if n.slice.step else None
            return self.getslice(o, lo, hi, st)
        return self.getitem(o, self.ev(n.slice, fr))

    def getslice(self, o, lo, hi, st):
        if isinstance(o, str) and all(isinstance(x, (int, type(None))) for x in (lo, hi, st)):
            return o[lo:hi:st]
        if (isinstance(o, TStr) and not self.opts.get('text')) or (is_z(o) and o.sort() == z3.StringSort()):
            if st is not None:
                raise Unsupported('string slice step')
            s = self.zstr(o)
            n = z3.Length(s)

            def cl(v, d):
                if v is None:
                    return d
                v = zn(v)
                v = z3.If(v < 0, v + n, v)
                return z3.If(v < 0, I0, z3.If(v > n, n, v))
            a, b = z3.simplify(cl(lo, I0)), z3.simplify(cl(hi, n))
            return z3.SubString(s, a, z3.If(b > a, b - a, I0))
        if is_z(o) and o.sort().kind() == z3.Z3_UNINTERPRETED_SORT and st is None and all(isinstance(x, (int, type(None))) for x in (lo, hi)):
            # text about which only its identity matters: the slice is a function of it
            return z3.Function('slice_%s_%s' % (lo, hi), o.sort(), o.sort())(o)
        if self.opts.get('text') and isinstance(o, TStr):
            return self.getslice(X.term(self, o), lo, hi, st)
        if isinstance(o, Nd):
            if isinstance(o.rows, list) and all(isinstance(x, (int, type(None))) for x in (lo, hi, st)):
                return Nd(o.rows[lo:hi:st])
            raise Unsupported('array slice')
        return self.lslice(o, lo, hi, st)

    def getitem(self, o, i):
        if isinstance(o, (LCell, HList, Row, tuple)):
            return self.lget(o, i)
        if isinstance(o, (Obj, Ref)):
            m = self.find_method(o, '__getitem__')
            if m is None:
                raise PyRaise('TypeError')
            return self.call_func(m, [o, i], {})
        if isinstance(o, (HDict, DCell)):
            return self.dget(o, i)
        if isinstance(o, NdSym):
            if not is_int(i):
                raise Unsupported('array index')
            self.guard(z3.And(zn(i) >= -o.n, zn(i) < o.n), 'IndexError', 'array index in range')
            r = o.elem(z3.simplify(z3.If(zn(i) >= 0, zn(i), zn(i) + o.n)))
            return Nd(r) if isinstance(r, list) else r
        if isinstance(o, Nd):
            if isinstance(i, tuple):
                r = o.rows
                for q in i:
                    if not isinstance(q, int):
                        raise Unsupported('array index')
                    r = r[q]
                return Nd(r) if isinstance(r, list) else r
            if isinstance(i, int):
                r = o.rows[i]
                return Nd(r) if isinstance(r, list) else r
            raise Unsupported('array index')
        if (X.is_text(o) or (self.opts.get('text') and isinstance(o, TStr))) and isinstance(i, int):
            t = X.term(self, o)
            self.guard(X.LEN(t) >= (i + 1 if i >= 0 else -i), 'IndexError', 'text index')
            return z3.Function('char_%d' % i, X.TEXT, X.TEXT)(t)
        if isinstance(o, str) and isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                raise PyRaise('IndexError')
        if isinstance(o, TStr) or (is_z(o) and o.sort() == z3.StringSort()):
            s = self.zstr(o)
            if isinstance(i, int):
                idx = z3.IntVal(i) if i >= 0 else z3.Length(s) + i
                self.guard(z3.Length(s) >= (i + 1 if i >= 0 else -i), 'IndexError', 'string index')
                return z3.SubString(s, idx, z3.IntVal(1))
        raise Unsupported('subscript of %r' % (o,))

    def setitem(self, o, i, v):
        if isinstance(o, (LCell, HList, Row)):
            return self.lset(o, i, v)
        if isinstance(o, (Obj, Ref)):
            m = self.find_method(o, '__setitem__')
            if m is None:
                raise PyRaise('TypeError')
            return self.call_func(m, [o, i, v], {})
        if isinstance(o, (HDict, DCell)):
            return self.dset(o, i, v)
        raise Unsupported('item assignment on %r' % (o,))

    # ------------------------------------------------------------------ dicts
    def dict_desc(self, d):
        cls, f = d.key.rsplit('.', 1)
        return self.schema[cls][f]

    def dhas(self, d, k):
        if isinstance(d, HDict):
            ds = self.dict_desc(d)
            return self.H(d.key + '#has')[d.o][self.encode(k, ds[1])]
        c = self.st.cells[d.cid]
        if isinstance(c, tuple):
            return c[2][self.encode(k, c[3])]
        return self.ckey(k) in c.d

    def dget(self, d, k, default=None, strict=True):
        if isinstance(d, HDict):
            ds = self.dict_desc(d)
            kk = self.encode(k, ds[1])
            has = self.H(d.key + '#has')[d.o][kk]
            val = self.H(d.key + '#val')[d.o][kk]
            ety = ds[2]
        else:
            c = self.st.cells[d.cid]
            if isinstance(c, CDict):
                kk = self.ckey(k)
                if kk in c.d:
                    return c.d[kk]
                if strict:
                    raise PyRaise('KeyError')
                return default
            kk = self.encode(k, c[3])
            has, val, ety = c[2][kk], c[1][kk], c[4]
        if strict:
            self.guard(has, 'KeyError', 'key present')
            return self.decode(val, ety, d, kk)
        if default is None:
            if self.branch(has, 'dict.get'):
                return self.decode(val, ety, d, kk)
            return None
        if isinstance(ety, tuple) and ety[0] == 'Row':
            return self.decode(val, ety, d, kk) if self.branch(has, 'dict.get') else default
        try:
            dv = self.encode(default, ety)
        except Unsupported:
            return self.decode(val, ety) if self.branch(has, 'dict.get') else default
        return z3.If(has, val, dv)

    def dset(self, d, k, v):
        if isinstance(d, HDict):
            ds = self.dict_desc(d)
            kk = self.encode(k, ds[1])
            vv = self.encode(v, ds[2])
            for part, t in (('#val', vv), ('#has', z3.BoolVal(True))):
                a = self.H(d.key + part)
                self.hset(d.key + part, z3.Store(a, d.o, z3.Store(a[d.o], kk, t)), d.o)
            return
        c = self.st.cells[d.cid]
        if isinstance(c, CDict):
            nd = dict(c.d)
            nd[self.ckey(k)] = v
            self.st.cells[d.cid] = CDict(nd)
        else:
            kk = self.encode(k, c[3])
            if isinstance(v, Row) and isinstance(v.lst, DCell) and v.lst.cid == d.cid and kk.eq(v.i):
                val = c[1]      # the list that is there already
            else:
                val = z3.Store(c[1], kk, self.encode(v, c[4]))
            self.st.cells[d.cid] = ('sym', val,
                                    z3.Store(c[2], kk, z3.BoolVal(True)), c[3], c[4])
        if self.writes is not None:
            self.writes.add(('cell', d.cid))

    def set_ety(self, s):
        cls, f = s.key.rsplit('.', 1)
        return self.schema[cls][f][1]

    # ------------------------------------------------------------------ attributes
    def getattr_(self, o, a):
        if isinstance(o, Ref):
            if self.fdesc(o.cls, a) is not None:
                self.nonnull(o, a)
                return self.read_field(o, a)
            return self.class_attr(o, o.cls, a)
        if isinstance(o, Obj):
            fs = self.st.objs[o.oid]
            if o.cls[0] == '@':
                return Builtin('.' + a, None, o)
            if a in fs:
                return fs[a]
            return self.class_attr(o, o.cls, a)
        if isinstance(o, ClassV):
            ci = o.ci
            if a in ci.methods:
                f = Func(ci.methods[a], self.prog.mod(ci.module), None, ci)
                if '@cls:' + a in ci.statics:
                    return BoundM(o, f)
                return f
            if a in ci.attrs:
                return self.ev(ci.attrs[a], self.mframe(self.prog.mod(ci.module)))
            if a == '__name__':
                return ci.name
            raise Unsupported('class attribute ' + a)
        if isinstance(o, ModV):
            m = self.prog.mod(o.name)
            if m is not None:
                v = self.module_name(m, a, False)
                if v is not None and not isinstance(v, Builtin):
                    return v
                sub = self.prog.mod(o.name + '.' + a)
                if sub is not None:
                    return ModV(o.name + '.' + a)
                if v is not None:
                    return v
                raise PyRaise('AttributeError', a)
            nm = {'np': 'numpy'}.get(o.name, o.name)
            if nm in ('numpy', 'os', 'os.path') and a in ('linalg', 'path'):
                return ModV(nm + '.' + a)
            return self.ext_attr(nm, a)
        if isinstance(o, NdCols):
            return o.rows() if a == 'T' else Builtin('nd.' + a, None, o)
        if isinstance(o, KDTreeV):
            return Builtin('nd.' + a, None, o)
        if isinstance(o, NdSym):
            if a == 'shape':
                return (o.n, o.width) if o.width else (o.n,)
            return Builtin('nd.' + a, None, o)
        if isinstance(o, Nd):
            if a == 'T':
                from . import lib
                return lib.nd_T(o)
            if a == 'shape':
                from . import lib
                return lib.nd_shape(o)
            return Builtin('nd.' + a, None, o)
        if isinstance(o, ExtClass):
            return Builtin(o.name + '.' + a)
        if o is None:
            raise PyRaise('AttributeError', a)
        return Builtin('.' + a, None, o)

    def nonnull(self, o, a):
        """Attribute access on a possibly-None reference."""
        if o.t.eq(null(o.cls)):
            raise PyRaise('AttributeError', a)
        k = ('nn', o.t.get_id())
        if k in self.st.ghost:
            return
        self.st.ghost[k] = o.t
        self.guard(o.t != null(o.cls), 'AttributeError', '%s is not None' % o.cls)

    def class_attr(self, o, cls, a):
        ci = self.prog.find_class(cls)
        seen = 0
        while ci is not None and seen < 5:
            mi = self.prog.mod(ci.module)
            if a in ci.props:
                return self.call_func(Func(ci.props[a], mi, None, ci), [o], {})
            if a in ci.methods:
                f = Func(ci.methods[a], mi, None, ci)
                if a in ci.statics:
                    return f
                return BoundM(o, f)
            if a in ci.attrs:
                return self.ev(ci.attrs[a], self.mframe(mi))
            if a == '__class__':
                return ClassV(ci)
            ci = self.base_of(ci)
            seen += 1
        if isinstance(o, Obj) or isinstance(o, Ref):
            if isinstance(o, Ref):
                raise Unsupported('attribute %s.%s outside the schema' % (cls, a))
            raise PyRaise('AttributeError', a)
        raise Unsupported('attribute ' + a)

    def base_of(self, ci):
        for b in ci.bases:
            v = None
            try:
                v = self.ev(b, self.mframe(self.prog.mod(ci.module)))
            except (Unsupported, PyRaise):
                continue
            if isinstance(v, ClassV):
                return v.ci
        return None

    def setattr_(self, o, a, v):
        if isinstance(o, Ref):
            if self.fdesc(o.cls, a) is None:
                ci = self.prog.find_class(o.cls)
                if ci and a in ci.setters:
                    return self.call_func(Func(ci.setters[a], self.prog.mod(ci.module), None, ci), [o, v], {})
                raise Unsupported('attribute %s.%s outside the schema' % (o.cls, a))
            self.nonnull(o, a)
            return self.write_field(o, a, v)
        if isinstance(o, Obj):
            ci = self.prog.find_class(o.cls)
            if ci and a in ci.setters:
                return self.call_func(Func(ci.setters[a], self.prog.mod(ci.module), None, ci), [o, v], {})
            fs = self.st.objs[o.oid]
            if fs.get('@shared'):
                raise Unsupported('in-place change of a shared vector')
            fs = dict(fs)
            fs[a] = v
            self.st.objs[o.oid] = fs
            if self.writes is not None:
                self.writes.add(('obj', o.oid, a))
            return
        if o is None:
            raise PyRaise('AttributeError', a)
        raise Unsupported('attribute assignment on %r' % (o,))

    def find_method(self, o, name):
        if not isinstance(o, (Obj, Ref)):
            return None
        ci = self.prog.find_class(o.cls)
        k = 0
        while ci is not None and k < 5:
            if name in ci.methods:
                return Func(ci.methods[name], self.prog.mod(ci.module), None, ci)
            ci = self.base_of(ci)
            k += 1
        return None

    def call_method(self, o, name, args):
        m = self.find_method(o, name)
        if m is None:
            raise PyRaise('AttributeError', name)
        return self.call_func(m, [o] + list(args), {})

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, fr):
        f = self.ev(n.func, fr)
        if isinstance(f, Builtin) and f.name == 'next' and f.fn is None and f.self_ is None and n.args and isinstance(n.args[0], ast.GeneratorExp) and not n.keywords:
            return self.first_of(n, fr)
        args = self.ev_args(n.args, fr)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                raise Unsupported('** call')
            kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw, n)

    def call(self, f, args, kw=None, node=None):
        kw = kw or {}
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundM):
            return self.call_func(f.func, [f.self_] + list(args), kw)
        if isinstance(f, ClassV):
            return self.instantiate(f.ci, args, kw)
        if isinstance(f, Builtin):
            if f.fn is not None:
                return f.fn(self, args, kw)
            from . import lib
            return lib.call_builtin(self, f, args, kw)
        if isinstance(f, ExtClass):
            from . import lib
            return lib.call_type(self, f.name, args, kw)
        if isinstance(f, (Obj, Ref)):
            m = self.find_method(f, '__call__')
            if m:
                return self.call_func(m, [f] + list(args), kw)
        raise Unsupported('call of %r' % (f,))

    def qual(self, f):
        if f.cls is not None and f.frame is None:
            return f.cls.key + '.' + f.name
        if f.frame is None:
            return f.module.name + ':' + f.name
        return None

    def call_func(self, f, args, kw):
        q = self.qual(f)
        c = self.contracts.get(q) if q else None
        if c is not None and not (self.depth == 0) and c.modular:
            self.used_contracts.add(q)
            return self.apply_contract(c, f, args, kw)
        return self.run_func(f, args, kw)

    def bind(self, f, fr, args, kw):
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        vals = {}
        for name, v in zip(pos, args):
            vals[name] = v
        if len(args) > len(pos):
            if a.vararg is None:
                raise PyRaise('TypeError')
            vals[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for k, v in kw.items():
            vals[k] = v
        df = fr.parent if fr.parent is not None else self.mframe(f.module)
        for name, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if name not in vals:
                vals[name] = self.ev(d, df)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in vals and d is not None:
                vals[p.arg] = self.ev(d, df)
        for name in pos + [p.arg for p in a.kwonlyargs]:
            if name not in vals:
                raise PyRaise('TypeError')
        return vals

    def run_func(self, f, args, kw):
        from .execr import Frame
        if self.depth > 25:
            raise Unsupported('call depth')
        fr = Frame(f.module, f.cls, f.frame, f.name)
        vals = self.bind(f, fr, args, kw)
        q = self.qual(f)
        if self.depth > 0 and q:
            self.inlined.add(q)
        fr.env.update(vals)
        self.frames.append(fr)
        self.depth += 1
        nfr = len(self.frames)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                raise Unsupported('generator')
            try:
                self.block(f.node.body, fr)
            except RetE as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            del self.frames[nfr - 1:]

    def instantiate(self, ci, args, kw):
        key = ci.key
        if key in self.schema and key != 'Vect':
            o = self.alloc(key)
        else:
            o = self.new_obj(key)
        k, c = 0, ci
        while c is not None and k < 5:
            if '__init__' in c.methods:
                self.call_func(Func(c.methods['__init__'], self.prog.mod(c.module), None, c), [o] + list(args), kw)
                return o
            c = self.base_of(c)
            k += 1
        return o

    # ------------------------------------------------------------------ iteration
    def iter_of(self, v, prov=None):
        """Concrete Python list of values, or IterSp."""
        if isinstance(v, IterSp):
            return v
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, (LCell, HList, Row)):
            n = self.known_len(v)
            if n is None and isinstance(v, HList):
                n = self.split_len(v)
            if n is not None:
                return [self.lget_free(v, i) for i in range(n)]
            c = self.content(v)
            pr = v.key if isinstance(v, HList) else 'local'
            sp = IterSp(c.n, lambda k: self.elem(v, c, k), c, pr)
            if not isinstance(v, Row):
                sp.lists = [v]
            return sp
        if isinstance(v, DView):
            c = self.st.cells[v.d.cid] if isinstance(v.d, DCell) else None
            if isinstance(c, CDict):
                if v.kind == 'keys':
                    return list(c.d.keys())
                if v.kind == 'values':
                    return list(c.d.values())
                return list(c.d.items())
            raise Unsupported('iteration over a symbolic dict')
        if isinstance(v, DCell):
            return self.iter_of(DView(v, 'keys'))
        if isinstance(v, SCell):
            c = self.st.cells[v.cid]
            if isinstance(c, CList):
                return list(c.items)
            return self.iter_of(self.set_to_list(v))
        if isinstance(v, Nd):
            return [Nd(r) if isinstance(r, list) else r for r in v.rows]
        if isinstance(v, Obj) and v.cls == '@FileR':
            return X.file_iter(self, v)
        if isinstance(v, (Obj, Ref)):
            m = self.find_method(v, '__iter__')
            if m is None and self.find_method(v, '__getitem__') and v.cls == 'Vect':
                return list(self.vect_coords(v))
        raise Unsupported('iteration over %r' % (v,))

    def elem(self, v, c, k):
        if isinstance(c.ety, tuple) and c.ety[0] == 'Row':
            return Row(v, k)
        return self.decode(z3.Select(c.el, k), c.ety)

    def lget_free(self, v, i):
        """Element of a list whose length is known to exceed i."""
        c = self.content(v)
        if isinstance(c, CList):
            return c.items[i]
        return self.elem(v, c, z3.IntVal(i))

    def split_len(self, v):
        """Case split on the length of a short heap list (lengths given by the contract options)."""
        hs = self.opts.get('fixed', {}).get(v.key, ())
        if len(hs) < 2:
            return None
        c = self.content(v)
        if not self.entails(z3.Or(*[c.n == h for h in hs])):
            return None
        for h in hs[:-1]:
            if self.branch(c.n == h, 'len'):
                return h
        self.assume(c.n == hs[-1])
        return hs[-1]

    def set_to_list(self, s):
        """list(set): every member once, in unspecified order."""
        c = self.st.cells[s.cid] if isinstance(s, SCell) else SymSet(self.H(s.key)[s.o], self.set_ety(s))
        if isinstance(c, CList):
            return self.new_list(CList(list(c.items)))
        es = ety_sort(c.ety)
        x = z3.Const('x', es)
        l = self.fresh_list(c.ety, 'sl')
        self.st.pc.append(z3.ForAll([x], l.cnt[x] == z3.If(c.mem[x], z3.IntVal(1), I0), patterns=[l.cnt[x]]))
        return self.new_list(SymList(l.n, l.el, l.cnt, l.ety))

    # ------------------------------------------------------------------ comprehensions
    def e_ListComp(self, n, fr):
        return self.comp(n, fr)

    def e_GeneratorExp(self, n, fr):
        return self.comp(n, fr)

    def e_SetComp(self, n, fr):
        l = self.comp(n, fr)
        from . import lib
        return lib.call_type(self, 'set', [l], {})

    def e_DictComp(self, n, fr):
        if len(n.generators) != 1:
            raise Unsupported('dict comprehension')
        g = n.generators[0]
        it = self.iter_of(self.ev(g.iter, fr))
        if isinstance(it, IterSp):
            raise Unsupported('symbolic dict comprehension')
        from .execr import Frame
        d = {}
        for v in it:
            f2 = Frame(fr.module, fr.cls, fr, fr.fname)
            self.assign(g.target, v, f2)
            if all(self.test(self.ev(c, f2)) for c in g.ifs):
                d[self.ckey(self.ev(n.key, f2))] = self.ev(n.value, f2)
        return self.new_dict(d)

    def comp(self, n, fr):
        from .execr import Frame
        f2 = Frame(fr.module, fr.cls, fr, fr.fname)
        self.frames.append(f2)
        try:
            first = self.iter_of(self.ev(n.generators[0].iter, fr))
            if isinstance(first, IterSp) and len(n.generators) == 1:
                return self.sym_comp(n, f2, first)
            if isinstance(first, IterSp) and len(n.generators) == 2:
                return self.flat_comp(n, f2, first)
            out = []
            self.comp_rec(n, f2, 0, out, first)
            return self.new_list(CList(out))
        finally:
            self.frames.remove(f2)

    def first_of(self, n, fr):
        """next(... for ... in ...): over items known one by one exactly as Python does it, else the first of the whole list."""
        from .execr import Frame
        g = n.args[0]
        if len(n.args) > 2:
            raise Unsupported('next')
        f2 = Frame(fr.module, fr.cls, fr, fr.fname)
        self.frames.append(f2)
        try:
            it = self.iter_of(self.ev(g.generators[0].iter, fr))
            dflt = [self.ev(n.args[1], fr)] if len(n.args) == 2 else []
            if len(g.generators) == 1 and not isinstance(it, IterSp):
                for v in it:
                    self.assign(g.generators[0].target, v, f2)
                    if all(self.test(self.ev(c, f2), 'comp-if') for c in g.generators[0].ifs):
                        return self.ev(g.elt, f2)
                if dflt:
                    return dflt[0]
                self.guard(z3.BoolVal(False), 'StopIteration', 'next finds an item')
                raise PathEnd()
        finally:
            self.frames.remove(f2)
        l = self.comp(g, fr)
        k = self.llen(l)
        if dflt:
            return self.getitem(l, 0) if self.test(self.compare_gt0(k), 'next') else dflt[0]
        self.guard(zn(k) > 0, 'StopIteration', 'next finds an item')
        return self.getitem(l, 0)

    def compare_gt0(self, k):
        return k > 0 if isinstance(k, int) else zn(k) > 0

    def comp_rec(self, n, fr, gi, out, first=None):
        if gi == len(n.generators):
            out.append(self.ev(n.elt, fr))
            return
        g = n.generators[gi]
        it = first if gi == 0 else self.iter_of(self.ev(g.iter, fr))
        if isinstance(it, IterSp):
            raise Unsupported('nested symbolic comprehension')
        for v in it:
            self.assign(g.target, v, fr)
            if all(self.test(self.ev(c, fr), 'comp-if') for c in g.ifs):
                self.comp_rec(n, fr, gi + 1, out)

    def summarize(self, it, fn):
        """Evaluate fn(element) at a symbolic position of an iteration space, for every element at once.

        Returns (k, paths) with paths [(hyps, value)], fresh constants turned into functions of k."""
        nf = self.nfresh
        k = self.fresh('k', z3.IntSort())
        sw = self.writes
        self.writes = WSet()

        def run():
            self.assume(z3.And(0 <= k, k < it.n))
            try:
                return fn(it.elem(k))
            except PyRaise as e:
                return ('raise', e)
        ob0 = len(self.obls)
        try:
            res = self.nested(run)
            w = self.writes
        finally:
            self.writes = sw
        bad = [(pcs, v[1]) for pcs, v, st in res if v[0] == 'raise']
        if bad and not self.mute:
            # some element raises (k is the witness), or every element takes one of the other paths
            d = self.choose(len(bad) + 1, 'comp-raise')
            if d:
                self.st.pc += bad[d - 1][0]
                if not self.feasible(z3.BoolVal(True)):
                    raise PathEnd()
                raise bad[d - 1][1]
        return k, nf, [x for x in res if x[1][0] != 'raise'], w

    def flat_comp(self, n, fr, it):
        """[f(x, y) for x in xs for y in g(x) if c(x, y)]: a list that holds, in lexicographic order, one value per kept pair (k, q)."""
        g0, g1 = n.generators
        if g0.ifs:
            raise Unsupported('filtered nested comprehension')
        qv = self.fresh('q', z3.IntSort())

        def body(v):
            self.assign(g0.target, v, fr)
            inner = self.iter_of(self.ev(g1.iter, fr))
            if isinstance(inner, IterSp):
                self.assume(z3.And(0 <= qv, qv < inner.n))
                item = inner.elem(qv)
            else:
                items = list(inner)
                if not items:
                    return ('skip', None)
                j = self.choose(len(items), 'inner')
                self.assume(qv == j)
                item = items[j]
            self.assign(g1.target, item, fr)
            for c in g1.ifs:
                if not self.test(self.ev(c, fr), 'comp-if'):
                    return ('skip', None)
            return ('val', self.ev(n.elt, fr))
        k, nf, res, w = self.summarize(it, body)
        if any(x[0] in ('heap',) for x in w):
            raise Unsupported('comprehension with side effects')
        base = self.st
        ety, rows = None, []
        vals = [(v[1], st) for _, v, st in res if v[0] == 'val']
        if not vals:
            raise Unsupported('empty comprehension')
        for v, st in vals:
            self.st = st
            try:
                e = self.ety_of(v)
            finally:
                self.st = base
            if ety is None or (ety == 'Int' and e == 'Real'):
                ety = e
        for v, st in vals:
            self.st = st
            try:
                t = self.encode(v, ety)
                pcs = st.pc[len(base.pc):]
            finally:
                self.st = base
            rows.append((z3.And(*pcs) if pcs else z3.BoolVal(True), t))
        i, q = z3.Int('i'), z3.Int('q')
        flat = [x for r in rows for x in r]
        sub = self.skolemize(flat, k, nf, i, [(qv, q)])
        rows = [(sub[2 * j], sub[2 * j + 1]) for j in range(len(rows))]
        I = z3.IntSort()
        m = self.fresh('cat_n', I)
        el = self.fresh('cat_el', z3.ArraySort(I, ety_sort(ety)))
        of, qf, pos = self.freshf('cat_o', I, I), self.freshf('cat_q', I, I), self.freshf('cat_pos', I, I, I)
        j, i2, q2 = z3.Int('j'), z3.Int('i2'), z3.Int('q2')
        at = lambda t, a, b: z3.substitute(t, (i, a), (q, b))
        keep = z3.Or(*[c for c, _ in rows])
        rng = z3.And(0 <= i, i < it.n)
        self.st.pc += [
            m >= 0,
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(
                0 <= of(j), of(j) < it.n, pos(of(j), qf(j)) == j,
                z3.Or(*[z3.And(at(c, of(j), qf(j)), el[j] == at(t, of(j), qf(j))) for c, t in rows]))), patterns=[el[j]]),
            z3.ForAll([i, q], z3.Implies(z3.And(rng, keep), z3.And(
                0 <= pos(i, q), pos(i, q) < m, of(pos(i, q)) == i, qf(pos(i, q)) == q, el[pos(i, q)] == el[pos(i, q)])), patterns=[pos(i, q)]),
            z3.ForAll([i, q, i2, q2], z3.Implies(z3.And(rng, keep, 0 <= i2, i2 < it.n, at(keep, i2, q2)),
                                                 (pos(i, q) < pos(i2, q2)) == z3.Or(i < i2, z3.And(i == i2, q < q2))),
                      patterns=[z3.MultiPattern(pos(i, q), pos(i2, q2))])]
        # the pairs themselves are terms only when a specification or another axiom names them: trigger on the values
        for c, t in rows:
            pat = [x for x in [t] if z3.is_app(x) and x.num_args() and self.mentions(x, i) and self.mentions(x, q)]
            if pat:
                try:
                    self.st.pc.append(z3.ForAll([i, q], z3.Implies(z3.And(rng, c), z3.And(
                        0 <= pos(i, q), pos(i, q) < m, el[pos(i, q)] == t)), patterns=pat))
                except z3.Z3Exception:
                    pass
        self.last_cat = (of, qf, pos)
        return self.new_list(SymList(m, el, None, ety))

    def skolemize(self, terms, k, nf, kk, extra=()):
        """Replace constants born while evaluating position k by functions applied to kk."""
        seen, consts = set(), {}
        stack = [t for t in terms]
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                stack.append(t.body())
                continue
            if z3.is_app(t):
                if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = t.decl().name()
                    if '!' in nm:
                        try:
                            i = int(nm.rsplit('!', 1)[1])
                        except ValueError:
                            continue
                        if i > nf and not t.eq(k) and not any(t.eq(a) for a, _ in extra):
                            consts[nm] = t
                elif t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = t.decl().name()
                    if '!' in nm and nm.rsplit('!', 1)[1].isdigit() and int(nm.rsplit('!', 1)[1]) > nf:
                        raise Unsupported('function born inside a comprehension')
                    stack.extend(t.children())
                else:
                    stack.extend(t.children())
        sub = [(k, kk)] + list(extra)
        ar = [kk] + [b for _, b in extra]
        for nm, t in consts.items():
            f = z3.Function(nm + '_sk', *([z3.IntSort()] * len(ar) + [t.sort()]))
            sub.append((t, f(*ar)))
        return [z3.substitute(t, *sub) for t in terms]

    def sym_comp(self, n, fr, it):
        g = n.generators[0]

        def body(v):
            self.assign(g.target, v, fr)
            for c in g.ifs:
                if not self.test(self.ev(c, fr), 'comp-if'):
                    return ('skip', None)
            return ('val', self.ev(n.elt, fr))
        return self.map_filter(it, body, bool(g.ifs))

    def map_filter(self, it, body, filt):
        k, nf, res, w = self.summarize(it, body)
        if any(x[0] in ('heap',) for x in w):
            raise Unsupported('comprehension with side effects')
        vals = [(pcs, v[1], st) for pcs, v, st in res if v[0] == 'val']
        skips = [pcs for pcs, v, st in res if v[0] == 'skip']
        if not vals:
            return self.new_list(CList([])) if filt else self._empty_map(it)
        base = self.st
        enc = []
        ety = None
        for pcs, v, st in vals:
            self.st = st
            try:
                e = self.ety_of(v) if v is not None else None
            finally:
                self.st = base
            if e is not None:
                if ety is None or (ety == 'Int' and e == 'Real'):
                    ety = e
        if ety is None:
            raise Unsupported('comprehension of None')
        rows = []
        for pcs, v, st in vals:
            self.st = st
            try:
                t = self.encode(v, ety)
                pcs = st.pc[len(base.pc):]
            finally:
                self.st = base
            rows.append((z3.And(*pcs) if pcs else z3.BoolVal(True), t))
        i = z3.Int('i')
        flat = []
        for c, t in rows:
            flat += [c, t]
        sk = [z3.And(*p) if p else z3.BoolVal(True) for p in skips]
        sub = self.skolemize(flat + sk, k, nf, i)
        rows = [(sub[2 * j], sub[2 * j + 1]) for j in range(len(rows))]
        sk = sub[2 * len(rows):]
        es = ety_sort(ety)
        rng = z3.And(0 <= i, i < it.n)
        pat = self.iter_pattern(it, i)
        src = it.src
        if not filt:
            el = self.fresh('map_el', z3.ArraySort(z3.IntSort(), es))
            vi = rows[-1][1]
            for c, t in reversed(rows[:-1]):
                vi = z3.If(c, t, vi)
            if len(rows) == 1:
                conds = rows[0][0]
                self.st.pc.append(z3.ForAll([i], z3.Implies(rng, z3.And(el[i] == rows[0][1], self.drop_rng(conds))),
                                            patterns=[el[i]] + pat))
            else:
                self.st.pc.append(z3.ForAll([i], z3.Implies(rng, z3.And(
                    z3.Or(*[z3.And(self.drop_rng(c), el[i] == t) for c, t in rows]))), patterns=[el[i]] + pat))
            ident = src is not None and len(rows) == 1 and src.cnt is not None and src.el.sort() == el.sort() and \
                rows[0][1].eq(z3.Select(src.el, i))
            if ident:
                return self.new_list(SymList(src.n, src.el, src.cnt, src.ety))
            return self.new_list(SymList(it.n, el, None, ety))
        # filter (possibly with mapping)
        m = self.fresh('flt_n', z3.IntSort())
        el = self.fresh('flt_el', z3.ArraySort(z3.IntSort(), es))
        pos = self.freshf('flt_pos', z3.IntSort(), z3.IntSort())     # result index -> source index
        rank = self.freshf('flt_rank', z3.IntSort(), z3.IntSort())   # source index -> result index
        j = z3.Int('j')
        keep = z3.Or(*[self.drop_rng(c) for c, _ in rows])
        skip = z3.Or(*[self.drop_rng(c) for c in sk]) if sk else z3.BoolVal(False)
        keepj = z3.substitute(keep, (i, pos(j)))
        valj = [(z3.substitute(self.drop_rng(c), (i, pos(j))), z3.substitute(t, (i, pos(j)))) for c, t in rows]
        self.st.pc += [0 <= m, m <= it.n,
                       z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(
                           0 <= pos(j), pos(j) < it.n, rank(pos(j)) == j,
                           z3.Or(*[z3.And(c, el[j] == t) for c, t in valj]))), patterns=[el[j]]),
                       z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(
                           0 <= pos(j), pos(j) < it.n, rank(pos(j)) == j)), patterns=[pos(j)]),
                       z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), pos(i) < pos(j)),
                                 patterns=[z3.MultiPattern(pos(i), pos(j))]),
                       z3.ForAll([i], z3.Implies(rng, z3.Or(skip, z3.And(
                           keep, 0 <= rank(i), rank(i) < m, pos(rank(i)) == i))), patterns=pat + [rank(i)])]
        self.last_filter = (pos, rank)
        if self.opts.get('filter_count'):
            # the length of a filtered list is the sum of the indicator of its condition
            from .lib import psum
            K = psum(z3.IntSort())
            ind = self.fresh('flt_ind', z3.ArraySort(z3.IntSort(), z3.IntSort()))
            self.st.pc += [z3.ForAll([i], ind[i] == z3.If(keep, 1, 0), patterns=[ind[i]]), m == K(ind, it.n),
                           z3.ForAll([i], z3.Implies(z3.And(rng, keep), rank(i) == K(ind, i)), patterns=[rank(i)])]
        if self.opts.get('filter_sum') and ety in ('Int', 'Real') and len(rows) == 1:
            # the sum of a filtered list is the sum of its source with zero for what is left out
            from .lib import psum
            P = psum(es)
            msk = self.fresh('flt_mask', z3.ArraySort(z3.IntSort(), es))
            self.st.pc += [z3.ForAll([i], msk[i] == z3.If(self.drop_rng(rows[0][0]), rows[0][1], z3.simplify(rows[0][1] - rows[0][1])), patterns=[msk[i]]),
                           P(el, m) == P(msk, it.n)]
        cnt = None
        if src is not None and src.cnt is not None and src.el.sort() == el.sort() and \
                all(t.eq(z3.Select(src.el, i)) for _, t in rows):
            x = z3.Const('x', es)
            rs = {rng.get_id()} | {t.get_id() for t in rng.children()}
            bare = z3.Or(*[z3.And([t for t in conjuncts(c) if t.get_id() not in rs]) for c, _ in rows])
            kx = z3.substitute(bare, (z3.Select(src.el, i), x))
            if not self.mentions(kx, i):
                cnt = self.fresh('flt_cnt', z3.ArraySort(es, z3.IntSort()))
                self.st.pc.append(z3.ForAll([x], cnt[x] == z3.If(z3.And(src.cnt[x] >= 1, kx), src.cnt[x], I0),
                                            patterns=[cnt[x], src.cnt[x]]))
                self.add_list_axioms(m, el, cnt, ety)
        return self.new_list(SymList(m, el, cnt, ety))

    def _empty_map(self, it):
        raise Unsupported('empty comprehension')

    def mentions(self, t, v):
        stack, seen = [t], set()
        while stack:
            u = stack.pop()
            if u.get_id() in seen:
                continue
            seen.add(u.get_id())
            if u.eq(v):
                return True
            stack.extend(u.children())
        return False

    def drop_rng(self, c):
        return c

    def iter_pattern(self, it, i):
        if it.src is not None and it.src.el is not None:
            return [z3.Select(it.src.el, i)]
        return []

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise Unsupported('statement ' + type(s).__name__)
            m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            fr.env[a.asname or a.name.split('.')[0]] = ModV(a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s, fr):
        for a in s.names:
            fr.env[a.asname or a.name] = self.ext_attr(s.module, a.name)

    def s_Global(self, s, fr):
        raise Unsupported('global')

    def s_Nonlocal(self, s, fr):
        fr.nonlocals |= set(s.names)

    def s_Assert(self, s, fr):
        t = self.truth(self.ev(s.test, fr))
        if t is True:
            return
        if t is False:
            raise PyRaise('AssertionError')
        self.guard(t, 'AssertionError', 'assert at `%s`' % ast.unparse(s.test)[:60])

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        op = OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            a = self.lookup(t.id, fr)
            b = self.ev(s.value, fr)
            self.assign(t, self.inplace(op, a, b), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            a = self.getattr_(o, t.attr)
            b = self.ev(s.value, fr)
            r = self.inplace(op, a, b)
            if r is a and isinstance(a, (HList, HSet, HDict)):
                return
            self.setattr_(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev(t.slice, fr)
            a = self.getitem(o, i)
            b = self.ev(s.value, fr)
            self.setitem(o, i, self.inplace(op, a, b))
        else:
            raise Unsupported('augmented target')

    def inplace(self, op, a, b):
        if op == '+' and isinstance(a, (LCell, HList, Row)):
            self.lextend(a, b)
            return a
        return self.arith(op, a, b)

    def lextend(self, a, b):
        it = self.iter_of(b)
        if isinstance(it, IterSp):
            if it.src is None:
                raise Unsupported('extend')
            tmp = self.new_list(it.src)
            r = self.lconcat(a, tmp)
            self.set_content(a, self.content(r))
            return
        for v in it:
            self.lappend(a, v)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            else:
                raise Unsupported('del')

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None:
                    if t.id in f.env:
                        f.env[t.id] = v
                        if self.writes is not None:
                            self.writes.add(('nonlocal', t.id))
                        return
                    f = f.parent
            fr.env[t.id] = v
            if '?' + t.id in fr.env:
                fr.env['?' + t.id] = True
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if isinstance(v, (LCell, HList, Row)) and self.known_len(v) is None:
                c = self.content(v)
                self.guard(c.n == n, 'ValueError', 'unpacking %d values' % n)
                items = [self.lget_free(v, i) for i in range(n)]
            else:
                items = self.iter_of(v)
            if isinstance(items, IterSp):
                raise Unsupported('unpacking')
            if len(items) != n:
                raise PyRaise('ValueError')
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        else:
            raise Unsupported('assignment target')

    def s_If(self, s, fr):
        if self.opts.get('merge') and self.merged(fr, lambda: self.s_If1(s, fr)):
            return
        self.s_If1(s, fr)

    def s_If1(self, s, fr):
        if self.test(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Return(self, s, fr):
        raise RetE(self.ev(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise BrkE()

    def s_Continue(self, s, fr):
        raise CntE()

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise PyRaise(getattr(self, 'cur_exc', 'Exception'))
        e = s.exc
        if isinstance(e, ast.Call):
            nm = e.func
        else:
            nm = e
        raise PyRaise(nm.id if isinstance(nm, ast.Name) else nm.attr)

    def s_FunctionDef(self, s, fr):
        fr.env[s.name] = Func(s, fr.module, fr, fr.cls, s.name)

    def s_With(self, s, fr):
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.block(s.body, fr)

    def mval(self, c, a, b):
        if a is b:
            return a
        if is_z(a) and is_z(b) and a.eq(b):
            return a
        if is_boolish(a) and is_boolish(b):
            return z3.If(c, zb(a), zb(b)) if not (isinstance(a, bool) and a == b and isinstance(b, bool)) else a
        if is_num(a) and is_num(b) and not is_boolish(a) and not is_boolish(b):
            if not is_z(a) and not is_z(b) and type(a) is type(b) and a == b:
                return a
            return z3.If(c, zreal(a), zreal(b)) if is_real(a) or is_real(b) else z3.If(c, zn(a), zn(b))
        if isinstance(a, Ref) and isinstance(b, Ref) and a.cls == b.cls:
            return Ref(a.cls, z3.If(c, a.t, b.t))
        if is_z(a) and is_z(b) and a.sort() == b.sort():
            return z3.If(c, a, b)
        if type(a) is type(b) and isinstance(a, (LCell, DCell, SCell)) and a.cid == b.cid:
            return a
        if isinstance(a, Obj) and isinstance(b, Obj) and a.oid == b.oid:
            return a
        if isinstance(a, str) and a == b and isinstance(b, str):
            return a
        raise Unsupported('merge')

    def merged(self, fr, fn):
        """Run fn over all its paths and join the end states (only when every path ends normally and the states can be joined)."""
        if not self.opts.get('merge'):
            return False

        def run():
            try:
                fn()
            except (PyRaise, RetE, BrkE, CntE):
                return None
            return dict(fr.env)
        n0 = len(self.obls)
        base = self.st
        try:
            res = self.nested(run)
        except Unsupported:
            raise
        if len(res) < 1 or any(v is None for _, v, _ in res):
            return False
        conds = [z3.And(*p) if len(p) != 1 else p[0] for p, _, _ in res]
        try:
            env, st = dict(res[-1][1]), res[-1][2]
            for c, (p, v, t) in list(zip(conds, res))[-2::-1]:
                if v.keys() != env.keys() or t.heap.keys() != st.heap.keys():
                    ks = t.heap.keys() ^ st.heap.keys()
                    if v.keys() != env.keys():
                        return False
                    for k in ks:
                        t.heap.setdefault(k, self.HO(t, k))
                        st.heap.setdefault(k, self.HO(st, k))
                env = {k: self.mval(c, v[k], env[k]) for k in env}
                new = t.snap()
                new.pc = st.pc
                for k in st.heap:
                    new.heap[k] = self.mval(c, t.heap[k], st.heap[k])
                for o in st.objs:
                    if o not in t.objs:
                        new.objs[o] = dict(st.objs[o])
                        continue
                    a, b = t.objs[o], st.objs[o]
                    if a.keys() != b.keys():
                        return False
                    new.objs[o] = {f: self.mval(c, a[f], b[f]) for f in a}
                for k in st.cells:
                    if k in t.cells and t.cells[k] is not st.cells[k]:
                        return False
                    new.cells[k] = st.cells[k]
                st = new
        except Unsupported:
            return False
        out = st.snap()
        out.pc = list(base.pc) + ([z3.Or(*conds)] if len(conds) > 1 else list(res[0][0]))
        self.st = out
        fr.env.clear()
        fr.env.update(env)
        self.solver = None
        return True

    def s_Try(self, s, fr):
        if self.merged(fr, lambda: self.s_Try1(s, fr)):
            return
        self.s_Try1(s, fr)

    def s_Try1(self, s, fr):
        if s.finalbody:
            raise Unsupported('finally')
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append(None)
            elif isinstance(h.type, ast.Tuple):
                names.append(tuple(x.id if isinstance(x, ast.Name) else x.attr for x in h.type.elts))
            else:
                names.append((h.type.id if isinstance(h.type, ast.Name) else h.type.attr,))
        fr.excstack.append(names)
        nfr, dep = len(self.frames), self.depth
        try:
            self.block(s.body, fr)
        except PyRaise as e:
            fr.excstack.pop()
            del self.frames[nfr:]
            self.depth = dep
            for h, nm in zip(s.handlers, names):
                if nm is None or e.name in nm or any(p in nm for p in EXC_PARENTS.get(e.name, ('Exception',))) or \
                        'BaseException' in nm:
                    if h.name:
                        fr.env[h.name] = Opaque('exception')
                    self.cur_exc = e.name
                    self.block(h.body, fr)
                    return
            raise
        except (RetE, BrkE, CntE):
            fr.excstack.pop()
            raise
        else:
            fr.excstack.pop()
            self.block(s.orelse, fr)

    # ------------------------------------------------------------------ loops
    def s_For(self, s, fr):
        v = self.ev(s.iter, fr)
        it = self.iter_of(v)
        if not isinstance(it, IterSp):
            lists = getattr(v, 'lists', None) or ([v] if isinstance(v, (HList, LCell)) else [])
            snaps = [(l, self.content(l)) for l in lists]
            brk = False
            for j, x in enumerate(it):
                self.assign(s.target, x, fr)
                try:
                    self.block(s.body, fr)
                except CntE:
                    pass
                except BrkE:
                    brk = True
                    break
                for l, snap in snaps:
                    c2 = self.content(l)
                    if isinstance(snap, CList) and isinstance(c2, CList):
                        if len(c2.items) != len(snap.items) or any(x is not y for x, y in list(zip(c2.items, snap.items))[j + 1:]):
                            raise Unsupported('list modified while iterated')
                        continue
                    c2, c1 = self.tosym(c2), self.tosym(snap)
                    if not (c2.n.eq(c1.n) and c2.el.eq(c1.el)):
                        self.prove(z3.And(c2.n == c1.n, *[c2.el[q] == c1.el[q] for q in range(j + 1, len(it))]),
                                   'list not modified while iterated', 'safety')
            if not brk:
                self.block(s.orelse, fr)
            return
        self.sym_loop(s, fr, it, v)

    def s_While(self, s, fr):
        # small concrete loops first
        t = self.truth(self.ev_pure(s.test, fr))
        if isinstance(t, bool) and not self.loop_spec_for('while', fr, s, peek=True):
            cnt = 0
            while True:
                tv = self.truth(self.ev(s.test, fr))
                if not isinstance(tv, bool):
                    tv = self.branch(tv, 'while')
                if not tv:
                    self.block(s.orelse, fr)
                    return
                try:
                    self.block(s.body, fr)
                except CntE:
                    pass
                except BrkE:
                    return
                cnt += 1
                if cnt > 60:
                    raise Unsupported('loop unrolling')
        self.sym_loop(s, fr, None, None)

    def ev_pure(self, n, fr):
        """Truth shape of a loop test without committing to a branch."""
        if isinstance(n, ast.Constant):
            return n.value
        return z3.Bool('sym')

    def loop_spec_for(self, prov, fr, s, peek=False):
        c = self.contract
        if c is None:
            return None
        key = (tuple(self.lstack), prov)
        cnt = self.loop_counts.get(key, 0)
        if not peek:
            self.loop_counts[key] = cnt + 1
        best = None
        inside = self.lstack[-1] if self.lstack else None
        for L in c.loops:
            if L.prov == prov and (L.nth is None or L.nth == cnt) and (L.inside is None or L.inside == inside):
                best = L
                if L.nth is not None:
                    break
        return best

    def cell_ids(self, v, acc, depth=0):
        if isinstance(v, (LCell, DCell, SCell)):
            acc.add(v.cid)

    def has_new_consts(self, t, nf):
        stack, seen = [t], set()
        while stack:
            u = stack.pop()
            if u.get_id() in seen:
                continue
            seen.add(u.get_id())
            if z3.is_quantifier(u):
                stack.append(u.body())
                continue
            if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = u.decl().name()
                if '!' in nm:
                    suf = nm.rsplit('!', 1)[1].replace('_sk', '')
                    if suf.isdigit() and int(suf) > nf:
                        return True
            stack.extend(u.children())
        return False

    def join_type(self, a, b, sa, sb):
        """Shape able to hold both values: a descriptor used to build a fresh value."""
        def shape(v, st):
            if v is None:
                return ('none',)
            if isinstance(v, bool) or (is_z(v) and z3.is_bool(v)):
                return ('Bool',)
            if is_real(v):
                return ('Real',)
            if is_int(v):
                return ('Int',)
            if self.opts.get('text') and X.textish(v):
                return ('Sort', X.TEXT)
            if isinstance(v, (str, TStr)) or (is_z(v) and v.sort() == z3.StringSort()):
                return ('Str',)
            if isinstance(v, Ref):
                return ('Ref', v.cls)
            if isinstance(v, Obj) and v.cls == 'Vect':
                return ('Vect',)
            if isinstance(v, tuple):
                return ('Tup', tuple(shape(x, st) for x in v))
            if is_z(v):
                return ('Sort', v.sort())
            return ('keep', v)
        x, y = shape(a, sa), shape(b, sb)
        return self.join_shape(x, y)

    def join_shape(self, x, y):
        if x == y:
            return x
        if x[0] == 'keep' and y[0] == 'keep':
            if type(x[1]) == type(y[1]) and isinstance(x[1], (LCell, SCell, DCell)) and x[1].cid == y[1].cid:
                return x
            if isinstance(x[1], HList) and isinstance(y[1], HList) and x[1].key == y[1].key and x[1].o.eq(y[1].o):
                return x
            if isinstance(x[1], Obj) and isinstance(y[1], Obj) and x[1].oid == y[1].oid:
                return x
            if isinstance(x[1], LCell) and isinstance(y[1], LCell):
                return ('LCell', x[1], y[1])
            if type(x[1]) == type(y[1]) and not isinstance(x[1], (Obj,)) and x[1] is y[1]:
                return x
            if isinstance(x[1], Func) and isinstance(y[1], Func) and x[1].node is y[1].node:
                return x
            return ('bad', x, y)
        if {x[0], y[0]} == {'Int', 'Real'}:
            return ('Real',)
        if x[0] == 'Ref' and y[0] == 'none':
            return x
        if y[0] == 'Ref' and x[0] == 'none':
            return y
        if x[0] == 'LCell' and y[0] == 'keep':
            return x
        if x[0] == 'Tup' and y[0] == 'Tup' and len(x[1]) == len(y[1]):
            return ('Tup', tuple(self.join_shape(a, b) for a, b in zip(x[1], y[1])))
        return ('bad', x, y)

    def fresh_of(self, sh, name):
        k = sh[0]
        if k == 'Bool':
            return self.fresh(name, z3.BoolSort())
        if k == 'Int':
            return self.fresh(name, z3.IntSort())
        if k == 'Real':
            return self.fresh(name, z3.RealSort())
        if k == 'Str':
            return self.fresh(name, z3.StringSort())
        if k == 'none':
            return None
        if k == 'Ref':
            t = self.fresh(name, ref_sort(sh[1]))
            self.st.pc.append(z3.Or(t == null(sh[1]), self.H(sh[1] + '.@alloc')[t]))
            return Ref(sh[1], t)
        if k == 'Vect':
            return self.new_vect([self.fresh(name + c, z3.RealSort()) for c in 'xyz'])
        if k == 'Tup':
            return tuple(self.fresh_of(x, name) for x in sh[1])
        if k == 'Sort':
            return self.fresh(name, sh[1])
        if k == 'keep':
            return sh[1]
        if k == 'bad':
            raise Unsupported('loop-carried variable %s changes shape' % name)
        raise Unsupported('loop-carried variable %s' % name)

    def fresh_content(self, pre, ety):
        if ety is None:
            return CList([])
        hascnt = not (isinstance(ety, tuple) and ety[0] == 'Row') and not (isinstance(pre, SymList) and pre.cnt is None)
        return self.fresh_list(ety, 'h', cnt=hascnt)

    def content_ety(self, c):
        if isinstance(c, SymList):
            return c.ety
        if isinstance(c, CList):
            if not c.items:
                return None
            e = [self.ety_of(v) for v in c.items]
            return 'Real' if 'Real' in e else e[0]
        return None

    def havoc_loop(self, mods, fr):
        """Forget everything the loop may change."""
        nfields = {}
        self.alloc0 = {}
        for (base, targets) in mods['heap']:
            nfields[base] = targets
            cls = base.rsplit('.', 1)[0]
            if targets is not None and has_new(targets):
                self.alloc0[cls] = self.H(cls + '.@alloc')
        for base in sorted(nfields, key=lambda b: (not b.endswith('@alloc'), b)):       # what exists comes first: new values refer to it
            targets = nfields[base]
            if targets is None or base.endswith('@alloc'):
                self.havoc_field(base)
            else:
                self.havoc_targets(base, targets)
        for cid, ety in mods['cells']:
            pre = self.st.cells[cid]
            if isinstance(pre, tuple) and pre[0] == 'alias':
                continue
            if isinstance(pre, tuple) and pre[0] == 'sym':
                self.st.cells[cid] = ('sym', self.fresh('dval', pre[1].sort()), self.fresh('dhas', pre[2].sort())) + pre[3:]
            elif isinstance(pre, (CList, SymList)) and ety != 'set':
                self.st.cells[cid] = self.fresh_content(pre, ety)
            else:
                raise Unsupported('loop changes a local dict/set')
        for oid, a, sh in mods['objs']:
            fs = dict(self.st.objs[oid])
            fs[a] = self.fresh_of(sh, a)
            self.st.objs[oid] = fs
        for name, sh in mods['locals']:
            if sh is None:
                fr.env.pop(name, None)
            elif sh[0] == 'LCell':
                # rebinding to a new list each iteration
                ety = sh[3]
                fr.env[name] = self.new_list(self.fresh_content(None, ety))
            else:
                fr.env[name] = self.fresh_of(sh, name)

    def entry_alloc(self, cls):
        return self.alloc0[cls]

    def is_new_obj(self, t, nf):
        """A constant naming an object allocated inside the loop body."""
        if z3.is_const(t) and t.decl().name().startswith('new_'):
            return int(t.decl().name().rsplit('!', 1)[1]) > nf
        return False

    def havoc_targets(self, base, targets):
        cls, field = base.rsplit('.', 1)
        d = self.schema[cls][field]
        if has_new(targets):
            rest = [t for t in targets if not isinstance(t, str)]
            ks = self.hkeys(cls, field)
            olds = [self.H(k) for k in ks]
            al = self.entry_alloc(cls)
            self.havoc_field(base)
            o = z3.Const('o', ref_sort(cls))
            for k, old in zip(ks, olds):
                new = self.H(k)
                self.st.pc.append(z3.ForAll([o], z3.Implies(z3.And(al[o], *[o != t for t in rest]), new[o] == old[o]),
                                            patterns=[new[o]]))
            return
        for k in self.hkeys(cls, field):
            self.H(k)
        if isinstance(d, tuple) and d[0] == 'List':
            for o in targets:
                l = self.fresh_list(d[1], 'h_' + field)
                for part, t in (('#len', l.n), ('#el', l.el), ('#cnt', l.cnt)):
                    self.hset(base + part, z3.Store(self.H(base + part), o, t), o)
                if isinstance(d[1], tuple) and d[1][0] == 'Ref':
                    es = ety_sort(d[1])
                    x = z3.Const('x', es)
                    al = self.H(d[1][1] + '.@alloc')
                    self.st.pc.append(z3.ForAll([x], z3.Implies(l.cnt[x] >= 1, al[x]), patterns=[l.cnt[x]]))
            return
        for k in self.hkeys(cls, field):
            a = self.H(k)
            for o in targets:
                v = self.fresh('h_' + field, a.sort().range())
                self.hset(k, z3.Store(self.H(k), o, v), o)
                if isinstance(d, tuple) and d[0] == 'Ref':
                    self.st.pc.append(z3.Or(v == null(d[1]), self.H(d[1] + '.@alloc')[v]))

    def loop_mods(self, s, fr, body_once, key):
        """Fixpoint of what the body writes, found by running it muted from ever more general states."""
        names = sorted(assigned_names(s.body) | (assigned_names([s.target]) if isinstance(s, ast.For) else set())
                       if not isinstance(s, ast.For) else
                       assigned_names(s.body) | {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)})
        names += ['?' + x for x in names if '?' + x in fr.env]
        nf = self.nfresh
        mods = {'heap': [], 'cells': [], 'objs': [], 'locals': []}
        ncid0, noid0 = self.ncid, self.noid
        heapt, cells, objs, shapes = {}, {}, {}, {}
        pre_env = dict(fr.env)
        for name in names:
            if name in pre_env:
                shapes[name] = self.join_type(pre_env[name], pre_env[name], None, None)
            else:
                shapes[name] = None
        for rnd in range(8):
            before = (repr(sorted((k, None if v is None else sorted(t if isinstance(t, str) else t.sexpr() for t in v)) for k, v in heapt.items())),
                      repr(sorted((k, repr(v)) for k, v in cells.items())),
                      repr(sorted((k, repr(v)) for k, v in objs.items())), repr(sorted((k, repr(v)) for k, v in shapes.items())))
            mods = {'heap': sorted(heapt.items(), key=lambda x: x[0]), 'cells': sorted(cells.items()),
                    'objs': [(o, a, sh) for (o, a), sh in sorted(objs.items())],
                    'locals': sorted(shapes.items())}
            sw = self.writes
            self.writes = WSet()
            self.mute += 1

            def run():
                self.havoc_loop(mods, fr)
                try:
                    body_once()
                    out = 'end'
                except CntE:
                    out = 'end'
                except BrkE:
                    out = 'brk'
                except RetE:
                    out = 'ret'
                except PyRaise:
                    out = 'exc'
                return out, dict(fr.env)
            try:
                res = self.nested(run)
                w = self.writes
            finally:
                self.mute -= 1
                self.writes = sw
            for x in w:
                if x[0] == 'heap':
                    base = x[1].partition('#')[0]
                    t = x[2]
                    if base.endswith('@alloc'):
                        heapt[base] = None
                    elif base in heapt and heapt[base] is None:
                        pass
                    elif t is not None and self.is_new_obj(t, nf):
                        heapt.setdefault(base, [])
                        if not has_new(heapt[base]):
                            heapt[base].append('NEW')
                    elif t is None or self.has_new_consts(t, nf):
                        heapt[base] = None
                    else:
                        cur = heapt.setdefault(base, [])
                        if not any(is_z(u) and t.eq(u) for u in cur):
                            cur.append(t)
                            if len(cur) > 6:
                                heapt[base] = None
                elif x[0] == 'cell' and x[1] <= ncid0:
                    cells.setdefault(x[1], None)
                elif x[0] == 'obj' and x[1] <= noid0:
                    objs.setdefault((x[1], x[2]), None)
                elif x[0] == 'nonlocal':
                    raise Unsupported('nonlocal assignment in a symbolic loop')
            base_st = self.st
            for pcs, (out, env), st in res:
                if out != 'end':
                    continue
                for cid in cells:
                    self.st = st
                    try:
                        c = st.cells.get(cid)
                        if isinstance(c, tuple) and c[0] == 'alias':
                            raise Unsupported('list handed over to an object inside a loop')
                        e = self.content_ety(c) if isinstance(c, (CList, SymList)) else 'set'
                        e0 = self.content_ety(base_st.cells[cid]) if isinstance(base_st.cells[cid], (CList, SymList)) else 'set'
                    finally:
                        self.st = base_st
                    for q in (e0, e):
                        if q is not None:
                            if cells[cid] is None or (cells[cid] == 'Int' and q == 'Real'):
                                cells[cid] = q
                for (oid, a) in objs:
                    v0 = base_st.objs[oid].get(a)
                    v1 = st.objs[oid].get(a)
                    sh = self.join_type(v0, v1, base_st, st)
                    objs[(oid, a)] = sh if objs[(oid, a)] is None else self.join_shape(objs[(oid, a)], sh)
                for name in names:
                    if shapes[name] is None or name not in env:
                        continue
                    if shapes[name][0] == 'LCell':
                        continue
                    sh = self.join_type(env[name], env[name], st, st)
                    j = self.join_shape(shapes[name], sh)
                    if j[0] == 'LCell':
                        self.st = st
                        try:
                            e1 = self.content_ety(self.content(j[2]))
                            e0 = self.content_ety(self.content(j[1])) if j[1].cid in st.cells else None
                        finally:
                            self.st = base_st
                        j = ('LCell', j[1], j[2], e1 or e0)
                    shapes[name] = j
            after = (repr(sorted((k, None if v is None else sorted(t if isinstance(t, str) else t.sexpr() for t in v)) for k, v in heapt.items())),
                     repr(sorted((k, repr(v)) for k, v in cells.items())),
                     repr(sorted((k, repr(v)) for k, v in objs.items())), repr(sorted((k, repr(v)) for k, v in shapes.items())))
            if before == after:
                break
        else:
            raise Unsupported('loop effects did not stabilise')
        return {'heap': sorted(heapt.items(), key=lambda x: x[0]), 'cells': sorted(cells.items()),
                'objs': [(o, a, sh) for (o, a), sh in sorted(objs.items())],
                'locals': sorted(shapes.items())}

    def sym_loop(self, s, fr, it, itv):
        isfor = it is not None
        prov = it.prov if isfor else 'while'
        spec = self.loop_spec_for(prov, fr, s)
        self.loops_seen.append((prov, getattr(spec, 'name', None)))
        self.all_loops.add((prov, getattr(spec, 'name', None)))
        from .contract import LoopView
        k = None
        kname = 'it'
        for x, d in sorted(self.opts.get('unbound', {}).items()):
            if x not in fr.env and x in assigned_names(s.body):
                # bound by some iterations only: a flag says whether it is
                fr.env[x], fr.env['?' + x] = self.make_param('unbound_' + x, d), False
        iters = [(v, self.tosym(self.content(v))) for v in it.lists] if isfor else []
        entry = self.st.snap()
        entry_env = dict(fr.env)
        counts0 = dict(self.loop_counts)
        lname = spec.name if spec is not None else prov
        stack0 = list(self.lstack)
        ks0 = self.kstack

        def bind(kk):
            if isfor:
                self.assign(s.target, it.elem(kk), fr)

        def body_once():
            self.loop_counts = dict(counts0)
            self.lstack = stack0 + [lname]
            self.kstack = ks0 + [None]
            if isfor:
                kk = self.fresh(kname, z3.IntSort())
                self.kstack = ks0 + [kk]
                self.assume(z3.And(0 <= kk, kk < it.n))
                bind(kk)
            else:
                if not self.test(self.ev(s.test, fr), 'while'):
                    raise PathEnd()
            self.block(s.body, fr)
        ck = (id(s), tuple((d[0], d[1], d[3] if len(d) > 3 else 0) for d in self.dec[:self.pos]), self.mute > 0)
        if ck in self.modcache:
            mods, self.nfresh, self.noid, self.ncid, lc = self.modcache[ck]
        else:
            mods = self.loop_mods(s, fr, body_once, ck)
            self.modcache[ck] = (mods, self.nfresh, self.noid, self.ncid, None)
        self.loop_counts = dict(counts0)
        self.lstack = list(stack0)
        self.kstack = ks0
        # initialisation
        if spec is not None:
            LV = LoopView(self, fr, entry, entry_env, it, I0)
            for lab, f in spec.inv(LV):
                self.prove(f, 'loop %s: invariant "%s" holds initially' % (spec.name, lab), 'inv-init')
        d = self.choose(2, 'loop')
        self.havoc_loop(mods, fr)
        if d == 0:
            # after the loop
            if isfor:
                for v, c0 in iters:
                    cur = self.tosym(self.content(v))
                    if not cur.n.eq(c0.n):
                        self.st.pc.append(cur.n == c0.n)
                kk = z3.simplify(z3.If(it.n >= 0, it.n, I0)) if not z3.is_int_value(it.n) else it.n
                if spec is not None:
                    for lab, f in spec.inv(LoopView(self, fr, entry, entry_env, it, kk)):
                        self.assume(f)
                if isinstance(s.target, ast.Name):
                    fr.env.pop(s.target.id, None)
                else:
                    for x in ast.walk(s.target):
                        if isinstance(x, ast.Name):
                            fr.env.pop(x.id, None)
            else:
                if spec is not None:
                    for lab, f in spec.inv(LoopView(self, fr, entry, entry_env, it, None)):
                        self.assume(f)
                if self.test(self.ev(s.test, fr), 'while-exit'):
                    raise PathEnd()
            self.block(s.orelse, fr)
            return
        if isfor:
            kk = self.fresh(kname, z3.IntSort())
            self.assume(z3.And(0 <= kk, kk < it.n))
            if it.src is not None and it.src.cnt is not None:
                self.pc_step(it.src, kk)
            i = z3.Int('i')
            now = [(v, self.tosym(self.content(v))) for v, _ in iters]
            for (v, c0), (_, cur) in zip(iters, now):
                # no iteration so far changed the length or what is still to come (checked at the end of each)
                if not (cur.n.eq(c0.n) and cur.el.eq(c0.el)):
                    self.st.pc += [cur.n == c0.n, z3.ForAll([i], z3.Implies(z3.And(kk <= i, i < c0.n), cur.el[i] == c0.el[i]), patterns=[cur.el[i]])]
        else:
            kk, now = None, []
        if spec is not None:
            for lab, f in spec.inv(LoopView(self, fr, entry, entry_env, it, kk)):
                self.assume(f)
        var0 = spec.variant(LoopView(self, fr, entry, entry_env, it, kk)) if spec is not None and spec.variant else None
        if isfor:
            bind(kk)
        else:
            if not self.test(self.ev(s.test, fr), 'while'):
                raise PathEnd()
        sw = self.writes
        self.writes = WSet()

        self.lstack = stack0 + [lname]
        self.kstack = ks0 + [kk]
        cid0 = self.loop_cid0
        self.loop_cid0 = self.ncid

        def done():
            self.loop_cid0 = cid0
            w = self.writes
            self.writes = sw
            self.lstack = list(stack0)
            self.kstack = ks0
            self.loop_counts = dict(counts0)
            if sw is not None:
                sw.update(w)
            self.check_mods(w, mods)
        try:
            self.block(s.body, fr)
        except CntE:
            pass
        except (BrkE,):
            done()
            return
        except (RetE, PyRaise, PathEnd, Unsupported):
            done_exc = self.writes
            self.loop_cid0 = cid0
            self.lstack = list(stack0)
            self.kstack = ks0
            self.loop_counts = dict(counts0)
            self.writes = sw
            if sw is not None:
                sw.update(done_exc)
            raise
        done()
        for v, c1 in now:
            c2 = self.tosym(self.content(v))
            if not (c2.n.eq(c1.n) and c2.el.eq(c1.el)):
                i = z3.Int('i')
                self.prove(z3.And(c2.n == c1.n, z3.ForAll([i], z3.Implies(z3.And(kk < i, i < c1.n), c2.el[i] == c1.el[i]))),
                           'list not modified while iterated', 'safety')
        if spec is not None:
            self.body_smokes.setdefault(spec.name, []).append(list(self.st.pc))
            LV = LoopView(self, fr, entry, entry_env, it, z3.simplify(kk + 1) if kk is not None else None)
            for lab, f in spec.inv(LV):
                self.prove(f, 'loop %s: invariant "%s" is preserved' % (spec.name, lab), 'inv-step')
            if var0 is not None:
                v1 = spec.variant(LV)
                self.prove(z3.And(v1 < var0, var0 >= 0), 'loop %s: variant decreases' % spec.name, 'variant')
        raise PathEnd()

    def check_mods(self, w, mods):
        hb = {b: t for b, t in mods['heap']}
        cells = {c for c, _ in mods['cells']}
        objs = {(o, a) for o, a, _ in mods['objs']}
        for x in w:
            if x[0] == 'heap':
                base = x[1].partition('#')[0]
                if base not in hb:
                    raise Unsupported('loop writes %s unexpectedly' % base)
