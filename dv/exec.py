"""Symbolic execution of the extracted C++ and generation of obligations.

One function at a time.  Loops are cut at their head (havoc of what the body
writes + inferred invariants), calls to functions under contract use the
contract only, other functions of /repo are inlined, the standard library is
used through the contracts in lib.py."""
import sys
from .smt import *
from . import smt
from .state import *
from .spec import DATA, DECL2DATA, TYPES, SPECS
from .cxxast import tyof, simple_type, FUNKINDS

sys.setrecursionlimit(20000)
MAXUNROLL = 3000


class Frame:
    def __init__(self, func, this, fid, tu):
        self.func, self.this, self.id, self.tu = func, this, fid, tu
        self.env = {}
        self.temps = []


class Lambda:
    """a closure: the body and the environment it was created in"""

    def __init__(self, node, env, frame):
        self.node, self.env, self.frame = node, env, frame


class Obl:
    __slots__ = ('name', 'hyps', 'goal', 'kind', 'facets', 'line', 'result', 'func', 'depth', 'lemmas')

    def __init__(self, name, hyps, goal, kind, line=None, facets=()):
        self.name, self.hyps, self.goal, self.kind, self.line, self.facets = name, hyps, goal, kind, line, facets
        self.result = None
        self.func = None
        self.depth = None


class Cand:
    __slots__ = ('name', 'fn', 'entry', 'back', 'alive')

    def __init__(self, name, fn):
        self.name, self.fn, self.entry, self.back, self.alive = name, fn, [], [], True


class Loop:
    def __init__(self, name, ph, line):
        self.name, self.ph, self.line = name, ph, line
        self.cands = []
        self.head = None
        self.entries = []
        self.backs = []
        self.measures = []
        self.written = []


class Ctx:
    """one run of a full expression: the decisions taken"""

    def __init__(self, prefix, cache, work):
        self.prefix, self.n, self.cache, self.work, self.taken, self.calls = prefix, 0, cache, work, [], 0


class Executor:
    def __init__(self, prog, contracts, lib):
        self.prog, self.contracts, self.lib = prog, contracts, lib
        self.obls, self.loops = [], {}
        self.st = None
        self.fr = None
        self.ctx = None
        self.pure = 0
        self.depth = 0
        self.used_contracts, self.used_lib, self.inlined = set(), set(), set()
        self.noemit = 0
        self.exact_wrap = set()
        self.loctype = {}
        self.langarr = None
        self.fnids = {}
        self.templates = []
        self.measures = []
        self.callstack = []
        self.target = None
        self.measure0 = None
        self.join = False
        self.nodeord = {}
        self.steps = 0
        self.maxsteps = 400000
        self.cur_contract = None
        self.fnframes = 0
        self.loopstack = []
        self.varnames = {}
        self.thisid = None
        self.static0 = {}
        self.tls = set()
        self.static_pc = {}

    # ------------------------------------------------------------ helpers
    def line(self, n):
        for k in ('range', 'loc'):
            r = n.get(k, {})
            b = r.get('begin', r)
            for x in (b, b.get('expansionLoc', {}), b.get('spellingLoc', {})):
                if 'line' in x:
                    return x['line']
        return None

    def nid(self, n):
        return n.get('id')

    def oblige(self, kind, what, goal, n=None, facets=()):
        if self.noemit:
            return
        if bval(goal) is True:
            goal = TRUE
        f = self.fr.func.key if self.fr and self.fr.func else '?'
        name = '%s: %s' % (f, what)
        self.obls.append(Obl(name, list(self.st.pc), goal, kind, None, facets))

    def shared_write(self, st, p):
        """a write to an object that every thread sees, outside its initialisation"""
        if p.loc in self.tls or self.noemit:
            return
        self.shared('writes no object shared between threads', st, p.loc[-1])

    def shared(self, what, st, detail):
        f = self.target.key if self.target else '?'
        o = Obl('%s: %s' % (f, what), list(st.pc), FALSE, 'shared', None, ('C21',))
        o.result = detail
        self.obls.append(o)

    def assume(self, c):
        self.st.assume(c)

    def feasible(self, pc, extra):
        return not quick_unsat(pc + [extra])

    # ------------------------------------------------ full expressions
    def full(self, st, fn):
        """all outcomes of fn (an expression evaluation) from state st"""
        saved = (self.st, self.ctx, self.pure)
        out = []
        work = [()]
        cache = {}
        try:
            while work:
                prefix = work.pop()
                self.ctx = Ctx(prefix, cache, work)
                self.st = st.copy()
                self.pure = 0
                mark = len(self.obls)
                try:
                    v = fn()
                    out.append(('norm', self.st, v))
                except Throw as t:
                    out.append(('throw', self.st, t))
                except Infeasible:
                    pass
                if len(out) > 4000:
                    raise Unsupported('too many paths')
        finally:
            self.st, self.ctx, self.pure = saved
        return out

    def decide(self, options, nofeas=False):
        """take one of the options; options: list of (cond, thunk_value)"""
        ctx = self.ctx
        d = ctx.n
        ctx.n += 1
        if d < len(ctx.prefix) and not self.pure:
            k = ctx.prefix[d]
            ctx.taken.append(k)
            self.assume(options[k][0])
            return k
        feas = []
        left = len(options)
        for k, (c, _) in enumerate(options):
            v = bval(c)
            if v is False:
                continue
            if v is True or (nofeas and not self.denied(c)) or (not nofeas and self.feasible(self.st.pc, c)):
                feas.append(k)
                if v is True:
                    break
        if not feas:
            raise Infeasible()
        if self.pure and len(feas) > 1:
            raise NeedFork()
        assert d == len(ctx.taken)
        base = tuple(ctx.taken)
        for k in reversed(feas[1:]):
            ctx.work.append(base + (k,))
        k = feas[0]
        ctx.taken.append(k)
        if len(feas) == 1 and self.pure:
            pass
        self.assume(options[k][0])
        return k

    def denied(self, c):
        for p in self.st.pc:
            if z3.is_not(p) and p.arg(0).eq(c) or z3.is_not(c) and c.arg(0).eq(p):
                return True
            if z3.is_and(p) and any(z3.is_not(q) and q.arg(0).eq(c) for q in p.children()):
                return True
        return False

    def branch(self, c):
        v = bval(c)
        if v is not None:
            return v
        for p in reversed(self.st.pc):
            if p.eq(c):
                return True
            if z3.is_not(p) and p.arg(0).eq(c):
                return False
            if z3.is_not(c) and c.arg(0).eq(p):
                return False
        return self.decide([(c, True), (mk_not(c), False)]) == 0

    def choose(self, thunk, what):
        """pick one of the outcomes of a nested execution"""
        ctx = self.ctx
        assert ctx.n == len(ctx.taken)
        ctx.calls += 1
        key = (ctx.calls, self.pure, tuple(ctx.taken), what)
        if key in ctx.cache:
            outs = ctx.cache[key]
        else:
            outs = thunk(self.st)
            ctx.cache[key] = outs
        if not outs:
            raise Infeasible()
        if len(outs) == 1:
            k = 0
        else:
            if self.pure:
                raise NeedFork()
            d = ctx.n
            ctx.n += 1
            if d < len(ctx.prefix):
                k = ctx.prefix[d]
            else:
                b = tuple(ctx.taken)
                for j in reversed(range(1, len(outs))):
                    ctx.work.append(b + (j,))
                k = 0
            ctx.taken.append(k)
        kind, st, v = outs[k]
        self.st = st.copy()
        if kind == 'throw':
            raise v
        return v

    def lazily(self, cond, fn):
        """value of fn() evaluated under cond without forking; NeedFork if it
        has effects or branches"""
        st0 = self.st
        self.st = st0.copy()
        self.st.assume(cond)
        n0 = len(self.st.pc)
        mark = len(self.obls)
        self.pure += 1
        undo = self.ctxmark()
        try:
            v = fn()
            new = self.st
            keys = set(new.store)
            for k in st0.store:
                if k not in new.store or not same(st0.store[k], new.store[k]):
                    raise NeedFork()
            extra = new.pc[n0:]
            st1 = st0
            for k in keys:
                if k not in st0.store:
                    st1.store[k] = new.store[k]
            for x in extra:
                st1.assume(mk_or(mk_not(cond), x))
            self.st = st1
            return v
        except (NeedFork, Throw, Infeasible):
            self.st = st0
            del self.obls[mark:]
            undo()
            raise NeedFork()
        finally:
            self.pure -= 1

    def ctxmark(self):
        """way back to this point of the full expression (abandoned attempts)"""
        ctx = self.ctx
        n, t, c, known = ctx.n, len(ctx.taken), ctx.calls, set(ctx.cache)

        def undo():
            ctx.n, ctx.calls = n, c
            del ctx.taken[t:]
            for k in [k for k in ctx.cache if k not in known]:
                del ctx.cache[k]
        return undo

    # ------------------------------------------------------- expressions
    def val(self, n):
        """value of an expression of any category"""
        if n.get('valueCategory') in ('lvalue', 'xvalue'):
            r = self.lv(n)
            return self.rd(r) if isinstance(r, Path) else r
        return self.ev(n)

    def rd(self, p):
        return self.st.read(p)

    def inner(self, n):
        return [c for c in n.get('inner', []) if c.get('kind')]

    def temp(self, n, v, ty=None):
        loc = ('t', self.fr.id, self.nid(n))
        self.st.store[loc] = v
        return Path(loc)

    def ev(self, n):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported('step limit')
        m = getattr(self, 'e_' + n['kind'], None)
        if m is None:
            raise Unsupported('expression %s' % n['kind'])
        return m(n)

    def lv(self, n):
        k = n['kind']
        m = getattr(self, 'l_' + k, None)
        if m is None:
            # an rvalue used as glvalue, or a call returning a reference
            v = self.ev(n)
            if isinstance(v, Path) or isinstance(v, tuple) and v[0] == 'pair':
                return v
            return self.temp(n, v)
        return m(n)

    # --- literals
    def e_IntegerLiteral(self, n):
        return IntVal(int(n['value']))

    def e_CharacterLiteral(self, n):
        return IntVal(int(n['value']) & 255)

    def e_CXXBoolLiteralExpr(self, n):
        return BoolVal(bool(n['value']))

    def e_CXXNullPtrLiteralExpr(self, n):
        return NULL

    def e_GNUNullExpr(self, n):
        return NULL

    def e_StringLiteral(self, n):
        import ast as pyast
        return lit(c_unescape(n['value']))

    def l_StringLiteral(self, n):
        return CStr(FALSE, lit(c_unescape(n['value'])))

    def l_PredefinedExpr(self, n):
        return CStr(FALSE, lit(b'<function>'))

    def e_SourceLocExpr(self, n):
        return IntVal(0)

    # --- wrappers
    def passthru(self, n):
        return self.ev(self.inner(n)[0])

    def lpass(self, n):
        return self.lv(self.inner(n)[0])
    e_ParenExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = passthru
    l_ParenExpr = l_CXXBindTemporaryExpr = l_ConstantExpr = lpass

    def e_ExprWithCleanups(self, n):
        sub = self.inner(n)[0]
        r = self.ev(sub) if n.get('valueCategory') == 'prvalue' else self.lv(sub)
        return r

    def l_ExprWithCleanups(self, n):
        return self.lv(self.inner(n)[0])

    def e_MaterializeTemporaryExpr(self, n):
        return self.val(self.inner(n)[0])

    def l_MaterializeTemporaryExpr(self, n):
        sub = self.inner(n)[0]
        v = self.ev(sub) if sub.get('valueCategory') == 'prvalue' else self.lv(sub)
        if isinstance(v, Path):
            return v
        p = self.temp(n, v)
        if isinstance(v, Obj) and v.cls in self.lib.DESTROY:
            self.fr.temps.append((p, v.cls))
        return p

    def e_CXXDefaultArgExpr(self, n):
        raise Unsupported('default argument outside a call')

    def e_CXXDefaultInitExpr(self, n):
        raise Unsupported('default member initialiser')

    def e_ImplicitValueInitExpr(self, n):
        return self.default_value(tyof(n))

    def e_CXXScalarValueInitExpr(self, n):
        return self.default_value(tyof(n))

    # --- names
    def varloc(self, did, n):
        fr = self.fr
        f = fr
        e = f.env.get(did)
        if isinstance(e, AliasRef):
            r = self.st.store.get(e.loc)
            if r is None:
                raise Unsupported('reference before initialisation')
            return r.path if isinstance(r, Ref) else r
        if e is not None:
            return e
        d = fr.tu.decl.get(did)
        if d is None:
            x = self.lib.extern_var(self, n.get('referencedDecl', {}).get('name'), n)
            if x is not None:
                return x if isinstance(x, Path) else self.temp(n, x)
        if d is None or d.get('kind') == 'ParmVarDecl':
            raise Unsupported('reference to unknown variable %s' % n.get('referencedDecl', {}).get('name'))
        return self.static_path(fr.tu, did, d)

    def static_path(self, tu, did, d):
        own = tu.owner.get(did)
        if own:
            loc = ('static', own, d['name'])
        elif d.get('storageClass') == 'static' or d.get('constexpr') or True:
            loc = ('static', '', d['name'])
        if d.get('tls'):
            self.tls.add(loc)
        if loc not in self.st.store:
            ty = tyof(d)
            q = d['type']['qualType']
            isconst = q.startswith('const ') or ' const' in q.split('[')[0] or d.get('constexpr')
            init = self.prog.statics.get((own, d['name'])) or self.prog.statics.get((tu.path, d['name'])) \
                or self.prog.statics.get(('', d['name']))
            if isconst or loc in self.lib.CONST_STATICS:
                if init is None:
                    raise Unsupported('constant %s without initialiser' % d['name'])
                itu, node = init
                sv = self.fr
                self.fr = Frame(sv.func, None, ('static', d['name']), itu)
                try:
                    e = self.inner(node)
                    e = [c for c in e if not c['kind'].endswith(('Attr', 'Comment', 'Type'))]
                    v = self.init_value(e[-1], ty, loc)
                finally:
                    self.fr = sv
            else:
                if loc in self.static0:
                    v = self.static0[loc]
                    for a in self.static_pc[loc]:
                        self.st.assume(a)
                else:
                    n0 = len(self.st.pc)
                    v = self.fresh_value(d['name'], ty)
                    if v is None:
                        raise Unsupported('global %s' % d['name'])
                    self.static0[loc] = v
                    self.static_pc[loc] = self.st.pc[n0:]
                self.loctype[loc] = ty
            self.st.store[loc] = v
        if 'LanguageSpec[' in simple_type(tyof(d)):
            self.langarr = loc
        return Path(loc)

    def init_value(self, e, ty, loc):
        if e['kind'] == 'InitListExpr':
            items = []
            sub = self.inner(e)
            st = strip_type(tyof(e))
            cls = simple_type(st)
            if cls in self.prog.classes and '[' not in st:
                fs = self.prog.classes[cls]
                vals = [self.init_value(x, tyof(x), loc) for x in sub]
                while len(vals) < len(fs):
                    vals.append(self.default_value(tyof(fs[len(vals)])))
                return Obj(cls, {f['name']: self.coerce(v, tyof(f)) for f, v in zip(fs, vals)})
            if '[' in st:
                vals = [self.init_value(x, tyof(x), loc) for x in sub if x['kind'] != 'ImplicitValueInitExpr' or True]
                # array filler
                if 'array_filler' in e:
                    vals = [self.init_value(x, tyof(x), loc) for x in e['array_filler'][1:]]
                return CVec(vals)
            if len(sub) == 1:
                return self.init_value(sub[0], ty, loc)
            if not sub:
                return self.default_value(ty)
            raise Unsupported('initialiser list of %s' % st)
        return self.val(e)

    def e_InitListExpr(self, n):
        r = self.lib.initlist(self, n)
        if r is not None:
            return r
        return self.init_value(n, tyof(n), None)

    def coerce(self, v, ty):
        """NULL as a typed null pointer"""
        if v is NULL:
            t = simple_type(ty)
            if t == 'char*':
                return CStr(TRUE, STR.empty)
            return IntVal(0)
        return v

    def l_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        if rd['kind'] in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            return self.varloc(rd['id'], n)
        if rd['kind'] in FUNKINDS:
            return self.fnref(n)
        raise Unsupported('reference to %s' % rd['kind'])

    def e_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        if rd['kind'] in FUNKINDS:
            return self.fnref(n)
        if rd['kind'] == 'EnumConstantDecl':
            return self.lib.enumconst(self, rd)
        if n.get('valueCategory') == 'prvalue':
            p = self.varloc(rd['id'], n)
            return self.rd(p)
        return self.l_DeclRefExpr(n)

    def fnref(self, n):
        rd = n['referencedDecl']
        f = self.prog.resolve(self.fr.tu, rd['id'])
        if f is None:
            return ('libfn', rd['name'])
        return self.fnid(f)

    def fnid(self, f):
        k = 1000 + sum((i + 1) * b for i, b in enumerate(f.mangled.encode())) * 7919 % 1000003
        while k in self.fnids and self.fnids[k] is not f and self.fnids[k].mangled != f.mangled:
            k += 1
        self.fnids[k] = f
        return IntVal(k)

    def e_CXXThisExpr(self, n):
        if self.fr.this is None:
            raise Unsupported('this')
        return Ref(self.fr.this)

    # --- member access
    def l_MemberExpr(self, n):
        base = self.inner(n)[0]
        name = n['name']
        if n.get('isArrow'):
            p = self.ev(base) if base.get('valueCategory') == 'prvalue' else self.val(base)
            p = self.deref(p, base)
        elif base.get('valueCategory') in ('lvalue', 'xvalue'):
            p = self.lv(base)
        else:
            v = self.ev(base)
            p = self.temp(n, v)
        own = self.fr.tu.owner.get(n.get('referencedMemberDecl'))
        md = self.fr.tu.decl.get(n.get('referencedMemberDecl'))
        if md is not None and md['kind'] == 'VarDecl':
            return self.static_path(self.fr.tu, md['id'], md)
        return self.member(p, name, n)

    def member(self, p, name, n):
        if isinstance(p, tuple) and p[0] == 'pair':
            v = p[1] if name == 'first' else p[2]
            return v if isinstance(v, Path) else self.temp(n, v)
        if isinstance(p, Path):
            v = p.f(name)
            if self.is_ref_member(n):
                cur = self.rd(v)
                if isinstance(cur, Ref):
                    return cur.path
            h = self.embedded(n)
            if h is not None:
                return Path(h).k(self.rd(v))
            return v
        raise Unsupported('member %s' % name)

    def embedded(self, n):
        """heap of a member object that other objects may point to: the member holds its number there"""
        d = self.fr.tu.decl.get(n.get('referencedMemberDecl'))
        if d is None or d['type']['qualType'].rstrip().endswith(('&', '*')):
            return None
        return self.lib.heaps().get(simple_type(tyof(d)))

    def is_ref_member(self, n):
        d = self.fr.tu.decl.get(n.get('referencedMemberDecl'))
        return d is not None and d['type']['qualType'].rstrip().endswith('&')

    def e_MemberExpr(self, n):
        return self.rd(self.l_MemberExpr(n))

    def deref(self, p, n=None):
        """object designated by a pointer value"""
        if isinstance(p, Ref):
            return p.path
        if isinstance(p, tuple) and p[0] == 'pair':
            return p
        if isinstance(p, Path):
            return p
        if p is NULL:
            self.oblige('safety', 'null pointer dereference', FALSE, n)
            raise Infeasible()
        if isinstance(p, CStr):
            self.oblige('safety', 'null pointer dereference', mk_not(p.null), n)
            return Path(('cstr',), (('c', p),))
        if z3.is_expr(p) and p.sort() == IntSort():
            ty = simple_type(tyof(n)) if n is not None else ''
            return self.lib.deref_int(self, p, ty, n)
        r = self.lib.deref(self, p, n)
        if r is None:
            raise Unsupported('dereference of %s' % type(p).__name__)
        return r

    # --- casts
    def e_ImplicitCastExpr(self, n):
        ck = n['castKind']
        sub = self.inner(n)[0]
        return self.cast(ck, sub, n)

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def l_ImplicitCastExpr(self, n):
        ck = n['castKind']
        sub = self.inner(n)[0]
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'LValueBitCast', 'BaseToDerived'):
            return self.lv(sub)
        v = self.cast(ck, sub, n)
        return v if isinstance(v, Path) else self.temp(n, v)
    l_CStyleCastExpr = l_CXXStaticCastExpr = l_CXXConstCastExpr = l_CXXReinterpretCastExpr = l_ImplicitCastExpr
    l_CXXFunctionalCastExpr = l_ImplicitCastExpr

    def e_CXXFunctionalCastExpr(self, n):
        return self.cast(n['castKind'], self.inner(n)[0], n)

    def cast(self, ck, sub, n):
        ty = tyof(n)
        if ck == 'LValueToRValue':
            p = self.lv(sub)
            if isinstance(p, Path):
                if p.sels and p.sels[-1][0] == 'c':
                    raise Unsupported('read through char pointer')
                return self.rd(p)
            return p
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'BitCast', 'FunctionToPointerDecay',
                  'DerivedToBase', 'UncheckedDerivedToBase', 'BuiltinFnToFnPtr'):
            if sub.get('valueCategory') in ('lvalue', 'xvalue') and n.get('valueCategory') == 'prvalue' and ck == 'NoOp':
                return self.val(sub)
            if ck == 'FunctionToPointerDecay':
                return self.lv(sub)
            if n.get('valueCategory') in ('lvalue', 'xvalue'):
                return self.lv(sub)
            if sub.get('valueCategory') in ('lvalue', 'xvalue'):
                return self.val(sub)
            return self.ev(sub)
        if ck == 'ArrayToPointerDecay':
            p = self.lv(sub)
            if isinstance(p, Path):
                return ('arr', p)
            return p
        if ck == 'NullToPointer':
            return self.coerce(NULL, ty) if simple_type(ty) == 'char*' else NULL
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            return self.tobool(self.ev(sub))
        if ck == 'IntegralToBoolean':
            return mk_not(cmp_int('==', self.asint(self.ev(sub), sub), IntVal(0)))
        if ck in ('IntegralCast',):
            return self.intcast(self.ev(sub), tyof(sub), ty, n)
        if ck == 'ToVoid':
            self.val(sub)
            return VOID
        if ck == 'PointerToIntegral':
            v = self.ev(sub)
            return self.lib.addr(self, v)
        if ck == 'IntegralToPointer':
            v = self.ev(sub)
            if ival(v) is not None:
                return IntVal(ival(v) % U64)
            return v
        raise Unsupported('cast %s' % ck)

    def tobool(self, v):
        if v is NULL:
            return FALSE
        if isinstance(v, CStr):
            return mk_not(v.null)
        if isinstance(v, (Ref, Path, SPtr)) or (isinstance(v, tuple) and v[0] in ('arr', 'pair')):
            return TRUE
        if z3.is_expr(v) and v.sort() == BoolSort():
            return v
        if z3.is_expr(v) and v.sort() == IntSort():
            return mk_not(cmp_int('==', v, IntVal(0)))
        raise Unsupported('boolean value of %s' % type(v).__name__)

    def asint(self, v, n):
        if z3.is_expr(v) and v.sort() == BoolSort():
            return mk_ite(v, IntVal(1), IntVal(0))
        if z3.is_expr(v) and v.sort() == IntSort():
            return v
        raise Unsupported('integer value expected')

    def intcast(self, v, frm, to, n):
        a, b = inttype(frm), inttype(to)
        if a is None or b is None:
            return v            # enums, pointers
        if a[0] == 1:
            return mk_ite(v, IntVal(1), IntVal(0)) if z3.is_expr(v) and v.sort() == BoolSort() else v
        v = self.asint(v, n)
        if a == (8, True):        # char is kept as a byte
            if b == (8, True) or b == (8, False):
                return v
            w = sx(v)
            if b[1]:
                return w
            # sign extended and then reduced to unsigned
            k = ival(w)
            if k is not None:
                return IntVal(k % (1 << b[0]))
            return mk_ite(v >= 128, v - 256 + (1 << b[0]), v)
        if b == (8, True):        # to char: low byte
            c = unsx(v)
            if c is not None:
                return c
            k = ival(v)
            if k is not None:
                return IntVal(k & 255)
            return self.lowbyte(v)
        if b == (8, False):
            c = unsx(v)
            if c is not None:
                return c
            k = ival(v)
            return IntVal(k & 255) if k is not None else self.lowbyte(v)
        lo, hi = rng(b)
        la, ha = rng(a)
        if lo <= la and ha <= hi:
            return v
        k = ival(v)
        if k is not None:
            k %= (1 << b[0])
            return IntVal(k - (1 << b[0]) if b[1] and k > hi else k)
        if is_bounded_ite(v, lo, hi):
            return v
        key = ('cast', self.nid(n))
        if key not in self.exact_wrap:
            g = simp(And(v >= lo, v <= hi))
            if bval(g) is True:
                return v
            self.oblige('nowrap', 'conversion keeps the value #%s' % self.ordn(n), g, n)
            if not self.noemit:
                self.obls[-1].line = key
            return v
        m = v % (1 << b[0])
        return mk_ite(m > hi, m - (1 << b[0]), m) if b[1] else m

    def lowbyte(self, v):
        t = simp(v)
        if is_bounded_ite(t, 0, 255) or self.lib.is_byte(t):
            return t
        if quick_unsat(self.st.pc + [mk_or(t < 0, t > 255)]):
            return t
        return t % 256

    def ordn(self, n):
        return self.nodeord.setdefault(self.nid(n), len(self.nodeord))

    # --- operators
    def e_UnaryOperator(self, n):
        op = n['opcode']
        sub = self.inner(n)[0]
        if op == '!':
            v = self.ev(sub)
            return mk_not(self.tobool(v))
        if op == '-':
            v = self.ev(sub)
            return self.arith(simp(-v), n)
        if op == '+':
            return self.ev(sub)
        if op == '~':
            it = inttype(tyof(n))
            v = self.ev(sub)
            return simp(-v - 1) if it[1] else simp((1 << it[0]) - 1 - v)
        if op == '&':
            p = self.lv(sub)
            if isinstance(p, Path):
                return self.lib.addrof(self, p, n)
            return p
        if op in ('++', '--'):
            p = self.lv(sub)
            old = self.rd(p)
            new = self.step(old, 1 if op == '++' else -1, n, sub)
            self.st.write(p, new)
            return old if n.get('isPostfix') else new
        if op == '*':
            return self.rd(self.l_UnaryOperator(n))
        if op == '__extension__':
            return self.ev(sub)
        raise Unsupported('unary %s' % op)

    def l_UnaryOperator(self, n):
        op = n['opcode']
        sub = self.inner(n)[0]
        if op == '*':
            v = self.ev(sub)
            if isinstance(v, tuple) and v[0] == 'arr':
                return v[1].i(IntVal(0))
            if isinstance(v, CStr):
                self.oblige('safety', 'null pointer dereference', mk_not(v.null), n)
                return self.temp(n, mk_at(v.s, 0))
            return self.deref(v, sub)
        if op in ('++', '--') and not n.get('isPostfix'):
            p = self.lv(sub)
            self.st.write(p, self.step(self.rd(p), 1 if op == '++' else -1, n, sub))
            return p
        if op == '__extension__':
            return self.lv(sub)
        v = self.e_UnaryOperator(n)
        return self.temp(n, v)

    def step(self, v, d, n, sub):
        if z3.is_expr(v) and v.sort() == IntSort():
            it = inttype(tyof(sub))
            if it == (8, True):
                return simp((v + d) % 256)
            return self.arith(simp(v + d), sub, n)
        if isinstance(v, Iter):
            return self.lib.iter_move(self, v, d, n)
        if isinstance(v, SPtr):
            return self.lib.ptrarith(self, '+', v, IntVal(d), n)
        if isinstance(v, CStr) and d == 1:
            return CStr(v.null, mk_sub(v.s, IntVal(1), mk_len(v.s)))
        raise Unsupported('++/-- on %s' % type(v).__name__)

    def arith(self, t, tn, n=None):
        """integer result in the type of tn: overflow obligations / wrap"""
        n = n or tn
        it = inttype(tyof(tn))
        if it is None:
            return t
        lo, hi = rng(it)
        k = ival(t)
        if k is not None:
            if lo <= k <= hi:
                return t
            if it[1]:
                self.oblige('safety', 'signed overflow', FALSE, n)
                return t
            return IntVal(k % (1 << it[0]))
        if is_bounded_ite(t, lo, hi):
            return t
        g = simp(And(t >= lo, t <= hi))
        if bval(g) is True:
            return t
        if it[1]:
            self.oblige('safety', 'signed overflow #%s' % self.ordn(n), g, n)
            return t
        key = ('arith', self.nid(n))
        if key not in self.exact_wrap:
            self.oblige('nowrap', 'no wrap-around #%s' % self.ordn(n), g, n)
            if not self.noemit:
                self.obls[-1].line = key
            return t
        return simp(t % (1 << it[0]))

    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = self.inner(n)
        if op in ('&&', '||'):
            x = self.tobool(self.ev(a))
            v = bval(x)
            if v is (op == '||') and v is not None:
                return x
            if v is not None:
                return self.tobool(self.ev(b))
            cond = x if op == '&&' else mk_not(x)
            try:
                y = self.lazily(cond, lambda: self.tobool(self.ev(b)))
                return mk_and(x, y) if op == '&&' else mk_or(x, y)
            except NeedFork:
                if self.pure:
                    raise
            if self.branch(x):
                return self.tobool(self.ev(b)) if op == '&&' else TRUE
            return FALSE if op == '&&' else self.tobool(self.ev(b))
        if op == ',':
            self.val(a)
            return self.ev(b)
        if op == '=' or op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            return self.rd(self.l_BinaryOperator(n))
        x, y = self.ev(a), self.ev(b)
        return self.binop(op, x, y, n, a, b)

    def binop(self, op, x, y, n, a, b):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if x is NULL or y is NULL or isinstance(x, (CStr, Ref, Iter, SPtr)) or isinstance(y, (CStr, Ref, Iter, SPtr)):
                return self.lib.ptrcmp(self, op, x, y, n)
            if z3.is_expr(x) and x.sort() == BoolSort():
                if z3.is_expr(y) and y.sort() == BoolSort() and op in ('==', '!='):
                    r = mk_eq(x, y)
                    return r if op == '==' else mk_not(r)
                x = self.asint(x, a)
            if z3.is_expr(y) and y.sort() == BoolSort():
                y = self.asint(y, b)
            x, y = self.asint(x, a), self.asint(y, b)
            if inttype(tyof(a)) == (8, True) and inttype(tyof(b)) == (8, True):
                x, y = sx(x), sx(y)
            return cmp_int(op, x, y)
        if isinstance(x, (Iter, CStr, Ref, SPtr)) or isinstance(y, (Iter, CStr, Ref, SPtr)) or isinstance(x, tuple):
            return self.lib.ptrarith(self, op, x, y, n)
        x, y = self.asint(x, a), self.asint(y, b)
        if op == '+':
            return self.arith(simp(x + y), n)
        if op == '-':
            return self.arith(simp(x - y), n)
        if op == '*':
            if ival(x) is None and ival(y) is None:
                raise Unsupported('nonlinear multiplication')
            return self.arith(simp(x * y), n)
        if op in ('/', '%'):
            it = inttype(tyof(n))
            if ival(y) is None or ival(y) <= 0:
                self.oblige('safety', 'division by zero', mk_not(mk_eq(y, IntVal(0))), n)
                if ival(y) is None:
                    raise Unsupported('division by a variable')
            from .spec import t_cdiv, t_cmod
            if it[1]:
                return t_cdiv(x, y) if op == '/' else t_cmod(x, y)
            return simp(x / y) if op == '/' else simp(x % y)
        if op in ('&', '|', '^', '<<', '>>'):
            i, j = ival(x), ival(y)
            if i is not None and j is not None:
                r = {'&': i & j, '|': i | j, '^': i ^ j, '<<': i << j if j < 64 else 0, '>>': i >> j if j < 64 else 0}[op]
                return self.arith(IntVal(r), n)
            if op == '&' and j is not None and j >= 0 and (j & (j + 1)) == 0:
                return simp(x % (j + 1))
            if op == '>>' and j is not None:
                return simp(x / (1 << j))
            if op == '<<' and j is not None:
                return self.arith(simp(x * (1 << j)), n)
        raise Unsupported('operator %s' % op)

    def l_BinaryOperator(self, n):
        op = n['opcode']
        a, b = self.inner(n)
        if op == '=':
            v = self.ev(b)
            p = self.lv(a)
            v = self.coerce(v, tyof(a))
            self.st.write(p, self.adapt(v, p))
            return p
        if op == ',':
            self.val(a)
            return self.lv(b)
        raise Unsupported('lvalue operator %s' % op)

    def adapt(self, v, p):
        return v

    def l_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        a, b = self.inner(n)
        y = self.ev(b)
        p = self.lv(a)
        x = self.rd(p)
        ta = inttype(tyof(a))
        ct = n.get('computeLHSType', {})
        cty = ct.get('desugaredQualType') or ct.get('qualType') or tyof(a)
        if z3.is_expr(x) and ta is not None:
            if op in ('&', '|') and x.sort() == BoolSort() or ta == (1, False):
                xb = x
                yb = self.tobool(y)
                r = mk_or(xb, yb) if op == '|' else mk_and(xb, yb) if op == '&' else None
                if r is None:
                    raise Unsupported('bool %s=' % op)
                self.st.write(p, r)
                return p
            x2 = self.intcast(x, tyof(a), cty, n)
            fake = dict(n)
            fake['type'] = {'qualType': cty}
            r = self.binop(op, x2, y, fake, fake, b)
            r = self.intcast(r, cty, tyof(a), n) if inttype(cty) != ta else r
            self.st.write(p, r)
            return p
        r = self.binop(op, x, y, n, a, b)
        self.st.write(p, r)
        return p

    def e_CompoundAssignOperator(self, n):
        return self.rd(self.l_CompoundAssignOperator(n))

    def e_ConditionalOperator(self, n):
        c, a, b = self.inner(n)
        x = self.tobool(self.ev(c))
        v = bval(x)
        if v is not None:
            return self.ev(a) if v else self.ev(b)
        try:
            if self.fr.temps:
                pass
            st0 = self.st.copy()
            mark = len(self.obls)
            undo = self.ctxmark()
            p = self.lazily(x, lambda: self.ev(a))
            q = self.lazily(mk_not(x), lambda: self.ev(b))
            if z3.is_expr(p) and z3.is_expr(q) and p.sort() == q.sort():
                return mk_ite(x, p, q)
            self.st = st0
            del self.obls[mark:]
            undo()
        except NeedFork:
            self.st = st0
            del self.obls[mark:]
            undo()
            if self.pure:
                raise
        return self.ev(a) if self.branch(x) else self.ev(b)

    def l_ConditionalOperator(self, n):
        c, a, b = self.inner(n)
        x = self.tobool(self.ev(c))
        return self.lv(a) if self.branch(x) else self.lv(b)

    def l_ArraySubscriptExpr(self, n):
        a, b = self.inner(n)
        p = self.ev(a)
        i = self.ev(b)
        if isinstance(p, tuple) and p[0] == 'arr':
            arr = self.rd(p[1])
            if isinstance(arr, CVec):
                k = len(arr.items)
                self.oblige('safety', 'array index in bounds #%s' % self.ordn(n), simp(And(i >= 0, i < k)), n)
                if ival(i) is None and not isinstance(arr.items[0], (Obj, CStr)):
                    return self.select_table(n, p[1], arr, i)
                if ival(i) is None:
                    raise Unsupported('symbolic index into a table of objects')
                if not 0 <= ival(i) < k:
                    raise Infeasible()
            return p[1].i(i)
        if isinstance(p, CStr):
            self.oblige('safety', 'string index in bounds #%s' % self.ordn(n), And(mk_not(p.null), i >= 0, i <= mk_len(p.s)), n)
            return self.temp(n, mk_at(p.s, i))
        raise Unsupported('subscript of %s' % type(p).__name__)

    def select_table(self, n, path, arr, i):
        k = len(arr.items)
        if isinstance(arr.items[0], CVec):
            c = self.decide([(mk_eq(i, IntVal(j)), j) for j in range(k)])
            return path.i(IntVal(c))
        t = arr.items[-1]
        for j in range(k - 2, -1, -1):
            t = mk_ite(mk_eq(i, IntVal(j)), arr.items[j], t)
        return self.temp(n, t)

    def e_UnaryExprOrTypeTraitExpr(self, n):
        t = n.get('argType', {}).get('qualType')
        if t is None:
            sub = self.inner(n)
            t = tyof(sub[0])
        import re
        m = re.search(r'char\s*\[(\d+)\]', t)
        if m:
            return IntVal(int(m.group(1)))
        it = inttype(t)
        if it:
            return IntVal(max(1, it[0] // 8))
        raise Unsupported('sizeof %s' % t)

    # --- construction
    def default_value(self, ty):
        v = self.lib.default(self, simple_type(ty), ty)
        if v is None:
            raise Unsupported('default value of %s' % ty)
        return v

    def fresh_value(self, name, ty):
        return self.lib.fresh_value(self, name, ty)

    def e_CXXConstructExpr(self, n):
        return self.construct(n, self.inner(n))

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, n, args):
        ty = simple_type(tyof(n))
        cls = ty
        if cls in self.prog.classes:
            fs = self.args_types(n.get('ctorType', {}).get('qualType', ''))
            # copy / move construction
            if len(args) == 1 and simple_type(tyof(args[0])) == cls:
                return self.val(args[0])
            f = None
            # constructor definitions of the class with matching parameter types
            cand = [g for tu in self.prog.tus for g in tu.funcs.values()
                    if g.cls == cls and g.kind == 'CXXConstructorDecl' and len(g.params) >= len(args)]
            want = [simple_type(x) for x in fs]
            best = [g for g in cand if [simple_type(tyof(p)) for p in g.params] == want]
            if not best and n.get('ctorType'):
                best = [g for g in cand if len(g.params) == len(args)]
            if best:
                return self.construct_with(best[0], args, n)
            if not args:
                return self.implicit_ctor(cls, n)
            raise Unsupported('constructor of %s' % cls)
        return self.lib.construct(self, ty, args, n)

    def implicit_ctor(self, cls, n):
        f = {}
        for x in self.prog.classes[cls]:
            try:
                f[x['name']] = self.default_value(tyof(x)) if inttype(tyof(x)) is None and '*' not in tyof(x) else UNINIT
            except Unsupported:
                raise
        f = {k: v for k, v in f.items() if v is not UNINIT}
        return Obj(cls, f)

    def args_types(self, q):
        """parameter types of a function type string"""
        i = q.find('(')
        if i < 0:
            return []
        d, cur, out = 0, '', []
        for ch in q[i + 1:q.rfind(')')]:
            if ch in '<(':
                d += 1
            if ch in '>)':
                d -= 1
            if ch == ',' and d == 0:
                out.append(cur)
                cur = ''
            else:
                cur += ch
        if cur.strip() and cur.strip() != 'void':
            out.append(cur)
        return out

    def construct_with(self, f, args, n):
        c = self.contracts.get(f.key)
        if c is not None and self.usable(f):
            vals = self.bind_args(f, args, n)
            return self.apply_contract(c, f, None, vals, n)
        vals = self.bind_args(f, args, n)
        loc = ('t', self.fr.id, self.nid(n), 'obj')
        return self.choose(lambda st: self.run_ctor(f, Path(loc), vals, n, st), (f.key, self.nid(n)))

    def run_ctor(self, f, this, vals, n, st):
        outs = []
        self.inlined.add(f.key)
        fid = (self.fr.id, self.nid(n), 'c')
        saved = self.fr
        base = st.copy()
        base.store[this.loc] = Obj(f.cls, {})
        fr = Frame(f, this, fid, f.tu)
        self.fr = fr
        self.depth += 1
        if self.depth > 40:
            raise Unsupported('inlining depth')
        try:
            self.bind_params(f, vals, base, fr)
            cur = [('norm', base, None)]
            for ini in f.inits:
                nxt = []
                for k, s, v in cur:
                    if k != 'norm':
                        nxt.append((k, s, v))
                        continue
                    nxt += self.full(s, lambda: self.do_init(ini, this))
                cur = nxt
            for k, s, v in cur:
                if k == 'norm':
                    for k2, s2, v2 in self.exec(f.body, s):
                        if k2 in ('norm', 'ret'):
                            o = s2.store[this.loc]
                            s3 = s2
                            del s3.store[this.loc]
                            outs.append(('norm', s3, o))
                        else:
                            outs.append((k2, s2, v2))
                else:
                    outs.append((k, s, v))
        finally:
            self.fr = saved
            self.depth -= 1
        return outs

    def do_init(self, ini, this):
        e = self.inner(ini)[0]
        if 'anyInit' in ini:
            fd = ini['anyInit']
            ty = fd['type'].get('desugaredQualType') or fd['type']['qualType']
            if fd['type']['qualType'].rstrip().endswith('&'):
                v = self.lv(e)
                v = Ref(v) if isinstance(v, Path) else v
            elif e['kind'] == 'CXXDefaultInitExpr':
                d = next((x for x in self.prog.classes.get(self.fr.func.cls, []) if x['name'] == fd['name']), None)
                v = self.val([c for c in self.inner(d) if not c['kind'].endswith(('Attr', 'Comment'))][-1])
            else:
                v = self.val(e)
            v = self.coerce(v, ty)
            if not fd['type']['qualType'].rstrip().endswith(('&', '*')) and simple_type(ty) in self.lib.heaps():
                v = self.lib.allocate(self, simple_type(ty), v)
            self.st.write(this.f(fd['name']), v)
        elif 'baseInit' in ini:
            return VOID
        else:      # delegating constructor
            v = self.val(e)
            self.st.store[this.loc] = v
        return VOID

    # --- calls
    def e_CallExpr(self, n):
        return self.call(n)

    e_CXXMemberCallExpr = e_CXXOperatorCallExpr = e_UserDefinedLiteral = e_CallExpr

    def l_CallExpr(self, n):
        r = self.call(n)
        return r if isinstance(r, (Path, CStr)) or isinstance(r, tuple) and r[0] == 'pair' else self.temp(n, r)

    l_CXXMemberCallExpr = l_CXXOperatorCallExpr = l_CallExpr

    def call(self, n):
        k = n['kind']
        inner = self.inner(n)
        callee, args = inner[0], inner[1:]
        while callee['kind'] in ('ImplicitCastExpr', 'ParenExpr') and callee.get('castKind') in (None, 'FunctionToPointerDecay', 'NoOp') or \
                callee['kind'] == 'UnaryOperator' and callee['opcode'] == '*' and '(*)' not in tyof(callee) and '(' in tyof(callee):
            callee = self.inner(callee)[0]
        if k == 'CXXMemberCallExpr' and callee['kind'] == 'MemberExpr':
            f = self.prog.resolve(self.fr.tu, callee['referencedMemberDecl'])
            obj = self.inner(callee)[0]
            d = self.fr.tu.decl.get(callee['referencedMemberDecl'])
            if d is not None and (d.get('virtual') or d.get('pure')):
                return self.lib.virtual(self, callee['name'], obj, callee, args, n)
            if f is not None:
                return self.invoke(f, self.objpath(obj, callee), args, n)
            if d is not None and d.get('kind') == 'CXXDestructorDecl':
                return VOID
            self.used_lib.add('%s::%s' % (self.lib.short(simple_type(tyof(obj))), callee['name']))
            return self.lib.member_call(self, callee['name'], obj, callee, args, n)
        if callee['kind'] == 'DeclRefExpr' and callee['referencedDecl']['kind'] in FUNKINDS:
            rd = callee['referencedDecl']
            f = self.prog.resolve(self.fr.tu, rd['id'])
            if f is not None and f.name == 'operator=' and (f.node.get('isImplicit') or f.node.get('explicitlyDefaulted')):
                v = self.val(args[1])
                p = self.lv(args[0])
                self.st.write(p, v)
                return p
            if f is not None:
                if k == 'CXXOperatorCallExpr' and f.cls and not f.static:
                    return self.invoke(f, self.objpath(args[0], None), args[1:], n)
                return self.invoke(f, None, args, n)
            d = self.fr.tu.decl.get(rd['id'])
            if d is not None and d.get('explicitlyDefaulted') or (rd['name'] == 'operator=' and
                                                                  simple_type(tyof(args[0])) in self.prog.classes):
                p = self.lv(args[0])
                v = self.val(args[1])
                self.st.write(p, v)
                return p
            if rd['name'] == 'operator()' and '(lambda at ' in tyof(args[0]):
                return self.call_lambda(args[0], args[1:], n)
            self.used_lib.add(rd['name'])
            if rd['name'] in self.lib.MT_UNSAFE:
                self.shared('calls only functions that several threads may call at once', self.st, rd['name'])
            if k == 'CXXOperatorCallExpr':
                return self.lib.op_call(self, rd['name'][len('operator'):], args, n, callee)
            return self.lib.free_call(self, rd['name'], args, n, callee)
        if callee['kind'] == 'CXXPseudoDestructorExpr':
            return VOID
        # call through a function pointer
        fv = self.val(callee)
        return self.lib.call_pointer(self, fv, args, n, callee)

    # --- lambda expressions: the body runs in the environment of its definition
    def e_LambdaExpr(self, n):
        sub = self.inner(n)
        rec = sub[0]
        meth = [c for c in rec.get('inner', []) if c['kind'] == 'CXXMethodDecl' and c.get('name') == 'operator()' and not c.get('isImplicit')]
        if len(meth) != 1:
            raise Unsupported('generic lambda')
        env = dict(self.fr.env)
        for k, (fd, e) in enumerate(zip([c for c in rec['inner'] if c['kind'] == 'FieldDecl'], sub[1:])):
            if fd['type']['qualType'].rstrip().endswith('&'):
                continue
            x = e
            while x['kind'] not in ('DeclRefExpr', 'CXXThisExpr'):
                x = self.inner(x)[0] if self.inner(x) else {'kind': 'CXXThisExpr', 'bad': 1}
            if x.get('bad'):
                raise Unsupported('lambda capture')
            if x['kind'] == 'CXXThisExpr':
                if not fd['type']['qualType'].rstrip().endswith('*'):
                    raise Unsupported('lambda capture of *this')
                continue
            loc = ('v', (self.fr.id, 'capture', self.nid(n)), x['referencedDecl']['id'])
            self.st.store[loc] = self.coerce(self.val(e), tyof(fd))
            self.loctype[loc] = tyof(fd)
            env[x['referencedDecl']['id']] = Path(loc)
        return Lambda(meth[0], env, self.fr)

    def call_lambda(self, fn, args, n):
        lam = self.ev(fn) if fn.get('valueCategory') == 'prvalue' else self.rd(self.lv(fn))
        if isinstance(lam, Path):
            lam = self.rd(lam)
        if not isinstance(lam, Lambda):
            raise Unsupported('call of an unknown lambda')
        f = self.lambda_func(lam)
        vals = self.bind_args(f, args, n)
        return self.run_lambda(lam, f, vals, n)

    def lambda_func(self, lam):
        fr = lam.frame
        f = type(fr.func)(lam.node, None, fr.tu, '')
        f.key = fr.func.key + ' lambda'
        f.ret = f.node['type']['qualType'].split('->')[-1].strip() if '->' in f.node['type']['qualType'] else f.ret
        return f

    def run_lambda(self, lam, f, vals, n):
        return self.choose(lambda st: self.run_func(f, lam.frame.this, vals, n, st, lam.env), (f.key, lam.node['id'], self.nid(n)))

    def apply_callable(self, fv, elems, n):
        """a lambda or function applied to element paths of a container"""
        if isinstance(fv, Path):
            fv = self.rd(fv)
        if isinstance(fv, Lambda):
            f = self.lambda_func(fv)
        elif z3.is_expr(fv) and fv.sort() == IntSort() and ival(fv) is not None and self.fnids.get(ival(fv)) is not None:
            f = self.fnids[ival(fv)]
        elif isinstance(fv, tuple) and fv[0] == 'libfn' and len(elems) == 1:
            v = self.rd(elems[0])
            if not (z3.is_expr(v) and v.sort() == IntSort()):
                raise Unsupported('library function applied to an element')
            return self.lib.char_fn(self, fv[1], self.intcast(v, 'char', 'int', n))
        else:
            raise Unsupported('call of an unknown function object')
        vals = []
        for p, e in zip(f.params, elems):
            isref = p['type']['qualType'].rstrip().endswith('&')
            if isref:
                vals.append(e if isinstance(e, Path) else self.temp(n, e))
                continue
            v = self.rd(e) if isinstance(e, Path) else e
            if z3.is_expr(v) and v.sort() == IntSort() and inttype(tyof(p)) is not None:
                v = self.intcast(v, 'char', tyof(p), n)
            vals.append(self.coerce(v, tyof(p)))
        if isinstance(fv, Lambda):
            return self.run_lambda(fv, f, vals, n)
        return self.call_func(f, None, vals, n)

    def algo(self, n, init, step, finish):
        """a loop of the standard library: `init` creates its variables, `step`
        is one iteration (True: go on), `finish` gives the result"""
        def thunk(st):
            st = st.copy()
            sv = self.st
            self.st = st
            init()
            self.st = sv

            def iterate(s):
                out = []
                for k, s1, v in self.full(s, step):
                    if k == 'norm':
                        out.append(('back' if v is True else 'norm', s1, None if v is True else v))
                    else:
                        out.append((k, s1, v))
                return self.merge(out)
            outs = []
            for k, s, v in self.loop(n, st, iterate, None):
                if k != 'norm':
                    outs.append((k, s, v))
                    continue
                outs += self.full(s, lambda v=v: finish(v))
            return outs
        return self.choose(thunk, ('algo', self.nid(n)))

    def objpath(self, obj, callee):
        if callee is not None and callee.get('isArrow'):
            return self.deref(self.ev(obj) if obj.get('valueCategory') == 'prvalue' else self.val(obj), obj)
        if obj.get('valueCategory') in ('lvalue', 'xvalue'):
            p = self.lv(obj)
            return p
        v = self.ev(obj)
        if isinstance(v, Path):
            return v
        p = self.temp(obj, v)
        return p

    def default_arg(self, f, i):
        """default-argument expression node of parameter i (from any declaration)"""
        for tu in [f.tu] + self.prog.tus:
            for d in tu.decl.values():
                if d.get('kind') in FUNKINDS and d.get('mangledName') == f.mangled:
                    ps = [c for c in d.get('inner', []) if c.get('kind') == 'ParmVarDecl']
                    if i < len(ps) and ps[i].get('init'):
                        e = [c for c in self.inner(ps[i]) if not c['kind'].endswith(('Attr', 'Comment'))]
                        if e:
                            return tu, e[-1]
        return None, None

    def bind_args(self, f, args, n):
        """evaluated arguments: Path for references, values otherwise"""
        vals = []
        for i, p in enumerate(f.params):
            isref = p['type']['qualType'].rstrip().endswith('&')
            a = args[i] if i < len(args) else None
            if a is None or a['kind'] == 'CXXDefaultArgExpr':
                tu, e = self.default_arg(f, i)
                if e is None:
                    raise Unsupported('default argument of %s' % f.key)
                sv = self.fr
                fr = Frame(sv.func, sv.this, (sv.id, 'dflt', i, self.nid(n)), tu)
                self.fr = fr
                try:
                    v = self.lv(e) if isref else self.val(e)
                finally:
                    self.fr = sv
            elif isref:
                v = self.lv(a)
                if isinstance(v, CStr):
                    v = self.temp(a, v)
            else:
                v = self.val(a)
            if not isref:
                v = self.coerce(v, tyof(p))
            if isref and not isinstance(v, Path):
                v = self.temp(a or n, v)
            vals.append(v)
        return vals

    def usable(self, f):
        """contracts are used at calls; the function under verification is
        itself only replaced at (recursive) calls"""
        return True

    def invoke(self, f, this, args, n):
        if self.lib.intercept(f):
            return self.lib.intercepted(self, f, this, args, n)
        vals = self.bind_args(f, args, n)
        c = self.contracts.get(f.key)
        if c is not None:
            return self.apply_contract(c, f, this, vals, n)
        return self.choose(lambda st: self.run_func(f, this, vals, n, st), (f.key, self.nid(n)))

    def call_func(self, f, this, vals, n):
        c = self.contracts.get(f.key)
        if c is not None:
            return self.apply_contract(c, f, this, vals, n)
        return self.choose(lambda st: self.run_func(f, this, vals, n, st), (f.key, self.nid(n)))

    def bind_params(self, f, vals, st, fr):
        for p, v in zip(f.params, vals):
            if p['type']['qualType'].rstrip().endswith('&') and isinstance(v, Path):
                fr.env[p['id']] = v
            else:
                loc = ('v', fr.id, p['id'])
                st.store[loc] = v
                self.loctype[loc] = tyof(p)
                self.varnames[loc] = p.get('name')
                fr.env[p['id']] = Path(loc)

    def run_func(self, f, this, vals, n, st, env=None):
        if self.depth > 30 or (self.callstack.count(f.key) > 2):
            raise Unsupported('recursion without contract: %s' % f.key)
        self.inlined.add(f.key)
        fid = (self.fr.id, self.nid(n))
        saved = self.fr
        fr = Frame(f, this, fid, f.tu)
        if env:
            fr.env.update(env)
        base = st.copy()
        self.fr = fr
        self.depth += 1
        self.callstack.append(f.key)
        try:
            self.bind_params(f, vals, base, fr)
            outs = []
            for k, s, v in self.exec(f.body, base):
                if k in ('norm', 'ret'):
                    outs.append(('norm', s, VOID if v is None else v))
                elif k == 'throw':
                    outs.append((k, s, v))
                else:
                    raise Unsupported('stray %s' % k)
            # drop the callee's locals
            for k, s, v in outs:
                keep = self.referenced(v)
                for loc in [l for l in s.store if self.inframe(l, fid) and l not in keep and not self.lib.keep_loc(l)]:
                    del s.store[loc]
            return self.merge(outs)
        finally:
            self.fr = saved
            self.depth -= 1
            self.callstack.pop()

    def inframe(self, loc, fid):
        if loc[0] not in ('v', 't'):
            return False
        f = loc[1]
        while isinstance(f, tuple) and f:
            if f == fid:
                return True
            f = f[0] if isinstance(f[0], tuple) else None
        return False

    def referenced(self, v):
        if isinstance(v, Path):
            return {v.loc}
        if isinstance(v, Ref):
            return {v.path.loc}
        if isinstance(v, (Iter, KIter, SPtr)):
            return {v.cpath.loc}
        return set()

    def apply_contract(self, c, f, this, vals, n):
        self.used_contracts.add(f.key)
        cx = CallCx(self, f, this, vals, self.st, n)
        for nm, g in c.pre(cx):
            self.oblige('pre', 'precondition of %s: %s' % (f.qual, nm), g, n, c.facets_pre)
        if c.measure and self.target is not None and self.cur_contract is not None:
            self.check_rank(c, cx, f, n)
        outs = c.outs(cx, True)
        k = 0 if len(outs) == 1 and bval(outs[0].cond) is True else self.decide([(o.cond, None) for o in outs])
        o = outs[k]
        for a in o.assume:
            self.assume(a)
        for p, v in o.writes:
            if v is HAVOC:
                old = self.rd(p)
                v = self.havoc_value(old, 'h', None)
            self.st.write(p, v)
        for loc, v in o.ghost:
            self.st.store[loc] = v
        if not c.nolog and not any(loc[0] == 'trace' for loc, v in o.ghost):
            for loc in [l for l in self.st.store if l[0] == 'trace']:       # the callee may log
                self.st.store[loc] = fresh('trace', self.st.store[loc].sort())
        if o.kind == 'throw':
            raise Throw(o.exc)
        it = inttype(f.ret) if f.kind != 'CXXConstructorDecl' and not f.ret.rstrip().endswith(('*', '&')) else None
        if it and it != (1, False) and z3.is_expr(o.ret) and o.ret.sort() == IntSort() and ival(o.ret) is None:
            # the callee's result is a value of its type (checked where the callee is verified)
            lo, hi = (0, 255) if it[0] == 8 else rng(it)
            self.st.assume(And(o.ret >= lo, o.ret <= hi))
        return o.ret

    def check_rank(self, c, cx, f, n):
        """recursion: the measure of the callee is below the caller's"""
        cc = self.cur_contract
        if cc.group is None or cc.group != c.group or self.measure0 is None:
            return
        m = c.measure(cx)
        self.oblige('term', 'recursion %s decreases' % f.qual, And(m >= 0, m < self.measure0), n)

    # --- new / delete / throw
    def e_CXXNewExpr(self, n):
        return self.lib.new(self, n)

    def e_CXXDeleteExpr(self, n):
        return self.lib.delete(self, self.val(self.inner(n)[0]), n, simple_type(tyof(self.inner(n)[0])))

    def e_CXXThrowExpr(self, n):
        sub = self.inner(n)
        if not sub:
            raise Throw('rethrow')
        v = self.val(sub[0])
        raise Throw(simple_type(tyof(sub[0])), v)


    def e_CXXStdInitializerListExpr(self, n):
        return self.val(self.inner(n)[0])

    def e_AtomicExpr(self, n):
        raise Unsupported('atomic')

    # ---------------------------------------------------------- statements
    def exec(self, n, st):
        """outcomes of a statement: (kind, state, value)"""
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported('step limit')
        k = n.get('kind')
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n, st)
        # expression statement
        return self.expr_stmt(n, st)

    def expr_stmt(self, n, st):
        def run():
            self.fr.temps, saved = [], self.fr.temps
            try:
                if n.get('valueCategory') in ('lvalue', 'xvalue'):
                    self.lv(n)
                else:
                    self.ev(n)
                self.end_temps()
            finally:
                self.fr.temps = saved
        outs = self.full(st, run)
        return self.merge([(k, self.gc(s), v if k == 'throw' else None) for k, s, v in outs])

    def end_temps(self):
        for p, cls in reversed(self.fr.temps):
            self.destroy(p, cls)
        self.fr.temps = []

    def destroy(self, p, cls):
        self.lib.destroy(self, p, cls)

    def gc(self, s):
        """temporaries of the current frame die at the end of the full expression"""
        dead = [l for l in s.store if l[0] == 't' and l[1] == self.fr.id and not self.lib.keep_loc(l)]
        if dead:
            alive = set()
            for l, v in s.store.items():
                if l[0] != 't':
                    alive |= self.referenced(v)
            for e in self.fr.env.values():
                if isinstance(e, Path):
                    alive.add(e.loc)
            for l in dead:
                if l not in alive:
                    del s.store[l]
        return s

    def merge(self, outs):
        """join outcomes with equal stores"""
        res = []
        for o in outs:
            k, s, v = o
            done = False
            for i, (k2, s2, v2) in enumerate(res):
                if k2 != k or not self.sameval(v, v2) or s.store.keys() != s2.store.keys():
                    continue
                if all(same(s.store[x], s2.store[x]) for x in s.store):
                    res[i] = (k, State(s.store, join_pc(s2.pc, s.pc)), v2)
                    done = True
                    break
            if not done:
                res.append(o)
        return res

    def sameval(self, a, b):
        if isinstance(a, Throw) and isinstance(b, Throw):
            return a.kind == b.kind
        if a is None or b is None:
            return a is b
        return same(a, b)

    def s_CompoundStmt(self, n, st):
        return self.block(self.inner(n), st)

    def labels_in(self, n, out):
        if n.get('kind') == 'LabelStmt':
            out.add(n.get('declId'))
        for c in n.get('inner', []):
            if isinstance(c, dict):
                self.labels_in(c, out)
        return out

    def is_loop(self, n):
        return n.get('kind') in ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt')

    def gotos_in(self, n, out):
        if n.get('kind') == 'GotoStmt':
            out.add(n.get('targetLabelDeclId'))
        for c in n.get('inner', []):
            if isinstance(c, dict):
                self.gotos_in(c, out)
        return out

    def block(self, stmts, st, start=0):
        decls = []
        # position of labels among the direct children
        cur = [('norm', st, None)]
        i = start
        final = []
        labelpos = {}
        for j, s in enumerate(stmts):
            x = s
            while x.get('kind') == 'LabelStmt':
                labelpos[x['declId']] = j
                x = self.inner(x)[0]
        i = start
        while i < len(stmts) and cur:
            s = stmts[i]
            if s.get('kind') == 'LabelStmt':
                lid = s['declId']
                # is this label the target of a jump from itself or later statements?
                back = set()
                for t in stmts[i:]:
                    self.gotos_in(t, back)
                if lid in back:
                    outs = []
                    for k, s0, v in cur:
                        outs += self.label_loop(stmts, i, lid, s0, labelpos)
                    final += outs
                    cur = []
                    break
                s = self.inner(s)[0]
            if self.join and len(cur) > 1 and self.is_loop(s):
                cur = [('norm', s0, None) for s0 in self.joined([o[1] for o in cur])]
            nxt = []
            for k, s0, v in cur:
                for o in self.exec(s, s0):
                    if o[0] == 'norm':
                        nxt.append(o)
                    elif o[0] == 'goto' and labelpos.get(o[2], -1) > i:
                        # forward jump inside this block
                        final += self.block(stmts, o[1], labelpos[o[2]])
                    else:
                        final.append(o)
            cur = self.merge(nxt)
            i += 1
        outs = cur + final
        # scope exit
        res = []
        for k, s, v in outs:
            res.append((k, s, v))
        if start == 0:
            res = self.scope_exit(stmts, res)
        return self.merge(res)

    def scope_exit(self, stmts, outs):
        vars = []
        for s in stmts:
            x = s
            while x.get('kind') == 'LabelStmt':
                x = self.inner(x)[0]
            if x.get('kind') == 'DeclStmt':
                for d in self.inner(x):
                    if d['kind'] == 'VarDecl' and d.get('storageClass') != 'static':
                        vars.append(d)
        if not vars:
            return outs
        res = []
        for k, s, v in outs:
            work = [(k, s, v)]
            for d in reversed(vars):
                loc = ('v', self.fr.id, d['id'])
                e = self.fr.env.get(d['id'])
                if e is None or not isinstance(e, Path) or e.loc != loc:
                    continue
                nw = []
                for k1, s1, v1 in work:
                    if loc not in s1.store:
                        nw.append((k1, s1, v1))
                        continue
                    cls = simple_type(tyof(d))
                    if self.lib.needs_destroy(cls):
                        for k2, s2, v2 in self.full(s1, lambda: self.destroy(Path(loc), cls)):
                            if k2 == 'throw':
                                raise Unsupported('destructor throws')
                            nw.append((k1, s2, v1))
                    else:
                        nw.append((k1, s1, v1))
                work = nw
            for k1, s1, v1 in work:
                keep = self.referenced(v1)
                for d in vars:
                    s1.store.pop(('alias', self.fr.id, d['id']), None)
                    loc = ('v', self.fr.id, d['id'])
                    if loc in s1.store and loc not in keep and not self.lib.keep_loc(loc):
                        del s1.store[loc]
                res.append((k1, s1, v1))
        return res

    def label_loop(self, stmts, i, lid, st, labelpos):
        n = stmts[i]
        first = self.inner(n)[0]
        body = [first] + stmts[i + 1:]

        def iterate(s):
            outs = []
            for o in self.block_nolabel(body, s):
                if o[0] == 'goto' and o[2] == lid:
                    outs.append(('back', o[1], None))
                else:
                    outs.append(o)
            return outs
        return self.loop(n, st, iterate, None)

    def block_nolabel(self, stmts, st):
        return self.block(stmts, st)

    def s_LabelStmt(self, n, st):
        return self.exec(self.inner(n)[0], st)

    def s_GotoStmt(self, n, st):
        return [('goto', st, n['targetLabelDeclId'])]

    def s_NullStmt(self, n, st):
        return [('norm', st, None)]

    def s_BreakStmt(self, n, st):
        return [('brk', st, None)]

    def s_ContinueStmt(self, n, st):
        return [('cont', st, None)]

    def s_AttributedStmt(self, n, st):
        return self.exec(self.inner(n)[-1], st)

    def s_ReturnStmt(self, n, st):
        sub = self.inner(n)
        if not sub:
            return [('ret', st, VOID)]
        e = sub[0]

        def run():
            self.fr.temps, saved = [], self.fr.temps
            try:
                rq = self.fr.func.ret if self.fr.func else ''
                if rq.endswith('&'):
                    v = self.lv(e)
                else:
                    v = self.val(e)
                    v = self.coerce(v, rq)
                self.end_temps()
                return v
            finally:
                self.fr.temps = saved
        return [('ret' if k == 'norm' else k, s, v) for k, s, v in self.full(st, run)]

    def s_DeclStmt(self, n, st):
        cur = [('norm', st, None)]
        for d in self.inner(n):
            if d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'CXXRecordDecl'):
                continue
            if d['kind'] == 'DecompositionDecl':
                cur = [x for k, s, v in cur for x in (self.decompose(d, s) if k == 'norm' else [(k, s, v)])]
                continue
            if d['kind'] != 'VarDecl':
                raise Unsupported('declaration %s' % d['kind'])
            nxt = []
            for k, s, v in cur:
                if k == 'norm':
                    nxt += self.decl_var(d, s)
                else:
                    nxt.append((k, s, v))
            cur = nxt
        return cur

    def decompose(self, d, st):
        """auto& [a, b] = pair"""
        parts = [c for c in self.inner(d) if c['kind'] == 'BindingDecl']
        names = ('first', 'second')
        if len(parts) != 2 or 'pair<' not in tyof(d):
            raise Unsupported('structured binding')
        out = []
        for k, s, v in self.decl_var({**d, 'inner': [c for c in self.inner(d) if c['kind'] != 'BindingDecl']}, st):
            if k != 'norm':
                out.append((k, s, v))
                continue
            self.st, keep = s, self.st
            p = self.varloc(d['id'], d)
            for b, f in zip(parts, names):
                loc = ('alias', self.fr.id, b['id'])
                s.store[loc] = Ref(self.member(p, f, b))
                self.fr.env[b['id']] = AliasRef(loc)
                self.varnames[loc] = b.get('name')
            self.st = keep
            out.append(('norm', s, None))
        return out

    def decl_var(self, d, st):
        ty = tyof(d)
        init = [c for c in self.inner(d) if not c['kind'].endswith(('Attr', 'Comment', 'Type'))]
        loc = ('v', self.fr.id, d['id'])
        self.varnames[loc] = d.get('name')
        if d.get('storageClass') == 'static':
            sloc = ('fstatic', self.fr.func.mangled, d['name'])
            self.fr.env[d['id']] = Path(sloc)
            if d.get('tls'):
                self.tls.add(sloc)
            if sloc in st.store:
                return [('norm', st, None)]

            def run0():
                v = self.default_value(ty) if not init else self.init_value(init[-1], ty, sloc)
                self.st.store[sloc] = self.coerce(v, ty)
            return [(k, self.gc(s), v if k == 'throw' else None) for k, s, v in self.full(st, run0)]
        isref = d['type']['qualType'].rstrip().endswith('&')
        if isref:
            out = []

            def runr():
                v = self.lv(init[-1])
                return v
            for k, s, v in self.full(st, runr):
                if k == 'norm':
                    if isinstance(v, CStr):
                        s.store[loc] = v
                        v = Path(loc)
                    # one environment per path is needed when the paths differ: keep the alias in the store
                    s.store[('alias', self.fr.id, d['id'])] = Ref(v) if isinstance(v, Path) else v
                    out.append(('norm', s, None))
                else:
                    out.append((k, s, v))
            self.fr.env[d['id']] = AliasRef(('alias', self.fr.id, d['id']))
            return out
        self.fr.env[d['id']] = Path(loc)
        self.loctype[loc] = ty

        def run():
            self.fr.temps, saved = [], self.fr.temps
            try:
                if init:
                    e = init[-1]
                    v = self.init_value(e, ty, loc) if e['kind'] == 'InitListExpr' else self.val(e)
                    v = self.coerce(v, ty)
                    if isinstance(v, Path):
                        v = self.rd(v)
                else:
                    v = self.default_value(ty) if inttype(ty) is None and '*' not in ty else self.lib.uninit(self, ty)
                if v is not None:
                    self.st.store[loc] = v
                elif loc in self.st.store:
                    del self.st.store[loc]
                self.end_temps()
            finally:
                self.fr.temps = saved
        return [(k, self.gc(s), v if k == 'throw' else None) for k, s, v in self.full(st, run)]

    def s_IfStmt(self, n, st):
        inner = self.inner(n)
        i = 0
        pre = []
        if n.get('hasInit'):
            pre.append(inner[i])
            i += 1
        condvar = None
        if n.get('hasVar'):
            pre.append(inner[i])
            i += 1
        cond, then = inner[i], inner[i + 1]
        els = inner[i + 2] if n.get('hasElse') else None
        cur = [('norm', st, None)]
        for p in pre:
            nxt = []
            for k, s, v in cur:
                nxt += self.exec(p, s) if k == 'norm' else [(k, s, v)]
            cur = nxt
        outs = []
        for k, s, v in cur:
            if k != 'norm':
                outs.append((k, s, v))
                continue
            for k2, s2, v2 in self.cond_outs(cond, s):
                if k2 == 'throw':
                    outs.append((k2, s2, v2))
                elif v2:
                    outs += self.exec(then, s2)
                elif els is not None:
                    outs += self.exec(els, s2)
                else:
                    outs.append(('norm', s2, None))
        if pre:
            outs = self.scope_exit(pre, outs)
        return self.merge(outs)

    def cond_outs(self, cond, st):
        def run():
            self.fr.temps, saved = [], self.fr.temps
            try:
                c = self.tobool(self.val(cond))
                self.end_temps()
                return self.branch(c)
            finally:
                self.fr.temps = saved
        return [(k, self.gc(s), v) for k, s, v in self.full(st, run)]

    def s_CXXTryStmt(self, n, st):
        inner = self.inner(n)
        outs = []
        for k, s, v in self.exec(inner[0], st):
            if k != 'throw':
                outs.append((k, s, v))
                continue
            handled = False
            for c in inner[1:]:
                sub = self.inner(c)
                var = sub[0] if sub[0]['kind'] == 'VarDecl' else None
                body = sub[-1]
                ty = simple_type(tyof(var)) if var is not None else None
                if ty is None or self.lib.catches(ty, v.kind):
                    if var is not None:
                        loc = ('v', self.fr.id, var['id'])
                        s.store[loc] = v.value if v.value is not None else Obj(v.kind, {})
                        self.fr.env[var['id']] = Path(loc)
                    for o in self.exec(body, s):
                        if o[0] == 'throw' and o[2].kind == 'rethrow':
                            outs.append(('throw', o[1], v))
                        else:
                            outs.append(o)
                    handled = True
                    break
            if not handled:
                outs.append((k, s, v))
        return self.merge(outs)

    def s_SwitchStmt(self, n, st):
        inner = self.inner(n)
        if n.get('hasInit') or n.get('hasVar'):
            raise Unsupported('switch with declaration')
        cond, body = inner[0], inner[-1]
        flat = []      # (labels, stmt)
        default = None

        def flatten(s):
            nonlocal default
            labels = []
            while s['kind'] in ('CaseStmt', 'DefaultStmt'):
                sub = self.inner(s)
                if s['kind'] == 'CaseStmt':
                    labels.append(sub[0])
                else:
                    labels.append(None)
                s = sub[-1]
            flat.append((labels, s))
        for s in self.inner(body):
            flatten(s)
        outs = []

        def run():
            v = self.asint(self.ev(cond), cond)
            opts = []
            negs = []
            for i, (labels, s) in enumerate(flat):
                for l in labels:
                    if l is None:
                        continue
                    c = cmp_int('==', v, self.ev(l))
                    opts.append((mk_and(c), i))
                    negs.append(mk_not(c))
            d = next((i for i, (labels, s) in enumerate(flat) if None in labels), None)
            opts.append((mk_and(*negs), d))
            return opts[self.decide(opts)][1]
        for k, s, v in self.full(st, run):
            if k == 'throw':
                outs.append((k, s, v))
                continue
            if v is None:
                outs.append(('norm', s, None))
                continue
            for o in self.block([x for _, x in flat[v:]], s):
                outs.append(('norm', o[1], None) if o[0] == 'brk' else o)
        return self.merge(outs)

    # --------------------------------------------------------------- loops
    def s_WhileStmt(self, n, st):
        inner = self.inner(n)
        if n.get('hasVar'):
            raise Unsupported('while with declaration')
        return self.loop_std(n, st, inner[0], None, inner[1])

    def s_ForStmt(self, n, st):
        c = n['inner']
        init, _, cond, inc, body = c
        outs = []
        cur = [('norm', st, None)]
        if init.get('kind'):
            cur = self.exec(init, st)
        for k, s, v in cur:
            if k != 'norm':
                outs.append((k, s, v))
                continue
            outs += self.loop_std(n, s, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body)
        if init.get('kind') == 'DeclStmt':
            outs = self.scope_exit([init], outs)
        return self.merge(outs)

    def s_DoStmt(self, n, st):
        body, cond = self.inner(n)

        def iterate(s):
            outs = []
            for k, s1, v in self.exec(body, s):
                if k in ('norm', 'cont'):
                    for k2, s2, v2 in self.cond_outs(cond, s1):
                        if k2 == 'throw':
                            outs.append((k2, s2, v2))
                        elif v2:
                            outs.append(('back', s2, None))
                        else:
                            outs.append(('norm', s2, None))
                elif k == 'brk':
                    outs.append(('norm', s1, None))
                else:
                    outs.append((k, s1, v))
            return outs
        return self.loop(n, st, iterate, None)

    def s_CXXForRangeStmt(self, n, st):
        c = n['inner']
        parts = [x for x in c if x.get('kind')]
        # [init] range-decl begin-decl end-decl cond inc loopvar body
        body = parts[-1]
        loopvar = parts[-2]
        inc, cond = parts[-3], parts[-4]
        decls = parts[:-4]
        cur = [('norm', st, None)]
        for d in decls:
            nxt = []
            for k, s, v in cur:
                nxt += self.exec(d, s) if k == 'norm' else [(k, s, v)]
            cur = nxt
        outs = []
        wrapped = {'kind': 'CompoundStmt', 'id': n['id'] + 'b', 'inner': [loopvar, body]}
        for k, s, v in cur:
            if k != 'norm':
                outs.append((k, s, v))
            else:
                outs += self.loop_std(n, s, cond, inc, wrapped)
        return self.merge(self.scope_exit(decls, outs))

    def loop_std(self, n, st, cond, inc, body):
        def iterate(s):
            outs = []
            starts = [('norm', s, True)] if cond is None else self.cond_outs(cond, s)
            for k, s1, c in starts:
                if k == 'throw':
                    outs.append((k, s1, c))
                elif not c:
                    outs.append(('norm', s1, None))
                else:
                    for k2, s2, v2 in self.exec(body, s1):
                        if k2 in ('norm', 'cont'):
                            if inc is not None:
                                for k3, s3, v3 in self.expr_stmt(inc, s2):
                                    outs.append(('back' if k3 == 'norm' else k3, s3, v3))
                            else:
                                outs.append(('back', s2, None))
                        elif k2 == 'brk':
                            outs.append(('norm', s2, None))
                        else:
                            outs.append((k2, s2, v2))
            return self.merge(outs)
        return self.loop(n, st, iterate, cond)

    def concrete_cond(self, cond, st):
        """True/False when the loop condition is decided by constants"""
        if cond is None or cond['kind'] in ('CXXBoolLiteralExpr', 'IntegerLiteral'):
            return None
        self.noemit += 1
        try:
            got = []

            def run():
                v = self.tobool(self.val(cond))
                got.append(v)
                return v
            outs = self.full(st, run)
            if len(outs) != 1 or outs[0][0] != 'norm':
                return None
            return bval(outs[0][2])
        finally:
            self.noemit -= 1

    def loop(self, n, st, iterate, cond):
        if cond is not None and self.concrete_cond(cond, st) is not None:
            r = self.unroll(n, st, iterate, cond)
            if r is not None:
                return r
        return self.cut(n, st, iterate)

    def unroll(self, n, st, iterate, cond):
        mark = len(self.obls)
        cur = [st.copy()]
        outs = []
        for it in range(MAXUNROLL):
            nxt = []
            for s in cur:
                if self.concrete_cond(cond, s) is None:
                    del self.obls[mark:]
                    return None
                for k, s1, v in iterate(s.copy()):
                    if k == 'back':
                        nxt.append(s1)
                    else:
                        outs.append((k, s1, v))
            if not nxt:
                return self.merge(outs)
            cur = self.ite_merge(nxt)
        del self.obls[mark:]
        return None

    def ite_merge(self, sts):
        """one state for several that differ in scalar leaves"""
        while len(sts) > 1:
            a, b = sts[-2], sts[-1]
            m = self.merge2(a, b)
            if m is None:
                return sts
            sts = sts[:-2] + [m]
        return sts

    def merge2(self, a, b):
        k = 0
        while k < len(a.pc) and k < len(b.pc) and a.pc[k].eq(b.pc[k]):
            k += 1
        ca, cb = mk_and(*a.pc[k:]), mk_and(*b.pc[k:])
        store = {}
        for l in set(a.store) | set(b.store):
            if l not in a.store or l not in b.store:
                continue
            x, y = a.store[l], b.store[l]
            if same(x, y):
                store[l] = x
            else:
                store[l] = self.ite_value(ca, x, y)
                if store[l] is None:
                    return None
        return State(store, join_pc(a.pc, b.pc))

    def joined(self, sts):
        """one state for several: leaves that differ get a new name, the path
        conditions become a disjunction"""
        eqs = [[] for _ in sts]
        store = {}
        for l in sts[0].store:
            if any(l not in s.store for s in sts):
                continue
            v = self.join_value(l, [s.store[l] for s in sts], eqs)
            if v is None:
                return sts
            store[l] = v
        k = 0
        pcs = [s.pc for s in sts]
        while all(k < len(p) and p[k].eq(pcs[0][k]) for p in pcs):
            k += 1
        return [State(store, pcs[0][:k] + [mk_or(*[mk_and(*(p[k:] + e)) for p, e in zip(pcs, eqs)])])]

    def join_value(self, l, vs, eqs):
        x = vs[0]
        if all(same(x, y) for y in vs):
            return x
        if all(z3.is_expr(y) and y.sort() == x.sort() for y in vs if z3.is_expr(x)) and z3.is_expr(x):
            f = fresh('join', x.sort())
            for e, y in zip(eqs, vs):
                e.append(mk_eq(f, y))
            return f
        if isinstance(x, Obj) and all(isinstance(y, Obj) and y.cls == x.cls and y.f.keys() == x.f.keys() for y in vs):
            f = {k: self.join_value(l, [y.f[k] for y in vs], eqs) for k in x.f}
            return None if any(v is None for v in f.values()) else Obj(x.cls, f)
        return None

    def ite_value(self, c, x, y):
        if same(x, y):
            return x
        if z3.is_expr(x) and z3.is_expr(y) and x.sort() == y.sort():
            return mk_ite(c, x, y)
        if isinstance(x, Obj) and isinstance(y, Obj) and x.cls == y.cls and x.f.keys() == y.f.keys():
            f = {k: self.ite_value(c, x.f[k], y.f[k]) for k in x.f}
            return None if any(v is None for v in f.values()) else Obj(x.cls, f)
        return None

    def strip_new(self, s, head):
        for l in [l for l in s.store if l not in head.store and l[0] in ('v', 't', 'alias')]:
            del s.store[l]
        return s

    def havoc_value(self, v, name, ty):
        if z3.is_expr(v):
            f = fresh(name, v.sort())
            if v.sort() == IntSort():
                it = inttype(ty) if ty else None
                if it:
                    lo, hi = (0, 255) if it[0] == 8 else rng(it)
                    self.st.assume(And(f >= lo, f <= hi))
            return f
        if isinstance(v, Iter):
            f = fresh(name, IntSort())
            self.st.assume(f >= 0)
            return Iter(v.cpath, f, v.rev)
        if isinstance(v, SPtr):
            f = fresh(name, IntSort())
            self.st.assume(f >= 0)
            return SPtr(v.cpath, f)
        if isinstance(v, Obj):
            return Obj(v.cls, {k: self.havoc_value(x, name + '.' + k, self.fieldtype(v.cls, k)) for k, x in v.f.items()})
        if isinstance(v, CStr):
            return CStr(fresh(name + '.null', BoolSort()), fresh(name, Str))
        if v is NULL:
            return fresh(name, IntSort())
        raise Unsupported('loop changes a value of kind %s' % type(v).__name__)

    def fieldtype(self, cls, f):
        for x in self.prog.classes.get(cls, []):
            if x['name'] == f:
                return tyof(x)
        return None

    def diff(self, a, b, path, out):
        """leaf paths at which two values differ"""
        if same(a, b):
            return
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls:
            for k in set(a.f) | set(b.f):
                if k in a.f and k in b.f:
                    self.diff(a.f[k], b.f[k], path.f(k), out)
                else:
                    raise Unsupported('loop initialises a member')
            return
        out.append(path)

    def pkey(self, p):
        return (p.loc, tuple(s[1] for s in p.sels))

    def cut(self, n, st, iterate):
        key = (self.fr.id, self.nid(n))
        self.loopstack.append(key)
        if len(self.loopstack) > 12:
            raise Unsupported('loop nesting')
        entry = st.copy()
        W = {}
        mark = len(self.obls)
        loops_mark = set(self.loops)
        for rounds in range(12):
            del self.obls[mark:]
            for l in [l for l in self.loops if l not in loops_mark]:
                del self.loops[l]
            head = entry.copy()
            saved = self.st
            self.st = head
            kinds = {}
            for pk, p in W.items():
                nm = self.lib.locname(self, p)
                old = head.read(p)
                new = self.havoc_value(old, nm, self.typeof_path(p))
                head.write(p, new)
            self.st = saved
            ph = Const('INV!%s!%d' % (self.fr.func.name if self.fr.func else 'f', len(self.loops) + self.fresh_loop()), BoolSort())
            # the loop name in reports: function + ordinal
            lp = Loop('%s loop %s' % (self.fr.func.key, self.loop_ord(n)), ph, self.line(n))
            lkey = (key, rounds, self.fresh_loop())
            self.loops[lkey] = lp
            lp.head = head.copy()
            h = head.copy()
            h.pc.append(ph)
            outs = iterate(h)
            new = {}
            for k, s, v in outs:
                if k != 'back':
                    continue
                self.strip_new(s, head)
                for l in head.store:
                    if l not in s.store:
                        raise Unsupported('variable lost in a loop')
                    d = []
                    self.diff(head.store[l], s.store[l], Path(l), d)
                    for p in d:
                        new[self.pkey(p)] = p
                for l in s.store:
                    if l not in head.store and l[0] == 'fstatic':
                        raise Unsupported('static initialised in a loop')
            fresh_w = {k: p for k, p in new.items() if k not in W}
            if not fresh_w:
                break
            del self.loops[lkey]
            # widen: a field of a record inside a leaf
            W.update(fresh_w)
        else:
            raise Unsupported('loop frame does not stabilise')
        self.loopstack.pop()
        lp.written = list(W.values())
        lp.entries.append(entry)
        backs = []
        exits = []
        for k, s, v in outs:
            if k == 'back':
                lp.backs.append(s)
            else:
                exits.append((k, s, v))
        self.make_cands(lp, n)
        return self.merge(exits)

    def fresh_loop(self):
        self.fnframes += 1
        return self.fnframes * 1000

    def loop_ord(self, n):
        key = ('loop', self.nid(n))
        return self.nodeord.setdefault(key, sum(1 for k in self.nodeord if isinstance(k, tuple) and k[0] == 'loop'))

    def typeof_path(self, p):
        if not p.sels:
            return self.loctype.get(p.loc)
        if p.sels[-1][0] == 'f':
            base = self.st.read(Path(p.loc, p.sels[:-1]))
            if isinstance(base, Obj):
                return self.fieldtype(base.cls, p.sels[-1][1])
        return None

    def make_cands(self, lp, n):
        from .infer import candidates, measures
        if self.noemit:
            return
        lp.cands = candidates(self, lp)
        lp.measures = measures(self, lp)


class AliasRef:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


UNINIT = object()
HAVOC = object()


class CallCx:
    """what a contract may look at: the arguments and the state at the call"""

    def __init__(self, ex, f, this, vals, st, n=None):
        self.ex, self.f, self.this, self.vals, self.st, self.n = ex, f, this, vals, st, n

    def v(self, i):
        """value of argument i"""
        x = self.vals[i]
        return self.st.read(x) if isinstance(x, Path) else x

    def path(self, i):
        return self.vals[i]

    def t(self, *fields):
        """value of this->a.b..."""
        return self.st.read(self.tp(*fields))

    def tp(self, *fields):
        p = self.this
        for f in fields:
            p = p.f(f)
        return p

    def rd(self, p):
        return self.st.read(p)


def join_pc(p1, p2):
    k = 0
    while k < len(p1) and k < len(p2) and p1[k].eq(p2[k]):
        k += 1
    r1, r2 = p1[k:], p2[k:]
    if not r1 or not r2:
        return p1[:k]
    if len(r1) == 1 and len(r2) == 1 and mk_not(r1[0]).eq(r2[0]):
        return p1[:k]
    a, b = mk_and(*r1), mk_and(*r2)
    if mk_not(r1[0]).eq(r2[0]):
        # c & A | !c & B
        return p1[:k] + [mk_and(mk_or(mk_not(r1[0]), mk_and(*r1[1:])), mk_or(r1[0], mk_and(*r2[1:])))]
    return p1[:k] + [mk_or(a, b)]


def is_bounded_ite(t, lo, hi):
    k = ival(t)
    if k is not None:
        return lo <= k <= hi
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return is_bounded_ite(t.arg(1), lo, hi) and is_bounded_ite(t.arg(2), lo, hi)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MOD and ival(t.arg(1)) is not None:
        return lo <= 0 and ival(t.arg(1)) - 1 <= hi
    return False


def c_unescape(s):
    """value of a C string literal as clang prints it"""
    i = s.find('"')
    s = s[i + 1:s.rfind('"')]
    b = s.encode()
    out = bytearray()
    i = 0
    m = {b'n': 10, b't': 9, b'r': 13, b'a': 7, b'b': 8, b'v': 11, b'f': 12, b'\\': 92, b'"': 34, b"'": 39, b'?': 63, b'e': 27}
    while i < len(b):
        if b[i] == 92:
            c = b[i + 1:i + 2]
            if c in m:
                out.append(m[c])
                i += 2
            elif c == b'x':
                j = i + 2
                while j < len(b) and chr(b[j]) in '0123456789abcdefABCDEF' and j < i + 4:
                    j += 1
                out.append(int(b[i + 2:j], 16))
                i = j
            else:
                j = i + 1
                while j < len(b) and j < i + 4 and chr(b[j]) in '01234567':
                    j += 1
                out.append(int(b[i + 1:j], 8) & 255)
                i = j
        else:
            out.append(b[i])
            i += 1
    return bytes(out)
