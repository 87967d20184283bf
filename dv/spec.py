"""The specification language.

A specification function is a plain Python function over ints, bools, bytes and
immutable records.  The same text is used twice: executed as it stands (oracle
when a violation is replayed on the real code), and translated expression by
expression to a logic term (what the verifier proves).  In the logic each
function is an uninterpreted symbol whose defining equation is instantiated on
the applications that occur in a verification condition, `depth` levels deep."""
import ast, inspect, textwrap, collections
import z3
from .smt import *
from . import smt

TYPES = {'Int': IntSort(), 'Bool': BoolSort(), 'Str': Str, 'SeqStr': SeqStr, 'SeqInt': SeqInt,
         'Entries': ENTRIES.sort, 'Ctxt': CTXT.sort}
MAPS = {'Entries': ENTRIES, 'Ctxt': CTXT}
DATA = {}       # name -> DataInfo
SPECS = {}      # name -> Spec
DECL2SPEC = {}
DECL2DATA = {}  # sort name -> DataInfo


class DataInfo:
    def __init__(self, name, fields):
        self.name, self.fields = name, fields
        dt = z3.Datatype(name)
        dt.declare('mk_' + name, *[('%s_%s' % (name, f), TYPES[t]) for f, t in fields])
        self.sort = dt.create()
        self.mk = getattr(self.sort, 'mk_' + name)
        self.acc = {f: getattr(self.sort, '%s_%s' % (name, f)) for f, _ in fields}
        self.order = [f for f, _ in fields]
        self.ftype = dict(fields)
        TYPES[name] = self.sort
        DATA[name] = self
        DECL2DATA[name] = self

    def get(self, t, f):
        if z3.is_app(t) and t.decl().eq(self.mk):
            return t.arg(self.order.index(f))
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            a, b = t.arg(1), t.arg(2)
            if all(z3.is_app(x) and x.decl().eq(self.mk) for x in (a, b)):
                return mk_ite(t.arg(0), self.get(a, f), self.get(b, f))
        return self.acc[f](t)


def data(cls):
    """record type: class body lists `field: Type`"""
    fields = [(k, v if isinstance(v, str) else v.__name__) for k, v in cls.__annotations__.items()]
    info = DataInfo(cls.__name__, fields)
    nt = collections.namedtuple(cls.__name__, [f for f, _ in fields])
    nt.__dv__ = info
    return nt


# ---- operations usable in specification functions (concrete versions)
def ln(s): return len(s)
def at(s, i): return s[i] if 0 <= i < len(s) else (0 if isinstance(s, bytes) else b'')
def sub(s, a, b): return s[a:b] if 0 <= a <= b else s[0:0]
def push(s, e): return s + bytes([e]) if isinstance(s, bytes) else s + (e,)
def cat(s, t): return s + t
def upd(s, i, e): return s[:i] + (bytes([e]) if isinstance(s, bytes) else (e,)) + s[i + 1:]
def mhas(m, k): return k in m
def mget(m, k): return m[k]
def mput(m, k, v):
    d = dict(m)
    d[k] = v
    return d
def ite(c, a, b): return a if c else b
def repl(r, **kw): return r._replace(**kw)
def implies(a, b): return (not a) or b
def fill(n, e): return bytes([e]) * n
def fillS(n, e): return (e,) * n
def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q
def cmod(a, b): return a - b * cdiv(a, b)


def t_cdiv(a, b):
    return mk_ite(I(a) >= 0, I(a) / I(b), -((-I(a)) / I(b)))


def t_cmod(a, b):
    if ival(b) is not None and ival(a) is not None:
        return IntVal(cmod(ival(a), ival(b)))
    return mk_ite(I(a) >= 0, I(a) % I(b), -((-I(a)) % I(b)))


def _mt(t):
    return maptheory(t.sort())


OPS = {
    'ln': mk_len, 'at': mk_at, 'sub': mk_sub, 'push': mk_push, 'cat': mk_cat, 'upd': mk_upd,
    'mhas': lambda m, k: _mt(m).has(m, k), 'mget': lambda m, k: _mt(m).get(m, k),
    'mput': lambda m, k, v: _mt(m).put(m, k, v), 'ite': mk_ite,
    'implies': lambda a, b: mk_or(mk_not(a), b),
    'fill': lambda n, e: mk_fill(STR, n, e), 'fillS': lambda n, e: mk_fill(SEQSTR, n, e),
    'cdiv': t_cdiv, 'cmod': t_cmod,
}


class Spec:
    def __init__(self, fn, opaque=False, inline=False, axioms=None):
        self.bodies = {}
        self.fn, self.name, self.opaque, self.inline = fn, fn.__name__, opaque, inline
        sig = inspect.signature(fn)
        tn = lambda a: a if isinstance(a, str) else a.__name__
        self.params = [(p.name, tn(p.annotation)) for p in sig.parameters.values()]
        self.ret = tn(sig.return_annotation)
        self.decl = Function(self.name, *[TYPES[t] for _, t in self.params], TYPES[self.ret])
        self.axioms = axioms
        self.recursive = False
        if not opaque:
            src = textwrap.dedent(inspect.getsource(fn))
            self.tree = ast.parse(src).body[0]
            names = {n.func.id for n in ast.walk(self.tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
            self.recursive = self.name in names
            self.calls = names
        SPECS[self.name] = self
        DECL2SPEC[self.name] = self

    def __call__(self, *args):
        if any(z3.is_expr(a) for a in args):
            return self.term(*args)
        return self.fn(*args)

    def term(self, *args):
        args = [a if z3.is_expr(a) else conv(a, TYPES[t]) for a, (_, t) in zip(args, self.params)]
        for a, (n, t) in zip(args, self.params):
            assert a.sort() == TYPES[t], '%s: argument %s: %s is not %s' % (self.name, n, a.sort(), t)
        if self.inline:
            return self.body(*args)
        c = [concrete(a) for a in args]
        if all(x is not None for x in c):
            try:
                return conv(self.fn(*[x[0] for x in c]), TYPES[self.ret])
            except NotImplementedError:
                pass
        return self.decl(*args)

    def body(self, *args):
        key = tuple(a.get_id() for a in args)
        r = self.bodies.get(key)
        if r is None:
            r = self.bodies[key] = (self.body0(*args), args)
        return r[0]

    def body0(self, *args):
        env = {n: a for (n, _), a in zip(self.params, args)}
        return Translator(self).block(self.tree.body, env)


def spec(fn): return Spec(fn)
def inline(fn): return Spec(fn, inline=True)


def opaque(axioms=None):
    return lambda fn: Spec(fn, opaque=True, axioms=axioms)


def conv(v, sort):
    """concrete Python value -> term"""
    if z3.is_expr(v):
        return v
    if isinstance(v, bool):
        return BoolVal(v)
    if isinstance(v, int):
        return IntVal(v)
    if isinstance(v, bytes):
        return lit(v)
    if sort.name() in MapTheory.byname:
        mt = MapTheory.byname[sort.name()]
        t = mt.empty
        for k, x in v.items():
            t = mt.put(t, conv(k, mt.k), conv(x, mt.v))
        return t
    if isinstance(v, tuple) and hasattr(v, '__dv__'):
        info = v.__dv__
        return info.mk(*[conv(x, TYPES[info.ftype[f]]) for f, x in zip(info.order, v)])
    if isinstance(v, tuple):
        th = theory(sort)
        return mk_seq(th, [conv(x, th.elem) for x in v])
    raise TypeError(v)


def concrete(t):
    """term -> (value,) when it is a constant, else None"""
    v = bval(t)
    if v is not None:
        return (v,)
    v = ival(t)
    if v is not None:
        return (v,)
    v = litval(t)
    if v is not None:
        return (v,)
    return None


CONSTS = {}


class Translator:
    def __init__(self, sp):
        self.sp = sp

    def block(self, stmts, env):
        env = dict(env)
        for n, st in enumerate(stmts):
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            if isinstance(st, ast.Return):
                return self.ex(st.value, env)
            if isinstance(st, ast.Assign):
                env[st.targets[0].id] = self.ex(st.value, env)
            elif isinstance(st, ast.If):
                c = self.ex(st.test, env)
                cv = bval(c)
                rest = stmts[n + 1:]
                if cv is True:
                    return self.block(st.body + rest, env)
                if cv is False:
                    return self.block(st.orelse + rest, env)
                a = self.block(st.body + rest, env)
                b = self.block(st.orelse + rest, env)
                if not z3.is_expr(a):
                    a = conv(a, b.sort() if z3.is_expr(b) else TYPES[self.sp.ret])
                if not z3.is_expr(b):
                    b = conv(b, a.sort())
                return mk_ite(c, a, b)
            else:
                raise TypeError('%s: unsupported statement %s' % (self.sp.name, ast.dump(st)))
        raise TypeError('%s: no return' % self.sp.name)

    def ex(self, e, env):
        if isinstance(e, ast.Constant):
            v = e.value
            return lit(v) if isinstance(v, bytes) else BoolVal(v) if isinstance(v, bool) else IntVal(v)
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            g = self.sp.fn.__globals__[e.id]
            if isinstance(g, (int, bytes, bool)):
                return lit(g) if isinstance(g, bytes) else conv(g, None)
            return g
        if isinstance(e, ast.Attribute):
            r = self.ex(e.value, env)
            return DECL2DATA[r.sort().name()].get(r, e.attr)
        if isinstance(e, ast.BoolOp):
            vs = []
            for x in e.values:
                v = self.ex(x, env)
                vs.append(v)
                if isinstance(e.op, ast.And) and bval(v) is False:
                    return FALSE
                if isinstance(e.op, ast.Or) and bval(v) is True:
                    return TRUE
            return mk_and(*vs) if isinstance(e.op, ast.And) else mk_or(*vs)
        if isinstance(e, ast.UnaryOp):
            v = self.ex(e.operand, env)
            if isinstance(e.op, ast.Not):
                return mk_not(v)
            if isinstance(e.op, ast.USub):
                return simp(-v)
        if isinstance(e, ast.IfExp):
            return mk_ite(self.ex(e.test, env), self.ex(e.body, env), self.ex(e.orelse, env))
        if isinstance(e, ast.BinOp):
            a, b = self.ex(e.left, env), self.ex(e.right, env)
            f = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b}[type(e.op)]
            return simp(f())
        if isinstance(e, ast.Compare):
            out = []
            l = self.ex(e.left, env)
            for op, r in zip(e.ops, e.comparators):
                r = self.ex(r, env)
                k = type(op)
                if k is ast.Eq:
                    out.append(mk_eq(l, r))
                elif k is ast.NotEq:
                    out.append(mk_not(mk_eq(l, r)))
                else:
                    f = {ast.Lt: l < r, ast.LtE: l <= r, ast.Gt: l > r, ast.GtE: l >= r}[k]
                    out.append(simp(f))
                l = r
            return mk_and(*out)
        if isinstance(e, ast.Call):
            fn = e.func.id
            args = [self.ex(a, env) for a in e.args]
            if fn == 'repl':
                info = DECL2DATA[args[0].sort().name()]
                kw = {k.arg: self.ex(k.value, env) for k in e.keywords}
                return info.mk(*[kw.get(f, info.get(args[0], f)) for f in info.order])
            if fn in SPECS:
                return SPECS[fn].term(*args)
            if fn in DATA:
                info = DATA[fn]
                kw = {k.arg: self.ex(k.value, env) for k in e.keywords}
                args += [kw[f] for f in info.order[len(args):]]
                return info.mk(*args)
            if fn in OPS:
                return OPS[fn](*args)
        raise TypeError('%s: unsupported expression %s' % (self.sp.name, ast.dump(e)))


_specof = {}


def specof(t, k):
    r = _specof.get(k)
    if r is None:
        r = _specof[k] = (DECL2SPEC.get(t.decl().name()), t)
    return r[0]


_eqn = {}
GROUND = {}         # specification function -> proved lemma applied to its terms in the current proof
FOLDED = set()      # specification functions left uninterpreted in the current proof


def unfold(forms, depth):
    """instances of the defining equations (and axioms of opaque functions)"""
    out = []
    done = set()
    work = [(f, {}) for f in forms]
    seen = set()
    late = []           # terms a searching lemma may apply to
    queue = collections.deque((f, ()) for f in forms)
    while queue or late:
        if not queue:
            wait = []
            for t, chain, l in late:
                trig, inst = l.ground(*t.children())
                smt._kept.append(trig)
                if trig.get_id() in seen:
                    e = inst()
                    out.append(e)
                    queue.append((e, chain + (t.decl().name(),)))
                else:
                    wait.append((t, chain, l))
            late = wait
            if not queue:
                break
        f, chain = queue.popleft()
        stack = [(f.get_id(), f)]
        while stack:
            k, t = stack.pop()
            if k in seen:
                continue
            seen.add(k)
            nd = smt.node(t, k)
            if nd[1] == 'q':
                continue
            stack.extend(nd[2])
            if nd[1] != 'a' or nd[3]:
                continue
            sp = specof(t, k)
            if sp is None or t.num_args() != len(sp.params) or sp.name in FOLDED:
                continue
            if sp.opaque:
                if sp.axioms:
                    inst = sp.axioms(*([t] + t.children()))
                    for x in (inst if isinstance(inst, (list, tuple)) else [inst]):
                        out.append(x)
                        queue.append((x, chain))
                continue
            if sp.recursive and chain.count(sp.name) >= depth:
                continue
            if len(chain) > 12:
                continue
            if sp.name in GROUND:
                late.append((t, chain, GROUND[sp.name]))
            e = _eqn.get(k)
            if e is None:
                b = sp.body(*[x for _, x in nd[2]])
                e = _eqn[k] = (t == b, b)
            eqn, b = e
            out.append(eqn)
            queue.append((b, chain + (sp.name,)))
    return out


def _expander(forms, depth):
    return unfold(forms, depth)


smt.EXPANDERS.append(_expander)

LEMMAS = {}


class Lemma:
    """A proved lemma.  `build(*vars)` gives (hypotheses, conclusion, patterns).
    Proof: by the solver, with the defining equations; `induct` (a measure on
    the variables) adds the induction hypothesis for smaller measures."""

    def __init__(self, name, vars, build, induct=None, depth=2, uses=(), splits=None, hints=None, timeout=20000, nounfold=False, ground=None):
        self.on, self.ground = ground or (None, None)            # (specification function, arguments -> (term that must occur, instance)): applied to terms, not quantified
        self.name, self.vars, self.build, self.induct = name, vars, build, induct
        self.depth, self.uses, self.splits, self.hints, self.timeout = depth, uses, splits, hints, timeout
        self.proof = None
        LEMMAS[name] = self

    def consts(self, suffix=''):
        return [Const('%s%s' % (n, suffix), TYPES[t]) for n, t in self.vars]

    def formula(self, extra=None):
        if extra is None and self.cached is not None:
            return self.cached
        f = self.formula0(extra)
        if extra is None:
            self.cached = f
        return f

    cached = None

    def formula0(self, extra=None):
        vs = self.consts('_q')
        h, c, p = self.build(*vs)
        hyp = mk_and(*h) if extra is None else mk_and(extra(*vs), *h)
        body = Implies(hyp, c) if bval(hyp) is not True else c
        return ForAll(vs, body, patterns=[MultiPattern(*x) if isinstance(x, (list, tuple)) else x for x in p])

    def prove(self):
        global GROUND
        if self.proof:
            return self.proof
        keep, GROUND = GROUND, {}
        try:
            return self.prove0()
        finally:
            GROUND = keep

    def prove0(self):
        vs = self.consts('_c')
        h, c, p = self.build(*vs)
        hyps = list(h)
        for u in self.uses:
            hyps.append(LEMMAS[u].formula())
        if self.induct:
            m0 = self.induct(*vs)
            hyps.append(m0 >= 0)
            hyps.append(self.formula(lambda *ws: And(self.induct(*ws) >= 0, self.induct(*ws) < m0)))
        if self.hints:
            hs = self.hints(*vs)
            # hints are terms to make available to the unfolding/e-matching
            for k, t in enumerate(hs):
                if z3.is_bool(t):
                    hyps.append(Or(t, Not(t)))
                hyps.append(fresh('hint', t.sort()) == t)
        t = 0.0
        cases = self.splits(*vs) if self.splits else [TRUE]
        if self.splits:
            cases = cases + [Not(Or(*cases))]
        for cs in cases:
            r = prove(hyps + [cs], c, timeout=self.timeout, depth=self.depth)
            t += r.time
            if not r.ok:
                r.time = t
                r.reason += ' (case %s)' % cs
                self.proof = r
                return r
        self.proof = Proof(True, 'unsat', t)
        return self.proof
