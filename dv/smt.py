"""Logic layer: sorts, the theory of finite sequences, literals, the solver.

Every formula the verifier proves is built from the constructors here.  All of
them constant-fold, so that code which only handles constants (static tables)
is evaluated exactly."""
import os, time, itertools, functools
import z3
z3.set_param('warning', False)
from z3 import (Int, Bool, IntVal, BoolVal, And, Or, Not, Implies, If, ForAll, Exists,
                Function, Const, DeclareSort, IntSort, BoolSort, ArraySort, Select,
                Store, K, is_int_value, is_true, is_false, simplify, MultiPattern)

z3.set_param('smt.random_seed', 7)
TRUE, FALSE = BoolVal(True), BoolVal(False)
U64 = 1 << 64
NPOS = U64 - 1
MAXLEN = 1 << 62


class SeqTheory:
    """Finite sequences over an element sort; axioms in the style of the Dafny
    and Verus preludes.  `at` outside the range is a fixed default (0 for
    bytes: std::string guarantees s[s.size()] == 0)."""
    byname = {}

    def __init__(self, name, elem, default=None):
        self.name, self.elem = name, elem
        S = self.sort = DeclareSort(name)
        I = IntSort()
        self.len = Function('len_' + name, S, I)
        self.at = Function('at_' + name, S, I, elem)
        self.empty = Const('empty_' + name, S)
        self.push = Function('push_' + name, S, elem, S)
        self.cat = Function('cat_' + name, S, S, S)
        self.sub = Function('sub_' + name, S, I, I, S)
        self.upd = Function('upd_' + name, S, I, elem, S)
        self.fill = Function('fill_' + name, I, elem, S)
        self.diff = Function('diff_' + name, S, S, I)
        self.rng = None
        SeqTheory.byname[name] = self
        self.default = default

    @functools.lru_cache(None)
    def axioms(self):
        S, E = self.sort, self.elem
        s, t = Const('s', S), Const('t', S)
        i, j, k, a, b = Int('i'), Int('j'), Int('k'), Int('a'), Int('b')
        e = Const('e', E)
        n = self.len
        at = self.at
        ax = []

        def fa(vs, body, *pats):
            ax.append(ForAll(vs, body, patterns=list(pats)))
        fa([s], And(n(s) >= 0, n(s) <= MAXLEN, Implies(n(s) == 0, s == self.empty)), n(s))
        ax.append(n(self.empty) == 0)
        if self.default is not None:
            fa([s, i], Implies(Or(i < 0, i >= n(s)), at(s, i) == self.default), at(s, i))
        if self.rng:
            fa([s, i], And(at(s, i) >= self.rng[0], at(s, i) <= self.rng[1]), at(s, i))
        p = self.push
        fa([s, e], And(n(p(s, e)) == n(s) + 1, at(p(s, e), n(s)) == e), p(s, e))
        fa([s, e, i], Implies(And(i >= 0, i < n(s)), at(p(s, e), i) == at(s, i)), at(p(s, e), i))
        c = self.cat
        fa([s, t], And(n(c(s, t)) == n(s) + n(t), Implies(n(t) == 0, c(s, t) == s),
                       Implies(n(s) == 0, c(s, t) == t)), c(s, t))
        fa([s, t, i], And(Implies(And(i >= 0, i < n(s)), at(c(s, t), i) == at(s, i)),
                          Implies(And(i >= n(s), i < n(s) + n(t)), at(c(s, t), i) == at(t, i - n(s)))),
           at(c(s, t), i))
        fa([s, t, e], c(s, p(t, e)) == p(c(s, t), e), c(s, p(t, e)))
        u = self.sub
        ok = And(0 <= a, a <= b, b <= n(s))
        fa([s, a, b], Implies(ok, And(n(u(s, a, b)) == b - a,
                                      Implies(And(a == 0, b == n(s)), u(s, a, b) == s))), u(s, a, b))
        fa([s, a, b, i], Implies(And(ok, 0 <= i, i < b - a), at(u(s, a, b), i) == at(s, a + i)),
           at(u(s, a, b), i))
        fa([s, a, b, i, j], Implies(And(ok, 0 <= i, i <= j, j <= b - a),
                                    u(u(s, a, b), i, j) == u(s, a + i, a + j)), u(u(s, a, b), i, j))
        fa([s, a, i], Implies(And(0 <= a, a <= i, i < n(s)), p(u(s, a, i), at(s, i)) == u(s, a, i + 1)),
           MultiPattern(u(s, a, i), at(s, i)))
        d = self.upd
        fa([s, i, e], Implies(And(0 <= i, i < n(s)), And(n(d(s, i, e)) == n(s), at(d(s, i, e), i) == e,
                                                          Implies(at(s, i) == e, d(s, i, e) == s))), d(s, i, e))
        fa([s, i, e, j], Implies(And(0 <= i, i < n(s), 0 <= j, j < n(s), i != j), at(d(s, i, e), j) == at(s, j)),
           at(d(s, i, e), j))
        f = self.fill
        fa([i, e], Implies(i >= 0, n(f(i, e)) == i), f(i, e))
        fa([i, e, j], Implies(And(0 <= j, j < i), at(f(i, e), j) == e), at(f(i, e), j))
        return ax

    def ext(self, s, t):
        """ground extensionality instance for the pair (s, t)"""
        k = self.diff(s, t)
        return Implies(And(self.len(s) == self.len(t),
                           Implies(And(0 <= k, k < self.len(s)), self.at(s, k) == self.at(t, k))), s == t)


STR = SeqTheory('Str', IntSort(), IntVal(0))
STR.rng = (0, 255)
Str = STR.sort
SEQSTR = SeqTheory('SeqStr', Str, STR.empty)
SeqStr = SEQSTR.sort
SEQINT = SeqTheory('SeqInt', IntSort(), IntVal(0))
SeqInt = SEQINT.sort


def theory(sort):
    return SeqTheory.byname.get(sort.name())


def is_seq(t):
    return z3.is_expr(t) and t.sort().kind() == z3.Z3_UNINTERPRETED_SORT and t.sort().name() in SeqTheory.byname


# ---------------------------------------------------------------- literals
_lits = {}          # bytes -> const
_litval = {}        # const name -> bytes
_kept = []


def lit(b):
    if isinstance(b, str):
        b = b.encode()
    b = bytes(b)
    if b == b'':
        return STR.empty
    if b not in _lits:
        c = Const('lit!%d' % len(_lits), Str)
        _lits[b] = c
        _litval[c.decl().name()] = b
    return _lits[b]


def litval(t):
    """bytes of a literal string term, else None"""
    if not z3.is_expr(t) or t.sort() != Str or t.num_args() != 0:
        return None
    if t.eq(STR.empty):
        return b''
    return _litval.get(t.decl().name())


def ival(t):
    if isinstance(t, bool):
        return int(t)
    if isinstance(t, int):
        return t
    if z3.is_expr(t) and is_int_value(t):
        return t.as_long()
    return None


def bval(t):
    if isinstance(t, bool):
        return t
    if is_true(t):
        return True
    if is_false(t):
        return False
    return None


def I(x):
    return IntVal(x) if isinstance(x, int) else x


def simp(t):
    return simplify(t)


def mk_not(c):
    v = bval(c)
    if v is not None:
        return BoolVal(not v)
    if z3.is_not(c):
        return c.arg(0)
    return Not(c)


def mk_and(*cs):
    out = []
    for c in cs:
        v = bval(c)
        if v is False:
            return FALSE
        if v is None:
            out.append(c)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else And(*out)


def mk_or(*cs):
    out = []
    for c in cs:
        v = bval(c)
        if v is True:
            return TRUE
        if v is None:
            out.append(c)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else Or(*out)


def mk_ite(c, a, b):
    v = bval(c)
    if v is True:
        return a
    if v is False:
        return b
    if isinstance(a, int) and not isinstance(a, bool):
        a = IntVal(a)
    if isinstance(b, int) and not isinstance(b, bool):
        b = IntVal(b)
    if a.eq(b):
        return a
    if a.sort() == BoolSort():
        if is_true(a) and is_false(b):
            return c
        if is_false(a) and is_true(b):
            return mk_not(c)
    return If(c, a, b)


def mk_eq(a, b):
    if isinstance(a, (int, bool)):
        a, b = b, a
    if isinstance(a, (int, bool)):
        return BoolVal(a == b)
    if isinstance(b, bool):
        return a if b else mk_not(a)
    if isinstance(b, int):
        b = IntVal(b)
    if a.eq(b):
        return TRUE
    x, y = litval(a), litval(b)
    if x is not None and y is not None:
        return BoolVal(x == y)
    x, y = ival(a), ival(b)
    if x is not None and y is not None:
        return BoolVal(x == y)
    if a.sort() == BoolSort():
        for p, q in ((a, b), (b, a)):
            if bval(p) is True:
                return q
            if bval(p) is False:
                return mk_not(q)
    return a == b


def mk_len(s):
    v = litval(s)
    if v is not None:
        return IntVal(len(v))
    th = theory(s.sort())
    if s.eq(th.empty):
        return IntVal(0)
    if s.num_args():
        d = s.decl()
        if d.eq(th.push):
            return simp(mk_len(s.arg(0)) + 1)
        if d.eq(th.upd):
            return th.len(s)
    return th.len(s)


def seq_elems(s):
    """list of element terms of a ground sequence built by push from empty"""
    th = theory(s.sort())
    if th is STR:
        v = litval(s)
        if v is not None:
            return [IntVal(c) for c in v]
    if s.eq(th.empty):
        return []
    if s.num_args() and s.decl().eq(th.push):
        r = seq_elems(s.arg(0))
        return None if r is None else r + [s.arg(1)]
    return None


def mk_seq(th, elems):
    if th is STR:
        vs = [ival(e) for e in elems]
        if all(v is not None for v in vs):
            return lit(bytes(vs))
    t = th.empty
    for e in elems:
        t = th.push(t, I(e))
    return t


def mk_at(s, i):
    th = theory(s.sort())
    iv = ival(i)
    if iv is not None:
        el = seq_elems(s)
        if el is not None:
            return el[iv] if 0 <= iv < len(el) else th.default
    if s.num_args() and s.decl().eq(th.sub) and ival(s.arg(1)) == 0 and False:
        return th.at(s.arg(0), I(i))
    return th.at(s, I(i))


def mk_push(s, e):
    th = theory(s.sort())
    if th is STR:
        v, c = litval(s), ival(e)
        if v is not None and c is not None:
            return lit(v + bytes([c & 255]))
    return th.push(s, I(e))


def mk_cat(s, t):
    th = theory(s.sort())
    a, b = litval(s), litval(t)
    if a is not None and b is not None:
        return lit(a + b)
    if s.eq(th.empty):
        return t
    if t.eq(th.empty):
        return s
    if b is not None and len(b) <= 4:
        for c in b:
            s = mk_push(s, IntVal(c))
        return s
    return th.cat(s, t)


def mk_sub(s, a, b):
    th = theory(s.sort())
    v, x, y = litval(s), ival(a), ival(b)
    if v is not None and x is not None and y is not None:
        return lit(v[max(x, 0):max(y, 0)])
    if x == 0 and z3.is_expr(b) and b.eq(mk_len(s)):
        return s
    if x == 0 and z3.is_app(s) and s.decl().eq(th.cat) and z3.is_expr(b) and b.eq(mk_len(s.arg(0))):
        return s.arg(0)
    return th.sub(s, I(a), I(b))


def mk_upd(s, i, e):
    th = theory(s.sort())
    iv = ival(i)
    if iv is not None:
        el = seq_elems(s)
        if el is not None and 0 <= iv < len(el):
            return mk_seq(th, el[:iv] + [e] + el[iv + 1:])
    return th.upd(s, I(i), I(e))


def mk_fill(th, n, e):
    nv = ival(n)
    if nv is not None and nv <= 64:
        return mk_seq(th, [e] * nv)
    return th.fill(I(n), I(e))


_ctr = itertools.count()


def fresh(name, sort):
    return Const('%s!%d' % (name, next(_ctr)), sort)


# ------------------------------------------------------- maps (SMT arrays)
_opt = {}


def OptionOf(sort):
    n = 'Opt_' + sort.name().replace(' ', '').replace('(', '_').replace(')', '')
    if n not in _opt:
        dt = z3.Datatype(n)
        dt.declare('none_' + n)
        dt.declare('some_' + n, ('val_' + n, sort))
        d = dt.create()
        d.NONE = getattr(d, 'none_' + n)
        d.SOME = getattr(d, 'some_' + n)
        d.VAL = getattr(d, 'val_' + n)
        d.ISSOME = getattr(d, 'is_some_' + n)
        _opt[n] = d
    return _opt[n]


class MapTheory:
    """unordered_map / set keyed by K: an SMT array into Option(V) (native
    extensionality), its size, and an iteration order `keys` (arbitrary but
    duplicate-free and complete)."""
    byname = {}

    def __init__(self, name, ksort, vsort):
        self.name, self.k, self.v = name, ksort, vsort
        self.opt = OptionOf(vsort)
        self.arr = ArraySort(ksort, self.opt)
        dt = z3.Datatype(name)
        dt.declare('mk_' + name, ('arr_' + name, self.arr))
        self.sort = dt.create()
        self.mk = getattr(self.sort, 'mk_' + name)
        self.get_arr = getattr(self.sort, 'arr_' + name)
        self.size = Function('size_' + name, self.sort, IntSort())
        self.key = Function('key_' + name, self.sort, IntSort(), ksort)
        self.idx = Function('idx_' + name, self.sort, ksort, IntSort())
        self.empty = self.mk(K(ksort, self.opt.NONE))
        MapTheory.byname[name] = self

    @functools.lru_cache(None)
    def axioms(self):
        m = Const('m', self.sort)
        i, k = Int('i'), Const('k', self.k)
        o = self.opt
        has = lambda m, k: o.ISSOME(Select(self.get_arr(m), k))
        return [
            ForAll([m], And(self.size(m) >= 0, self.size(m) <= MAXLEN), patterns=[self.size(m)]),
            ForAll([m, i], Implies(And(0 <= i, i < self.size(m)),
                                   And(has(m, self.key(m, i)), self.idx(m, self.key(m, i)) == i)),
                   patterns=[self.key(m, i)]),
            ForAll([m, k], Implies(has(m, k), And(0 <= self.idx(m, k), self.idx(m, k) < self.size(m),
                                                  self.key(m, self.idx(m, k)) == k)),
                   patterns=[self.idx(m, k)]),
            self.size(self.empty) == 0,
            ForAll([m], Implies(self.size(m) == 0, m == self.empty), patterns=[self.size(m)]),
        ]

    def sel(self, m, k):
        return simp(Select(self.get_arr(m), k))

    def has(self, m, k):
        return simp(self.opt.ISSOME(Select(self.get_arr(m), k)))

    def get(self, m, k):
        return simp(self.opt.VAL(Select(self.get_arr(m), k)))

    def put(self, m, k, v):
        return self.mk(Store(self.get_arr(m), k, self.opt.SOME(v)))

    def rem(self, m, k):
        return self.mk(Store(self.get_arr(m), k, self.opt.NONE))


ENTRIES = MapTheory('Entries', Str, SeqStr)
CTXT = MapTheory('CtxtEntries', Str, ENTRIES.sort)


def maptheory(sort):
    return MapTheory.byname.get(sort.name()) if sort.kind() == z3.Z3_DATATYPE_SORT else None


# ------------------------------------------------------------ traversal
_node = {}         # ast id -> (term, kind, [(id, child)], has a bound variable); keeps the terms alive


def node(t, k=None):
    if k is None:
        k = t.get_id()
    r = _node.get(k)
    if r is None:
        if z3.is_quantifier(t):
            b = t.body()
            ch, kind = [(b.get_id(), b)], 'q'
            hv = node(b)[3]
        elif z3.is_var(t):
            ch, kind, hv = [], 'v', True
        else:
            ch = [(c.get_id(), c) for c in t.children()]
            kind = 'a' if z3.is_app(t) else 'o'
            hv = any([node(c, i)[3] for i, c in ch])
        r = _node[k] = (t, kind, ch, hv)
    return r


_info = {}


def info(t, k):
    """(sort name, literal of a string constant, is a plain string constant, name of an extensional string function)"""
    r = _info.get(k)
    if r is None:
        sn = t.sort().name()
        b = plain = fn = None
        if sn == 'Str':
            if t.num_args() == 0:
                if z3.is_const(t):
                    b = litval(t)
                plain = not t.eq(STR.empty) and (b is None or len(b) < 40)
            else:
                fn = t.decl().name()
        r = _info[k] = (sn, b, plain, fn)
    return r


def subterms_k(roots):
    seen = set()
    stack = [(t.get_id(), t) for t in roots]
    while stack:
        k, t = stack.pop()
        if k in seen:
            continue
        seen.add(k)
        t, kind, ch, hv = node(t, k)
        if kind == 'v':
            continue
        if kind != 'q':
            yield k, t, hv
        stack.extend(ch)


def subterms(roots):
    seen = set()
    stack = [(t.get_id(), t) for t in roots]
    while stack:
        k, t = stack.pop()
        if k in seen:
            continue
        seen.add(k)
        t, kind, ch, hv = node(t, k)
        if kind == 'v':
            continue
        if kind != 'q':
            yield t
        stack.extend(ch)


def has_var(t):
    return node(t)[3]


# --------------------------------------------------- prelude & the solver
EXTRA_AXIOMS = []      # (name, [axioms]) registered by the spec layer: always on


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.backends = {}


STATS = Stats()


def prelude(formulas):
    ax = []
    sorts = set()
    lits = []
    for k, t, hv in subterms_k(formulas):
        sn, b, plain, fn = info(t, k)
        sorts.add(sn)
        if b:
            lits.append((t, b))
    todo = list(sorts)
    # close over element sorts
    for n in list(sorts):
        if n in SeqTheory.byname:
            sorts.add(SeqTheory.byname[n].elem.name())
        if n in MapTheory.byname:
            sorts.add(MapTheory.byname[n].v.name())
            sorts.add(MapTheory.byname[n].k.name())
    for n in list(sorts):
        if n in SeqTheory.byname:
            sorts.add(SeqTheory.byname[n].elem.name())
    for n in sorted(sorts):
        if n in SeqTheory.byname:
            ax += SeqTheory.byname[n].axioms()
        if n in MapTheory.byname:
            ax += MapTheory.byname[n].axioms()
    if len(lits) > 1:
        ax.append(z3.Distinct(*[c for c, b in lits]))
    for c, b in lits:
        if b not in _litax:
            _litax[b] = [STR.len(c) == len(b)] + [STR.at(c, i) == x for i, x in enumerate(b)]
        ax += _litax[b]
    return ax


_litax = {}


def eq_pairs(goal):
    """Seq-sorted pairs whose equality the goal may need (extensionality)."""
    out = []
    seen = set()

    def dec(a, b, depth):
        if depth > 8 or a.eq(b):
            return
        key = (a.get_id(), b.get_id())
        if key in seen:
            return
        seen.add(key)
        if a.sort() != b.sort():
            return
        if is_seq(a) and not has_var(a) and not has_var(b):
            out.append((a, b))
        for x in (a, b):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                y = b if x is a else a
                dec(x.arg(1), y, depth + 1)
                dec(x.arg(2), y, depth + 1)
        if z3.is_app(a) and z3.is_app(b) and a.num_args() and a.num_args() == b.num_args() and a.decl().eq(b.decl()):
            for x, y in zip(a.children(), b.children()):
                dec(x, y, depth + 1)
    for t in subterms([goal]):
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and t.num_args() == 2:
            dec(t.arg(0), t.arg(1), 0)
    return out


DEBUGSLOW = bool(__import__('os').environ.get('DV_SLOW'))


class Proof:
    __slots__ = ('ok', 'reason', 'time', 'model', 'backend', 'nform')

    def __init__(self, ok, reason='', t=0.0, model=None, backend='z3', nform=0):
        self.ok, self.reason, self.time, self.model, self.backend, self.nform = ok, reason, t, model, backend, nform


EXTFUNS = set()
EXPANDERS = []     # functions formulas -> extra ground formulas (spec unfolding)


def assemble(hyps, goal, depth=2, lemmas=()):
    base = [h for h in hyps if bval(h) is not True]
    neg = mk_not(goal)
    forms = base + [neg]
    for a, b in eq_pairs(goal):
        forms.append(theory(a.sort()).ext(a, b))
    for ex in EXPANDERS:
        forms += ex(forms, depth)
    # strings built by a loop against the specification function they should equal
    consts, funs = {}, {}
    for k, t, hv in subterms_k(forms):
        sn, b, plain, fn = info(t, k)
        if sn == 'Str' and not hv:
            if plain:
                consts[k] = t
            elif fn in EXTFUNS:
                funs[k] = t
    for f in funs.values():
        for c in consts.values():
            forms.append(STR.ext(c, f))
    # equalities that unfolding brought in on the goal side
    forms += list(lemmas)
    return forms


CROSS = None        # thorough runs: counts of [confirmed, not answered, contradicted] by the second solver, shared by all processes
CROSSING = False    # deciding obligations, not searching invariants


def crosscheck(s, seconds=5):
    """ask cvc5 about a query z3 found unsatisfiable"""
    import subprocess, tempfile
    with CROSS.get_lock():
        if sum(CROSS) > 4000 or time.time() > CROSSEND.value:
            return
    with tempfile.NamedTemporaryFile('w', suffix='.smt2') as f:
        f.write('(set-logic ALL)\n' + s.to_smt2())
        f.flush()
        try:
            o = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % (seconds * 1000), f.name], capture_output=True, text=True,
                               timeout=seconds + 10).stdout.split()
        except (OSError, subprocess.TimeoutExpired):
            o = []
        if CROSSDIR:
            import shutil
            shutil.copy(f.name, CROSSDIR)
    k = 0 if 'unsat' in o else 2 if 'sat' in o else 1
    with CROSS.get_lock():
        CROSS[k] += 1


CROSSDIR = __import__('os').environ.get('DV_CROSSDIR')
CROSSEND = None


def prove(hyps, goal, timeout=4000, depth=2, lemmas=(), seed=None, want_model=False):
    t0 = time.time()
    v = bval(goal)
    if v is True:
        return Proof(True, 'trivial', 0.0, backend='syntactic')
    forms = assemble(hyps, goal, depth, lemmas)
    pre = prelude(forms)
    s = z3.SolverFor('UFLIA') if False else z3.SimpleSolver()
    s.set('timeout', timeout)
    s.set('auto_config', False)
    s.set('smt.mbqi', False)
    s.set('smt.qi.eager_threshold', 100.0)
    s.set('smt.dt_lazy_splits', 0)
    if seed is not None:
        s.set('smt.random_seed', seed)
    for a in pre:
        s.add(a)
    for f in forms:
        s.add(f)
    r = s.check()
    dt = time.time() - t0
    if DEBUGSLOW and dt > 1:
        st = s.statistics()
        print('   Z3 %.1f %s nform %d %s' % (dt, r, len(forms), {k: st.get_key_value(k) for k in st.keys() if k in (
            'quant instantiations', 'conflicts', 'decisions', 'propagations', 'mk clause', 'final checks', 'array ax1', 'array ax2', 'datatype splits', 'rlimit count', 'max generation')}), flush=True)
    STATS.queries += 1
    STATS.time += dt
    if CROSS is not None and r == z3.unsat and CROSSING:
        crosscheck(s)
    model = None
    if r != z3.unsat and want_model:
        try:
            model = s.model()
        except z3.Z3Exception:
            model = None
    return Proof(r == z3.unsat, str(r) if r != z3.unknown else s.reason_unknown(), dt, model, 'z3', len(forms))


def quick_unsat(hyps, timeout=150):
    """cheap infeasibility test: ground reasoning only (sound: True means unsat)"""
    forms = [h for h in hyps if not z3.is_quantifier(h)]
    s = z3.SimpleSolver()
    s.set('timeout', timeout)
    s.set('auto_config', False)
    s.set('smt.mbqi', False)
    lens = []
    lits = {}
    for t in subterms(forms):
        if z3.is_app(t) and t.num_args() == 1 and t.decl().name().startswith('len_') and not has_var(t):
            lens.append(t)
        b = litval(t) if t.num_args() == 0 and t.sort() == Str else None
        if b is not None:
            lits[b] = t
    for l in lens:
        s.add(l >= 0, l <= MAXLEN)
    if len(lits) > 1:
        s.add(z3.Distinct(*lits.values()))
    for b, t in lits.items():
        s.add(STR.len(t) == len(b))
    for f in forms:
        s.add(f)
    return s.check() == z3.unsat
