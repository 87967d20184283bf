"""Verification of one function against its contract.

The function body is executed symbolically from an arbitrary state that
satisfies the precondition; every way it can end must match an outcome of the
contract, including the frame (nothing else changes).  Loop invariants are
inferred: candidates that do not hold on entry or are not preserved are thrown
away until the rest is inductive (Houdini)."""
import time, os, sys, pickle, traceback
from .smt import *
from . import smt, spec
from .state import *
from .exec import Executor, Frame, CallCx, Obl, HAVOC, Ctx
from .lib import Lib, HEAPS
from .spec import TYPES, DATA, DECL2DATA, LEMMAS
from .cxxast import tyof, simple_type


class Outcome:
    """one way a call may end.  `cond` over the entry state; `ret`; `writes`
    [(Path, value | HAVOC)]; `assume`: facts about the constants in `exist`
    (results the contract leaves open; {const: ('ret',) | ('w', Path)})"""

    def __init__(self, cond=TRUE, ret=VOID, writes=(), kind='ret', exc=None, ghost=(), assume=(), exist=(), facets=None,
                 wfacets=None):
        self.kind, self.exc, self.cond, self.ret = kind, exc, cond, ret
        self.writes, self.ghost, self.assume, self.exist = list(writes), list(ghost), list(assume), list(exist)
        self.facets = facets or {}


def ret(v=VOID, cond=TRUE, writes=(), **kw):
    return Outcome(cond, v, writes, **kw)


def throws(exc, cond, writes=(), **kw):
    return Outcome(cond, None, writes, kind='throw', exc=exc, **kw)


ANY = object()      # result left completely open


class Contract:
    """spec of one function of /repo: `qual` (+ parameter types when overloaded)"""

    def __init__(self, qual, outs, pre=None, types=None, props=(), this=None, entry=None, measure=None, group=None,
                 templates=(), measures=(), lemmas=(), depth=2, timeout=6000, safety=None, nparams=None, facets_pre=(),
                 doc='', cases=None, term=None, maxsteps=None, endcheck=None, extra=None, inline=False, optional=False, split=False, nolog=False, also=(),
                 assumes=(), given=None, outs_call=None, fold=(), join=False, follow=(), parallel=False, threads=True):
        self.qual, self._outs, self._pre, self.types = qual, outs, pre, types
        self.props, self.this, self.entry = tuple(props), this, entry
        self.measure, self.group = measure, group
        self.templates, self.measures, self.lemmas = list(templates), list(measures), list(lemmas)
        self.depth, self.timeout = depth, timeout
        self.safety = tuple(safety) if safety is not None else None
        self.term = tuple(term) if term is not None else None
        self.nparams, self.facets_pre, self.doc, self.cases = nparams, facets_pre, doc, cases
        self.maxsteps = maxsteps
        self.endcheck, self.extra, self.inline, self.optional, self.split = endcheck, extra, inline, optional, split
        self.nolog, self.also, self.assumes = nolog, tuple(also), tuple(assumes)
        self.given, self.outs_call, self.fold = given, outs_call, set(fold)
        self.parallel, self.threads = parallel, threads
        if threads:
            self.also += ('C21',)
        self.join, self.follow = join, tuple(follow)
        self.key = None

    def pre(self, cx):
        return self._pre(cx) if self._pre else []

    def outs(self, cx, call=False):
        r = self.outs_call(cx) if call and self.outs_call else self._outs(cx)
        return r if isinstance(r, list) else [r]


class Missing(Exception):
    pass


class Result:
    def __init__(self, key):
        self.key = key
        self.obls = []          # dicts
        self.unsupported = None
        self.loops = []
        self.time = 0.0
        self.used_contracts, self.used_lib, self.inlined = [], [], []
        self.paths = 0
        self.vacuous = False
        self.loc = None

    @property
    def failed(self):
        return [o for o in self.obls if not o['ok']]


def has_ph(t, cache={}):
    k = t.get_id()
    if k in cache:
        return cache[k]
    r = False
    if z3.is_const(t):
        r = t.decl().name().startswith('INV!')
    else:
        r = any(has_ph(c) for c in t.children())
    cache[k] = r
    smt._kept.append(t)
    return r


PROCS = 8


class Workers:
    """forked copies of the verifier; task k always goes to the same one"""

    def __init__(self, fn, loops, n):
        self.ends = []
        self.loops = loops
        for i in range(max(1, n)):
            down, up = os.pipe(), os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(down[1])
                    os.close(up[0])
                    for _, w, r in self.ends:
                        w.close()
                        r.close()
                    inp, out = os.fdopen(down[0], 'rb'), os.fdopen(up[1], 'wb')
                    while True:
                        try:
                            alive, todo = pickle.load(inp)
                        except EOFError:
                            break
                        for lp, al in zip(loops, alive):
                            for n, x in enumerate(lp.cands):
                                x.alive = n in al
                        res = {}
                        for k, v in todo:
                            try:
                                res[k] = fn(k, v)
                            except Exception as e:
                                res[k] = 'error: %s' % e
                        sys.stdout.flush()
                        pickle.dump(res, out)
                        out.flush()
                finally:
                    os._exit(0)
            os.close(down[0])
            os.close(up[1])
            self.ends.append((pid, os.fdopen(down[1], 'wb'), os.fdopen(up[0], 'rb')))

    def run(self, todo):
        alive = [{n for n, x in enumerate(lp.cands) if x.alive} for lp in self.loops]
        n = len(self.ends)
        for i, (pid, w, r) in enumerate(self.ends):
            pickle.dump((alive, [(k, v) for k, v in todo.items() if k % n == i]), w)
            w.flush()
        res = {}
        for pid, w, r in self.ends:
            res.update(pickle.load(r))
        for k, v in res.items():
            if isinstance(v, str):
                raise Unsupported('worker: ' + v)
        return res

    def close(self):
        for pid, w, r in self.ends:
            w.close()
            r.close()
            os.waitpid(pid, 0)


def pmap(fn, items, parallel):
    """[fn(x) for x in items], the results of forked copies"""
    items = list(items)
    n = min(PROCS, len(items)) if parallel else 1
    if n <= 1:
        return [fn(x) for x in items]
    pool = Workers(lambda k, v: fn(items[k]), [], n)
    try:
        res = pool.run({k: None for k in range(len(items))})
    finally:
        pool.close()
    return [res[k] for k in range(len(items))]


class Verifier:
    def __init__(self, prog, contracts, mklib=Lib):
        self.prog, self.mklib = prog, mklib
        self.contracts = {}
        self.fnids = {}
        self.missing = []
        for c in contracts:
            f = prog.find(c.qual, c.nparams, c.types)
            if f is None:
                self.missing.append(c)
                continue
            c.key = f.key
            self.contracts[f.key] = c
        self.callable = {k: c for k, c in self.contracts.items() if not c.inline}
        lib = mklib()
        ex = Executor(prog, {}, lib)
        ex.fnids = self.fnids
        LANGROWS[0] = None
        try:
            LANGROWS[0] = lib.langrows(ex)[:lib.nlangs(ex)]
        except Unsupported:
            pass

    SHARED = ('writes no object shared between threads', 'calls only functions that several threads may call at once')

    def frame(self, f):
        """a function without a contract, executed for whatever it is given: it must not touch shared objects"""
        c = Contract(f.qual, lambda cx: [], also=('C21',))
        c.key = f.key
        r = Result(f.key)
        r.loc = '%s:%s' % (os.path.basename(f.tu.path), f.node.get('loc', {}).get('line') or '?')
        t0 = time.time()
        ex = Executor(self.prog, self.callable, self.mklib())
        try:
            ex.fnids = self.fnids
            ex.target = f
            ex.maxsteps = 60000
            ex.cur_contract = c
            WRITE_HOOK[0] = ex.shared_write
            st, fr, this, vals = self.entry(ex, c, f)
            ex.bind_params(f, vals, st, fr)
            if f.kind == 'CXXConstructorDecl':
                fr.this = Path(('this',))
                st.store[('this',)] = Obj(f.cls, {})
                cur = [('norm', st, None)]
                for ini in f.inits:
                    nxt = []
                    for k, s, v in cur:
                        nxt += ex.full(s, lambda: ex.do_init(ini, fr.this)) if k == 'norm' else [(k, s, v)]
                    cur = nxt
                for k, s, v in cur:
                    if k == 'norm':
                        ex.exec(f.body, s)
            else:
                ex.exec(f.body, st)
        except Unsupported as e:
            r.unsupported = str(e)
        except RecursionError:
            r.unsupported = 'recursion limit of the verifier'
        except Exception as e:          # the contracts it calls expect a state only their callers have
            r.unsupported = 'cannot be executed on its own (%s)' % type(e).__name__
        obls = self.shared_obls(ex, c, {})
        for n in self.SHARED:
            nm = '%s: %s' % (f.key, n)
            if not any(o['name'] == nm for o in obls) and not r.unsupported:
                obls.append({'name': nm, 'kind': 'shared', 'ok': True, 'reason': 'unsat', 'time': 0.0, 'facets': ('C21',), 'backend': 'VC generator'})
        r.obls = obls
        r.paths = 1
        r.used_lib, r.inlined, r.used_contracts = sorted(ex.used_lib), sorted(ex.inlined), sorted(ex.used_contracts)
        r.time = time.time() - t0
        return r

    def shared_obls(self, ex, c, inv):
        res = {}
        for o in ex.obls:
            if o.kind == 'shared' and o.name not in res:
                try:
                    p = self.prove(self.expand(o.hyps, inv), o.goal, c, hurry=True)
                except Exception:
                    continue
                if not p.ok:
                    d = self.rec(o.name, o.kind, p, o.facets, o)
                    d['detail'] = '%s\n%s' % (o.result, d.get('detail'))
                    res[o.name] = d
        return list(res.values())

    # ------------------------------------------------------------- one function
    def verify(self, c, extra_seeds=(None,), backends=('z3',)):
        t0 = time.time()
        spec.FOLDED = c.fold
        spec.GROUND = {LEMMAS[l].on: LEMMAS[l] for l in c.lemmas if LEMMAS[l].ground}
        r = Result(c.key or c.qual)
        if c.key is None:
            r.unsupported = 'function %s(%s) not found in the sources' % (c.qual, ', '.join(c.types or []))
            return r
        f = self.prog.bykey[c.key]
        r.loc = '%s:%s' % (os.path.basename(f.tu.path), f.node.get('loc', {}).get('line') or
                           f.node.get('range', {}).get('begin', {}).get('line') or '?')
        exact = set()
        try:
            cases = c.cases or [('', None)]
            for nm, case in cases:
                statics = {}
                for phase in ('', ' (later calls)'):
                    for attempt in range(6):
                        got = {}
                        again = self.run(c, f, r, exact, nm + phase, case, attempt == 5, statics, got)
                        if not again:
                            break
                        exact |= again
                    if phase == '' and not got:
                        break
                    if phase and any(not same(got[k], statics.get(k)) for k in got):
                        raise Unsupported('function-local static changes after its initialisation')
                    statics = got
        except Unsupported as e:
            if os.environ.get("DV_TB"): traceback.print_exc()
            r.unsupported = str(e)
            if c.threads and self.only == 'C21':
                r.obls += [o for o in self.shared_obls(self.ex, c, {}) if o['name'] not in {x['name'] for x in r.obls}]
            if os.environ.get('DV_TRACE'):
                traceback.print_exc()
        except RecursionError:
            r.unsupported = 'recursion limit of the verifier'
        r.time = time.time() - t0
        return r

    def entry(self, ex, c, f):
        st = State()
        ex.st = st
        fr = Frame(f, None, ('fn', 0), f.tu)
        ex.fr = fr
        if c.entry:
            c.entry(ex, st)
        this = None
        if f.cls and not f.static and f.kind != 'CXXConstructorDecl':
            if c.this:
                this = c.this(ex, st)
            elif f.cls in HEAPS:
                h = HEAPS[f.cls]
                st.store[h] = fresh('heap', ArraySort(IntSort(), TYPES[f.cls]))
                ex.thisid = fresh('this', IntSort())
                st.assume(ex.thisid >= 1)
                this = Path(h).k(ex.thisid)
            else:
                this = Path(('this',))
                v = ex.fresh_value('this', f.cls)
                if v is None:
                    raise Unsupported('object of class %s' % f.cls)
                st.store[('this',)] = v
        fr.this = this
        vals = []
        for i, p in enumerate(f.params):
            q = p['type']['qualType'].rstrip()
            nm = p.get('name', 'arg%d' % i)
            pt = tyof(p).rstrip()
            isref = q.endswith('&')
            base = pt[:-1].rstrip('&').rstrip() if isref else pt
            bs = simple_type(base)
            if isref and bs in HEAPS:
                h = HEAPS[bs]
                if h not in st.store:
                    st.store[h] = fresh('heap', ArraySort(IntSort(), TYPES[bs]))
                d = fresh(nm, IntSort())
                st.assume(d >= 1)
                vals.append(Path(h).k(d))
                continue
            if isref and bs == 'FileSystem':
                vals.append(Path(('fs',)))
                continue
            v = ex.fresh_value(nm, base)
            if v is None:
                raise Unsupported('parameter of type %s' % base)
            if isref:
                loc = ('p', i)
                st.store[loc] = v
                ex.loctype[loc] = base
                ex.varnames[loc] = nm
                vals.append(Path(loc))
            else:
                vals.append(v)
        return st, fr, this, vals

    def run(self, c, f, r, exact, casename, case, final, statics, got):
        lib = self.mklib()
        ex = Executor(self.prog, self.callable, lib)
        ex.fnids = self.fnids
        self.ex = ex
        WRITE_HOOK[0] = ex.shared_write
        ex.exact_wrap = set(exact)
        ex.target = f
        ex.templates = list(c.templates)
        ex.measures = list(c.measures)
        ex.join = c.join
        if c.maxsteps:
            ex.maxsteps = c.maxsteps
        st, fr, this, vals = self.entry(ex, c, f)
        cx = CallCx(ex, f, this, vals, st)
        for nm, g in c.pre(cx) + (c.given(cx) if c.given else []):
            st.assume(g)
        if case is not None:
            st.assume(case(cx))
        ex.cur_contract = c
        if c.measure:
            ex.measure0 = c.measure(cx)
        entry = st.copy()
        outs = c.outs(CallCx(ex, f, this, vals, entry))
        pc0 = list(entry.pc)
        for loc, v in statics.items():
            entry.store[loc] = v
        work = entry.copy()
        ex.bind_params(f, vals, work, fr)
        if f.kind == 'CXXConstructorDecl':
            this = Path(('this',))
            work.store[('this',)] = Obj(f.cls, {})
            fr.this = this
            cur = [('norm', work, None)]
            for ini in f.inits:
                nxt = []
                for k, s, v in cur:
                    nxt += ex.full(s, lambda: ex.do_init(ini, this)) if k == 'norm' else [(k, s, v)]
                cur = nxt
            ends = []
            for k, s, v in cur:
                if k == 'norm':
                    ends += [(k2, s2, s2.store[('this',)] if k2 in ('norm', 'ret') else v2) for k2, s2, v2 in ex.exec(f.body, s)]
                else:
                    ends.append((k, s, v))
        else:
            ends = ex.exec(f.body, work)
        if os.environ.get('DV_DEBUG'):
            print('%s%s: %d paths, %d obligations, %d loops' % (f.key, casename, len(ends), len(ex.obls), len(ex.loops)))
        self.ends = ends
        if self.only == 'C21':
            # the frame only: nothing but the feasibility of paths that write shared objects matters
            inv = self.houdini(ex, c) if any(o.kind == 'shared' for o in ex.obls) else {}
            obls = self.shared_obls(ex, c, inv)
            for n in self.SHARED:
                nm = '%s: %s' % (f.key, n)
                if not any(o['name'] == nm for o in obls):
                    obls.append({'name': nm, 'kind': 'shared', 'ok': True, 'reason': 'unsat', 'time': 0.0, 'facets': ('C21',), 'backend': 'VC generator'})
            for o in obls:
                o['name'] += casename
            r.obls += obls
            r.paths += len(ends)
            r.used_contracts = sorted(set(r.used_contracts) | ex.used_contracts)
            r.used_lib = sorted(set(r.used_lib) | ex.used_lib)
            r.inlined = sorted(set(r.inlined) | ex.inlined)
        for k, s, v in ends:
            for loc in s.store:
                if loc[0] == 'fstatic':
                    if loc in got and not same(got[loc], s.store[loc]):
                        raise Unsupported('function-local static with different values')
                    got[loc] = s.store[loc]
        if self.only == 'C21':
            return set()
        smt.CROSSING = False
        inv = self.houdini(ex, c)
        smt.CROSSING = True
        # obligations met on the way
        self.lost = set()       # one failure per obligation is enough
        self.failing = 0
        obls = []
        again = set()

        def solve(o):
            if o.kind == 'shared':
                return None
            if o.name in self.lost or o.kind != 'nowrap' and not self.wanted(self.facets_of(c, o)):
                return None
            p = self.prove(self.expand(o.hyps, inv), o.goal, c, hurry=True)
            if not p.ok and o.kind != 'nowrap':
                self.lose(o.name)
            if o.kind == 'nowrap':
                return o.line if not p.ok and not final else None
            return self.rec(o.name, o.kind, p, self.facets_of(c, o), o)
        for x in pmap(solve, ex.obls, c.parallel):
            if isinstance(x, dict):
                obls.append(x)
            elif x is not None:
                again.add(x)
        if again:
            return again
        # termination
        if self.wanted(c.term if c.term is not None else (c.safety if c.safety is not None else c.props)):
            obls += pmap(lambda lp: self.terminates(ex, lp, inv, c), ex.loops.values(), c.parallel)
        # the ends
        seen = len(ends)
        for x in pmap(lambda e: self.check_end(ex, c, cx, entry, outs, e[1][0], e[1][1], e[1][2], inv, e[0]), enumerate(ends), c.parallel):
            obls += x
        if c.extra and not statics:
            obls += c.extra(self, ex, c)
        # group by name
        merged = {}
        for o in obls:
            o['name'] = o['name'] + casename
            m = merged.get(o['name'])
            if m is None:
                merged[o['name']] = dict(o, n=1)
            else:
                m['n'] += 1
                m['time'] += o['time']
                if not o['ok']:
                    if m['ok']:
                        m.update(ok=False, reason=o['reason'], detail=o.get('detail'))
                m['facets'] = tuple(sorted(set(m['facets']) | set(o['facets'])))
        r.obls += list(merged.values())
        r.paths += seen
        # vacuity: the precondition is satisfiable as far as the solver can tell, and some end is reachable
        if quick_unsat(pc0, 1000) or prove(pc0, FALSE, timeout=400).ok or not ends:
            r.vacuous = True
        elif all(prove(self.expand(s.pc, inv), FALSE, timeout=400).ok for k, s, v in ends[:40]):
            r.vacuous = True
        for lp in ex.loops.values():
            r.loops.append({'loop': lp.name, 'invariant': [x.name for x in lp.cands if x.alive], 'measure': getattr(lp, 'm', None)})
        r.used_contracts = sorted(set(r.used_contracts) | ex.used_contracts)
        r.used_lib = sorted(set(r.used_lib) | ex.used_lib)
        r.inlined = sorted(set(r.inlined) | ex.inlined)
        return set()

    def facets_of(self, c, o):
        if o.facets:
            return tuple(o.facets)
        if o.kind in ('safety', 'pre') and c.safety is not None:
            return c.safety
        if o.kind == 'term' and c.term is not None:
            return c.term
        return c.props

    only = None         # the property asked for: obligations of others are not proved in this run
    failing = 0

    def wanted(self, facets):
        return self.only is None or not facets or self.only in facets

    def lose(self, name):
        self.lost.add(name)
        self.failing += 1

    def rec(self, name, kind, p, facets, o=None):
        d = {'name': name, 'kind': kind, 'ok': p.ok, 'reason': p.reason, 'time': p.time, 'facets': tuple(facets), 'backend': p.backend}
        if not p.ok and o is not None:
            d['detail'] = self.show(o.hyps, o.goal)
        return d

    def show(self, hyps, goal):
        s = '\n'.join('  assume %s' % str(h)[:600] for h in hyps[-14:])
        return s + '\n  show   %s' % str(goal)[:1500]

    # ------------------------------------- value of a loop-free pure function
    def pure_term(self, f, args, this=None, pc=()):
        """result of a pure function of /repo as one term over its arguments (all paths joined)"""
        lib = self.mklib()
        ex = Executor(self.prog, {}, lib)
        ex.fnids = self.fnids
        ex.noemit = 1
        st = State()
        for h in pc:
            st.assume(h)
        vals = []
        for i, (p, v) in enumerate(zip(f.params, args)):
            if p['type']['qualType'].rstrip().endswith('&'):
                st.store[('p', i)] = v
                v = Path(('p', i))
            vals.append(v)
        th = None
        if this is not None:
            st.store[('this',)] = this
            th = Path(('this',))
        fr = Frame(f, th, ('fn', 0), f.tu)
        ex.fr, ex.st, ex.target = fr, st, f
        n0 = len(st.pc)
        ex.bind_params(f, vals, st, fr)
        before = {l: v for l, v in st.store.items()}
        ends = ex.exec(f.body, st)
        if ex.loops or not ends:
            raise Unsupported('%s: not loop-free' % f.key)
        t = None
        for k, s, v in reversed(ends):
            if k != 'ret':
                raise Unsupported('%s: does not return' % f.key)
            for l in before:
                if l[0] in ('p', 'this') and not same(s.store[l], before[l]):
                    raise Unsupported('%s: has effects' % f.key)
            v = to_term(v)
            t = v if t is None else mk_ite(mk_and(*s.pc[n0:]), v, t)
        return t

    def custom(self, c, name, hyps, goal, facets=None):
        p = self.prove(list(hyps), goal, c)
        d = {'name': name, 'kind': 'lemma', 'ok': p.ok, 'reason': p.reason, 'time': p.time,
             'facets': tuple(facets or c.props), 'backend': p.backend}
        if not p.ok:
            d['detail'] = self.show(list(hyps), goal)
        return d

    def ground(self, c, name, ok, facets=None, detail=None):
        """a closed fact decided by evaluation"""
        return {'name': name, 'kind': 'ground', 'ok': bool(ok), 'reason': 'evaluated', 'time': 0.0,
                'facets': tuple(facets or c.props), 'backend': 'evaluation', 'detail': detail}

    # ------------------------------------------------------------- solving
    def lem(self, c):
        return [LEMMAS[l].formula() for l in c.lemmas if not LEMMAS[l].ground]

    deadline = None
    followed = {}

    def prove(self, hyps, goal, c, timeout=None, split=True, hurry=False):
        if bval(goal) is True:
            return smt.Proof(True, 'trivial', 0.0, backend='syntactic')
        if self.deadline and time.time() > self.deadline:
            return smt.Proof(False, 'time budget', 0.0)
        if hurry and self.failing:          # the function is not proved anyway: what else fails need not be known for certain
            timeout, split = min(timeout or c.timeout, 3000), False
        if c.follow:
            p = self.prove_following(hyps, goal, c, timeout)
            if p is not None:
                return p
            hyps = [h for h in hyps if not mentions(h, c.follow[0])]
        hyps, goal = propagate(hyps, goal)
        lem = self.lem(c)
        p = prove(hyps, goal, timeout=timeout or c.timeout, depth=c.depth, lemmas=lem)
        if not p.ok and split and p.reason not in ('sat',) and timeout is None:
            # split a conjunction
            gs = conjuncts(goal)
            if len(gs) > 1:
                t = p.time
                for g in gs:
                    q = prove(hyps, g, timeout=c.timeout, depth=c.depth, lemmas=lem)
                    t += q.time
                    if not q.ok:
                        q.time = t
                        return q
                return smt.Proof(True, 'unsat', t)
            q = prove(hyps, goal, timeout=c.timeout, depth=c.depth + 1, lemmas=lem, seed=11)
            q.time += p.time
            return q
        return p

    # -------------------------------------------- one step of a specification
    def prove_following(self, hyps, goal, c, timeout):
        """Goal and hypotheses speak of f(...), a recursive specification of a
        whole run.  f(args) in a hypothesis is replaced by its value one step
        on: its defining equations are followed, and the conditions met on the
        way are decided from the hypotheses.  Then the arguments are compared."""
        f = c.follow[0]
        gs = conjuncts(goal)
        mine = [g for g in gs if mentions(g, f)]
        if not mine:
            return None
        t0 = time.time()
        rest = [g for g in gs if not mentions(g, f)]
        if rest:
            p = self.prove(hyps, mk_and(*rest), c, timeout=timeout)
            if not p.ok:
                return p
        extra = []
        rhs = {}
        lost = set()
        for h in hyps:
            for e in conjuncts(h):
                if z3.is_eq(e):
                    for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                        if z3.is_app(a) and a.decl().name() == f and not a.eq(b):
                            v = self.follow(hyps, a, c)
                            if v is None:
                                lost.add(b.get_id())
                            elif not v.eq(a):
                                extra.append(mk_eq(a, v))
                                rhs[b.get_id()] = (b, v)
                            break
        hyps = hyps + extra
        plain = [h for h in hyps if not mentions(h, f)]
        for g in mine:
            done = False
            if z3.is_eq(g) and lost & {x.get_id() for x in g.children()}:
                return smt.Proof(False, 'a condition of the specification is not decided', time.time() - t0)
            if z3.is_eq(g):
                for a, b in ((g.arg(0), g.arg(1)), (g.arg(1), g.arg(0))):
                    v = rhs.get(b.get_id())
                    if v is not None and z3.is_app(a) and a.decl().name() == f:
                        v = v[1]
                        if z3.is_app(v) and v.decl().name() == f:
                            subs = [q for x, y in zip(a.children(), v.children()) for q in parts(x, y)]
                            p = self.prove_folded(plain, mk_and(*subs), c, timeout)
                            if p.ok:
                                done = True
                                break
                            if os.environ.get('DV_DEBUG') == '3':
                                for q in subs:
                                    if not self.prove_folded(plain, q, c, timeout).ok:
                                        print('      follow: cannot show', q)
            if not done:
                p = self.prove_folded(hyps, g, c, timeout)
                if not p.ok:
                    p.time = time.time() - t0
                    return p
        return smt.Proof(True, 'unsat', time.time() - t0)

    def prove_folded(self, hyps, goal, c, timeout):
        hyps, goal = propagate(hyps, goal)
        spec.FOLDED = c.fold | set(c.follow[1:])
        try:
            return prove(hyps, goal, timeout=timeout or c.timeout, depth=c.depth, lemmas=self.lem(c))
        finally:
            spec.FOLDED = c.fold

    def follow(self, hyps, t, c):
        key = (t.get_id(), tuple(h.get_id() for h in hyps))
        if key not in self.followed:
            smt._kept.extend([t] + hyps)
            h2 = [h for h in hyps if not mentions(h, c.follow[0])]
            names = set(c.follow)
            try:
                self.followed[key] = self.value(h2, t, c, names, {}, True)
            except Undecided as e:
                if os.environ.get('DV_DEBUG') == '3':
                    print('      follow: undecided', e)
                self.followed[key] = None
        return self.followed[key]

    def decided(self, hyps, b, c):
        v = bval(b)
        if v is not None:
            return v
        if self.prove_folded(hyps, b, c, 1500).ok:
            return True
        if self.prove_folded(hyps, mk_not(b), c, 1500).ok:
            return False
        raise Undecided(b)

    def value(self, hyps, t, c, names, memo, top=False):
        k = t.get_id()
        if k in memo:
            return memo[k]
        r = t
        if z3.is_app(t) and t.num_args():
            n = t.decl().name()
            if n in names:
                if n != c.follow[0] or top:
                    b = spec.SPECS[n].body(*[self.value(hyps, a, c, names, memo) for a in t.children()])
                    r = self.value(hyps, b, c, names, memo)
                else:
                    r = t.decl()(*[self.value(hyps, a, c, names, memo) for a in t.children()])
            elif t.decl().kind() == z3.Z3_OP_ITE and worth(t, names):
                b = self.value(hyps, t.arg(0), c, names, memo)
                r = self.value(hyps, t.arg(1 if self.decided(hyps, b, c) else 2), c, names, memo)
            elif worth(t, names):
                r = rebuild(t, [self.value(hyps, a, c, names, memo) for a in t.children()])
        memo[k] = r
        smt._kept.extend([t, r])
        return r

    def expand(self, pc, inv, depth=0):
        out = []
        sub = None
        for h in pc:
            if z3.is_const(h) and h.decl().name() in inv:
                out += inv[h.decl().name()]
            elif has_ph(h):
                if sub is None:
                    sub = [(Const(k, BoolSort()), mk_and(*v) if v else TRUE) for k, v in inv.items()]
                t = h
                for _ in range(6):
                    if not has_ph(t):
                        break
                    t = z3.substitute(t, *sub)
                out.append(t)
            else:
                out.append(h)
        if any(has_ph(h) for h in out):
            if depth > 20:
                raise Unsupported('loop bookkeeping')
            return self.expand(out, inv, depth + 1)
        return out

    def houdini(self, ex, c):
        """largest inductive subset of the candidates of every loop"""
        loops = list(ex.loops.values())
        tasks = [(i, w, st) for w in ('entry', 'back') for i, lp in enumerate(loops) for st in (lp.entries if w == 'entry' else lp.backs)]
        proven = {}

        def invs():
            return {lp.ph.decl().name(): [x.fn(lp.head) for x in lp.cands if x.alive] for lp in loops}

        def attempt(k, todo):
            """candidates among `todo` that fail in one state"""
            i, where, st = tasks[k]
            lp = loops[i]
            hyps = self.expand(st.pc, invs())
            sig = tuple(h.get_id() for h in hyps)
            smt._kept.extend(hyps)
            if proven.get(k, (None, ()))[0] == sig and set(todo) <= proven[k][1]:
                return []
            bad, goals = [], []
            for n in todo:
                try:
                    goals.append((n, lp.cands[n].fn(st)))
                except Unsupported:
                    bad.append(n)
            if not bad and self.prove(hyps, mk_and(*[g for _, g in goals]), c, timeout=2500).ok:
                proven[k] = (sig, set(todo))
                return []
            for n, g in goals:
                p = self.prove(hyps, g, c, timeout=1500)
                if not p.ok:
                    bad.append(n)
                    if os.environ.get('DV_DEBUG') == '2':
                        print('   drop [%s] %s at %s (%s)' % (lp.name, lp.cands[n].name, where, p.reason))
            return bad
        pool = Workers(attempt, loops, min(PROCS, len(tasks))) if c.parallel else None
        changed = True
        rounds = 0
        try:
            while changed and rounds < 40:
                rounds += 1
                changed = False
                for w in ('entry', 'back'):
                    left = [k for k, t in enumerate(tasks) if t[1] == w]
                    wave = 0
                    while left:
                        # the first waves are small: they throw out what fails everywhere
                        n = 1 if not pool else PROCS if wave < 3 else len(left)
                        ks, left = left[:n], left[n:]
                        wave += 1
                        alive = {k: [n for n, x in enumerate(loops[tasks[k][0]].cands) if x.alive] for k in ks}
                        ks = [k for k in ks if alive[k]]
                        tw = time.time()
                        found = pool.run({k: alive[k] for k in ks}) if pool else {k: attempt(k, alive[k]) for k in ks}
                        for k in ks:
                            for n in found[k]:
                                loops[tasks[k][0]].cands[n].alive = False
                                changed = True
                        if os.environ.get('DV_DEBUG') == '2':
                            print('   round %d %s wave %d: %d tasks %.1fs; %s' % (rounds, w, wave, len(ks), time.time() - tw, sorted({
                                loops[tasks[k][0]].cands[n].name for k in ks for n in found[k]})))
        finally:
            if pool:
                pool.close()
        if changed:
            for lp in loops:
                for x in lp.cands:
                    x.alive = False
        if os.environ.get('DV_DEBUG'):
            print('   %d rounds' % rounds)
            for lp in loops:
                print('   loop %s line %s: %s' % (lp.name, lp.line, [x.name for x in lp.cands if x.alive]))
        return invs()

    def terminates(self, ex, lp, inv, c):
        facets = c.term if c.term is not None else (c.safety if c.safety is not None else c.props)
        name = '%s terminates' % lp.name
        t = 0.0
        if not lp.backs:
            return {'name': name, 'kind': 'term', 'ok': True, 'reason': 'no back edge', 'time': 0.0, 'facets': facets, 'backend': 'syntactic'}

        def test(st, mf, strict):
            nonlocal t
            m0, m1 = mf(lp.head), mf(st)
            g = And(m0 >= 0, m1 < m0) if strict else And(m0 >= 0, m1 <= m0)
            p = self.prove(self.expand(st.pc, inv), simp(g), c, timeout=2500)
            t += p.time
            return p.ok
        ms = []
        for nm, mf in lp.measures:
            try:
                mf(lp.head)
                for st in lp.backs:
                    mf(st)
            except (Unsupported, AssertionError):
                continue
            ms.append((nm, mf))
        for nm, mf in ms:
            if all(test(st, mf, True) for st in lp.backs):
                lp.m = nm
                return {'name': name, 'kind': 'term', 'ok': True, 'reason': 'unsat', 'time': t, 'facets': facets, 'backend': 'z3'}
        # lexicographic pairs
        for nm, mf in ms:
            rest = [st for st in lp.backs if not test(st, mf, True)]
            if len(rest) < len(lp.backs) and all(test(st, mf, False) for st in rest):
                for nm2, mf2 in ms:
                    if nm2 != nm and all(test(st, mf2, True) for st in rest):
                        lp.m = '(%s, %s)' % (nm, nm2)
                        return {'name': name, 'kind': 'term', 'ok': True, 'reason': 'unsat', 'time': t, 'facets': facets, 'backend': 'z3'}
        return {'name': name, 'kind': 'term', 'ok': False, 'reason': 'no measure found', 'time': t, 'facets': facets, 'backend': 'z3'}

    # ------------------------------------------------------------- the ends
    def check_end(self, ex, c, cx, entry, outs, k, s, v, inv, i):
        f = ex.target
        res = []
        pc = self.expand(s.pc, inv)
        if quick_unsat(pc):
            return res
        if k in ('norm', 'ret'):
            kind, exc = 'ret', None
            v = VOID if v is None or (f.ret == 'void' and f.kind != 'CXXConstructorDecl') else v
        elif k == 'throw':
            kind, exc = 'throw', v.kind
        else:
            raise Unsupported('function ends by %s' % k)
        if c.endcheck:
            for name, goal, facets in c.endcheck(self, ex, cx, k, s, v, pc):
                if name in self.lost or not self.wanted(tuple(facets or c.props)):
                    continue
                p = goal if isinstance(goal, smt.Proof) else self.prove(pc, goal, c, hurry=True)
                d = {'name': '%s: %s' % (f.key, name), 'kind': 'post', 'ok': p.ok, 'reason': p.reason, 'time': p.time,
                     'facets': tuple(facets or c.props), 'backend': p.backend}
                if not p.ok:
                    self.lose(name)
                if not p.ok and not isinstance(goal, smt.Proof):
                    d['detail'] = self.show(pc, goal)
                res.append(d)
        match = [o for o in outs if o.kind == kind and (kind == 'ret' or o.exc == exc)]
        other = [o for o in outs if o not in match]

        batch = []

        def emit(what, hyps, goal, facets):
            if self.wanted(tuple(facets)):
                batch.append((what, hyps, goal, facets))

        def flush():
            """obligations of one path: together first, one by one when that fails"""
            todo = [b for b in batch if b[0] not in self.lost]
            groups = {}
            for b in todo:
                groups.setdefault(id(b[1]), []).append(b)
            for bs in groups.values():
                gs = [b[2] for b in bs if bval(b[2]) is not True]
                p = self.prove(bs[0][1], mk_and(*gs), c, split=False) if len(gs) > 1 else None
                for b in bs:
                    emit1(*b, p if p and p.ok else None)
                    if p and p.ok:
                        p = smt.Proof(True, p.reason, 0.0, backend=p.backend)

        def emit1(what, hyps, goal, facets, p=None):
            if what in self.lost:
                return
            if p is None or bval(goal) is True:
                p = self.prove(hyps, goal, c, hurry=True)
            if not p.ok:
                self.lose(what)
            d = {'name': '%s: %s' % (f.key, what), 'kind': 'post', 'ok': p.ok, 'reason': p.reason, 'time': p.time,
                 'facets': tuple(facets), 'backend': p.backend}
            if not p.ok:
                d['detail'] = self.show(hyps, goal)
            res.append(d)
        if not match:
            emit('exception %s does not leave' % exc if kind == 'throw' else 'normal return is excluded', pc, FALSE,
                 c.safety if kind == 'throw' and c.safety is not None else c.props)
            flush()
            return res
        conds = mk_or(*[o.cond for o in match])
        emit('ends with %s only when specified' % ('exception ' + exc if exc else 'a return'), pc, conds, c.props)
        for j, o in enumerate(match):
            if bval(o.cond) is False:
                continue
            hyps = pc + ([o.cond] if bval(o.cond) is not True else [])
            if len(match) > 1 and quick_unsat(hyps):
                continue
            fx = lambda name: o.facets.get(name, o.facets.get('', c.props))
            sub = []
            for const, where in o.exist:
                try:
                    if where[0] == 'term':
                        sub.append((const, to_term(where[1](v, s))))
                        continue
                    a = v if where[0] == 'ret' else s.read(where[1])
                    if where[0] == 'ret' and isinstance(a, Path) and a.loc in HEAPS.values() and len(a.sels) == 1:
                        a = a.sels[0][1]
                    if isinstance(a, Obj) and len(where) > 2:
                        a = a.get(where[2])
                    sub.append((const, to_term(a)))
                except Unsupported:
                    raise
            S = (lambda t: z3.substitute(t, *sub) if sub and z3.is_expr(t) else t)
            if kind == 'ret' and o.ret is not ANY and o.ret is not VOID:
                for nm, a, b in ([('result', v.sels[0][1], o.ret.sels[0][1])] if heapref(v) and heapref(o.ret) and v.loc == o.ret.loc
                                 else self.pairs(v, o.ret, 'result', s, entry)):
                    emit(nm, hyps, self.eq(a, S(b)), fx('result'))
            for t in o.assume:
                emit('guarantee', hyps, S(t), fx('assume'))
            # state: entry with the specified writes
            exp = entry.copy()
            skip = set()
            for p, val in o.writes:
                if val is HAVOC:
                    skip.add(ex.pkey(p))
                    exp.write(p, s.read(p))
                else:
                    exp.write(p, val)
            for loc, val in o.ghost:
                exp.store[loc] = val
            for loc in list(s.store):
                if loc[0] in ('v', 't', 'alias', 'cstr', 'fstatic') or loc not in exp.store:
                    if loc in ex.static0 and loc not in exp.store and not same(s.store[loc], ex.static0[loc]):
                        for nm, a, b in self.pairs(s.store[loc], ex.static0[loc], 'global %s unchanged' % loc[-1], s, entry):
                            emit(nm, hyps, self.eq(a, b), fx('frame'))
                    continue
                if f.kind == 'CXXConstructorDecl' and loc == ('this',):
                    continue
                a, b = s.store[loc], exp.store[loc]
                if same(a, b):
                    continue
                changed = any(p.loc == loc for p, _ in o.writes) or any(l == loc for l, _ in o.ghost)
                label = 'effect on %s' % ex.lib.locname(ex, Path(loc)) if changed else '%s unchanged' % ex.lib.locname(ex, Path(loc))
                for nm, x, y in self.pairs(a, b, label, s, entry):
                    emit(nm, hyps, self.eq(x, S(y)), fx('effect' if changed else 'frame'))
        for o in other:
            if bval(o.cond) is False:
                continue
            if bval(o.cond) is True and len(outs) == 1:
                continue
            emit('ends with %s when specified' % (o.exc or 'a return'), pc, mk_not(o.cond), c.props)
        flush()
        return res

    def eq(self, a, b):
        from .lib import streq
        if isinstance(a, bool) or isinstance(b, bool):
            return BoolVal(a == b)
        return streq(a, b) if a.sort() == Str else mk_eq(a, b)

    def pairs(self, a, b, name, s, entry):
        """leaf equalities of two values"""
        if isinstance(a, Path) and not isinstance(b, Path):
            a = s.read(a)
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.cls != b.cls or a.f.keys() != b.f.keys():
                raise Unsupported('%s: shape of the value' % name)
            out = []
            for x in a.f:
                out += self.pairs(a.f[x], b.f[x], name + '.' + x, s, entry)
            return out
        if isinstance(a, CStr) and isinstance(b, CStr):
            return [(name + ' null', a.null, b.null), (name, a.s, b.s)]
        if same(a, b):
            return []
        if isinstance(a, (Ref, Path)) and type(a) is type(b):
            raise Unsupported('%s: reference' % name)
        if z3.is_expr(b) and not z3.is_expr(a):
            a = to_term(a)
        if z3.is_expr(a) and not z3.is_expr(b):
            b = to_term(b)
        if z3.is_expr(a) and z3.is_expr(b):
            if a.sort() != b.sort():
                raise Unsupported('%s: %s instead of %s' % (name, a.sort(), b.sort()))
            if is_datarec(a) and z3.is_app(b) and b.decl().eq(DECL2DATA[b.sort().name()].mk):
                info = DECL2DATA[a.sort().name()]
                return [(name + '.' + x, simp(info.get(a, x)), simp(info.get(b, x))) for x in info.order]
            if z3.is_array(a) and z3.is_app(b) and b.decl().kind() == z3.Z3_OP_STORE and z3.is_app(a) and \
                    a.decl().kind() == z3.Z3_OP_STORE and a.arg(0).eq(b.arg(0)) and a.arg(1).eq(b.arg(1)):
                return self.pairs(a.arg(2), b.arg(2), name, s, entry)
            return [(name, a, b)]
        if isinstance(a, CVec) or isinstance(a, CMap):
            raise Unsupported('%s: static container changed' % name)
        raise Unsupported('%s: %s against %s' % (name, type(a).__name__, type(b).__name__))


def heapref(v):
    """reference to a whole object of a heap"""
    return isinstance(v, Path) and v.loc in HEAPS.values() and len(v.sels) == 1


def conjuncts(g):
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += conjuncts(c)
        return out
    return [g]


def propagate(hyps, goal):
    """substitute constants known to equal a literal"""
    sub = {}
    for h in hyps:
        for g in conjuncts(h):
            if z3.is_eq(g):
                for a, b in ((g.arg(0), g.arg(1)), (g.arg(1), g.arg(0))):
                    if a.sort() == Str and z3.is_const(a) and litval(a) is None and litval(b) is not None:
                        sub[a.get_id()] = (a, b)
            elif z3.is_const(g) and g.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                sub[g.get_id()] = (g, TRUE)
            elif z3.is_not(g) and z3.is_const(g.arg(0)) and g.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
                sub[g.arg(0).get_id()] = (g.arg(0), FALSE)
    if not sub:
        return hyps, goal
    prs = list(sub.values())
    keep = [a == b for a, b in prs]
    bools = any(b.sort() == BoolSort() for a, b in prs)
    F = (lambda t: fold_ite(z3.substitute(t, *prs))) if bools else (lambda t: z3.substitute(t, *prs))
    return [F(h) for h in hyps] + keep, F(goal)


_fold = {}


def fold_ite(t):
    """decide if-then-else terms whose condition became a constant"""
    k = t.get_id()
    r = _fold.get(k)
    if r is not None:
        return r
    r = t
    if z3.is_app(t) and t.num_args():
        d = t.decl().kind()
        if d == z3.Z3_OP_ITE:
            c = fold_ite(t.arg(0))
            v = bval(c)
            r = mk_ite(c, fold_ite(t.arg(1)), fold_ite(t.arg(2))) if v is None else fold_ite(t.arg(1 if v else 2))
        else:
            cs = t.children()
            ns = [fold_ite(c) for c in cs]
            if any(not a.eq(b) for a, b in zip(cs, ns)):
                r = t.decl()(*ns)
            if d in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR):
                r = mk_not(ns[0]) if d == z3.Z3_OP_NOT else mk_and(*ns) if d == z3.Z3_OP_AND else mk_or(*ns)
    _fold[k] = r
    smt._kept.append(t)
    return r


class Undecided(Exception):
    pass


_ment = {}


def mentions(t, f):
    """does the specification function f occur in t?"""
    k = (t.get_id(), f)
    r = _ment.get(k)
    if r is None:
        if z3.is_quantifier(t):
            r = mentions(t.body(), f)
        else:
            r = z3.is_app(t) and (t.decl().name() == f or any(mentions(x, f) for x in t.children()))
        _ment[k] = r
        smt._kept.append(t)
    return r


_worth = {}


def worth(t, names):
    """is there a condition to decide or a definition to follow inside a term (not under quantifiers)?"""
    k = t.get_id()
    r = _worth.get(k)
    if r is None:
        r = z3.is_app(t) and t.num_args() > 0 and (
            t.decl().name() in names or (t.decl().kind() == z3.Z3_OP_ITE and is_state(t)) or any(worth(x, names) for x in t.children()))
        _worth[k] = r
        smt._kept.append(t)
    return r


def is_state(t):
    return t.sort().kind() == z3.Z3_DATATYPE_SORT


def rebuild(t, args):
    d = t.decl()
    if all(a.eq(b) for a, b in zip(args, t.children())):
        return t
    if d.kind() == z3.Z3_OP_DT_ACCESSOR:
        return simp(d(*args))
    return d(*args)


def parts(x, y):
    """two values are equal when these are"""
    if x.eq(y):
        return []
    if is_datarec(x) and is_datarec(y):
        info = DECL2DATA[x.sort().name()]
        if any(z3.is_app(z) and z.decl().eq(info.mk) for z in (x, y)):
            return [q for f in info.order for q in parts(simp(info.get(x, f)), simp(info.get(y, f)))]
    return [mk_eq(x, y)]
