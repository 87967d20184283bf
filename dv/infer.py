"""Candidate loop invariants and termination measures.

Candidates are guesses: they are kept only if the solver proves that they hold
on entry and are preserved by the body (Houdini).  They are chosen by the type
and role of the variables the loop writes, never by name, so that renaming or
rewriting a loop does not disturb them."""
from .smt import *
from .state import *
from . import smt
from .spec import SPECS, TYPES
from .smt import ForAll as _forall


def ForAll(vs, body, patterns=()):
    try:
        return _forall(vs, body, patterns=list(patterns))
    except z3.Z3Exception:          # not a legal pattern (a literal, an if-then-else)
        return _forall(vs, body)




def consts_of(ts):
    seen, out = set(), set()
    stack = list(ts)
    while stack:
        t = stack.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        smt._kept.append(t)
        if z3.is_quantifier(t):
            stack.append(t.body())
        elif z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            stack.extend(t.children())
    return out


class View:
    """typed access paths of the store at a loop head"""

    def __init__(self, ex, lp):
        self.ex, self.lp = ex, lp
        self.head, self.entry = lp.head, lp.entries[0]
        wk = {ex.pkey(p) for p in lp.written}
        self.W = wk
        self.ints, self.strs, self.seqs, self.bools, self.maps, self.terms = [], [], [], [], [], []
        self.cstrs = []
        self.used = self.mentioned(lp)
        self.iterated = {v.cpath.loc for v in self.head.store.values() if isinstance(v, (Iter, SPtr))}
        for loc, v in self.head.store.items():
            if loc[0] in ('alias', 'iconv', 'trace', 'errno', 'world', 'alive'):
                continue
            lv = []
            self.leaves(v, Path(loc), lv)
            for p, x in lv:
                self.add(p, x, ex.pkey(p) in wk or any(ex.pkey(q) in wk for q in self.prefixes(p)))

    def mentioned(self, lp):
        """constants that occur in what one iteration tests or computes"""
        if not lp.backs:
            return None
        todo = []
        n = len(lp.head.pc)
        for b in lp.backs:
            todo += [h for h in b.pc[n:]]
            for p in lp.written:
                lv = []
                self.leaves(b.read(p), p, lv)
                todo += [x.pos if isinstance(x, (Iter, SPtr)) else x for _, x in lv]
        return consts_of(todo)

    def relevant(self, x):
        return self.used is None or bool(consts_of([x]) & self.used) or not consts_of([x])

    def prefixes(self, p):
        return [Path(p.loc, p.sels[:k]) for k in range(len(p.sels))]

    def leaves(self, v, p, out):
        if isinstance(v, Obj):
            for k, x in v.f.items():
                self.leaves(x, p.f(k), out)
        elif isinstance(v, (Iter, SPtr)):
            out.append((p, v))
        elif isinstance(v, CStr):
            if self.ex.pkey(p) in self.W:
                self.cstrs.append(p)
        elif z3.is_expr(v):
            out.append((p, v))

    def add(self, p, x, ch):
        acc = Acc(p, ch)
        if not ch and z3.is_expr(x) and p.loc not in self.iterated and not self.relevant(x):
            return
        if isinstance(x, (Iter, SPtr)):
            acc.iter = True
            acc.container = x.cpath
            self.ints.append(acc)
        elif x.sort() == IntSort():
            self.ints.append(acc)
        elif x.sort() == BoolSort():
            self.bools.append(acc)
        elif x.sort() == Str:
            self.strs.append(acc)
        elif is_seq(x):
            self.seqs.append(acc)
        else:
            self.terms.append(acc)

    def of(self, sort, changed=None):
        pool = {'Int': self.ints, 'Bool': self.bools, 'Str': self.strs}.get(sort)
        if pool is None:
            pool = [a for a in self.seqs + self.terms if self.head.read(a.p).sort() == TYPES[sort]]
        return [a for a in pool if changed is None or a.ch == changed]


class Acc:
    def __init__(self, p, ch):
        self.p, self.ch, self.iter, self.container = p, ch, False, None
        self.field = any(k == 'f' for k, _ in p.sels)      # part of an object that outlives the function

    def __call__(self, st):
        v = st.read(self.p)
        return v.pos if isinstance(v, (Iter, SPtr)) else v

    def name(self, ex):
        return ex.lib.locname(ex, self.p)


def bounds(vw, a):
    """sequence-length terms an index may be bounded by"""
    out = []
    for s in vw.strs + vw.seqs:
        out.append(('len(%s)' % s.name(vw.ex), lambda st, s=s: mk_len(s(st))))
    for t in vw.terms:
        v = vw.head.read(t.p)
        mt = maptheory(v.sort())
        if mt:
            out.append(('size(%s)' % t.name(vw.ex), lambda st, t=t, mt=mt: mt.size(t(st))))
    return out


def candidates(ex, lp):
    from .exec import Cand
    vw = View(ex, lp)
    out = []
    entry = vw.entry

    def add(name, fn):
        out.append(Cand(name, fn))
    for a in vw.ints:
        if not a.ch:
            continue
        n = a.name(ex)
        e0 = a(entry)
        add('%s >= 0' % n, lambda st, a=a: a(st) >= 0)
        add('%s >= start' % n, lambda st, a=a, e0=e0: a(st) >= e0)
        add('%s <= start' % n, lambda st, a=a, e0=e0: a(st) <= e0)
        if a.iter:
            ln_ = ex.lib.container_len
            add('%s in range' % n, lambda st, a=a: a(st) <= ln_(ex, st, a.container))
            continue
        if a.field:
            continue
        for bn, b in bounds(vw, a):
            add('%s <= %s' % (n, bn), lambda st, a=a, b=b: a(st) <= b(st))
            add('%s < %s' % (n, bn), lambda st, a=a, b=b: a(st) < b(st))
        chg = [b for b in vw.ints if b.ch and not b.iter]
        for b in vw.ints:
            if not b.iter and b is not a and (not b.ch or (len(chg) <= 4 and b.p.loc[0] == a.p.loc[0] == 'v')):
                add('%s <= %s' % (n, b.name(ex)), lambda st, a=a, b=b: a(st) <= b(st))
    for s in vw.strs + vw.seqs:
        if not s.ch:
            continue
        n = s.name(ex)
        e0 = s(entry)
        s.field or add('len(%s) unchanged' % n, lambda st, s=s, e0=e0: mk_eq(mk_len(s(st)), mk_len(e0)))
        if vw.head.read(s.p).sort() == Str:
            for a in vw.ints:
                if not a.ch or a.field:
                    continue
                for fname, F in (('toupper', up), ('tolower', low)):
                    # in place
                    def fn(st, s=s, a=a, e0=e0, F=F):
                        k = Int('k!q')
                        c = s(st)
                        i = a(st)
                        return And(mk_eq(mk_len(c), mk_len(e0)),
                                   ForAll([k], STR.at(c, k) == If(And(k < i, k >= 0), F(STR.at(e0, k)), STR.at(e0, k)),
                                          patterns=[STR.at(c, k)]))
                    add('%s = %s up to %s' % (n, fname, a.name(ex)), fn)
                    # from another string
                    for t in vw.strs:
                        if t.ch:
                            continue

                        def fn2(st, s=s, a=a, t=t, F=F):
                            k = Int('k!q')
                            c = s(st)
                            i = a(st)
                            return ForAll([k], Implies(And(k < i, k >= 0), STR.at(c, k) == F(STR.at(t(st), k))),
                                          patterns=[STR.at(c, k)])
                        add('%s = %s(%s) up to %s' % (n, fname, t.name(ex), a.name(ex)), fn2)
                        add('len(%s) = %s' % (n, a.name(ex)), lambda st, s=s, a=a: mk_eq(mk_len(s(st)), a(st)))
    for s in vw.of('SeqStr', True):
        e0 = s(entry)

        def padded(st, s=s, e0=e0):
            c = s(st)
            return And(mk_len(c) >= mk_len(e0), mk_eq(c, mk_ite(mk_len(c) == mk_len(e0), e0, mk_cat(e0, mk_fill(SEQSTR, simp(mk_len(c) - mk_len(e0)), STR.empty)))))
        add('%s is padded with empty strings' % s.name(ex), padded)
        for b in vw.ints:
            if not b.ch and not b.iter and b.p.loc[0] == 'v':
                add('%s is not padded beyond %s' % (s.name(ex), b.name(ex)),
                    lambda st, s=s, b=b, e0=e0: Or(mk_len(s(st)) <= mk_len(e0), mk_len(s(st)) <= b(st) + 1))
    for p in vw.cstrs:
        add('%s is not null' % ex.lib.locname(ex, p), lambda st, p=p: mk_not(st.read(p).null))
    for tpl in ex.templates:
        for name, fn in tpl(vw):
            add(name, fn)
    # every candidate once
    seen = set()
    res = []
    for c in out:
        try:
            t = c.fn(lp.head)
        except Unsupported:
            continue
        k = t.get_id()
        if k in seen or bval(t) is True:
            continue
        seen.add(k)
        smt._kept.append(t)
        res.append(c)
    return res


def tr(fname, *slots, limit=400):
    """tail-recursion template: spec function `fname` of the loop variables has
    the same value as at loop entry.  Slots: 'Int*' / 'Str*' / 'Bool*' changed
    variables, 'Int' / 'Str' any, or a function View -> list of (name, st->term)."""
    import itertools as it

    def gen(vw):
        f = SPECS[fname]
        pools = []
        for s in slots:
            if isinstance(s, int):
                pools.append([None])        # the same as slot s
            elif callable(s):
                pools.append([(n, g, False) for n, g in s(vw)])
            else:
                ch = s.endswith('*')
                const = s.endswith('=')
                ty = s.rstrip('*=')
                accs = vw.of(ty, True if ch else False if const else None)
                pools.append([(a.name(vw.ex), a, a.ch) for a in accs])
        n = 0
        for combo in it.product(*pools):
            if not any(c and c[2] for c in combo) and not any(callable(s) for s in slots):
                continue
            names = [c[0] for c in combo if c]
            if len(set(names)) < len(names):
                continue
            combo = [c or combo[s] for c, s in zip(combo, slots)]
            names = [c[0] for c in combo]
            n += 1
            if n > limit:
                break
            gs = [c[1] for c in combo]
            try:
                e = f.term(*[g(vw.entry) for g in gs])
            except (AssertionError, Unsupported):
                continue
            yield ('%s(%s) as at entry' % (fname, ','.join(names)),
                   lambda st, gs=gs, e=e: mk_eq(f.term(*[g(st) for g in gs]), e))
    return gen


def measures(ex, lp):
    """termination measures: (name, state -> Int)"""
    vw = View(ex, lp)
    out = []
    for m in ex.measures:
        out += list(m(vw))
    for a in vw.ints:
        if not a.ch:
            continue
        if a.iter:
            out.append(('end - %s' % a.name(ex), lambda st, a=a: ex.lib.container_len(ex, st, a.container) - a(st)))
            continue
        for bn, b in bounds(vw, a):
            out.append(('%s - %s' % (bn, a.name(ex)), lambda st, a=a, b=b: b(st) - a(st)))
        for b in vw.ints:
            if not b.ch and not b.iter:
                out.append(('%s - %s' % (b.name(ex), a.name(ex)), lambda st, a=a, b=b: b(st) - a(st)))
        out.append((a.name(ex), a))
    for s in vw.strs + vw.seqs:         # a list that grows up to an index
        if s.ch:
            for b in vw.ints:
                if not b.ch and not b.iter and b.p.loc[0] == 'v':
                    out.append(('%s - len(%s)' % (b.name(ex), s.name(ex)), lambda st, s=s, b=b: b(st) - mk_len(s(st)) + 1))
    return out


def up(c):
    v = ival(c)
    if v is not None:
        return IntVal(v - 32 if 97 <= v <= 122 else v)
    return If(And(c >= 97, c <= 122), c - 32, c)


def low(c):
    v = ival(c)
    if v is not None:
        return IntVal(v + 32 if 65 <= v <= 90 else v)
    return If(And(c >= 65, c <= 90), c + 32, c)
