"""Enumeration of a dictionary (C20), instantiated with the visitor of
dv/extra/probe.cpp that remembers what it was called with."""
from ..smt import *
from ..spec import *
from ..verify import Contract, ret
from ..state import to_term, Path
from ..infer import ForAll


@data
class ProbeVisitor:
    plain: 'Entries'
    ctxt: 'Ctxt'
    twice: 'Bool'


P = DATA['ProbeVisitor']
ENT, CTX = TYPES['Entries'], TYPES['Ctxt']


def E(m, k):
    """what is recorded under k (an option)"""
    return Select(ENTRIES.get_arr(m), k)


def E2(c, x, k):
    return z3.If(CTXT.has(c, x), E(CTXT.get(c, x), k), ENTRIES.opt.NONE)


def fresh_visitor(cx):
    v = to_term(cx.v(0))
    return [('the visitor has seen nothing', And(P.get(v, 'plain') == ENTRIES.empty, P.get(v, 'ctxt') == CTXT.empty, Not(P.get(v, 'twice'))))]


def plain(cx):
    v = to_term(cx.v(0))
    return ret(P.mk(*[{'plain': cx.t('entries')}.get(x, P.get(v, x)) for x in P.order]))


def ctxt(cx):
    v = to_term(cx.v(0))
    r = fresh('seen', CTXT.sort)
    x, k = Const('x!v', Str), Const('k!v', Str)
    c = cx.t('ctxt_entries')
    return ret(P.mk(*[{'ctxt': r}.get(f, P.get(v, f)) for f in P.order]), exist=[(r, ('term', lambda rv, st: P.get(to_term(rv), 'ctxt')))],
               assume=[ForAll([x, k], E2(r, x, k) == E2(c, x, k), patterns=[])])


def counters(vw, sort):
    for q in vw.ints:
        if q.ch and q.iter:
            c = vw.head.read(q.container)
            if z3.is_expr(c) and c.sort() == sort:
                yield q


def seen(vw):
    """what was visited so far is what precedes the position"""
    k = Const('k!s', Str)
    for q in counters(vw, ENTRIES.sort):
        for p in vw.of('Entries', True):
            def fn(st, q=q, p=p):
                m = st.read(q.container)
                return ForAll([k], E(p(st), k) == z3.If(And(ENTRIES.has(m, k), ENTRIES.idx(m, k) < q(st)), E(m, k), ENTRIES.opt.NONE),
                              patterns=[E(p(st), k)])
            yield '%s is what precedes %s' % (p.name(vw.ex), q.name(vw.ex)), fn


def seen_ctxt(vw):
    """the same with contexts: all of the earlier ones, and part of the current one"""
    x, k = Const('x!s', Str), Const('k!s', Str)
    for q in counters(vw, CTXT.sort):
        for p in vw.of('Ctxt', True):
            def fn(st, q=q, p=p):
                m = st.read(q.container)
                return ForAll([x, k], E2(p(st), x, k) == z3.If(And(CTXT.has(m, x), CTXT.idx(m, x) < q(st)), E2(m, x, k), ENTRIES.opt.NONE))
            yield '%s is what precedes %s' % (p.name(vw.ex), q.name(vw.ex)), fn
    for q in counters(vw, ENTRIES.sort):
        if not q.container.sels or q.container.sels[-1][0] != 'k':
            continue
        cur = to_term(q.container.sels[-1][1])
        for p in vw.of('Ctxt', True):
            def fn(st, q=q, p=p):
                m = st.read(Path(q.container.loc, q.container.sels[:-1]))
                e = st.read(q.container)
                here = And(x == cur, ENTRIES.has(e, k), ENTRIES.idx(e, k) < q(st))
                before = And(CTXT.has(m, x), CTXT.idx(m, x) < CTXT.idx(m, cur))
                return ForAll([x, k], E2(p(st), x, k) == z3.If(z3.Or(here, before), E2(m, x, k), ENTRIES.opt.NONE))
            yield '%s is what precedes %s in this context' % (p.name(vw.ex), q.name(vw.ex)), fn


def kept(vw):
    for b in vw.of('Bool', True):
        yield '%s unchanged' % b.name(vw.ex), lambda st, b=b: b(st) == b(vw.entry)


CONTRACTS = [
    Contract('Dictionary::foreach', plain, nparams=1, pre=fresh_visitor, props=['C20'], templates=[seen, kept]),
    Contract('Dictionary::foreach_ctxt', ctxt, nparams=1, pre=fresh_visitor, props=['C20'], templates=[seen_ctxt, kept]),
]
