"""IConv (C15): conversion between charsets, ownership of the descriptor."""
from ..smt import *
from ..spec import *
from ..verify import Contract, ret, throws, ANY, HAVOC
from ..state import Obj, Path, to_term, NULL
from ..lib import ICV, upper, cut0, icok, ictot, icbody, icbad
from .log import callbacks


@inline
def icv(f: 'Str', t: 'Str', s: 'Str') -> 'Str':
    """what convert() yields between charsets (already in upper case)"""
    return s if f == t else ictot(cut0(f), cut0(t), s)


def ghosts(ex, st):
    ex.lib.iconv_state(ex)
    callbacks(ex, st)


def g(cx, k):
    cx.ex.lib.iconv_state(cx.ex)
    return cx.st.store[ICV[k]]


ERR = [(Path(('errno',)), HAVOC)]


def cd_of(cx):
    v = cx.t('cd')
    return IntVal(0) if v is NULL else v


def owned(cx):
    """object invariant: no descriptor, or an open one for these charsets in its initial state"""
    cd = cd_of(cx)
    no = mk_eq(cd, IntVal(0))
    F, T = cx.t('from_charset'), cx.t('to_charset')
    inv = And(Select(g(cx, 'live'), cd), Select(g(cx, 'from'), cd) == cut0(F), Select(g(cx, 'to'), cd) == cut0(T),
              Select(g(cx, 'phase'), cd) == 0)
    if ival(cd) == 0:
        return []
    return [('the descriptor is open for the charsets of the object', mk_or(no, inv))]


def opened(cx, F, T, live):
    """outcomes of opening a descriptor from the upper-cased names: (cond, cd, kind, ghosts, exist, assume)"""
    f, t = cut0(F), cut0(T)
    h = fresh('cd', IntSort())
    gh = [(ICV['live'], Store(live, h, TRUE))]
    gh += [(ICV[k], Store(g(cx, k), h, v)) for k, v in (('from', f), ('to', t), ('phase', IntVal(0)))]
    return h, gh, icok(f, t)


def setc(cx, F0, T0, obj, live):
    F, T = upper(F0), upper(T0)
    same = mk_eq(F, T)
    h, gh, ok = opened(cx, F, T, live)
    fresh_h = And(h >= 1, h < (1 << 64) - 1, Not(Select(live, h)))
    freed = [(ICV['live'], live)]
    return [obj(F, T, IntVal(0), cond=same, ghost=freed),
            obj(F, T, h, cond=mk_and(mk_not(same), ok), ghost=gh, assume=[fresh_h], h=h),
            obj(F, T, IntVal(0), cond=mk_and(mk_not(same), mk_not(ok)), ghost=freed, exc='runtime_error')]


def released(cx):
    cd, live = cd_of(cx), g(cx, 'live')
    return live if ival(cd) == 0 else mk_ite(mk_eq(cd, IntVal(0)), live, Store(live, cd, FALSE))


def set_charsets(cx):
    def obj(F, T, cd, cond, ghost, exc=None, h=None, assume=()):
        w = [(cx.tp('from_charset'), F), (cx.tp('to_charset'), T), (cx.tp('cd'), cd)]
        ex = [(h, ('w', cx.tp('cd')))] if h is not None else []
        if exc:
            return throws(exc, cond, w + ERR, ghost=ghost)
        return ret(cond=cond, writes=w + ERR, ghost=ghost, assume=assume, exist=ex)
    return setc(cx, cx.v(0), cx.v(1), obj, released(cx))


def ctor(cx):
    def obj(F, T, cd, cond, ghost, exc=None, h=None, assume=()):
        if exc:
            return throws(exc, cond, ERR, ghost=ghost)
        o = Obj('IConv', {'to_charset': T, 'from_charset': F, 'cd': cd})
        ex = [(h, ('ret', None, 'cd'))] if h is not None else []
        return ret(o, cond=cond, writes=ERR, ghost=ghost, assume=assume, exist=ex)
    return setc(cx, cx.v(0), cx.v(1), obj, g(cx, 'live'))


def fits(cx):
    cd = cd_of(cx)
    F, T = Select(g(cx, 'from'), cd), Select(g(cx, 'to'), cd)
    s = cx.v(0)
    return [('text and its conversion are shorter than 2^58', And(mk_len(s) < 1 << 58, mk_len(ictot(F, T, s)) < 1 << 58))]


def convert(cx):
    cd = cd_of(cx)
    F, T = cut0(cx.t('from_charset')), cut0(cx.t('to_charset'))
    s = cx.v(0)
    no = mk_eq(cd, IntVal(0))
    ws = [(Path(ICV[k]), HAVOC) for k in ('src', 'tot', 'in', 'emit')] + ERR
    return [ret(s, cond=no, writes=[]),
            ret(ictot(F, T, s), cond=mk_not(no), writes=ws)]


G = lambda st, k: st.store[ICV[k]]


def parts(ex, st):
    cd = ex.iconv_cd
    return cd, Select(G(st, 'from'), cd), Select(G(st, 'to'), cd), Select(G(st, 'phase'), cd)


def progress(vw):
    """how the variables of a conversion loop follow the conversion"""
    ex = vw.ex
    if getattr(ex, 'iconv_cd', None) is None or ICV['emit'] not in vw.head.store:
        return
    ph0 = G(vw.entry, 'phase')
    f = lambda h: (lambda st: h(st, *parts(ex, st)))
    yield 'only this descriptor moves', f(lambda st, cd, F, T, ph: mk_eq(G(st, 'phase'), Store(ph0, cd, ph)))
    for ks in ((0, 1), (0, 1, 2), (1, 2), (0,), (1,), (2,)):
        yield 'phase in %s' % (ks,), f(lambda st, cd, F, T, ph, ks=ks: Or([ph == k for k in ks]))
    body = lambda st, F, T: icbody(F, T, G(st, 'src'))
    bad = lambda st, F, T: icbad(F, T, G(st, 'src'))
    yield 'tot is the whole output', f(lambda st, cd, F, T, ph: Implies(ph >= 1, And(
        mk_eq(G(st, 'tot'), ictot(F, T, G(st, 'src'))), G(st, 'emit') >= 0, G(st, 'emit') <= mk_len(G(st, 'tot')), G(st, 'in') >= 0,
        G(st, 'in') <= mk_len(G(st, 'src')),
        Implies(ph == 1, G(st, 'emit') <= body(st, F, T)), Implies(ph == 2, And(G(st, 'emit') >= body(st, F, T), Not(bad(st, F, T)))))))
    for s in vw.of('Str', False):
        yield 'the input is %s' % s.name(ex), f(lambda st, cd, F, T, ph, s=s: Implies(ph >= 1, mk_eq(G(st, 'src'), s(st))))
        for q in vw.ints:
            if q.ch and not q.iter:
                yield '%s is %s at first' % (q.name(ex), s.name(ex)), f(lambda st, cd, F, T, ph, s=s, q=q: Implies(ph == 0, q(st) == mk_len(s(st))))
    for q in vw.ints:
        if not q.ch:
            continue
        n = q.name(ex)
        if q.iter:
            yield '%s at the input' % n, f(lambda st, cd, F, T, ph, q=q: And(Implies(ph == 0, q(st) == 0), Implies(ph == 1, q(st) == G(st, 'in'))))
        else:
            yield '%s bytes of input left' % n, f(lambda st, cd, F, T, ph, q=q: Implies(ph == 1, q(st) == mk_len(G(st, 'src')) - G(st, 'in')))
    for b in vw.bools:
        if b.ch:
            yield '%s: flushing' % b.name(ex), f(lambda st, cd, F, T, ph, b=b: b(st) == (ph == 2))
    for s in vw.of('Str'):
        for i in vw.ints:
            if i.iter or not (i.ch and s.ch):
                continue
            n, m = s.name(ex), i.name(ex)
            used = lambda st, s=s, i=i: simp(mk_len(s(st)) - i(st))
            yield '%s bytes left in %s' % (m, n), (lambda st, s=s, i=i: And(i(st) >= 0, i(st) <= mk_len(s(st))))
            yield 'nothing is in %s yet' % n, f(lambda st, cd, F, T, ph, s=s, i=i: Implies(ph == 0, mk_len(s(st)) == i(st)))
            yield '%s holds the output so far' % n, f(lambda st, cd, F, T, ph, s=s, i=i, used=used: Implies(ph >= 1, And(
                mk_sub(s(st), IntVal(0), used(st)) == mk_sub(G(st, 'tot'), IntVal(0), G(st, 'emit')), used(st) == G(st, 'emit'))))


def todo(vw):
    """the conversion before the flush; the bytes that are missing in the buffer"""
    ex = vw.ex
    if getattr(ex, 'iconv_cd', None) is None or ICV['emit'] not in vw.head.store:
        return
    f = lambda h: (lambda st: h(st, *parts(ex, st)))
    yield 'phase', f(lambda st, cd, F, T, ph: mk_ite(ph == 2, IntVal(0), IntVal(1)))
    for i in vw.ints:
        if not i.ch or i.iter:
            continue
        for s in vw.of('Str', False):
            def m(st, cd, F, T, ph, i=i, s=s):
                rest = mk_ite(ph == 0, icbody(F, T, s(st)), mk_ite(ph == 1, icbody(F, T, G(st, 'src')), mk_len(G(st, 'tot'))) - G(st, 'emit'))
                x = rest + 16 - i(st)
                return mk_ite(x >= 0, x, IntVal(0))
            yield 'bytes missing in the buffer', f(m)


CONTRACTS = [
    Contract('IConv::IConv', lambda cx: ret(Obj('IConv', {'to_charset': STR.empty, 'from_charset': STR.empty, 'cd': IntVal(0)})),
             types=[], nparams=0, entry=ghosts, props=['C15']),
    Contract('IConv::IConv', ctor, nparams=2, entry=ghosts, props=['C15']),
    Contract('IConv::~IConv', lambda cx: ret(ghost=[(ICV['live'], released(cx))]), pre=owned, facets_pre=['C15'], entry=ghosts, props=['C15']),
    Contract('IConv::set_charsets', set_charsets, pre=owned, facets_pre=['C15'], entry=ghosts, props=['C15']),
    Contract('IConv::convert', convert, pre=owned, given=fits, facets_pre=['C15'], entry=ghosts, props=['C15'],
             assumes=['a text passed to IConv::convert and its conversion are shorter than 2^58 bytes'], templates=[progress], measures=[todo], also=['C19']),
]
