"""Log (C19): every message goes to the callback installed for its severity."""
from ..smt import *
from ..spec import *
from ..verify import Contract, ret, ANY, HAVOC
from ..state import Obj, Path, Unsupported, to_term

FN, TXT = ('trace', 'fn'), ('trace', 'txt')
SEV = ('info', 'warning', 'error')


def cb(s):
    return ('static', 'Log', 'log_%s_callback' % s)


def traced(ex, st):
    """ghost record of the callbacks called so far; the three installed callbacks"""
    st.store[FN] = fresh('trace.fn', SeqInt)
    st.store[TXT] = fresh('trace.txt', SeqStr)
    callbacks(ex, st)


def callbacks(ex, st):
    for s in SEV:
        if cb(s) not in st.store:
            if cb(s) in ex.static0:
                v = ex.static0[cb(s)]
            else:
                v = ex.static0[cb(s)] = fresh('log_%s_callback' % s, IntSort())
                ex.static_pc[cb(s)] = [v >= 0]
            st.store[cb(s)] = v
            st.assume(v >= 0)


def installed(cx):
    """the callback is one of those installed at this moment, and not null"""
    ex, st = cx.ex, cx.st
    f = to_term(cx.v(0))
    cur = [st.store[cb(s)] for s in SEV if cb(s) in st.store]
    return [('the callback is installed', mk_or(*[mk_eq(f, c) for c in cur])), ('the callback is not null', mk_not(mk_eq(f, IntVal(0))))]


def event(cx, fn, txt):
    st = cx.st
    if FN not in st.store:
        return []
    return [(FN, mk_push(st.store[FN], fn)), (TXT, mk_push(st.store[TXT], txt))]


def setter(s):
    return Contract('Log::set_log_%s_callback' % s, lambda cx: ret(writes=[(Path(cb(s)), to_term(cx.v(0)))]), entry=traced, props=['C19'], threads=False)


def probe(s):
    def outs(cx):
        c = cx.st.store[cb(s)]
        nul = mk_eq(c, IntVal(0))
        return [ret(cond=nul), ret(cond=mk_not(nul), ghost=event(cx, c, cx.v(0)))]
    return Contract('probe_log_%s' % s, outs, entry=traced, props=['C19'], threads=False)


CONTRACTS = [
    Contract('Log::Log', lambda cx: ret(Obj('Log', {'callback': to_term(cx.v(0)), 'out': Obj('oss', {'buf': STR.empty})})),
             pre=installed, facets_pre=['C19'], entry=traced, props=['C19'], nolog=True),
    Contract('Log::~Log', lambda cx: ret(ghost=event(cx, cx.t('callback'), cx.t('out').get('buf'))), entry=traced,
             pre=lambda cx: [('the callback is not null', mk_not(mk_eq(cx.t('callback'), IntVal(0))))], facets_pre=['C19'], props=['C19'], nolog=True),
] + [setter(s) for s in SEV] + [probe(s) for s in SEV]
