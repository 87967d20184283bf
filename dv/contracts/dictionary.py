"""Dictionary: lookup and registration (C01, C02, C03)."""
from ..smt import *
from ..spec import *
from ..verify import Contract, ret, throws, ANY, HAVOC
from ..lib import SORTS, HEAPS
from ..state import Path, Obj, to_term


@data
class PluralForms:
    nplural: 'Int'
    plural: 'Int'


@data
class Dictionary:
    entries: 'Entries'
    ctxt_entries: 'Ctxt'
    charset: 'Str'
    plural_forms: 'PluralForms'
    m_has_fallback: 'Bool'
    m_fallback: 'Int'


HEAP = ArraySort(IntSort(), TYPES['Dictionary'])
TYPES['Heap'] = HEAP
OPS['hget'] = lambda h, i: simp(Select(h, i))
OPS['applyplural'] = lambda f, n: Function('apply_plural', IntSort(), IntSort(), IntSort())(f, n)


def hget(h, i): return h[i]
def applyplural(f, n): raise NotImplementedError


@opaque()
def rank(h: 'Heap', i: 'Int') -> 'Int':
    """length of the fallback chain below dictionary i (assumed acyclic)"""
    d = h[i]
    return 1 + rank(h, d.m_fallback) if d.m_has_fallback else 0


# --- what a lookup means
@inline
def entry(e: 'Entries', k: 'Str') -> 'SeqStr':
    """list registered under k, empty when there is none"""
    return mget(e, k) if mhas(e, k) else fillS(0, b'')


@inline
def centry(c: 'Ctxt', x: 'Str', k: 'Str') -> 'SeqStr':
    return (mget(mget(c, x), k) if mhas(mget(c, x), k) else fillS(0, b'')) if mhas(c, x) else fillS(0, b'')


@spec
def look(h: 'Heap', i: 'Int', id: 'Str') -> 'Str':
    """C01: the first string of the registered list, else the fallback's answer, else the message"""
    d = hget(h, i)
    l = entry(d.entries, id)
    if ln(l) > 0:
        return at(l, 0)
    return look(h, d.m_fallback, id) if d.m_has_fallback else id


@spec
def lookx(h: 'Heap', i: 'Int', x: 'Str', id: 'Str') -> 'Str':
    """C02: the same under a context"""
    d = hget(h, i)
    l = centry(d.ctxt_entries, x, id)
    if ln(l) > 0:
        return at(l, 0)
    return lookx(h, d.m_fallback, x, id) if d.m_has_fallback else id


@inline
def pform(pf: 'PluralForms', n: 'Int') -> 'Int':
    """index chosen by a plural rule (C04 says what the rule of each header is)"""
    return applyplural(pf.plural, n) if pf.plural != 0 else 0


@spec
def plook(e: 'Entries', pf: 'PluralForms', id: 'Str', idp: 'Str', n: 'Int') -> 'Str':
    """C03"""
    src = id if n == 1 else idp
    if not mhas(e, id):
        return src
    l = mget(e, id)
    k = pform(pf, n)
    if not (0 <= k and k < ln(l)):
        return id
    return at(l, k) if ln(at(l, k)) > 0 else src


@spec
def plookx(d: 'Dictionary', x: 'Str', id: 'Str', idp: 'Str', n: 'Int') -> 'Str':
    src = id if n == 1 else idp
    return plook(mget(d.ctxt_entries, x), d.plural_forms, id, idp, n) if mhas(d.ctxt_entries, x) else src


@spec
def setfirst(l: 'SeqStr', s: 'Str') -> 'SeqStr':
    return upd(l, 0, s) if ln(l) > 0 else push(l, s)


@spec
def reg1(d: 'Dictionary', id: 'Str', s: 'Str') -> 'Dictionary':
    return repl(d, entries=mput(d.entries, id, setfirst(entry(d.entries, id), s)))


@spec
def regn(d: 'Dictionary', id: 'Str', l: 'SeqStr') -> 'Dictionary':
    return repl(d, entries=mput(d.entries, id, l))


@inline
def ctx(c: 'Ctxt', x: 'Str') -> 'Entries':
    return mget(c, x) if mhas(c, x) else mempty()


@spec
def reg1x(d: 'Dictionary', x: 'Str', id: 'Str', s: 'Str') -> 'Dictionary':
    return repl(d, ctxt_entries=mput(d.ctxt_entries, x, mput(ctx(d.ctxt_entries, x), id, setfirst(centry(d.ctxt_entries, x, id), s))))


@spec
def regnx(d: 'Dictionary', x: 'Str', id: 'Str', l: 'SeqStr') -> 'Dictionary':
    return repl(d, ctxt_entries=mput(d.ctxt_entries, x, mput(ctx(d.ctxt_entries, x), id, l)))


OPS['mempty'] = lambda: ENTRIES.empty
def mempty(): return {}


# ------------------------------------------------------------------ contracts
def heapof(cx):
    return cx.st.store[HEAPS['Dictionary']]


def thisid(cx):
    return cx.this.sels[0][1]


def wellformed(cx):
    """fallback chains are finite and point to existing dictionaries"""
    h, i = heapof(cx), thisid(cx)
    d = Select(h, i)
    D = DATA['Dictionary']
    j = Int('j!w')
    dj = Select(h, j)
    fb = D.get(dj, 'm_has_fallback')
    f = D.get(dj, 'm_fallback')
    R = SPECS['rank'].decl
    return [('fallback chains are well founded',
             ForAll([j], And(R(h, j) >= 0, Implies(fb, And(f >= 1, R(h, f) < R(h, j)))), patterns=[R(h, j)])),
            ('this', R(h, i) >= 0)]


SE, S, V = 'unordered_map<string,vector<string>>', 'string', 'vector<string>'

CONTRACTS = [
    Contract('Dictionary::translate', lambda cx: ret(SPECS['look'](heapof(cx), thisid(cx), cx.v(0))), types=[S],
             pre=wellformed, measure=lambda cx: SPECS['rank'].decl(heapof(cx), thisid(cx)) * 2 + 1, group='tr', props=['C01'], also=['C19']),
    Contract('Dictionary::translate', lambda cx: ret(
        mk_ite(simp(mk_len(entry.term(cx.v(0), cx.v(1))) > 0), mk_at(entry.term(cx.v(0), cx.v(1)), 0),
               mk_ite(cx.t('m_has_fallback'), SPECS['look'](heapof(cx), cx.t('m_fallback'), cx.v(1)), cx.v(1)))),
        nparams=2, pre=wellformed, measure=lambda cx: SPECS['rank'].decl(heapof(cx), thisid(cx)) * 2, group='tr', props=['C01'], also=['C19']),
    Contract('Dictionary::translate_ctxt', lambda cx: ret(SPECS['lookx'](heapof(cx), thisid(cx), cx.v(0), cx.v(1))),
             pre=wellformed, measure=lambda cx: SPECS['rank'].decl(heapof(cx), thisid(cx)), group='trx', props=['C02'], also=['C19']),
    Contract('Dictionary::translate_plural', lambda cx: ret(SPECS['plook'](cx.v(0), pfrec(cx), cx.v(1), cx.v(2), cx.v(3))),
             nparams=4, props=['C03'], also=['C19']),
    Contract('Dictionary::translate_plural', lambda cx: ret(SPECS['plook'](cx.t('entries'), pfrec(cx), cx.v(0), cx.v(1), cx.v(2))),
             nparams=3, props=['C03'], also=['C19']),
    Contract('Dictionary::translate_ctxt_plural',
             lambda cx: ret(SPECS['plookx'](cx.rd(cx.this), cx.v(0), cx.v(1), cx.v(2), cx.v(3))), props=['C03', 'C02'], also=['C19']),
    Contract('Dictionary::add_translation', lambda cx: ret(writes=[(cx.this, SPECS['reg1'](cx.rd(cx.this), cx.v(0), cx.v(1)))]),
             types=[S, S], props=['C01', 'C02'], also=['C19']),
    Contract('Dictionary::add_translation', lambda cx: ret(writes=[(cx.this, SPECS['regn'](cx.rd(cx.this), cx.v(0), cx.v(2)))]),
             types=[S, S, V], props=['C01', 'C03', 'C02'], also=['C19']),
    Contract('Dictionary::add_translation', lambda cx: ret(writes=[(cx.this, SPECS['reg1x'](cx.rd(cx.this), cx.v(0), cx.v(1), cx.v(2)))]),
             types=[S, S, S], props=['C02', 'C01'], also=['C19']),
    Contract('Dictionary::addFallback', lambda cx: ret(writes=[(cx.this, D_with(cx, m_has_fallback=TRUE, m_fallback=cx.v(0)))]),
             props=['C01', 'C02']),
    Contract('Dictionary::get_charset', lambda cx: ret(cx.t('charset')), props=['C15']),
    Contract('Dictionary::get_plural_forms', lambda cx: ret(cx.t('plural_forms')), props=['C03']),
    Contract('Dictionary::set_plural_forms', lambda cx: ret(writes=[(cx.this, D_with(cx, plural_forms=cx.v(0)))]), props=['C03']),
    Contract('Dictionary::Dictionary', lambda cx: ret(Obj('Dictionary', {
        'entries': ENTRIES.empty, 'ctxt_entries': CTXT.empty, 'charset': cx.v(0), 'm_has_fallback': FALSE, 'm_fallback': IntVal(0),
        'plural_forms': Obj('PluralForms', {'nplural': IntVal(0), 'plural': IntVal(0)})})), props=['C01', 'C02', 'C03', 'C15']),
    Contract('PluralForms::get_plural', lambda cx: ret(pform.term(to_term(cx.rd(cx.this)), cx.v(0))), props=['C03', 'C04']),
    Contract('PluralForms::get_nplural', lambda cx: ret(cx.t('nplural')), props=['C03', 'C04']),
    Contract('PluralForms::operator==', lambda cx: ret(mk_eq(to_term(cx.rd(cx.this)), to_term(cx.v(0)))), props=['C04', 'C14']),
    Contract('PluralForms::operator!=', lambda cx: ret(mk_not(mk_eq(to_term(cx.rd(cx.this)), to_term(cx.v(0))))), props=['C04', 'C14']),
    Contract('PluralForms::operator bool', lambda cx: ret(mk_not(mk_eq(cx.t('plural'), IntVal(0)))), props=['C04', 'C14']),
    Contract('Dictionary::add_translation', lambda cx: ret(writes=[(cx.this, SPECS['regnx'](cx.rd(cx.this), cx.v(0), cx.v(1), cx.v(3)))]),
             types=[S, S, S, V], props=['C02', 'C03', 'C01'], also=['C19']),
]


def D_with(cx, **kw):
    info = DATA['Dictionary']
    d = cx.rd(cx.this)
    return info.mk(*[to_term(kw[x]) if x in kw else info.get(d, x) for x in info.order])


def pfrec(cx):
    return cx.t('plural_forms')
