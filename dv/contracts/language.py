"""Languages (C05-C08)."""
from ..smt import *
from ..spec import *
from ..verify import Contract, ret, ANY
from ..state import Obj, Path, Ref, Unsupported, to_term, LANGF, LANGN, LANGROWS, CStr
import json, os
from ..lib import cut0, find1, lower, langaddr
REF = json.load(open(os.path.join(os.path.dirname(__file__), '..', 'ref', 'tables.json')))
ALIASES = [(k.encode(), v.encode()) for k, v in REF['aliases']]


@inline
def cmpw(a: 'Str', b: 'Str') -> 'Int':
    """0: same, 1: one of them left open, 2: different"""
    if a == b:
        return 0
    return 1 if ln(a) == 0 or ln(b) == 0 else 2


@spec
def mscore(l1: 'Str', c1: 'Str', m1: 'Str', l2: 'Str', c2: 'Str', m2: 'Str') -> 'Int':
    """C06: documented score of two languages"""
    if l1 != l2:
        return 0
    c = cmpw(c1, c2)
    m = cmpw(m1, m2)
    if c == 0:
        return 9 if m == 0 else (8 if m == 1 else 5)
    if c == 1:
        return 7 if m == 0 else (6 if m == 1 else 3)
    return 4 if m == 0 else (2 if m == 1 else 1)


def fld(st, lang, f):
    """(null, text) of a field of a Language value"""
    p = lang.get('language_spec') if isinstance(lang, Obj) else lang
    if isinstance(p, Ref):
        c = st.read(p.path.f(f))
    else:
        p = to_term(p)
        c = st.read(Path(('lang',)).k(p).f(f))
        if ival(p) == 0:
            return TRUE, STR.empty
        if ival(p) is None:
            return mk_or(mk_eq(p, IntVal(0)), c.null), c.s
    return c.null, c.s


def txt(st, lang, f):
    null, s = fld(st, lang, f)
    return mk_ite(null, STR.empty, s)


def parts(st, lang):
    return [txt(st, lang, f) for f in ('language', 'country', 'modifier')]



def rows():
    if LANGROWS[0] is None:
        raise Unsupported('language table not readable')
    return LANGROWS[0]


def _best_ax(t, l, c, m):
    R = rows()
    k = litval(l)
    if k is None:
        codes = sorted({r[0] for r in R})
        return [And(t >= 0, t <= len(R)), mk_or(mk_eq(t, IntVal(0)), *[mk_eq(l, lit(x)) for x in codes])]
    best, score = IntVal(0), IntVal(0)
    c, m = cut0(c), cut0(m)
    for i, r in enumerate(R):
        if r[0] == k:
            s = SPECS['mscore'](lit(k), lit(r[1] or b''), lit(r[2] or b''), lit(k), c, m)
            best, score = mk_ite(simp(s > score), IntVal(i + 1), best), mk_ite(simp(s > score), s, score)
    return [mk_eq(t, best)]


@opaque(_best_ax)
def langbest(l: 'Str', c: 'Str', m: 'Str') -> 'Int':
    """C06: number of the known language that matches best, the earliest on ties, 0 when the code is unknown"""
    best, score = 0, 0
    for i, r in enumerate(rows()):
        if r[0] == l:
            s = mscore.fn(l, r[1] or b'', r[2] or b'', l, cut0.fn(c), cut0.fn(m))
            if s > score:
                best, score = i + 1, s
    return best


@inline
def orend(s: 'Str', p: 'Int') -> 'Int':
    return ln(s) if p < 0 else p


@inline
def mn(a: 'Int', b: 'Int') -> 'Int':
    return a if a < b else b


@inline
def envl(s: 'Str') -> 'Str':
    return sub(s, 0, mn(mn(orend(s, find1(s, 95, 0)), orend(s, find1(s, 46, 0))), orend(s, find1(s, 64, 0))))


@inline
def envc(s: 'Str') -> 'Str':
    u = find1(s, 95, 0)
    e = mn(orend(s, find1(s, 46, 0)), orend(s, find1(s, 64, 0)))
    return sub(s, u + 1, e) if u >= 0 and u < e else b''


@inline
def envm(s: 'Str') -> 'Str':
    a = find1(s, 64, 0)
    return sub(s, a + 1, ln(s)) if a >= 0 else b''


@spec
def fenv(s: 'Str') -> 'Int':
    """C05: the language denoted by LANGUAGE[_COUNTRY][.CODESET][@MODIFIER]"""
    return langbest(envl(s), envc(s), envm(s))


def fname(s):
    """C08"""
    t = SPECS['fenv'](s)
    low = lower(s)
    for k, v in reversed(ALIASES):
        t = mk_ite(mk_eq(low, lit(k)), SPECS['fenv'](lit(v)), t)
    return t


def lang(t):
    return Obj('Language', {'language_spec': t})


def lstr(st, l):
    """code[_country][@modifier]"""
    p = l.get('language_spec')
    cn, c = fld(st, l, 'country')
    mnull, m = fld(st, l, 'modifier')
    t = txt(st, l, 'language')
    t = mk_ite(cn, t, mk_cat(mk_cat(t, lit(b'_')), c))
    t = mk_ite(mnull, t, mk_cat(mk_cat(t, lit(b'@')), m))
    return mk_ite(mk_eq(to_term(p), IntVal(0)), STR.empty, t)


def table(V, ex, c):
    """ground facts about the table in the sources"""
    R = rows()
    G = lambda n, ok, d=None: V.ground(c, 'language table: ' + n, ok, detail=d)
    out = [G('every row has a code and a name', all(r[0] and r[3] for r in R)),
           G('no empty country or modifier', all(r[1] != b'' and r[2] != b'' for r in R)),
           G('codes, countries and modifiers contain no separator, blank or NUL',
             all(not set(x) & set(b'_.@ \0') for r in R for x in r[:3] if x))]
    keys = [r[:3] for r in R]
    out.append(G('no language is listed twice', len(set(keys)) == len(keys)))
    have = {r[:3]: r for r in R}
    E = lambda x: x.encode() if x is not None else None
    miss = [r for r in REF['names'] if (E(r[0]), E(r[1]), E(r[2])) not in have]
    out.append(G('every standard language is listed', not miss, str(miss[:3])))
    bad = [r for r in REF['names'] if (E(r[0]), E(r[1]), E(r[2])) in have and
           have[(E(r[0]), E(r[1]), E(r[2]))][3:] != (E(r[3]), E(r[4]))]
    out.append(G('every standard language has its names', not bad, str(bad[:3])))
    # printing and parsing again
    rt = []
    for i, r in enumerate(R):
        s = r[0] + (b'_' + r[1] if r[1] is not None else b'') + (b'@' + r[2] if r[2] is not None else b'')
        g = fenv.fn
        if langbest.fn(*(x.fn(s) for x in (ENVL, ENVC, ENVM))) != i + 1:
            rt.append(s)
    out.append(G('parsing the text of a language gives the same language', not rt, str(rt[:3])))
    return out


ENVL, ENVC, ENVM = SPECS['envl'], SPECS['envc'], SPECS['envm']


def relations(V, ex, c):
    """equality, order and hash agree, from the values of the functions themselves"""
    P = V.prog
    fs = {}
    for nm, q in (('eq', 'Language::operator=='), ('ne', 'Language::operator!='), ('lt', 'operator<'), ('hash', 'Language_hash::operator()'),
                  ('bool', 'Language::operator bool')):
        f = P.find(q, None, ['Language', 'Language'] if nm == 'lt' else None)
        if f is None:
            raise Unsupported('%s not found' % q)
        fs[nm] = f
    N = len(rows())
    a, b, d = Int('a!l'), Int('b!l'), Int('d!l')
    hy = [And(x >= 0, x <= N) for x in (a, b, d)]
    A = lambda: None
    eq = lambda x, y: V.pure_term(fs['eq'], [lang(y)], this=lang(x))
    ne = lambda x, y: V.pure_term(fs['ne'], [lang(y)], this=lang(x))
    lt = lambda x, y: V.pure_term(fs['lt'], [lang(x), lang(y)])
    hs = lambda x: V.pure_term(fs['hash'], [lang(x)], this=Obj('Language_hash', {}))
    bo = lambda x: V.pure_term(fs['bool'], [], this=lang(x))
    ax = [SPECS['langaddr'].decl(x) for x in (a, b, d)]
    C = lambda n, g: V.custom(c, 'languages: ' + n, hy, g)
    return [
        C('== holds exactly for the same language', eq(a, b) == (a == b)),
        C('!= is the negation of ==', ne(a, b) == Not(eq(a, b))),
        C('equal languages hash alike', Implies(eq(a, b), hs(a) == hs(b))),
        C('< is irreflexive', Not(lt(a, a))),
        C('< is transitive', Implies(And(lt(a, b), lt(b, d)), lt(a, d))),
        C('< is total', Or(lt(a, b), lt(b, a), eq(a, b))),
        C('only the undefined language converts to false', bo(a) == (a != 0)),
    ]


def symmetric(V, ex, c):
    x = [Const('x%d!l' % i, Str) for i in range(6)]
    return [V.custom(c, 'the match score is symmetric', [], SPECS['mscore'](*x) == SPECS['mscore'](*(x[3:] + x[:3])))]


CONTRACTS = [
    Contract('Language::get_language', lambda cx: ret(txt(cx.st, cx.rd(cx.this), 'language')), props=['C07'],
             extra=lambda V, ex, c: table(V, ex, c) + relations(V, ex, c)),
    Contract('Language::get_country', lambda cx: ret(txt(cx.st, cx.rd(cx.this), 'country')), props=['C07']),
    Contract('Language::get_modifier', lambda cx: ret(txt(cx.st, cx.rd(cx.this), 'modifier')), props=['C07']),
    Contract('Language::get_name', lambda cx: ret(txt(cx.st, cx.rd(cx.this), 'name')), props=['C07']),
    Contract('Language::get_localized_name', lambda cx: ret(
        mk_ite(fld(cx.st, cx.rd(cx.this), 'name_localized')[0], txt(cx.st, cx.rd(cx.this), 'name'),
               fld(cx.st, cx.rd(cx.this), 'name_localized')[1])), props=['C07']),
    Contract('Language::str', lambda cx: ret(lstr(cx.st, cx.rd(cx.this))), props=['C07']),
    Contract('Language::match', lambda cx: ret(SPECS['mscore'](*(parts(cx.st, cx.v(0)) + parts(cx.st, cx.v(1))))), props=['C06'],
             extra=symmetric),
    Contract('Language::from_spec', lambda cx: ret(lang(langbest(cx.v(0), cx.v(1), cx.v(2)))), props=['C06']),
    Contract('Language::from_env', lambda cx: ret(lang(fenv(cx.v(0)))), props=['C05']),
    Contract('Language::from_name', lambda cx: ret(lang(fname(cx.v(0)))), props=['C08']),
]
