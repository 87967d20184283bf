"""DictionaryManager and UnixFileSystem (C16, C17, C18)."""
from ..smt import *
from ..spec import *
from ..verify import Contract, ret, throws, ANY, HAVOC
from ..lib import HEAPS, WORLD, DICTS, LANGSET, ICV, up, dirst, dirlist, openst, dirnames, filelines, filegood, find1
from ..state import Path, Obj, to_term, Iter, LANGF, LANGN, Unsupported
from ..infer import tr, ForAll
from . import iconv
from .language import fenv, mscore, langbest, rows
from .parser import run, whole_file
from .dictionary import D_with

HEAP, ALIVE = HEAPS['Dictionary'], ('alive', 'Dictionary')
S = 'string'


# ------------------------------------------------------------ specification
def _langtext(f):
    return lambda l: mk_ite(mk_or(mk_eq(l, IntVal(0)), LANGN[f](l)), STR.empty, LANGF[f](l))


OPS['lcode'], OPS['lcountry'], OPS['lmod'] = (_langtext(f) for f in ('language', 'country', 'modifier'))


def _lang(l, f): return (rows()[l - 1][f] or b'') if l else b''
def lcode(l): return _lang(l, 0)
def lcountry(l): return _lang(l, 1)
def lmod(l): return _lang(l, 2)


@inline
def haspo(s: 'Str') -> 'Bool':
    return ln(s) >= 3 and at(s, ln(s) - 3) == 46 and at(s, ln(s) - 2) == 112 and at(s, ln(s) - 1) == 111


@inline
def letter(c: 'Int') -> 'Bool':
    return (65 <= c and c <= 90) or (97 <= c and c <= 122)


@inline
def upc(c: 'Int') -> 'Int':
    return c - 32 if 97 <= c and c <= 122 else c


@spec
def cf(s: 'Str', i: 'Int', u: 'Bool') -> 'Str':
    """C18: the letters directly after the first underscore at or after i (before i when u) in upper case"""
    if i >= ln(s):
        return s
    if not u:
        return cf(s, i + 1, at(s, i) == 95)
    return cf(upd(s, i, upc(at(s, i))), i + 1, True) if letter(at(s, i)) else s


@spec
def conv(s: 'Str') -> 'Str':
    """C18: the language a file name denotes"""
    return cf(sub(s, 0, ln(s) - 3) if haspo(s) else s, 0, False)


@inline
def flang(name: 'Str') -> 'Int':
    """the language of a file, 0 when the file is none for a known language"""
    return fenv(conv(name)) if haspo(name) else 0


@spec
def fscore(l: 'Int', name: 'Str') -> 'Int':
    """C16: how well a file fits language l"""
    f = flang(name)
    return mscore(lcode(l), lcountry(l), lmod(l), lcode(f), lcountry(f), lmod(f)) if f != 0 else 0


@spec
def best(fs: 'SeqStr', k: 'Int', l: 'Int', s: 'Int', name: 'Str') -> 'Str':
    """C16: the file among fs[k:] that fits better than s, the earliest of the best ones; else `name`"""
    if k >= ln(fs):
        return name
    return best(fs, k + 1, l, fscore(l, at(fs, k)), at(fs, k)) if fscore(l, at(fs, k)) > s else best(fs, k + 1, l, s, name)


@spec
def parsed(ls: 'SeqStr', good: 'Bool', d: 'Dictionary', fuzzy: 'Bool') -> 'Dictionary':
    """a dictionary after reading a file (C10-C14)"""
    return run(ls, PS(0, d, False, b'', b'', 0), fuzzy).d if good else d


@spec
def one(w: 'Int', dir: 'Str', d: 'Dictionary', l: 'Int', fuzzy: 'Bool') -> 'Dictionary':
    """C16: what one directory contributes"""
    f = best(dirlist(w, dir), 0, l, 0, b'')
    p = cat(cat(dir, b'/'), f)
    return parsed(filelines(w, p), filegood(w, p), d, fuzzy) if ln(f) > 0 and openst(w, p) == 0 else d


@spec
def load(w: 'Int', ps: 'SeqStr', k: 'Int', d: 'Dictionary', l: 'Int', fuzzy: 'Bool') -> 'Dictionary':
    """C16: the directories k, k-1, ..., 0"""
    if k < 0:
        return d
    return load(w, ps, k - 1, one(w, at(ps, k), d, l, fuzzy), l, fuzzy)


@spec
def stop1(w: 'Int', dir: 'Str', l: 'Int') -> 'Int':
    """the exception a directory leaves with: every one listing it throws; from opening, those that are no std::exception"""
    f = best(dirlist(w, dir), 0, l, 0, b'')
    if dirst(w, dir) != 0:
        return dirst(w, dir)
    return 3 if ln(f) > 0 and openst(w, cat(cat(dir, b'/'), f)) == 3 else 0


@spec
def stops(w: 'Int', ps: 'SeqStr', k: 'Int', l: 'Int') -> 'Int':
    if k < 0:
        return 0
    return stop1(w, at(ps, k), l) if stop1(w, at(ps, k), l) != 0 else stops(w, ps, k - 1, l)


@spec
def lf(fs: 'SeqStr', k: 'Int', s: 'LangSet') -> 'LangSet':
    """C18: the languages of the files fs[k:], and s"""
    if k >= ln(fs):
        return s
    return lf(fs, k + 1, mput(s, flang(at(fs, k)), 1) if flang(at(fs, k)) != 0 else s)


@spec
def ls(w: 'Int', ps: 'SeqStr', k: 'Int', s: 'LangSet') -> 'LangSet':
    """C18: the languages of the directories ps[k:], and s"""
    if k >= ln(ps):
        return s
    return ls(w, ps, k + 1, lf(dirlist(w, at(ps, k)), 0, s))


@spec
def lstops(w: 'Int', ps: 'SeqStr', k: 'Int') -> 'Int':
    if k >= ln(ps):
        return 0
    return dirst(w, at(ps, k)) if dirst(w, at(ps, k)) != 0 else lstops(w, ps, k + 1)


def plain(l):
    """number of the language with the same code and nothing else"""
    return SPECS['langbest'](OPS['lcode'](l), STR.empty, STR.empty)


def _owner_ax(t, d, i):
    return []


owner = Function('owner', DICTS.sort, IntSort(), IntSort())


# ------------------------------------------------------------------- state
def ghosts(ex, st):
    iconv.ghosts(ex, st)
    st.store[WORLD] = fresh('world', IntSort())
    st.store[HEAP] = fresh('heap', ArraySort(IntSort(), TYPES['Dictionary']))
    st.store[ALIVE] = fresh('alive', ArraySort(IntSort(), BoolSort()))


class M:
    """the parts of a manager in a state"""

    def __init__(self, st, this):
        r = lambda f: st.read(this.f(f))
        self.D, self.ps, self.charset, self.fuzzy = r('dictionaries'), r('search_path'), r('charset'), r('use_fuzzy')
        self.cl, self.cd, self.e, self.fs = to_term(r('current_language')), r('current_dict'), r('empty_dict'), r('filesystem')
        self.w, self.heap, self.alive = st.store.get(WORLD), st.store[HEAP], st.store[ALIVE]
        self.cd = to_term(self.cd)

    def has(self, l): return DICTS.has(self.D, l)
    def get(self, l): return DICTS.get(self.D, l)

    def cached(self, i):
        """is dictionary i in the cache?"""
        o = owner(self.D, i)
        return mk_and(self.has(o), mk_eq(self.get(o), i))


def nlangs(): return len(rows())


def injective(m):
    l = Int('l!o')
    return ForAll([l], Implies(m.has(l), owner(m.D, m.get(l)) == l), patterns=[m.get(l)])


def invariant(m):
    """C17: what holds between any two calls"""
    a, b = Int('a!m'), Int('b!m')
    sa, sb = DICTS.sel(m.D, a), DICTS.sel(m.D, b)
    return [
        ('what the cache remembers exists and is no part of the manager',
         ForAll([a], Implies(m.has(a), And(a >= 1, a <= nlangs(), m.get(a) >= 1, Select(m.alive, m.get(a)), m.get(a) != m.e)), patterns=[sa])),
        ('no dictionary is remembered twice', ForAll([a, b], Implies(And(m.has(a), m.has(b), m.get(a) == m.get(b)), a == b),
                                                     patterns=[MultiPattern(sa, sb)])),
        ('the current dictionary is the remembered one of the current language',
         Or(m.cd == 0, And(m.cl != 0, m.has(m.cl), m.get(m.cl) == m.cd))),
        ('the empty dictionary exists', And(m.e >= 1, Select(m.alive, m.e))),
        ('there is a file system', m.fs >= 1),
        ('the current language is known', And(m.cl >= 0, m.cl <= nlangs())),
    ]


def MI(cx):
    return invariant(M(cx.st, cx.this))


def after(V, ex, cx, k, s, v, pc):
    """the invariant holds again when a method ends, however it ends"""
    this = cx.this
    if cx.f.kind == 'CXXConstructorDecl':
        if k == 'throw':
            return []
        this = Path(('this',))
    return [('afterwards ' + n, g, ['C17']) for n, g in invariant(M(s, this))]


def facts(cx):
    """about the constants of the specification: `owner` inverts the cache, which remembers no dictionary twice"""
    return [('owner', injective(M(cx.st, cx.this)))]


HV = lambda cx: [(Path(ICV[k]), HAVOC) for k in ('from', 'to', 'phase', 'src', 'tot', 'in', 'emit')] + [(Path(('errno',)), HAVOC)]


# --------------------------------------------------------- get_dictionary(l)
def new_dict(charset):
    D, F = DATA['Dictionary'], DATA['PluralForms']
    return D.mk(ENTRIES.empty, CTXT.empty, charset, F.mk(IntVal(0), IntVal(0)), FALSE, IntVal(0))


def filled(m, l):
    return SPECS['load'](m.w, m.ps, simp(mk_len(m.ps) - 1), new_dict(m.charset), l, m.fuzzy)


def with_fallback(d, i):
    D = DATA['Dictionary']
    return D.mk(*[TRUE if f == 'm_has_fallback' else i if f == 'm_fallback' else D.get(d, f) for f in D.order])


def kept(m, H):
    """the existing dictionaries stay as they are"""
    i = Int('i!k')
    return ForAll([i], Implies(Select(m.alive, i), Select(H, i) == Select(m.heap, i)), patterns=[Select(H, i)])


def request(cx, m, l):
    """outcomes of asking for the dictionary of l, which is known"""
    T = cx.this
    last = simp(mk_len(m.ps) - 1)
    has = m.has(l)
    p = plain(l)
    country = simp(mk_len(OPS['lcountry'](l)) > 0)
    st, stp = SPECS['stops'](m.w, m.ps, last, l), SPECS['stops'](m.w, m.ps, last, p)
    second = mk_and(country, mk_not(m.has(p)))
    stop = mk_ite(mk_not(mk_eq(st, IntVal(0))), st, mk_ite(second, stp, IntVal(0)))
    H = fresh('heap', m.heap.sort())
    base = HV(cx) + [(Path(HEAP), H)]
    eH = (H, ('w', Path(HEAP)))
    out = [ret(Path(HEAP).k(m.get(l)), cond=has)]
    for k, kind in ((2, 'exception'), (3, 'foreign')):
        out.append(throws(kind, mk_and(mk_not(has), mk_eq(stop, IntVal(k))), base, assume=[kept(m, H)], exist=[eH],
                          facets={'': ['C16', 'C17'], 'frame': ['C17']}))
    go = mk_and(mk_not(has), mk_eq(stop, IntVal(0)))
    h, h1 = fresh('dict', IntSort()), fresh('plain', IntSort())
    eh = (h, ('ret',))
    is_new = lambda x: [x >= 1, mk_not(Select(m.alive, x))]
    fac = {'result': ['C17'], 'frame': ['C17'], 'effect': ['C17'], 'assume': ['C16', 'C17'], '': ['C16', 'C17']}
    put = lambda d, k, v: DICTS.put(d, k, v)
    al = lambda a, i: Store(a, i, TRUE)
    D = T.f('dictionaries')
    out.append(ret(Path(HEAP).k(h), cond=mk_and(go, mk_not(country)), exist=[eh, eH], facets=fac,
                   assume=is_new(h) + [kept(m, H), Select(H, h) == filled(m, l)],
                   writes=base + [(D, put(m.D, l, h)), (Path(ALIVE), al(m.alive, h))]))
    out.append(ret(Path(HEAP).k(h), cond=mk_and(go, country, m.has(p)), exist=[eh, eH], facets=fac,
                   assume=is_new(h) + [kept(m, H), Select(H, h) == with_fallback(filled(m, l), m.get(p))],
                   writes=base + [(D, put(m.D, l, h)), (Path(ALIVE), al(m.alive, h))]))
    out.append(ret(Path(HEAP).k(h), cond=mk_and(go, second), exist=[eh, eH, (h1, ('w', D.k(p)))], facets=fac,
                   assume=is_new(h) + is_new(h1) + [h != h1, kept(m, H), Select(H, h1) == filled(m, p),
                                                    Select(H, h) == with_fallback(filled(m, l), h1)],
                   writes=base + [(D, put(put(m.D, p, h1), l, h)), (Path(ALIVE), al(al(m.alive, h), h1))]))
    return out


def get_for(cx):
    return request(cx, M(cx.st, cx.this), to_term(cx.v(0)))


def known(cx):
    l = to_term(cx.v(0))
    return [('the language is known', And(l >= 1, l <= nlangs()))]


def table_facts(cx, l):
    p = plain(l)
    return [('the plain language is known', Implies(l != 0, And(p >= 1, p <= nlangs(), mk_len(OPS['lcountry'](p)) == 0)))]


def table(V, ex, c):
    bad = []
    for i, r in enumerate(rows()):
        p = langbest.fn(r[0], b'', b'')
        if not p or rows()[p - 1][1] is not None:
            bad.append(r[0])
    return [V.ground(c, 'language table: every code has a plain language', not bad, detail=str(bad[:3]))]


def get_current(cx):
    m = M(cx.st, cx.this)
    out = [ret(Path(HEAP).k(m.cd), cond=m.cd != 0),
           ret(Path(HEAP).k(m.e), cond=mk_and(m.cd == 0, m.cl == 0))]
    go = mk_and(m.cd == 0, m.cl != 0)
    for o in request(cx, m, m.cl):
        o.cond = mk_and(go, o.cond)
        if o.kind == 'ret':
            c = fresh('current', IntSort())
            o.writes.append((cx.this.f('current_dict'), c))
            o.exist.append((c, ('w', cx.this.f('current_dict'))))
            o.assume.append(Or(c == 0, c == o.ret.sels[0][1]))
        out.append(o)
    return out


# ------------------------------------------------------------------ settings
def forget(cx, m, same=None, **settings):
    """the cache is emptied and its dictionaries are destroyed; it may stay when no setting changes"""
    T = cx.this
    i = Int('i!f')
    D1, A1, c1 = fresh('dictionaries', DICTS.sort), fresh('alive', m.alive.sort()), fresh('current', IntSort())
    cleared = And(D1 == DICTS.empty, c1 == 0,
                  ForAll([i], Select(A1, i) == And(Select(m.alive, i), Not(m.cached(i))), patterns=[Select(A1, i)]))
    stay = And(D1 == m.D, A1 == m.alive, Or(c1 == m.cd, c1 == 0))
    ch = [mk_eq(to_term(v), to_term(cx.rd(T.f(k)))) for k, v in settings.items()]
    goal = cleared if same is None and not settings else Or(cleared, And(same if same is not None else mk_and(*ch), stay))
    w = [(T.f('dictionaries'), D1), (Path(ALIVE), A1), (T.f('current_dict'), c1)] + [(T.f(k), v) for k, v in settings.items()]
    return ret(writes=w, assume=[goal], exist=[(D1, ('w', T.f('dictionaries'))), (A1, ('w', Path(ALIVE))), (c1, ('w', T.f('current_dict')))])


def clear(cx):
    return forget(cx, M(cx.st, cx.this))


def known_owner(cx):
    """what a caller of clear_cache may assume besides: owner inverts the cache"""
    o = clear(cx)
    o.assume.insert(0, injective(M(cx.st, cx.this)))
    return o


def destructor(cx):
    m = M(cx.st, cx.this)
    i = Int('i!f')
    A1 = fresh('alive', m.alive.sort())
    return ret(writes=[(cx.this.f('dictionaries'), HAVOC), (cx.this.f('current_dict'), HAVOC), (Path(ALIVE), A1)],
               exist=[(A1, ('w', Path(ALIVE)))],
               assume=[ForAll([i], Select(A1, i) == And(Select(m.alive, i), Not(m.cached(i))), patterns=[Select(A1, i)])])


def add_directory(cx):
    m = M(cx.st, cx.this)
    p = cx.v(0)
    there = SPECS['findel'](m.ps, p) >= 0
    front = mk_cat(mk_push(SEQSTR.empty, p), m.ps)
    o = forget(cx, m, there, search_path=mk_ite(there, m.ps, mk_ite(cx.v(1), front, mk_push(m.ps, p))))
    return o


def remove_directory(cx):
    m = M(cx.st, cx.this)
    k = SPECS['findel'](m.ps, cx.v(0))
    rest = mk_cat(mk_sub(m.ps, IntVal(0), k), mk_sub(m.ps, simp(k + 1), mk_len(m.ps)))
    return forget(cx, m, k < 0, search_path=mk_ite(k < 0, m.ps, rest))


def set_language(cx):
    m = M(cx.st, cx.this)
    c = fresh('current', IntSort())
    p = cx.this.f('current_dict')
    l = to_term(cx.v(0))
    return ret(writes=[(cx.this.f('current_language').f('language_spec'), l), (p, c)], exist=[(c, ('w', p))],
               assume=[Or(c == 0, And(m.has(l), m.get(l) == c))])


def ctor(default_fs):
    def outs(cx):
        H, A = cx.st.store[HEAP], cx.st.store[ALIVE]
        H1, A1, e, f = fresh('heap', H.sort()), fresh('alive', A.sort()), fresh('empty', IntSort()), fresh('fs', IntSort())
        D = DATA['Dictionary']
        i = Int('i!c')
        kept_ = ForAll([i], Implies(Select(A, i), Select(H1, i) == Select(H, i)), patterns=[Select(H1, i)])
        o = Obj('DictionaryManager', {
            'dictionaries': DICTS.empty, 'search_path': SEQSTR.empty, 'charset': cx.v(0 if default_fs else 1), 'use_fuzzy': TRUE,
            'current_language': Obj('Language', {'language_spec': IntVal(0)}), 'current_dict': IntVal(0), 'empty_dict': e,
            'filesystem': f if default_fs else cx.v(0)})
        writes = [(Path(HEAP), H1), (Path(ALIVE), Store(A, e, TRUE))]
        if not default_fs:
            writes.append((cx.path(0), HAVOC)) if isinstance(cx.path(0), Path) else None
        return ret(o, writes=writes,
                   exist=[(H1, ('w', Path(HEAP))), (e, ('ret', None, 'empty_dict'))] + ([(f, ('ret', None, 'filesystem'))] if default_fs else []),
                   assume=[e >= 1, mk_not(Select(A, e)), kept_, D.get(Select(H1, e), 'entries') == ENTRIES.empty,
                           D.get(Select(H1, e), 'ctxt_entries') == CTXT.empty, mk_not(D.get(Select(H1, e), 'm_has_fallback'))] +
                   ([f >= 1] if default_fs else []))
    return outs


# ----------------------------------------------------------------- languages
def languages(cx):
    m = M(cx.st, cx.this)
    st = SPECS['lstops'](m.w, m.ps, IntVal(0))
    return [ret(SPECS['ls'](m.w, m.ps, IntVal(0), LANGSET.empty), cond=mk_eq(st, IntVal(0))),
            throws('exception', mk_eq(st, IntVal(2))), throws('foreign', mk_eq(st, IntVal(3)))]


def short(cx):
    return [('the file name is shorter than 2^31', mk_len(cx.v(0)) < 1 << 31)]


Lemma('mscore_sym', [('x%d' % k, 'Str') for k in range(6)],
      lambda *x: ([], SPECS['mscore'](*x) == SPECS['mscore'](*(x[3:] + x[:3])), [SPECS['mscore'].term(*x)]))


# ------------------------------------------------------------ loop templates
def same(name, f, vw, *gs):
    """specification function f has the value it had at loop entry"""
    try:
        e = SPECS[f].term(*[g(vw.entry) for g in gs])
    except (AssertionError, Unsupported):
        return
    yield '%s(%s) as at entry' % (f, name), lambda st: mk_eq(SPECS[f].term(*[g(st) for g in gs]), e)


W = lambda st: st.store[WORLD]


def lists(vw, q=None):
    """lists of names: the one q runs through, or any"""
    if q is not None and q.iter:
        c = q.container
        if c.loc in vw.head.store and vw.head.read(c).sort() == SeqStr:
            yield lambda st: st.read(c)
        return
    for a in vw.of('SeqStr', False):
        yield a


def counters(vw):
    return [q for q in vw.ints if q.ch]


def down(vw, q):
    """index of the next directory of a loop from last to first"""
    if not q.iter:
        return [lambda st: simp(q(st) - 1), q]
    if vw.head.read(q.p).rev:
        return [lambda st: simp(vw.ex.lib.container_len(vw.ex, st, q.container) - 1 - q(st))]
    return [lambda st: simp(q(st) - 1)]


def best_so_far(vw):
    for q in counters(vw):
        for fs in lists(vw, q):
            for a in vw.of('Int', True):
                for n in vw.of('Str', True):
                    for l in langs(vw):
                        if a is not q and not a.iter:
                            yield from same('%s, %s, %s' % (q.name(vw.ex), a.name(vw.ex), n.name(vw.ex)), 'best', vw, fs, q, l, a, n)


def loaded(vw):
    for q in counters(vw):
        for ps in lists(vw, q):
            for l in langs(vw):
                for k, i in enumerate(down(vw, q)):
                    n = '%s #%d' % (q.name(vw.ex), k)
                    yield from same(n, 'stops', vw, W, ps, i, l)
                    for f in fuzzies(vw):
                        for nd, d in built(vw):
                            yield from same(n + ', ' + nd, 'load', vw, W, ps, i, d, l, f)


def listed(vw):
    for q in counters(vw):
        for ps in lists(vw, q):
            yield from same(q.name(vw.ex), 'lstops', vw, W, ps, q)
            for s in vw.of('LangSet', True):
                n = '%s, %s' % (q.name(vw.ex), s.name(vw.ex))
                yield from same(n, 'ls', vw, W, ps, q, s)
                yield from same(n, 'lf', vw, ps, q, s)


def uptrs(vw):
    """numbers of dictionaries under construction"""
    for a in vw.ints:
        if not a.ch and a.p.loc[0] != 'this' and 'Dictionary' in (vw.ex.typeof_path(a.p) or ''):
            yield a.name(vw.ex), a


def built(vw):
    for n, a in uptrs(vw):
        yield n, lambda st, a=a: simp(Select(st.store[HEAP], a(st)))


def langs(vw):
    for p, v in vw.head.store.items():
        if isinstance(v, Obj) and v.cls == 'Language' and p[0] in ('p', 'v'):
            yield lambda st, p=p: to_term(st.store[p])


def fuzzies(vw):
    for p, v in vw.head.store.items():
        if isinstance(v, Obj) and v.cls == 'DictionaryManager':
            yield lambda st, p=p: st.store[p].get('use_fuzzy')


def only_these(vw):
    h0 = vw.entry.store.get(HEAP)
    if h0 is None:
        return
    for n, a in uptrs(vw):
        yield 'only %s changes' % n, lambda st, a=a: mk_eq(st.store[HEAP], Store(h0, a(st), Select(st.store[HEAP], a(st))))


def scored(vw):
    for a in vw.ints:
        for s in vw.strs:
            if a.ch and s.ch and not a.iter:
                yield '%s > 0 when %s is not empty' % (a.name(vw.ex), s.name(vw.ex)), lambda st, a=a, s=s: (a(st) > 0) == (mk_len(s(st)) > 0)


def deleted(vw):
    """a loop that destroys what a cache remembers"""
    a0 = vw.entry.store.get(ALIVE)
    if a0 is None:
        return
    for q in vw.ints:
        if not (q.ch and q.iter):
            continue
        c = vw.head.read(q.container)
        if not z3.is_expr(c) or c.sort() != DICTS.sort:
            continue

        def fn(st, q=q):
            D = st.read(q.container)
            i = Int('i!d')
            o = owner(D, i)
            gone = And(DICTS.has(D, o), DICTS.get(D, o) == i, DICTS.idx(D, o) < q(st))
            A = st.store[ALIVE]
            return ForAll([i], Select(A, i) == And(Select(a0, i), Not(gone)), patterns=[Select(A, i)])
        yield 'the dictionaries before %s are gone' % q.name(vw.ex), fn


def copied(vw):
    """a list that is being filled from another one"""
    for d in vw.of('SeqStr', True):
        for p, v in vw.head.store.items():
            if isinstance(v, Obj) and v.cls == 'diriter':
                n = d.name(vw.ex)
                g = lambda st, p=p: (st.store[p].get('names'), st.store[p].get('pos'))
                yield '%s holds what was read so far' % n, lambda st, d=d, g=g: And(
                    g(st)[1] >= 0, g(st)[1] <= mk_len(g(st)[0]), mk_eq(d(st), mk_sub(g(st)[0], IntVal(0), g(st)[1])))
                for q in vw.head.store.items():
                    if isinstance(q[1], Obj) and q[1].cls == 'error_code':
                        yield '%s is clear before the end' % q[0][-1], lambda st, g=g, q=q[0]: Implies(
                            g(st)[1] < mk_len(g(st)[0]), st.store[q].get('v') == 0)


def stream(cx):
    """a stream object, readable or not"""
    i = fresh('stream', IntSort())
    return ret(i, exist=[(i, ('ret',))], assume=[i >= 1])


def C(name, outs, props, **kw):
    kw.setdefault('entry', ghosts)
    kw.setdefault('pre', MI)
    kw.setdefault('endcheck', after)
    kw.setdefault('safety', ['C17'])
    kw.setdefault('facets_pre', ['C17'])
    return Contract('DictionaryManager::' + name, outs, props=props, **kw)


FS = ['the file system answers the same during one request, and does not use the manager']
LOADS = [best_so_far, loaded, only_these, scored]

CONTRACTS = [
    C('get_dictionary', get_for, ['C16', 'C17'], nparams=1, pre=lambda cx: MI(cx) + known(cx), extra=table,
      given=lambda cx: facts(cx) + table_facts(cx, to_term(cx.v(0))), templates=LOADS, fold=['run', 'fenv', 'conv', 'langbest', 'mscore'],
      measure=lambda cx: mk_ite(mk_len(OPS['lcountry'](to_term(cx.v(0)))) > 0, IntVal(1), IntVal(0)), group='gd', assumes=FS,
      also=['C09', 'C19'], timeout=15000, parallel=True, lemmas=['mscore_sym']),
    C('get_dictionary', get_current, ['C17', 'C16'], nparams=0, given=lambda cx: facts(cx) + table_facts(cx, M(cx.st, cx.this).cl), fold=['run', 'load'], assumes=FS),
    C('clear_cache', clear, ['C17'], given=facts, outs_call=known_owner, templates=[deleted], optional=True),
    C('~DictionaryManager', destructor, ['C17'], given=facts, templates=[deleted], endcheck=None),
    C('set_language', set_language, ['C17']),
    C('get_language', lambda cx: ret(Obj('Language', {'language_spec': M(cx.st, cx.this).cl})), ['C17']),
    C('set_charset', lambda cx: forget(cx, M(cx.st, cx.this), charset=cx.v(0)), ['C17', 'C15'], given=facts, templates=[deleted]),
    C('set_use_fuzzy', lambda cx: forget(cx, M(cx.st, cx.this), use_fuzzy=cx.v(0)), ['C17', 'C13'], given=facts, templates=[deleted]),
    C('get_use_fuzzy', lambda cx: ret(M(cx.st, cx.this).fuzzy), ['C17']),
    C('add_directory', add_directory, ['C17', 'C16'], given=facts, templates=[deleted]),
    C('remove_directory', remove_directory, ['C17', 'C16'], given=facts, templates=[deleted]),
    C('get_languages', languages, ['C18'], safety=['C18'], fold=['fenv', 'conv', 'langbest'],
      templates=[listed], assumes=FS),
    C('convertFilename2Language', lambda cx: ret(SPECS['conv'](cx.v(0))), ['C18', 'C16'], safety=['C18'], given=short, pre=None, endcheck=None,
      templates=[tr('cf', 'Str*', 'Int*', 'Bool*')], assumes=['file names are shorter than 2^31 bytes']),
    Contract('UnixFileSystem::open_directory', lambda cx: ret(dirnames(cx.st.store[WORLD], cx.v(0))), props=['C18'], also=['C16'], entry=ghosts,
             templates=[copied]),
    Contract('UnixFileSystem::open_file', stream, props=['C16'], entry=ghosts),
    C('DictionaryManager', ctor(True), ['C17'], nparams=1, pre=None),
    C('DictionaryManager', ctor(False), ['C17'], nparams=2, pre=lambda cx: [('there is a file system', cx.v(0) >= 1)]),
]
