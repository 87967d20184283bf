"""Assumed contracts of the standard library and of the C library.

Everything here is part of the trusted base: each operation is given the
meaning the C++17 standard (or POSIX) gives it, over the sequence and map
theories of smt.py.  Preconditions of the library (index in range, iterator
dereferenceable, non-null pointer) become proof obligations of the caller."""
from .smt import *
from . import smt
from .state import *
from .spec import DATA, DECL2DATA, TYPES, SPECS, opaque, spec, MAPS
from .cxxast import tyof, simple_type
from .exec import AliasRef, UNINIT, HAVOC, is_bounded_ite
from .infer import up, low, ForAll


# ----------------------------------------------------- specification functions
def _cut0_ax(t, s):
    k = nul_at(s) if z3.is_expr(s) else None
    i = Int('i!c')
    return [And(k >= 0, k <= STR.len(s), STR.at(s, k) == 0, t == STR.sub(s, 0, k), STR.len(t) == k),
            Implies(k == STR.len(s), t == s),
            ForAll([i], Implies(And(0 <= i, i < k), STR.at(s, i) != 0), patterns=[STR.at(s, i)])]


@opaque()
def nul_at(s: 'Str') -> 'Int':
    return (s + b'\0').index(0)


@opaque(_cut0_ax)
def cut0(s: 'Str') -> 'Str':
    """content of a C string: up to the first NUL"""
    return s.split(b'\0')[0]


def _find1_ax(t, s, c, f):
    i = Int('i!f')
    n = STR.len(s)
    return [And(t >= -1, t < n),
            Implies(t >= 0, And(t >= f, STR.at(s, t) == c)),
            ForAll([i], Implies(And(f <= i, 0 <= i, i < n, Or(t == -1, i < t)), STR.at(s, i) != c), patterns=[STR.at(s, i)])]


@opaque(_find1_ax)
def find1(s: 'Str', c: 'Int', f: 'Int') -> 'Int':
    """first position >= f of the byte c in s, or -1"""
    return s.find(bytes([c]), f)


def _rfind1_ax(t, s, c):
    i = Int('i!f')
    n = STR.len(s)
    return [And(t >= -1, t < n), Implies(t >= 0, STR.at(s, t) == c),
            ForAll([i], Implies(And(0 <= i, i < n, i > t), STR.at(s, i) != c), patterns=[STR.at(s, i)])]


@opaque(_rfind1_ax)
def rfind1(s: 'Str', c: 'Int') -> 'Int':
    return s.rfind(bytes([c]))


def _findset_ax(t, s, cs, f):
    i = Int('i!f')
    n = STR.len(s)
    b = litval(cs)
    ax = [And(t >= -1, t < n), Implies(t >= 0, t >= f)]
    if b is not None:
        ax.append(Implies(t >= 0, mk_or(*[STR.at(s, t) == c for c in b])))
        ax.append(ForAll([i], Implies(And(f <= i, 0 <= i, i < n, Or(t == -1, i < t)), mk_and(*[STR.at(s, i) != c for c in b])),
                         patterns=[STR.at(s, i)]))
    return ax


@opaque(_findset_ax)
def findset(s: 'Str', cs: 'Str', f: 'Int') -> 'Int':
    """first position >= f of a byte of cs in s, or -1"""
    r = [i for i in range(max(f, 0), len(s)) if s[i] in cs]
    return r[0] if r else -1


def _findstr_ax(t, s, x, f):
    return [And(t >= -1, t <= STR.len(s) - STR.len(x) + If(STR.len(x) > STR.len(s), STR.len(x) - STR.len(s), 0)),
            Implies(t >= 0, And(t >= f, t + STR.len(x) <= STR.len(s)))]


@opaque(_findstr_ax)
def findstr(s: 'Str', x: 'Str', f: 'Int') -> 'Int':
    """first position >= f of x in s, or -1"""
    return s.find(x, f)


def _findel_ax(t, v, x):
    i = Int('i!f')
    n = SEQSTR.len(v)
    return [And(t >= -1, t < n), Implies(t >= 0, SEQSTR.at(v, t) == x),
            ForAll([i], Implies(And(0 <= i, i < n, Or(t == -1, i < t)), SEQSTR.at(v, i) != x), patterns=[SEQSTR.at(v, i)])]


@opaque(_findel_ax)
def findel(v: 'SeqStr', x: 'Str') -> 'Int':
    """first position of x in the list v, or -1"""
    return v.index(x) if x in v else -1


@opaque()
def fmtint(i: 'Int') -> 'Str':
    return str(i).encode()


def _upper_ax(t, s):
    i = Int('i!u')
    return [STR.len(t) == STR.len(s),
            ForAll([i], Implies(And(0 <= i, i < STR.len(s)), STR.at(t, i) == up(STR.at(s, i))), patterns=[STR.at(t, i)])]


def _lower_ax(t, s):
    i = Int('i!u')
    return [STR.len(t) == STR.len(s),
            ForAll([i], Implies(And(0 <= i, i < STR.len(s)), STR.at(t, i) == low(STR.at(s, i))), patterns=[STR.at(t, i)])]


@opaque(_upper_ax)
def upper(s: 'Str') -> 'Str':
    return bytes(c - 32 if 97 <= c <= 122 else c for c in s)


@opaque(_lower_ax)
def lower(s: 'Str') -> 'Str':
    return bytes(c + 32 if 65 <= c <= 90 else c for c in s)


# ---- iconv(3): what a conversion produces is left open (uninterpreted)
@opaque()
def icok(f: 'Str', t: 'Str') -> 'Bool':
    """iconv_open(t, f) succeeds"""
    raise NotImplementedError


@opaque()
def ictot(f: 'Str', t: 'Str', s: 'Str') -> 'Str':
    """complete output for s: the converted text up to the first invalid sequence, then, if there is none, the return to
    the initial shift state"""
    raise NotImplementedError


def _body_ax(t, f, to, s):
    return [t >= 0, t <= STR.len(ictot(f, to, s)), Implies(icbad(f, to, s), t == STR.len(ictot(f, to, s)))]


@opaque(_body_ax)
def icbody(f: 'Str', t: 'Str', s: 'Str') -> 'Int':
    """length of the part of ictot before the return to the initial shift state"""
    raise NotImplementedError


@opaque()
def icbad(f: 'Str', t: 'Str', s: 'Str') -> 'Bool':
    """s has an invalid or incomplete sequence"""
    raise NotImplementedError


ICV = {g: ('iconv', g) for g in ('live', 'from', 'to', 'phase', 'src', 'tot', 'in', 'emit')}


@opaque()
def langaddr(i: 'Int') -> 'Int':
    return i


_langkey = Function('langkey', Str, Str, Str, IntSort())
_textkey = Function('textkey', Str, IntSort())
_distinct = {}
_filled = {}


def _row_ax(t, i):
    """code, country and modifier tell the rows of the table apart (decided by looking at the rows)"""
    R = LANGROWS[0]
    if R is None:
        return []
    ok = _distinct.get(id(R))
    if ok is None:
        keys = [tuple(x or b'' for x in r[:3]) for r in R]
        text = [r[0] + (b'' if r[1] is None else b'_' + r[1]) + (b'' if r[2] is None else b'@' + r[2]) for r in R]
        ok = _distinct[id(R)] = (len(set(keys)) == len(set(text)) == len(R) and all(r[0] for r in R), R)
        _filled[id(R)] = [f for k, f in ((1, 'country'), (2, 'modifier')) if all(r[k] is None or r[k] for r in R)]
    if not ok[0]:
        return []
    c = mk_ite(LANGN['country'](i), t, mk_cat(mk_cat(t, lit(b'_')), LANGF['country'](i)))
    m = mk_ite(LANGN['modifier'](i), c, mk_cat(mk_cat(c, lit(b'@')), LANGF['modifier'](i)))
    w = lambda f: mk_ite(LANGN[f](i), STR.empty, LANGF[f](i))
    full = [Implies(And(i >= 1, i <= len(R)), Or(LANGN[f](i), mk_len(LANGF[f](i)) >= 1)) for f in _filled[id(R)]]
    return full + [Implies(And(i >= 1, i <= len(R)), _langkey(t, w('country'), w('modifier')) == i), Implies(And(i >= 1, i <= len(R)), _textkey(m) == i), _textkey(STR.empty) == 0,
            _langkey(STR.empty, STR.empty, STR.empty) == 0]


@opaque(_row_ax)
def lang_language(i: 'Int') -> 'Str':
    """code of the i-th language of the table"""
    return LANGROWS[0][i - 1][0]


smt.EXTFUNS.update(['lower', 'upper'])
_pluralfn = Function('apply_plural', IntSort(), IntSort(), IntSort())
_cb = {}


def c_isspace(c):
    return mk_or(mk_and(c >= 9, c <= 13), mk_eq(c, 32)) if ival(c) is None else BoolVal(9 <= ival(c) <= 13 or ival(c) == 32)


def c_isdigit(c):
    return mk_and(c >= 48, c <= 57) if ival(c) is None else BoolVal(48 <= ival(c) <= 57)


def c_isupper(c):
    return mk_and(c >= 65, c <= 90) if ival(c) is None else BoolVal(65 <= ival(c) <= 90)


def c_islower(c):
    return mk_and(c >= 97, c <= 122) if ival(c) is None else BoolVal(97 <= ival(c) <= 122)


def c_isalpha(c):
    return mk_or(c_isupper(c), c_islower(c))


CLASSES = {'isspace': c_isspace, 'isdigit': c_isdigit, 'isalpha': c_isalpha, 'isupper': c_isupper, 'islower': c_islower,
           'isalnum': lambda c: mk_or(c_isalpha(c), c_isdigit(c))}


def streq(a, b):
    """a == b with comparisons against literals spelled out"""
    for x, y in ((a, b), (b, a)):
        v = litval(y)
        w = litval(x)
        if v is not None and w is not None:
            return BoolVal(v == w)
        if v is not None and x.num_args() and x.decl().eq(STR.sub):
            s, p, e = x.children()
            return mk_and(simp(e - p == len(v)), *[mk_eq(mk_at(s, simp(p + i)), IntVal(c)) for i, c in enumerate(v)])
        if v is not None and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            return mk_ite(x.arg(0), streq(x.arg(1), y), streq(x.arg(2), y))
        if v == b'':
            return simp(mk_len(x) == 0) if ival(mk_len(x)) is None else BoolVal(ival(mk_len(x)) == 0)
    return mk_eq(a, b)


def kind(ty):
    """class of library type"""
    t = ty
    while t.endswith('*') and False:
        t = t[:-1]
    if 'iterator' in t:
        return 'iter'
    if t in ('string', 'basic_string<char>') or t.startswith('basic_string<char,') or t.startswith('basic_string_view') or t == 'string_view':
        return 'string'
    for p in ('vector<', 'deque<', 'list<'):
        if t.startswith(p):
            e = t[len(p):]
            if e.startswith(('string', 'basic_string')):
                return 'vecstr'
            if e.startswith('LanguageSpec*') or e.startswith('int'):
                return 'vecint'
            return 'vec?'
    for p in ('unordered_map<', 'map<'):
        if t.startswith(p):
            e = t[len(p):]
            if e.startswith(('string,', 'basic_string')):
                e2 = e[e.find(',') + 1:]
                if e2.startswith('vector<string') or e2.startswith('vector<basic_string'):
                    return 'Entries'
                if e2.startswith('unordered_map<string,vector<string') or e2.startswith('map<string,vector<string'):
                    return 'Ctxt'
                return 'cmap'
            if e.startswith('Language,'):
                return 'Dicts'
            return 'map?'
    if t.startswith(('set<Language', 'unordered_set<Language')):
        return 'LangSet'
    if t.startswith(('basic_ostringstream', 'ostringstream', 'basic_stringstream', 'stringstream')):
        return 'oss'
    if t.startswith(('basic_ostream', 'ostream')):
        return 'ostream'
    if t.startswith(('basic_istream', 'istream', 'basic_ios', 'basic_ifstream', 'ifstream', 'basic_istringstream')):
        return 'istream'
    if t.startswith('unique_ptr<'):
        return 'uptr'
    return None


DICTS = MapTheory('Dicts', IntSort(), IntSort())
LANGSET = MapTheory('LangSet', IntSort(), IntSort())
TYPES['Dicts'] = DICTS.sort
TYPES['LangSet'] = LANGSET.sort
MAPS['Dicts'] = DICTS
MAPS['LangSet'] = LANGSET

EMPTY = {'string': lambda: STR.empty, 'vecstr': lambda: SEQSTR.empty, 'vecint': lambda: SEQINT.empty,
         'Entries': lambda: ENTRIES.empty, 'Ctxt': lambda: CTXT.empty, 'cmap': lambda: CMap({}, None),
         'Dicts': lambda: DICTS.empty, 'LangSet': lambda: LANGSET.empty,
         'oss': lambda: Obj('oss', {'buf': STR.empty})}
SORTS = {'string': Str, 'vecstr': SeqStr, 'vecint': SeqInt, 'Entries': ENTRIES.sort, 'Ctxt': CTXT.sort,
         'Dicts': DICTS.sort, 'LangSet': LANGSET.sort}
HEAPS = {'Dictionary': ('heap', 'Dictionary')}
OPAQUE = {'FileSystem', 'UnixFileSystem'}       # classes whose objects are only numbers


# ------------------------------------------------- the user's file system
WORLD = ('world',)


def _st_ax(hi, skip=()):
    return lambda t, w, a: [And(t >= 0, t <= hi, *[t != k for k in skip])]


@opaque(_st_ax(3, [1]))
def dirst(w: 'Int', p: 'Str') -> 'Int':
    """what open_directory does: 0 answers, 2 throws a std::exception, 3 throws something else"""


@opaque()
def dirlist(w: 'Int', p: 'Str') -> 'SeqStr':
    """the names it answers with"""


@opaque(_st_ax(3))
def openst(w: 'Int', p: 'Str') -> 'Int':
    """what open_file does: 0 a stream, 1 null, 2 throws a std::exception, 3 throws something else"""


@opaque()
def filelines(w: 'Int', p: 'Str') -> 'SeqStr':
    """the lines of the stream"""


@opaque()
def dirnames(w: 'Int', p: 'Str') -> 'SeqStr':
    """the names of a directory of the operating system that can be read"""


@opaque()
def dirbad(w: 'Int', p: 'Str') -> 'Bool':
    """does reading it end with an error after these?"""


@opaque()
def pathjoin(d: 'Str', n: 'Str') -> 'Str':
    """a name below a directory, as std::filesystem prints it"""


@opaque()
def filegood(w: 'Int', p: 'Str') -> 'Bool':
    """is the stream readable?"""


class Lib:
    DESTROY = {'Log', 'IConv'}
    DESTROY_IN = {'POParser'}       # classes with such members
    # POSIX: need not be thread-safe
    MT_UNSAFE = {'strtok', 'setlocale', 'localtime', 'gmtime', 'asctime', 'ctime', 'rand', 'srand', 'setenv', 'putenv', 'unsetenv',
                 'tmpnam', 'readdir', 'getenv', 'mblen', 'mbtowc', 'wctomb', 'localeconv', 'nl_langinfo', 'dirname', 'basename', 'getlogin',
                 'textdomain', 'bindtextdomain', 'chdir', 'lrand48', 'drand48', 'random'} - {'getenv', 'random'}
    CONST_STATICS = {('static', '', 'languages'), ('fstatic',)}

    def __init__(self):
        self.used = set()

    # ------------------------------------------------------- extern names
    def extern_var(self, ex, name, n):
        if name == 'npos':
            return IntVal(NPOS)
        if name in ('cerr', 'cout', 'clog'):
            loc = ('static', 'std', name)
            ex.st.store.setdefault(loc, Obj('ostream', {}))
            return Path(loc)
        return None

    def intercept(self, f):
        return False

    def keep_loc(self, loc):
        return False

    def short(self, t):
        return t.split('<')[0]

    def enumconst(self, ex, rd):
        return IntVal(0)

    def catches(self, ty, k):
        ty = ty.rstrip('&')
        if ty == k:
            return True
        std = {'runtime_error', 'out_of_range', 'length_error', 'logic_error', 'bad_alloc', 'invalid_argument', 'exception',
               'ios_failure', 'filesystem_error'}
        if ty == 'exception' and k in std:
            return True
        if ty == 'logic_error' and k in ('out_of_range', 'length_error', 'invalid_argument'):
            return True
        if ty == 'runtime_error' and k in ('ios_failure', 'filesystem_error'):
            return True
        return False

    def locname(self, ex, p):
        l = p.loc
        nm = '?'
        if l[0] == 'v':
            d = None
            for tu in ex.prog.tus:
                d = tu.decl.get(l[2])
                if d is not None and ex.loctype.get(l) is not None and d.get('name'):
                    break
            nm = ex.varnames.get(l) or (d or {}).get('name') or 'v'
        elif l[0] == 'this':
            nm = 'this'
        else:
            nm = str(l[-1])
        for s in p.sels:
            nm += '.' + str(s[1]) if s[0] == 'f' else '[]'
        return nm

    def container_len(self, ex, st, cpath):
        v = st.read(cpath)
        return self.clen(v)

    def clen(self, v):
        if isinstance(v, CMap):
            return IntVal(len(v.items))
        if isinstance(v, CVec):
            return IntVal(len(v.items))
        mt = maptheory(v.sort())
        if mt:
            if v.eq(mt.empty):
                return IntVal(0)
            return mt.size(v)
        return mk_len(v)

    # ------------------------------------------------------- values of types
    def default(self, ex, s, ty):
        it = inttype(ty)
        if it:
            return FALSE if it == (1, False) else IntVal(0)
        if s == 'char*':
            return CStr(TRUE, STR.empty)
        if s.endswith('*') or '(*)' in s:
            return IntVal(0)
        k = kind(s)
        if k in EMPTY:
            return EMPTY[k]()
        if k == 'uptr':
            return IntVal(0)
        if s == 'error_code':
            return Obj('error_code', {'v': IntVal(0)})
        if s in ex.prog.classes:
            cand = [g for tu in ex.prog.tus for g in tu.funcs.values()
                    if g.cls == s and g.kind == 'CXXConstructorDecl' and not g.params]
            if cand:
                outs = ex.run_ctor(cand[0], Path(('t', ex.fr.id, 'dflt' + s)), [], {'id': 'dflt' + s}, ex.st)
                if len(outs) == 1 and outs[0][0] == 'norm':
                    return outs[0][2]
            return ex.implicit_ctor(s, None)
        return None

    def fresh_value(self, ex, name, ty):
        """arbitrary value of a type (with its representation invariant assumed)"""
        s = simple_type(ty)
        it = inttype(ty)
        if it:
            if it == (1, False):
                return fresh(name, BoolSort())
            v = fresh(name, IntSort())
            lo, hi = (0, 255) if it[0] == 8 else rng(it)
            ex.st.assume(And(v >= lo, v <= hi))
            return v
        if s == 'char*':
            return CStr(fresh(name + '.null', BoolSort()), fresh(name, Str))
        k = kind(s)
        if k == 'oss':
            return Obj('oss', {'buf': fresh(name + '.buf', Str)})
        if k == 'istream':
            return Obj('istream', {'lines': fresh(name + '.lines', SeqStr), 'pos': fresh(name + '.pos', IntSort()),
                                   'good': fresh(name + '.good', BoolSort())})
        if k in SORTS:
            return fresh(name, SORTS[k])
        if k == 'uptr' or s.endswith('*') or '(*)' in s:
            v = fresh(name, IntSort())
            ex.st.assume(v >= 0)
            if s == 'LanguageSpec*':
                # every row has a code and a name: ground obligation of C07
                ex.st.assume(And(v <= self.nlangs(ex), Or(v == 0, And(Not(LANGN['language'](v)), Not(LANGN['name'](v))))))
            return v
        if s in ex.prog.classes:
            f = {}
            for x in ex.prog.classes[s]:
                if simple_type(tyof(x)) in HEAPS and not x['type']['qualType'].rstrip().endswith(('&', '*')):
                    f[x['name']] = fresh(name + '.' + x['name'], IntSort())
                    continue
                f[x['name']] = self.fresh_value(ex, name + '.' + x['name'], tyof(x))
            return Obj(s, f)
        return None

    def uninit(self, ex, ty):
        """indeterminate value: an arbitrary one (reads are not tracked)"""
        if inttype(ty):
            return self.fresh_value(ex, 'uninit', ty)
        return self.fresh_value(ex, 'uninit', ty)

    def initlist(self, ex, n):
        s = simple_type(tyof(n))
        sub = ex.inner(n)
        k = kind(s)
        if not sub:
            if inttype(tyof(n)) or k in EMPTY or s.endswith('*'):
                return self.default(ex, s, tyof(n))
        return None

    # ------------------------------------------------------- languages
    def langrows(self, ex):
        """rows of the language table, as (language, country, modifier, name, localized) with None for null"""
        r = getattr(ex.prog, '_langrows', None)
        if r is None:
            from .exec import Executor, Frame, Ctx
            key = ('', 'languages')
            st = None
            cand = [(k, v) for k, v in ex.prog.statics.items() if 'LanguageSpec[' in simple_type(tyof(v[1]))]
            if len(cand) != 1:
                raise Unsupported('language table not found')
            (own, nm), (tu, node) = cand[0]
            sv = (ex.st, ex.fr)
            ex.st, ex.fr = State(), Frame(None, None, ('static', nm), tu)
            try:
                e = [c for c in ex.inner(node) if not c['kind'].endswith(('Attr', 'Comment', 'Type'))]
                v = ex.init_value(e[-1], tyof(node), None)
            finally:
                ex.st, ex.fr = sv
            r = []
            for o in v.items:
                row = []
                for f in ('language', 'country', 'modifier', 'name', 'name_localized'):
                    c = o.get(f)
                    row.append(None if bval(c.null) is True else litval(c.s))
                r.append(tuple(row))
            ex.prog._langrows = r
        return r

    def nlangs(self, ex):
        rows = self.langrows(ex)
        n = 0
        while n < len(rows) and rows[n][0] is not None:
            n += 1
        return n

    def deref_int(self, ex, p, ty, n):
        base = ty[:-1] if ty.endswith('*') else ty
        if base == 'LanguageSpec':
            ex.oblige('safety', 'null pointer dereference', mk_not(cmp_int('==', p, IntVal(0))), n)
            return Path(('lang',)).k(p)
        for h in HEAPS:
            if base == h or base.startswith('unique_ptr<%s' % h):
                ex.oblige('safety', 'null pointer dereference', mk_not(cmp_int('==', p, IntVal(0))), n)
                if HEAPS[h] not in ex.st.store:
                    ex.st.store[HEAPS[h]] = fresh('heap', ArraySort(IntSort(), TYPES[h]))
                if ('alive', h) in ex.st.store:
                    ex.oblige('safety', 'object still exists', simp(Select(ex.st.store[('alive', h)], p)), n)
                return Path(HEAPS[h]).k(p)
        if base.startswith(('FileSystem', 'unique_ptr<FileSystem')):
            ex.oblige('safety', 'null pointer dereference', mk_not(cmp_int('==', p, IntVal(0))), n)
            return Path(('fs',))
        if base.startswith(('unique_ptr<basic_istream', 'basic_istream')):
            ex.oblige('safety', 'null pointer dereference', mk_not(cmp_int('==', p, IntVal(0))), n)
            loc = ('istream', p.sexpr())
            if loc not in ex.st.store:
                raise Unsupported('unknown stream')
            return Path(loc)
        if base == 'int' and p.eq(IntVal(-7)):
            return Path(('errno',))
        raise Unsupported('dereference of a %s value' % ty)

    def deref(self, ex, p, n):
        if isinstance(p, tuple) and p[0] == 'arr':
            return p[1].i(IntVal(0))
        if isinstance(p, Iter):
            return self.iter_target(ex, p, n)
        if isinstance(p, KIter):
            return self.kiter_target(ex, p, n)
        if isinstance(p, SPtr):
            ex.oblige('safety', 'character pointer dereferenceable #%s' % ex.ordn(n),
                      simp(And(p.pos >= 0, p.pos <= mk_len(ex.st.read(p.cpath)))), n)
            return p.cpath.i(p.pos)
        return None

    def iter_target(self, ex, it, n):
        c = ex.st.read(it.cpath)
        if isinstance(c, CMap):
            k = ival(it.pos)
            keys = list(c.items)
            if k is None or not 0 <= k < len(keys):
                raise Unsupported('symbolic position in a static map')
            return ('pair', lit(keys[k]), it.cpath.k(keys[k]))
        ln = self.clen(c)
        ex.oblige('safety', 'iterator dereferenceable #%s' % ex.ordn(n), simp(And(it.pos >= 0, it.pos < ln)), n)
        mt = maptheory(c.sort())
        if mt:
            key = mt.key(c, it.pos)
            ex.assume(And(mt.has(c, key), mt.idx(c, key) == it.pos))
            return ('pair', key, it.cpath.k(key)) if mt is not LANGSET else ('elem', key)
        pos = it.pos
        if it.rev:
            pos = simp(ln - 1 - pos)
        return it.cpath.i(pos)

    def kiter_target(self, ex, it, n):
        ex.oblige('safety', 'iterator dereferenceable #%s' % ex.ordn(n), it.found, n)
        if it.key is None:
            raise Infeasible()
        key = lit(it.key) if isinstance(it.key, bytes) else it.key
        return ('pair', key, it.cpath.k(it.key))

    def addr(self, ex, v):
        if z3.is_expr(v):
            return langaddr(v)
        raise Unsupported('address of %s' % type(v).__name__)

    def is_str(self, ex, p):
        v = ex.st.read(p)
        return z3.is_expr(v) and v.sort() == Str

    def addrof(self, ex, p, n):
        if p.loc[0] == 'static' and p.loc[2] == 'languages' or (p.loc == ex.langarr and ex.langarr is not None):
            if len(p.sels) == 1 and p.sels[0][0] == 'i':
                return simp(p.sels[0][1] + 1)
        if p.loc == ('lang',) and len(p.sels) == 1:
            return p.sels[0][1]
        if p.loc in HEAPS.values() and len(p.sels) == 1:
            return p.sels[0][1]
        if p.loc == ('this',) and not p.sels and ex.thisid is not None:
            return ex.thisid
        if p.sels and p.sels[-1][0] == 'i' and self.is_str(ex, Path(p.loc, p.sels[:-1])):
            return SPtr(Path(p.loc, p.sels[:-1]), p.sels[-1][1])
        return Ref(p)

    def ptrcmp(self, ex, op, x, y, n):
        if op in ('==', '!='):
            r = self.ptreq(ex, x, y)
            return r if op == '==' else mk_not(r)
        if isinstance(x, Iter) and isinstance(y, Iter):
            return cmp_int(op, x.pos, y.pos)
        raise Unsupported('pointer comparison %s' % op)

    def ptreq(self, ex, x, y):
        for a, b in ((x, y), (y, x)):
            if a is NULL:
                if b is NULL:
                    return TRUE
                if isinstance(b, CStr):
                    return b.null
                if isinstance(b, (Ref, Path, SPtr)) or isinstance(b, tuple):
                    return FALSE
                if z3.is_expr(b):
                    return mk_eq(b, IntVal(0))
            if isinstance(a, Ref) and z3.is_expr(b):
                return FALSE if ival(b) == 0 or True else None
        if isinstance(x, Ref) and isinstance(y, Ref):
            return BoolVal(same(x, y))
        if isinstance(x, (Iter, SPtr)) and isinstance(y, (Iter, SPtr)):
            return mk_eq(x.pos, y.pos)
        for a, b in ((x, y), (y, x)):
            if isinstance(a, KIter):
                if isinstance(b, Iter):
                    # only end() can be compared with the result of find
                    if same(a.cpath, b.cpath) and simp(b.pos).eq(simp(self.container_len(ex, ex.st, b.cpath))):
                        return mk_not(a.found)
                if isinstance(b, KIter) and same(a.cpath, b.cpath):
                    if bval(b.found) is False:
                        return mk_not(a.found)
        if z3.is_expr(x) and z3.is_expr(y):
            return mk_eq(x, y)
        if isinstance(x, CStr) and isinstance(y, CStr):
            # pointers: only comparisons with null have a meaning here
            if bval(x.null) is True:
                return y.null
            if bval(y.null) is True:
                return x.null
        raise Unsupported('comparison of %s and %s' % (type(x).__name__, type(y).__name__))

    def ptrarith(self, ex, op, x, y, n):
        if isinstance(x, Iter) and z3.is_expr(y) and op in ('+', '-'):
            return self.iter_move(ex, x, y if op == '+' else -y, n)
        if isinstance(y, Iter) and z3.is_expr(x) and op == '+':
            return self.iter_move(ex, y, x, n)
        if isinstance(x, SPtr) and z3.is_expr(y) and op in ('+', '-'):
            pos = simp(x.pos + y) if op == '+' else simp(x.pos - y)
            ex.oblige('safety', 'pointer stays in the string #%s' % ex.ordn(n), simp(And(pos >= 0, pos <= mk_len(ex.st.read(x.cpath)))), n)
            return SPtr(x.cpath, pos)
        if isinstance(x, SPtr) and isinstance(y, SPtr) and op == '-':
            return simp(x.pos - y.pos)
        if isinstance(x, SPtr) and isinstance(y, tuple) and y[0] == 'arr' and y[1].sels and y[1].sels[-1][0] == 'i' and op == '-':
            return simp(x.pos - y[1].sels[-1][1])
        if isinstance(x, Iter) and isinstance(y, Iter) and op == '-':
            return simp(x.pos - y.pos) if not x.rev else simp(y.pos - x.pos)
        if isinstance(x, CStr) and z3.is_expr(y) and op == '+':
            ex.oblige('safety', 'pointer stays in the string #%s' % ex.ordn(n),
                      And(mk_not(x.null), y >= 0, y <= mk_len(x.s)), n)
            return CStr(x.null, mk_sub(x.s, y, mk_len(x.s)))
        raise Unsupported('pointer arithmetic')

    def iter_move(self, ex, it, d, n):
        if isinstance(it, KIter):
            raise Unsupported('++ on the result of find')
        pos = simp(it.pos + d)
        ln = self.container_len(ex, ex.st, it.cpath)
        ex.oblige('safety', 'iterator stays in range #%s' % ex.ordn(n), simp(And(pos >= 0, pos <= ln)), n)
        return Iter(it.cpath, pos, it.rev)

    def is_byte(self, t):
        if z3.is_app(t) and t.decl().eq(STR.at):
            return True
        return is_bounded_ite(t, 0, 255)

    # ------------------------------------------------------- strings
    def strof(self, ex, v, n=None):
        if isinstance(v, Path):
            v = ex.st.read(v)
        if isinstance(v, CStr):
            ex.oblige('safety', 'string from a null pointer', mk_not(v.null), n)
            return v.s
        if z3.is_expr(v) and v.sort() == Str:
            return v
        if z3.is_expr(v) and v.sort() == IntSort():
            return mk_push(STR.empty, v)
        if isinstance(v, tuple) and v[0] == 'arr':
            return self.strof(ex, ex.st.read(v[1]), n)
        raise Unsupported('string from %s' % type(v).__name__)

    def throw(self, ex, cond, k):
        """the library throws k when cond holds"""
        if ex.branch(cond):
            raise Throw(k)

    def entails(self, ex, c):
        v = bval(simp(c))
        if v is not None:
            return v
        return quick_unsat(ex.st.pc + [mk_not(c)])

    def clamp(self, ex, pos, cnt, ln):
        """min(pos + cnt, ln)"""
        k = ival(cnt)
        if k is not None and k >= MAXLEN:
            return ln
        e = simp(pos + cnt)
        if self.entails(ex, e <= ln):
            return e
        if self.entails(ex, e >= ln):
            return ln
        if ex.branch(simp(e <= ln)):
            return e
        return ln

    def s_substr(self, ex, s, args):
        pos = args[0] if args else IntVal(0)
        cnt = args[1] if len(args) > 1 else IntVal(NPOS)
        ln = mk_len(s)
        self.throw(ex, simp(pos > ln), 'out_of_range')
        return mk_sub(s, pos, self.clamp(ex, pos, cnt, ln))

    def compare(self, ex, a, b):
        c = fresh('cmp', IntSort())
        ex.assume(And(c >= -(1 << 31), c <= (1 << 31) - 1))
        # sign of the lexicographic order: only equality is specified
        ex.assume((c == 0) == streq(a, b))
        return c

    def find(self, ex, s, args, rev=False, which='find'):
        x = args[0]
        f = args[1] if len(args) > 1 else IntVal(0)
        if which == 'find':
            if z3.is_expr(x) and x.sort() == IntSort():
                t = find1(s, x, f)
            else:
                t2 = self.strof(ex, x)
                v = litval(t2)
                t = find1(s, IntVal(v[0]), f) if v is not None and len(v) == 1 else findstr(s, t2, f)
        elif which == 'rfind':
            if not (z3.is_expr(x) and x.sort() == IntSort()):
                t2 = litval(self.strof(ex, x))
                if t2 is None or len(t2) != 1:
                    raise Unsupported('rfind of a string')
                x = IntVal(t2[0])
            if len(args) > 1 and ival(args[1]) != NPOS:
                raise Unsupported('rfind with position')
            t = rfind1(s, x)
        elif which == 'find_first_of':
            if z3.is_expr(x) and x.sort() == IntSort():
                t = find1(s, x, f)
            else:
                t = findset(s, self.strof(ex, x), f)
        else:
            raise Unsupported(which)
        if ival(t) is not None:
            return IntVal(NPOS if ival(t) < 0 else ival(t))
        ln = mk_len(s)
        k = ex.decide([(simp(t == -1), 0), (And(t >= 0, t < ln), 1)])
        return IntVal(NPOS) if k == 0 else t

    def member_call(self, ex, name, obj, callee, args, n):
        if ex.fr.tu.decl.get(callee.get('referencedMemberDecl')) is None:
            pass
        p = ex.objpath(obj, callee)
        if isinstance(p, tuple) and p[0] == 'elem':
            p = ex.temp(n, p[1])
        v = ex.st.read(p) if isinstance(p, Path) else p
        if name.startswith('operator'):
            return self.op_call(ex, name[len('operator'):].strip(), [None] + args, n, callee, this=p)
        if z3.is_expr(v) and v.sort() == Str:
            return self.string_call(ex, name, p, v, args, n)
        if z3.is_expr(v) and is_seq(v):
            return self.seq_call(ex, name, p, v, args, n)
        if isinstance(v, CMap) or z3.is_expr(v) and maptheory(v.sort()):
            return self.map_call(ex, name, p, v, args, n)
        if isinstance(v, Obj) and v.cls == 'oss':
            if name == 'str':
                if args:
                    s = self.strof(ex, ex.val(args[0]))
                    ex.st.write(p.f('buf'), s)
                    return VOID
                return v.get('buf')
            if name == 'put':
                ex.st.write(p.f('buf'), mk_push(v.get('buf'), ex.val(args[0])))
                return p
        if isinstance(v, Obj) and v.cls == 'istream':
            if name in ('good', 'operator bool'):
                return v.get('good')
            if name == 'fail':
                return mk_not(v.get('good'))
        if isinstance(v, Obj) and v.cls == 'error_code':
            return mk_not(mk_eq(v.get('v'), IntVal(0)))
        ty = simple_type(tyof(obj))
        if ty.endswith('*') and callee.get('isArrow'):
            ty = ty[:-1]
        r = self.other_member(ex, name, ty, p, v, args, n)
        if r is not None:
            return r
        raise Unsupported('call of %s::%s' % (ty, name))

    def other_member(self, ex, name, ty, p, v, args, n):
        if ty.startswith('unique_ptr<'):
            if name == 'get':
                return v
            if name == 'release':
                ex.st.write(p, IntVal(0))
                return v
            if name == 'reset':
                new = ex.coerce(ex.val(args[0]), '') if args else IntVal(0)
                self.destroy_uptr(ex, v, ty)
                ex.st.write(p, new)
                return VOID
        if isinstance(v, Obj) and v.cls == 'diriter' and name == 'increment':
            self.dir_next(ex, p, v, ex.lv(args[0]), n)
            return p
        if isinstance(v, Obj) and v.cls == 'direntry' and name == 'path':
            return ex.temp(n, Obj('fspath', v.f))
        if isinstance(v, Obj) and v.cls == 'fspath' and name == 'filename':
            return v.get('name')
        if isinstance(v, Obj) and v.cls == 'fspath' and name in ('string', 'native', 'generic_string'):
            return pathjoin(v.get('dir'), v.get('name'))
        if isinstance(v, Obj) and v.cls == 'fspath' and name == 'c_str':
            return CStr(FALSE, pathjoin(v.get('dir'), v.get('name')))
        if name == 'what':
            return CStr(FALSE, fresh('what', Str))
        return None

    def argv(self, ex, a):
        v = ex.val(a)
        if isinstance(v, Path):
            v = ex.st.read(v)
        return v

    def string_call(self, ex, name, p, s, args, n):
        a = [self.argv(ex, x) for x in args if x['kind'] != 'CXXDefaultArgExpr']
        s = ex.st.read(p)
        ln = mk_len(s)
        if name in ('size', 'length'):
            return ln
        if name == 'empty':
            return simp(ln == 0) if ival(ln) is None else BoolVal(ival(ln) == 0)
        if name in ('c_str', 'data'):
            return CStr(FALSE, cut0(s))
        if name == 'begin' or name == 'cbegin':
            return Iter(p, IntVal(0))
        if name == 'end' or name == 'cend':
            return Iter(p, ln)
        if name in ('rbegin', 'crbegin'):
            return Iter(p, IntVal(0), True)
        if name in ('rend', 'crend'):
            return Iter(p, ln, True)
        if name == 'substr':
            return self.s_substr(ex, s, a)
        if name in ('find', 'rfind', 'find_first_of'):
            return self.find(ex, s, a, which=name)
        if name == 'compare':
            if len(a) == 1:
                return self.compare(ex, s, self.strof(ex, a[0]))
            pos, cnt = a[0], a[1]
            other = self.strof(ex, a[2])
            if len(a) == 4:
                other = mk_sub(other, IntVal(0), a[3])
            elif len(a) > 4:
                raise Unsupported('compare with 5 arguments')
            self.throw(ex, simp(pos > ln), 'out_of_range')
            b = litval(other)
            # prefix comparison against a literal of the same length: no clamping needed
            if b is not None and ival(cnt) == len(b) and len(b) > 0:
                c = fresh('cmp', IntSort())
                ex.assume(And(c >= -(1 << 31), c <= (1 << 31) - 1))
                ex.assume((c == 0) == mk_and(simp(ln - pos >= len(b)), *[mk_eq(mk_at(s, simp(pos + i)), IntVal(x)) for i, x in enumerate(b)]))
                return c
            e = self.clamp(ex, pos, cnt, ln)
            return self.compare(ex, mk_sub(s, pos, e), other)
        if name == 'clear':
            ex.st.write(p, STR.empty)
            return VOID
        if name == 'push_back':
            ex.st.write(p, mk_push(s, a[0]))
            return VOID
        if name == 'pop_back':
            ex.oblige('safety', 'pop_back of a non-empty string #%s' % ex.ordn(n), ln > 0, n)
            ex.st.write(p, mk_sub(s, IntVal(0), simp(ln - 1)))
            return VOID
        if name == 'append':
            if len(a) == 1:
                x = self.strof(ex, a[0])
            elif len(a) == 2 and isinstance(a[0], Iter) and isinstance(a[1], Iter):
                x = mk_sub(ex.st.read(a[0].cpath), a[0].pos, a[1].pos)
            elif len(a) == 2 and z3.is_expr(a[0]) and a[0].sort() == IntSort():
                x = mk_fill(STR, a[0], a[1])
            elif len(a) == 3 and z3.is_expr(a[0]) and a[0].sort() == Str:
                x = self.s_substr(ex, a[0], a[1:])
            else:
                raise Unsupported('append')
            ex.st.write(p, mk_cat(s, x))
            return p
        if name == 'assign' and len(a) == 1:
            ex.st.write(p, self.strof(ex, a[0]))
            return p
        if name == 'assign' and len(a) == 3 and z3.is_expr(a[0]) and a[0].sort() == Str:
            ex.st.write(p, self.s_substr(ex, a[0], a[1:]))
            return p
        if name == 'resize':
            k = a[0]
            c = a[1] if len(a) > 1 else IntVal(0)
            if ival(ln) == 0:
                ex.st.write(p, mk_fill(STR, k, c))
            elif self.entails(ex, k <= ln):
                ex.st.write(p, mk_sub(s, IntVal(0), k))
            elif self.entails(ex, k >= ln):
                ex.st.write(p, mk_cat(s, mk_fill(STR, simp(k - ln), c)))
            elif ex.branch(simp(k <= ln)):
                ex.st.write(p, mk_sub(s, IntVal(0), k))
            else:
                ex.st.write(p, mk_cat(s, mk_fill(STR, simp(k - ln), c)))
            return VOID
        if name == 'reserve' or name == 'shrink_to_fit':
            return VOID
        if name == 'front':
            ex.oblige('safety', 'front of a non-empty string #%s' % ex.ordn(n), ln > 0, n)
            return p.i(IntVal(0))
        if name == 'back':
            ex.oblige('safety', 'back of a non-empty string #%s' % ex.ordn(n), ln > 0, n)
            return p.i(simp(ln - 1))
        if name == 'at':
            self.throw(ex, simp(a[0] >= ln), 'out_of_range')
            return p.i(a[0])
        if name == 'erase':
            if len(a) in (1, 2) and z3.is_expr(a[0]):
                pos = a[0]
                self.throw(ex, simp(pos > ln), 'out_of_range')
                e = self.clamp(ex, pos, a[1] if len(a) > 1 else IntVal(NPOS), ln)
                l, r = mk_sub(s, IntVal(0), pos), mk_sub(s, e, ln)
                ex.st.write(p, l if e.eq(ln) else r if ival(pos) == 0 else mk_cat(l, r))
                return p
            if all(isinstance(x, Iter) and not x.rev for x in a):
                i, j = a[0].pos, a[1].pos if len(a) > 1 else simp(a[0].pos + 1)
                ex.oblige('safety', 'iterator range of erase #%s' % ex.ordn(n), simp(And(i >= 0, i <= j, j <= ln)), n)
                l, r = mk_sub(s, IntVal(0), i), mk_sub(s, j, ln)
                ex.st.write(p, l if simp(j).eq(simp(ln)) else r if ival(i) == 0 else mk_cat(l, r))
                return Iter(p, i)
        if name == 'insert' and len(a) == 2 and z3.is_expr(a[0]) and a[0].sort() == IntSort():
            self.throw(ex, simp(a[0] > ln), 'out_of_range')
            x = self.strof(ex, a[1])
            ex.st.write(p, mk_cat(mk_cat(mk_sub(s, IntVal(0), a[0]), x), mk_sub(s, a[0], ln)))
            return p
        if name == 'replace' and len(a) == 3 and z3.is_expr(a[0]) and a[0].sort() == IntSort():
            self.throw(ex, simp(a[0] > ln), 'out_of_range')
            e = self.clamp(ex, a[0], a[1], ln)
            x = self.strof(ex, a[2])
            ex.st.write(p, mk_cat(mk_cat(mk_sub(s, IntVal(0), a[0]), x), mk_sub(s, e, ln)))
            return p
        if name == 'swap':
            q = ex.lv(args[0])
            x = ex.st.read(q)
            ex.st.write(q, s)
            ex.st.write(p, x)
            return VOID
        if name in ('string', 'native', 'generic_string') and not args:  # of a std::filesystem::path
            return s
        raise Unsupported('string::%s' % name)

    # ------------------------------------------------------- vectors
    def seq_call(self, ex, name, p, v, args, n):
        th = theory(v.sort())
        if name in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
            x = self.argv(ex, args[0]) if args else STR.empty
            if th is SEQSTR:
                x = self.strof(ex, x)
            elif isinstance(x, (Ref, Path)):
                raise Unsupported('pointer in a vector')
            v = ex.st.read(p)
            if name.endswith('back'):
                ex.st.write(p, mk_push(v, x))
            else:
                ex.st.write(p, mk_cat(mk_push(th.empty, x), v))
            return VOID
        a = [self.argv(ex, x) for x in args if x['kind'] != 'CXXDefaultArgExpr']
        v = ex.st.read(p)
        ln = mk_len(v)
        if name == 'size':
            return ln
        if name == 'empty':
            return simp(ln == 0) if ival(ln) is None else BoolVal(ival(ln) == 0)
        if name in ('begin', 'cbegin'):
            return Iter(p, IntVal(0))
        if name in ('end', 'cend'):
            return Iter(p, ln)
        if name in ('rbegin', 'crbegin'):
            return Iter(p, IntVal(0), True)
        if name in ('rend', 'crend'):
            return Iter(p, ln, True)
        if name == 'clear':
            ex.st.write(p, th.empty)
            return VOID
        if name == 'reserve':
            return VOID
        if name == 'front':
            ex.oblige('safety', 'front of a non-empty container #%s' % ex.ordn(n), ln > 0, n)
            return p.i(IntVal(0))
        if name == 'back':
            ex.oblige('safety', 'back of a non-empty container #%s' % ex.ordn(n), ln > 0, n)
            return p.i(simp(ln - 1))
        if name == 'at':
            self.throw(ex, simp(a[0] >= ln), 'out_of_range')
            return p.i(a[0])
        if name == 'pop_back':
            ex.oblige('safety', 'pop_back of a non-empty container #%s' % ex.ordn(n), ln > 0, n)
            ex.st.write(p, mk_sub(v, IntVal(0), simp(ln - 1)))
            return VOID
        if name == 'resize':
            k = a[0]
            d = a[1] if len(a) > 1 else th.default
            if self.entails(ex, k >= ln):
                ex.st.write(p, mk_cat(v, mk_fill(th, simp(k - ln), d)))
            elif self.entails(ex, k <= ln):
                ex.st.write(p, mk_sub(v, IntVal(0), k))
            elif ex.branch(simp(k >= ln)):
                ex.st.write(p, mk_cat(v, mk_fill(th, simp(k - ln), d)))
            else:
                ex.st.write(p, mk_sub(v, IntVal(0), k))
            return VOID
        if name == 'erase' and len(a) == 1 and isinstance(a[0], Iter):
            it = a[0]
            ex.oblige('safety', 'erase of an element #%s' % ex.ordn(n), And(it.pos >= 0, it.pos < ln), n)
            ex.st.write(p, mk_cat(mk_sub(v, IntVal(0), it.pos), mk_sub(v, simp(it.pos + 1), ln)))
            return Iter(p, it.pos)
        if name == 'insert' and len(a) == 2 and isinstance(a[0], Iter):
            x = self.strof(ex, a[1]) if th is SEQSTR else a[1]
            ex.st.write(p, mk_cat(mk_push(mk_sub(v, IntVal(0), a[0].pos), x), mk_sub(v, a[0].pos, ln)))
            return Iter(p, a[0].pos)
        if name == 'assign' and len(a) == 2 and z3.is_expr(a[0]) and a[0].sort() == IntSort():
            ex.st.write(p, mk_fill(th, a[0], a[1]))
            return VOID
        if name == 'swap':
            q = ex.lv(args[0])
            x = ex.st.read(q)
            ex.st.write(q, v)
            ex.st.write(p, x)
            return VOID
        raise Unsupported('vector::%s' % name)

    # ------------------------------------------------------- maps
    def mapkey(self, ex, v, a):
        x = self.argv(ex, a)
        mt = None if isinstance(v, CMap) else maptheory(v.sort())
        if mt is not None and mt.k == IntSort():
            return to_term(x)
        return self.strof(ex, x)

    def cmap_find(self, ex, p, v, key):
        k = litval(key)
        if k is not None:
            return (k, TRUE) if k in v.items else (None, FALSE)
        keys = list(v.items)
        for c in ex.st.pc:      # already known to be one of the keys
            if z3.is_eq(c):
                for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if x.eq(key) and litval(y) is not None:
                        return (litval(y), TRUE) if litval(y) in v.items else (None, FALSE)
        eqs = [mk_eq(key, lit(k)) for k in keys]
        none = mk_and(*[mk_not(e) for e in eqs])
        opts = [(none, None)] + [(e, k) for e, k in zip(eqs, keys)]
        d = ex.decide(opts, nofeas=True)
        return (None, FALSE) if d == 0 else (keys[d - 1], TRUE)

    def map_call(self, ex, name, p, v, args, n):
        if name in ('size',):
            return self.clen(v)
        if name == 'empty':
            l = self.clen(v)
            return simp(l == 0) if ival(l) is None else BoolVal(ival(l) == 0)
        if name in ('begin', 'cbegin'):
            return Iter(p, IntVal(0))
        if name in ('end', 'cend'):
            return Iter(p, self.clen(v))
        if name == 'clear':
            ex.st.write(p, CMap({}, v.vtype) if isinstance(v, CMap) else maptheory(v.sort()).empty)
            return VOID
        if name in ('find', 'count', 'at', 'contains'):
            key = self.mapkey(ex, v, args[0])
            v = ex.st.read(p)
            if isinstance(v, CMap):
                k, found = self.cmap_find(ex, p, v, key)
                if name == 'find':
                    return KIter(p, k, found)
                if name == 'count':
                    return IntVal(1 if k is not None else 0)
                if name == 'contains':
                    return found
                if k is None:
                    raise Throw('out_of_range')
                return p.k(k)
            mt = maptheory(v.sort())
            has = mt.has(v, key)
            if name == 'find':
                return KIter(p, key, has)
            if name == 'count':
                return mk_ite(has, IntVal(1), IntVal(0))
            if name == 'contains':
                return has
            self.throw(ex, mk_not(has), 'out_of_range')
            return p.k(key)
        if name == 'reserve':
            return VOID
        if not isinstance(v, CMap):
            mt = maptheory(v.sort())
            if name == 'insert' and mt is LANGSET:
                key = to_term(self.argv(ex, args[0]))
                v = ex.st.read(p)
                ex.st.write(p, mt.put(v, key, IntVal(1)))
                return ('pair', KIter(p, key, TRUE), mk_not(mt.has(v, key)))
            if name in ('emplace', 'try_emplace', 'insert_or_assign') and len(args) == 2:
                key = self.mapkey(ex, v, args[0])
                x = to_term(self.argv(ex, args[1]))
                v = ex.st.read(p)
                has = mt.has(v, key)
                if x.sort() != mt.v:
                    raise Unsupported('emplace')
                if name == 'insert_or_assign':
                    ex.st.write(p, mt.put(v, key, x))
                else:
                    ex.st.write(p, mt.put(v, key, mk_ite(has, mt.get(v, key), x)))
                return ('pair', KIter(p, key, TRUE), mk_not(has))
            if name == 'erase' and len(args) == 1:
                x = self.argv(ex, args[0])
                v = ex.st.read(p)
                if isinstance(x, KIter):
                    ex.oblige('safety', 'erase of an element #%s' % ex.ordn(n), x.found, n)
                    ex.st.write(p, mt.rem(v, x.key))
                    return Iter(p, fresh('after', IntSort()))
                key = to_term(x) if mt.k == IntSort() else self.strof(ex, x)
                ex.st.write(p, mt.rem(v, key))
                return mk_ite(mt.has(v, key), IntVal(1), IntVal(0))
        raise Unsupported('map::%s' % name)

    def map_index(self, ex, p, a, n):
        v = ex.st.read(p)
        key = self.mapkey(ex, v, a)
        v = ex.st.read(p)
        if isinstance(v, CMap):
            k = litval(key)
            if k is None:
                k, found = self.cmap_find(ex, p, v, key)
                if k is None:
                    if p.loc[0] in ('static', 'fstatic'):
                        ex.shared_write(ex.st, p)
                    raise Unsupported('insertion of a symbolic key into a static map')
            if k not in v.items:
                d = self.default(ex, simple_type(tyof(n)), tyof(n))
                if d is None:
                    raise Unsupported('default value of a map element')
                items = dict(v.items)
                items[k] = d
                ex.st.write(p, CMap(items, v.vtype))
            return p.k(k)
        mt = maptheory(v.sort())
        has = mt.has(v, key)
        if bval(has) is not True:
            d = {'Entries': SEQSTR.empty, 'CtxtEntries': ENTRIES.empty, 'Dicts': IntVal(0)}.get(mt.name)
            if d is None:
                raise Unsupported('operator[] of this map')
            ex.st.write(p, mt.put(v, key, mk_ite(has, mt.get(v, key), d)))
        return p.k(key)

    # ------------------------------------------------------- operators
    def operand(self, ex, a):
        """path for glvalues, value otherwise"""
        if a.get('valueCategory') in ('lvalue', 'xvalue'):
            return ex.lv(a)
        return ex.ev(a)

    def rval(self, ex, x):
        return ex.st.read(x) if isinstance(x, Path) else x

    def op_call(self, ex, op, args, n, callee, this=None):
        op = op.strip()
        if op == 'bool' or op.startswith('bool'):
            v = self.rval(ex, this)
            if isinstance(v, Obj) and v.cls == 'istream':
                return v.get('good')
            if isinstance(v, Obj) and v.cls == 'error_code':
                return mk_not(mk_eq(v.get('v'), IntVal(0)))
            return ex.tobool(v)
        if op == '=':
            y = self.operand(ex, args[1])
            y = self.rval(ex, y)
            p = this if args[0] is None else ex.lv(args[0])
            x = ex.st.read(p)
            ty = simple_type(tyof(args[0])) if args[0] is not None else ''
            if ty.startswith('unique_ptr<'):
                if y is NULL:
                    y = IntVal(0)
                src = args[1]
                self.destroy_uptr(ex, x, ty)
                ex.st.write(p, y)
                q = ex.lv(src) if src.get('valueCategory') in ('lvalue', 'xvalue') else None
                if q is not None:
                    ex.st.write(q, IntVal(0))
                return p
            if z3.is_expr(x) and x.sort() == Str:
                y = self.strof(ex, y)
            elif isinstance(y, (Iter, KIter)):
                pass
            elif z3.is_expr(x) and not z3.is_expr(y):
                y = to_term(y)
            ex.st.write(p, y)
            return p
        if op == '<<':
            return self.shift_out(ex, args, n)
        if op == '[]':
            p = this if args[0] is None else self.operand(ex, args[0])
            if not isinstance(p, Path):
                p = ex.temp(args[0], p)
            v = ex.st.read(p)
            if isinstance(v, CMap) or z3.is_expr(v) and maptheory(v.sort()):
                return self.map_index(ex, p, args[1], n)
            i = ex.asint(self.argv(ex, args[1]), args[1])
            v = ex.st.read(p)
            ln = mk_len(v)
            g = And(i >= 0, i <= ln) if v.sort() == Str else And(i >= 0, i < ln)
            ex.oblige('safety', 'index in range #%s' % ex.ordn(n), simp(g), n)
            return p.i(i)
        if op == '()':
            raise Unsupported('call operator')
        vals = [self.operand(ex, a) for a in args if a is not None]
        if this is not None:
            vals = [this] + vals
        rv = [self.rval(ex, x) for x in vals]
        if op in ('==', '!=') and len(rv) == 2 and all(isinstance(x, Obj) and x.cls == 'diriter' for x in rv):
            if not any(ival(mk_len(x.get('names'))) == 0 for x in rv):
                raise Unsupported('comparison of directory iterators')
            at_end = [simp(x.get('pos') >= mk_len(x.get('names'))) for x in rv]
            r = simp(at_end[0] == at_end[1])
            return r if op == '==' else mk_not(r)
        if op in ('==', '!='):
            x, y = rv
            if any(z3.is_expr(t) and t.sort() == Str or isinstance(t, CStr) for t in rv) and not any(t is NULL for t in rv):
                r = streq(self.strof(ex, x), self.strof(ex, y))
            elif isinstance(x, (Iter, KIter)) or isinstance(y, (Iter, KIter)) or x is NULL or y is NULL:
                r = self.ptreq(ex, x, y)
            elif z3.is_expr(x) and z3.is_expr(y) and x.sort() == y.sort():
                r = mk_eq(x, y)
            else:
                raise Unsupported('operator %s' % op)
            return r if op == '==' else mk_not(r)
        if op in ('<', '>', '<=', '>=') and isinstance(rv[0], Iter) and isinstance(rv[1], Iter):
            return cmp_int(op, rv[0].pos, rv[1].pos)
        if op == '!':
            v = rv[0]
            if isinstance(v, Obj) and v.cls == 'error_code':
                return mk_eq(v.get('v'), IntVal(0))
            if isinstance(v, Obj) and v.cls == 'istream':
                return mk_not(v.get('good'))
            return mk_not(ex.tobool(v))
        if op in ('*', '->'):
            v = rv[0]
            if isinstance(v, Iter):
                r = self.iter_target(ex, v, n)
                if isinstance(r, tuple) and r[0] == 'elem':
                    return ex.temp(n, r[1])
                return r
            if isinstance(v, KIter):
                return self.kiter_target(ex, v, n)
            if z3.is_expr(v) and v.sort() == IntSort():
                return self.deref_int(ex, v, simple_type(tyof(args[0])) if args[0] is not None else '', n)
            if isinstance(v, Ref):
                return v.path
            if isinstance(v, Obj) and v.cls == 'diriter':
                ex.oblige('safety', 'directory iterator dereferenceable #%s' % ex.ordn(n), simp(v.get('pos') < mk_len(v.get('names'))), n)
                return ex.temp(n, Obj('direntry', {'name': mk_at(v.get('names'), v.get('pos')), 'dir': v.get('dir')}))
            raise Unsupported('operator %s on %s' % (op, type(v).__name__))
        if op in ('++', '--'):
            p = vals[0]
            v = rv[0]
            if isinstance(v, Obj) and v.cls == 'diriter' and op == '++':
                self.dir_next(ex, p, v, None, n)
                return p
            new = self.iter_move(ex, v, 1 if op == '++' else -1, n)
            ex.st.write(p, new)
            return v if len(args) > 1 else p
        if op == '+':
            x, y = rv
            if isinstance(x, Iter):
                return self.iter_move(ex, x, y, n)
            return mk_cat(self.strof(ex, x), self.strof(ex, y))
        if op == '-' and isinstance(rv[0], Iter):
            if isinstance(rv[1], Iter):
                return simp(rv[0].pos - rv[1].pos)
            return self.iter_move(ex, rv[0], -rv[1], n)
        if op == '+=':
            p = vals[0]
            x, y = rv
            if isinstance(x, Iter):
                ex.st.write(p, self.iter_move(ex, x, y, n))
                return p
            if z3.is_expr(y) and y.sort() == IntSort():
                ex.st.write(p, mk_push(x, y))
            else:
                ex.st.write(p, mk_cat(x, self.strof(ex, y)))
            return p
        raise Unsupported('operator%s' % op)

    def shift_out(self, ex, args, n):
        p = self.operand(ex, args[0])
        a = args[1]
        c = a
        while c['kind'] == 'ImplicitCastExpr':
            c = ex.inner(c)[0]
        if c['kind'] == 'DeclRefExpr' and c['referencedDecl'].get('name') in ('endl', 'flush'):
            x = lit(b'\n') if c['referencedDecl']['name'] == 'endl' else STR.empty
        else:
            v = self.rval(ex, self.operand(ex, a))
            if isinstance(v, CStr):
                x = self.strof(ex, v, n)
            elif z3.is_expr(v) and v.sort() == IntSort():
                if inttype(tyof(a)) and inttype(tyof(a))[0] == 8:
                    x = None
                    o = ex.st.read(p)
                    if isinstance(o, Obj) and o.cls == 'oss':
                        ex.st.write(p.f('buf'), mk_push(o.get('buf'), v))
                    return p
                x = fmtint(v) if ival(v) is None else lit(str(ival(v)).encode())
            elif z3.is_expr(v) and v.sort() == BoolSort():
                x = fmtint(mk_ite(v, IntVal(1), IntVal(0)))
            elif z3.is_expr(v) and v.sort() == Str:
                x = v
            else:
                raise Unsupported('<< of %s' % type(v).__name__)
        o = ex.st.read(p)
        if isinstance(o, Obj) and o.cls == 'oss':
            ex.st.write(p.f('buf'), mk_cat(o.get('buf'), x))
        return p

    # ------------------------------------------------------- free functions
    def free_call(self, ex, name, args, n, callee):
        m = getattr(self, 'f_' + name.lstrip('_'), None)
        if m is not None:
            return m(ex, args, n)
        if name in CLASSES:
            v = ex.asint(self.argv(ex, args[0]), args[0])
            c = unsx(v)
            c = v if c is None else c
            return mk_ite(CLASSES[name](c), IntVal(1), IntVal(0))
        raise Unsupported('function %s' % name)

    def f_toupper(self, ex, args, n):
        return self.conv_case(ex, args, up)

    def f_tolower(self, ex, args, n):
        return self.conv_case(ex, args, low)

    def conv_case(self, ex, args, F):
        v = ex.asint(self.argv(ex, args[0]), args[0])
        c = unsx(v)
        if c is not None:
            return sx(F(c))
        return F(v)

    def f_min(self, ex, args, n):
        return self.minmax(ex, args, n, '<')

    def f_max(self, ex, args, n):
        return self.minmax(ex, args, n, '>')

    def minmax(self, ex, args, n, op):
        a, b = self.argv(ex, args[0]), self.argv(ex, args[1])
        c = simp(b < a) if op == '<' else simp(a < b)
        if bval(c) is not None:
            return b if bval(c) else a
        if self.entails(ex, c):
            return b
        if self.entails(ex, mk_not(c)):
            return a
        return b if ex.branch(c) else a

    def f_move(self, ex, args, n):
        p = self.operand(ex, args[0])
        if isinstance(p, Path):
            v = ex.st.read(p)
            if simple_type(tyof(args[0])).startswith('unique_ptr<'):
                ex.st.write(p, IntVal(0))
                return ex.temp(n, v)
            # moved-from strings and vectors are left unspecified
            if z3.is_expr(v) and (v.sort() == Str or is_seq(v)) and not simple_type(tyof(args[0])).startswith('const'):
                t = ex.temp(n, v)
                ex.st.write(p, fresh('moved', v.sort()))
                return t
            return p
        return p

    f_forward = lambda self, ex, args, n: self.operand(ex, args[0])

    def f_swap(self, ex, args, n):
        p, q = ex.lv(args[0]), ex.lv(args[1])
        x, y = ex.st.read(p), ex.st.read(q)
        ex.st.write(p, y)
        ex.st.write(q, x)
        return VOID

    def f_strlen(self, ex, args, n):
        v = self.argv(ex, args[0])
        if isinstance(v, tuple) and v[0] == 'arr':
            v = ex.st.read(v[1])
        return mk_len(self.strof(ex, v, n))

    def f_strcmp(self, ex, args, n):
        a, b = [self.strof(ex, self.argv(ex, x), n) for x in args[:2]]
        return self.compare(ex, a, b)

    def f_find(self, ex, args, n):
        b, e = self.argv(ex, args[0]), self.argv(ex, args[1])
        if not (isinstance(b, Iter) and isinstance(e, Iter) and ival(b.pos) == 0):
            raise Unsupported('std::find on a part')
        c = ex.st.read(b.cpath)
        x = self.argv(ex, args[2])
        if c.sort() == Str:
            t = find1(c, x, IntVal(0))
        elif c.sort() == SeqStr:
            t = findel(c, self.strof(ex, x))
        else:
            raise Unsupported('std::find')
        ln = mk_len(c)
        if not simp(e.pos).eq(simp(ln)):
            raise Unsupported('std::find on a part')
        k = ex.decide([(simp(t == -1), 0), (And(t >= 0, t < ln), 1)])
        return Iter(b.cpath, ln if k == 0 else t)

    # algorithms with a function object: the loop the standard describes
    def char_fn(self, ex, name, v):
        name = name.lstrip('_')
        c = unsx(v)
        c = v if c is None else c
        if name in CLASSES:
            return mk_ite(CLASSES[name](c), IntVal(1), IntVal(0))
        if name in ('toupper', 'tolower'):
            F = up if name == 'toupper' else low
            return sx(F(c)) if c is not v else F(v)
        raise Unsupported('function object %s' % name)

    def algo_range(self, ex, args):
        b, e = self.argv(ex, args[0]), self.argv(ex, args[1])
        if not (isinstance(b, Iter) and isinstance(e, Iter) and b.rev == e.rev):
            raise Unsupported('algorithm on other iterators')
        f = self.argv(ex, args[-1]) if len(args) > 2 else None
        return b, e, f

    def algo_var(self, ex, n, name, v, ty=None):
        loc = ('v', (ex.fr.id, 'algo', ex.nid(n)), name)
        ex.st.store[loc] = v
        ex.loctype[loc] = ty
        ex.varnames[loc] = name
        return Path(loc)

    def algo_search(self, ex, args, n, stop, hit, end):
        """first element for which the predicate is `stop`"""
        b, e, f = self.algo_range(ex, args)
        P = Path(('v', (ex.fr.id, 'algo', ex.nid(n)), 'first'))

        def step():
            i = ex.rd(P)
            if not ex.branch(simp(i.pos < e.pos)):
                return ('end', None)
            r = ex.tobool(ex.apply_callable(f, [self.deref(ex, i, n)], n))
            if ex.branch(r if stop else mk_not(r)):
                return ('hit', i)
            ex.st.write(P, self.iter_move(ex, i, 1, n))
            return True

        def finish(v):
            i = ex.rd(P)
            if v is None or isinstance(v, bool):
                raise Unsupported('outcome of an algorithm')
            return hit(i) if v[0] == 'hit' else end(i)
        return ex.algo(n, lambda: self.algo_var(ex, n, 'first', b), step, finish)

    def f_find_if(self, ex, args, n):
        return self.algo_search(ex, args, n, True, lambda i: i, lambda i: i)

    def f_find_if_not(self, ex, args, n):
        return self.algo_search(ex, args, n, False, lambda i: i, lambda i: i)

    def f_any_of(self, ex, args, n):
        return self.algo_search(ex, args, n, True, lambda i: TRUE, lambda i: FALSE)

    def f_none_of(self, ex, args, n):
        return self.algo_search(ex, args, n, True, lambda i: FALSE, lambda i: TRUE)

    def f_all_of(self, ex, args, n):
        return self.algo_search(ex, args, n, False, lambda i: FALSE, lambda i: TRUE)

    def algo_each(self, ex, args, n, init, body, finish):
        b, e, f = self.algo_range(ex, args[:2] + [args[-1]])
        P = Path(('v', (ex.fr.id, 'algo', ex.nid(n)), 'first'))

        def start():
            self.algo_var(ex, n, 'first', b)
            init()

        def step():
            i = ex.rd(P)
            if not ex.branch(simp(i.pos < e.pos)):
                return None
            body(i, f)
            ex.st.write(P, self.iter_move(ex, i, 1, n))
            return True
        return ex.algo(n, start, step, lambda v: finish(ex.rd(P), f))

    def f_for_each(self, ex, args, n):
        return self.algo_each(ex, args, n, lambda: None,
                              lambda i, f: ex.apply_callable(f, [self.deref(ex, i, n)], n), lambda i, f: f)

    def f_count_if(self, ex, args, n):
        C = Path(('v', (ex.fr.id, 'algo', ex.nid(n)), 'count'))

        def body(i, f):
            if ex.branch(ex.tobool(ex.apply_callable(f, [self.deref(ex, i, n)], n))):
                ex.st.write(C, simp(ex.rd(C) + 1))
        return self.algo_each(ex, args, n, lambda: self.algo_var(ex, n, 'count', IntVal(0), 'long'), body,
                              lambda i, f: ex.rd(C))

    def sink(self, ex, it, n):
        """where an output iterator writes"""
        if isinstance(it, tuple) and it[0] == 'back_inserter':
            return it[1]
        if not isinstance(it, Iter) or it.rev:
            raise Unsupported('output iterator')
        return None

    def emit(self, ex, O, v, n):
        """*out++ = v"""
        o = ex.rd(O)
        p = self.sink(ex, o, n)
        if p is not None:
            ex.st.write(p, mk_push(ex.rd(p), v))
            return
        ex.st.write(self.deref(ex, o, n), v)
        ex.st.write(O, self.iter_move(ex, o, 1, n))

    def f_back_inserter(self, ex, args, n):
        return ('back_inserter', ex.lv(args[0]))

    def f_transform(self, ex, args, n):
        if len(args) != 4:
            raise Unsupported('transform of two ranges')
        out = self.argv(ex, args[2])
        b = self.argv(ex, args[0])
        if isinstance(out, Iter) and isinstance(b, Iter) and ex.pkey(out.cpath) == ex.pkey(b.cpath) and out.pos.eq(b.pos) and not b.rev:
            def same(i, f):
                d = self.deref(ex, i, n)
                v = ex.apply_callable(f, [d], n)
                ex.st.write(d, ex.intcast(v, 'int', 'char', n) if z3.is_expr(v) and v.sort() == IntSort() else v)
            return self.algo_each(ex, args, n, lambda: None, same, lambda i, f: i)
        O = Path(('v', (ex.fr.id, 'algo', ex.nid(n)), 'out'))

        def body(i, f):
            v = ex.apply_callable(f, [self.deref(ex, i, n)], n)
            self.emit(ex, O, ex.intcast(v, 'int', 'char', n) if z3.is_expr(v) and v.sort() == IntSort() else v, n)
        return self.algo_each(ex, args, n, lambda: self.algo_var(ex, n, 'out', out), body, lambda i, f: ex.rd(O))

    def f_copy_if(self, ex, args, n, want=True):
        out = self.argv(ex, args[2])
        O = Path(('v', (ex.fr.id, 'algo', ex.nid(n)), 'out'))

        def body(i, f):
            d = self.deref(ex, i, n)
            r = ex.tobool(ex.apply_callable(f, [d], n))
            if ex.branch(r if want else mk_not(r)):
                self.emit(ex, O, ex.rd(d), n)
        return self.algo_each(ex, args, n, lambda: self.algo_var(ex, n, 'out', out), body, lambda i, f: ex.rd(O))

    def f_remove_copy_if(self, ex, args, n):
        return self.f_copy_if(ex, args, n, False)

    def f_remove_if(self, ex, args, n):
        """keeps the elements in order; what lies behind them is unspecified"""
        b = self.argv(ex, args[0])
        if not isinstance(b, Iter) or b.rev or ival(b.pos) != 0:
            raise Unsupported('remove_if on a part')
        K = Path(('v', (ex.fr.id, 'algo', ex.nid(n)), 'kept'))
        c0 = ex.rd(b.cpath)
        if not (z3.is_expr(c0) and (c0.sort() == Str or is_seq(c0))) or not simp(self.argv(ex, args[1]).pos).eq(simp(mk_len(c0))):
            raise Unsupported('remove_if on a part')

        def body(i, f):
            d = self.deref(ex, i, n)
            if not ex.branch(ex.tobool(ex.apply_callable(f, [d], n))):
                ex.st.write(K, mk_push(ex.rd(K), ex.rd(d)))

        def finish(i, f):
            k = ex.rd(K)
            rest = fresh('rest', c0.sort())
            ex.assume(mk_len(rest) == mk_len(c0) - mk_len(k))
            ex.st.write(b.cpath, mk_cat(k, rest))
            return Iter(b.cpath, mk_len(k))
        return self.algo_each(ex, args, n, lambda: self.algo_var(ex, n, 'kept', STR.empty if c0.sort() == Str else EMPTY['vecstr'](), 'std::string'),
                              body, finish)

    def f_next(self, ex, args, n):
        i = self.argv(ex, args[0])
        if not isinstance(i, Iter):
            raise Unsupported('next')
        return self.iter_move(ex, i, self.argv(ex, args[1]) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else 1, n)

    def f_distance(self, ex, args, n):
        b, e, _ = self.algo_range(ex, args[:2])
        return simp(e.pos - b.pos)

    def f_begin(self, ex, args, n):
        p = ex.lv(args[0])
        v = ex.rd(p)
        if isinstance(v, Obj) and v.cls == 'diriter':
            return v
        return Iter(p, IntVal(0))

    def f_end(self, ex, args, n):
        p = ex.lv(args[0])
        v = ex.rd(p)
        if isinstance(v, Obj) and v.cls == 'diriter':
            return Obj('diriter', {'names': SEQSTR.empty, 'pos': IntVal(0), 'bad': FALSE, 'dir': STR.empty})
        return Iter(p, self.container_len(ex, ex.st, p))

    def f_to_string(self, ex, args, n):
        v = self.argv(ex, args[0])
        return fmtint(v) if ival(v) is None else lit(str(ival(v)).encode())

    def f_getline(self, ex, args, n):
        p = ex.lv(args[0])
        q = ex.lv(args[1])
        o = ex.st.read(p)
        if not isinstance(o, Obj) or o.cls != 'istream':
            raise Unsupported('getline')
        lines, pos, good = o.get('lines'), o.get('pos'), o.get('good')
        ln = mk_len(lines)
        old = ex.st.read(q)
        k = ex.decide([(mk_not(good), 0), (mk_and(good, simp(pos < ln)), 1), (mk_and(good, simp(pos >= ln)), 2)])
        if k == 1:
            ex.st.write(q, mk_at(lines, pos))
            ex.st.write(p, o.set('pos', simp(pos + 1)))
        elif k == 2:
            # the string is cleared unless eofbit was already set
            ex.st.write(q, mk_ite(fresh('eofbit', BoolSort()), old, STR.empty))
            ex.st.write(p, o.set('good', FALSE))
        return p

    def f_assert_fail(self, ex, args, n):
        ex.oblige('safety', 'assertion holds', FALSE, n)
        raise Infeasible()

    def f_errno_location(self, ex, args, n):
        ex.st.store.setdefault(('errno',), fresh('errno', IntSort()))
        return Ref(Path(('errno',)))

    def f_strerror(self, ex, args, n):
        self.argv(ex, args[0])
        return CStr(FALSE, fresh('strerror', Str))

    # ------------------------------------------------------- iconv
    # ghost state: the open descriptors with their charsets, and how far the
    # conversion of `src` has come (phase 0: initial state, 1: body begun,
    # 2: body complete, 3: stopped at an invalid sequence).  `tot` is the
    # complete output (body and flush), `emit` how much of it was written.
    def iconv_state(self, ex):
        st = ex.st.store
        if ICV['live'] not in st:
            for g, so in (('live', BoolSort()), ('from', Str), ('to', Str), ('phase', IntSort())):
                st[ICV[g]] = fresh('iconv.' + g, ArraySort(IntSort(), so))
            for g, so in (('src', Str), ('tot', Str), ('in', IntSort()), ('emit', IntSort())):
                st[ICV[g]] = fresh('iconv.' + g, so)
            st.setdefault(('errno',), fresh('errno', IntSort()))
        return st

    def f_iconv_open(self, ex, args, n):
        t, f = [self.strof(ex, self.argv(ex, a), n) for a in args]
        st = self.iconv_state(ex)
        if not ex.branch(icok(f, t)):
            st[('errno',)] = fresh('errno', IntSort())
            return IntVal(U64 - 1)
        h = fresh('iconv.cd', IntSort())
        ex.assume(And(h >= 1, h < U64 - 1, Not(Select(st[ICV['live']], h))))
        for g, v in (('live', TRUE), ('from', f), ('to', t), ('phase', IntVal(0))):
            st[ICV[g]] = Store(st[ICV[g]], h, v)
        return h

    def iconv_live(self, ex, cd, n, what):
        cd = IntVal(0) if cd is NULL else cd
        ex.oblige('safety', '%s on an open descriptor' % what, simp(Select(self.iconv_state(ex)[ICV['live']], cd)), n)
        return cd

    def f_iconv_close(self, ex, args, n):
        cd = self.iconv_live(ex, self.argv(ex, args[0]), n, 'iconv_close')
        st = ex.st.store
        st[ICV['live']] = simp(Store(st[ICV['live']], cd, FALSE))
        return IntVal(0)

    def f_iconv(self, ex, args, n):
        cd, inb, inl, outb, outl = [NULL if z3.is_expr(a) and ival(a) == 0 else a for a in [self.argv(ex, a) for a in args]]
        cd = self.iconv_live(ex, cd, n, 'iconv')
        ex.iconv_cd = cd
        st = ex.st.store
        f, t, ph = [simp(Select(st[ICV[g]], cd)) for g in ('from', 'to', 'phase')]

        def phase(k):
            st[ICV['phase']] = Store(st[ICV['phase']], cd, k if z3.is_expr(k) else IntVal(k))

        def fail(*codes):
            e = fresh('errno', IntSort())
            ex.assume(Or([e == c for c in codes]))
            st[('errno',)] = e
            return IntVal(U64 - 1)

        def cell(p):
            if not isinstance(p, Ref):
                raise Unsupported('iconv argument')
            return p.path
        if inb is NULL and outb is NULL:
            phase(0)
            return IntVal(0)
        if outb is NULL:
            raise Unsupported('iconv without output')
        op, ol = cell(outb), cell(outl)
        o, left = ex.st.read(op), ex.st.read(ol)
        if not isinstance(o, SPtr):
            raise Unsupported('iconv output buffer')
        old = ex.st.read(o.cpath)
        ex.oblige('safety', 'iconv writes inside the output buffer', And(o.pos >= 0, left >= 0, o.pos + left <= mk_len(old)), n)

        def emit(w, k):
            if not k.eq(IntVal(0)):
                ex.st.write(o.cpath, mk_cat(mk_sub(old, IntVal(0), o.pos), mk_cat(w, mk_sub(old, simp(o.pos + k), mk_len(old)))))
                ex.st.write(op, SPtr(o.cpath, simp(o.pos + k)))
                ex.st.write(ol, simp(left - k))
            # other pointers into the buffer see the new bytes through the path

        def some(lo, hi):
            k = fresh('iconv.n', IntSort())
            ex.assume(And(k >= lo, k <= hi))
            return k
        if inb is NULL:
            k = ex.decide([(simp(ph == 2), 0), (simp(ph == 0), 1), (And(Not(ph == 2), Not(ph == 0)), 2)])
            st = ex.st.store
            if k == 2:
                st[ICV['src']] = fresh('iconv.src', Str)
                st[ICV['tot']] = fresh('iconv.tot', Str)
                st[ICV['emit']] = IntVal(0)
                ex.assume(mk_len(st[ICV['tot']]) < 256)
            elif k == 1:
                st[ICV['tot']], st[ICV['emit']] = STR.empty, IntVal(0)
            tot, em = st[ICV['tot']], st[ICV['emit']]
            rest = simp(mk_len(tot) - em)
            if ex.decide([(simp(rest <= left), 0), (simp(rest + 16 > left), 1)]) == 0:
                emit(mk_sub(tot, em, mk_len(tot)), rest)
                st[ICV['emit']] = mk_len(tot)
                phase(0)
                return IntVal(0)
            k = some(0, rest)
            ex.assume(And(k <= left, k <= rest))
            emit(mk_sub(tot, em, simp(em + k)), k)
            st[ICV['emit']] = simp(em + k)
            return fail(7)
        ip, il = cell(inb), cell(inl)
        i, inn = ex.st.read(ip), ex.st.read(il)
        if not isinstance(i, SPtr):
            raise Unsupported('iconv input buffer')
        text = ex.st.read(i.cpath)
        ex.oblige('safety', 'iconv reads inside the input buffer', And(i.pos >= 0, inn >= 0, i.pos + inn <= mk_len(text)), n)
        inp = mk_sub(text, i.pos, simp(i.pos + inn))
        # a new conversion, the continuation of the one begun, or neither
        src0 = st[ICV['src']]
        cont = And(ph == 1, inp == mk_sub(src0, st[ICV['in']], mk_len(src0)))
        k = ex.decide([(simp(ph == 0), 0), (cont, 1), (And(Not(ph == 0), Not(cont)), 2)])
        st = ex.st.store
        if k == 0:
            st[ICV['src']], st[ICV['in']], st[ICV['emit']] = inp, IntVal(0), IntVal(0)
            st[ICV['tot']] = ictot(f, t, inp)
        elif k == 2:
            for g in ('src', 'tot'):
                st[ICV[g]] = fresh('iconv.' + g, Str)
            st[ICV['in']] = st[ICV['emit']] = IntVal(0)
            ex.assume(And(mk_len(st[ICV['src']]) == inn, mk_len(st[ICV['tot']]) < MAXLEN))
        src, tot, em, inpos = [st[ICV[g]] for g in ('src', 'tot', 'emit', 'in')]
        body = icbody(f, t, src)
        ex.assume(And(body >= 0, body <= mk_len(tot), em <= body))
        rest = simp(body - em)
        bad = icbad(f, t, src)
        d = ex.decide([(And(rest <= left, Not(bad)), 0), (And(rest <= left, bad), 1), (simp(rest + 16 > left), 2)])

        def consume(c):
            ex.st.write(ip, SPtr(i.cpath, simp(i.pos + c)))
            ex.st.write(il, simp(inn - c))
            st[ICV['in']] = simp(inpos + c)
        if d == 2:
            k, c = some(0, rest), some(0, inn)
            ex.assume(And(k <= left, k <= rest))
            emit(mk_sub(tot, em, simp(em + k)), k)
            st[ICV['emit']] = simp(em + k)
            consume(c)
            phase(1)
            return fail(7)
        emit(mk_sub(tot, em, body), rest)
        st[ICV['emit']] = body
        if d == 0:
            consume(inn)
            phase(2)
            r = fresh('iconv.ret', IntSort())
            ex.assume(And(r >= 0, r < U64 - 1))
            return r
        consume(some(0, inn))
        phase(3)
        return fail(84, 22)

    def call_pointer(self, ex, fv, args, n, callee):
        ty = simple_type(tyof(callee))
        if z3.is_expr(fv) and fv.sort() == IntSort():
            ex.oblige('safety', 'call through a null function pointer', mk_not(cmp_int('==', fv, IntVal(0))), n)
            f = ex.fnids.get(ival(fv)) if ival(fv) is not None else None
            if f is not None:
                return ex.invoke(f, None, args, n)
            if ty.startswith('unsignedint(*)(int'):
                a = ex.asint(self.argv(ex, args[0]), args[0])
                r = _pluralfn(fv, a)
                ex.assume(And(r >= 0, r < 1 << 32))
                return r
            if ty.startswith('void(*)(string'):
                s = self.strof(ex, self.argv(ex, args[0]))
                self.event(ex, fv, s)
                return VOID
        if isinstance(fv, tuple) and fv[0] == 'libfn':
            return self.free_call(ex, fv[1], args, n, callee)
        raise Unsupported('call through %s' % ty)

    def event(self, ex, fn, s):
        """a log callback was called"""
        if ('trace', 'fn') in ex.st.store:
            ex.st.store[('trace', 'fn')] = mk_push(ex.st.store[('trace', 'fn')], fn)
            ex.st.store[('trace', 'txt')] = mk_push(ex.st.store[('trace', 'txt')], s)

    # ------------------------------------------------------- construction
    def listinit(self, ex, k, e):
        """a container written as a braced list"""
        x = e
        while x['kind'] != 'InitListExpr':
            x = ex.inner(x)[0]
        vals = [self.rval(ex, ex.val(y)) for y in ex.inner(x)]
        v = EMPTY[k]()
        if isinstance(v, CMap):
            items = {}
            for o in vals:
                if not (isinstance(o, Obj) and o.cls == 'pair') or litval(o.get('first')) is None:
                    raise Unsupported('initialiser list of a map')
                items.setdefault(litval(o.get('first')), o.get('second'))
            return CMap(items, v.vtype)
        if z3.is_expr(v) and is_seq(v):
            for o in vals:
                v = mk_push(v, self.strof(ex, o) if k == 'vecstr' else to_term(o))
            return v
        raise Unsupported('initialiser list of a container')

    def construct(self, ex, ty, args, n):
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        k = kind(ty)
        if (k == 'iter' or ty.startswith('(lambda')) and len(args) == 1:
            return self.argv(ex, args[0])
        if k == 'string':
            if not args:
                return STR.empty
            a = [self.argv(ex, x) for x in args if kind(simple_type(tyof(x))) is not None or not simple_type(tyof(x)).startswith('allocator')]
            if len(a) == 1:
                return self.strof(ex, a[0], n)
            if isinstance(a[0], Iter) and isinstance(a[1], Iter):
                return mk_sub(ex.st.read(a[0].cpath), a[0].pos, a[1].pos)
            if z3.is_expr(a[0]) and a[0].sort() == IntSort():
                ex.oblige('safety', 'string length is representable #%s' % ex.ordn(n), And(a[0] >= 0, a[0] <= MAXLEN), n)
                return mk_fill(STR, a[0], a[1])
            if z3.is_expr(a[0]) and a[0].sort() == Str:
                return self.s_substr(ex, a[0], a[1:])
            if isinstance(a[0], CStr):
                s = self.strof(ex, a[0])
                return mk_sub(s, IntVal(0), a[1])
            raise Unsupported('string constructor')
        if k in EMPTY and not args:
            return EMPTY[k]()
        if k in EMPTY and args and simple_type(tyof(args[0])).startswith('initializer_list'):
            return self.listinit(ex, k, args[0])
        if k == 'cmap' and len(args) == 1:
            v = self.operand(ex, args[0])
            v = self.rval(ex, v)
            if isinstance(v, CMap):
                return v
        if k in ('vecstr', 'vecint', 'Entries', 'Ctxt', 'LangSet', 'Dicts') and len(args) == 1:
            v = self.argv(ex, args[0])
            if z3.is_expr(v) and v.sort() == SORTS[k]:
                return v
            if k == 'vecstr' and z3.is_expr(v) and v.sort() == IntSort():
                return mk_fill(SEQSTR, v, STR.empty)
        if k in ('vecstr', 'vecint', 'string') and len(args) == 2:
            a = [self.argv(ex, x) for x in args]
            if isinstance(a[0], Iter) and isinstance(a[1], Iter) and not a[0].rev and not a[1].rev:
                c = ex.st.read(a[0].cpath)
                if z3.is_expr(c) and c.sort() == SORTS[k]:
                    return mk_sub(c, a[0].pos, a[1].pos)
                raise Unsupported('vector of another range')
        if k == 'vecstr' and len(args) == 2:
            if z3.is_expr(a[0]) and a[0].sort() == IntSort():
                return mk_fill(SEQSTR, a[0], self.strof(ex, a[1]))
        if k == 'uptr':
            if not args:
                return IntVal(0)
            src = args[0]
            v = self.operand(ex, src)
            if isinstance(v, Path):
                x = ex.st.read(v)
                if simple_type(tyof(src)).startswith('unique_ptr<'):
                    ex.st.write(v, IntVal(0))
                return x
            return IntVal(0) if v is NULL else v
        if ty.startswith('pair<') and len(args) == 2:
            a = [self.rval(ex, self.operand(ex, x)) for x in args]
            t = ty[5:]
            if t.startswith(('string', 'basic_string')) and not (z3.is_expr(a[0]) and a[0].sort() == Str):
                a[0] = self.strof(ex, a[0])
            if ty.endswith((',string>', ',basic_string<char>>')) and not (z3.is_expr(a[1]) and a[1].sort() == Str):
                a[1] = self.strof(ex, a[1])
            return Obj('pair', {'first': a[0], 'second': a[1]})
        if ty.startswith('pair<') and len(args) == 1:
            v = self.operand(ex, args[0])
            if isinstance(v, tuple) and v[0] == 'pair':
                return Obj('pair', {f: self.rval(ex, ex.member(v, f, n)) for f in ('first', 'second')})
            v = self.rval(ex, v)
            if isinstance(v, Obj) and v.cls == 'pair':
                return v
        if ty == 'path' and len(args) <= 2:
            return self.strof(ex, self.argv(ex, args[0])) if args else STR.empty
        if ty == 'directory_iterator':
            if not args:
                return Obj('diriter', {'names': SEQSTR.empty, 'pos': IntVal(0), 'bad': FALSE, 'dir': STR.empty})
            v = self.operand(ex, args[0])
            v = self.rval(ex, v)
            if isinstance(v, Obj) and v.cls == 'diriter':
                return v
            w = ex.st.store.get(WORLD)
            if w is None:
                raise Unsupported('file system without a world')
            s = self.strof(ex, v)
            ec = [x for x in args[1:] if simple_type(tyof(x)) == 'error_code']
            names, bad = dirnames(w, s), dirbad(w, s)
            self.dir_error(ex, mk_and(bad, simp(mk_len(names) == 0)), ex.lv(ec[0]) if ec else None)
            return Obj('diriter', {'names': names, 'pos': IntVal(0), 'bad': bad, 'dir': s})
        if ty in ('runtime_error', 'logic_error', 'out_of_range', 'invalid_argument'):
            self.strof(ex, self.argv(ex, args[0]))
            return Obj(ty, {})
        if ty.startswith('allocator'):
            return VOID
        if ty == 'error_code':
            return Obj('error_code', {'v': IntVal(0)})
        if ty.startswith('reverse_iterator') and len(args) == 1:
            return self.argv(ex, args[0])
        raise Unsupported('constructor of %s' % ty)

    def dir_next(self, ex, p, v, ec, n):
        ex.oblige('safety', 'directory iterator not at the end #%s' % ex.ordn(n), simp(v.get('pos') < mk_len(v.get('names'))), n)
        pos = simp(v.get('pos') + 1)
        ex.st.write(p.f('pos'), pos)
        self.dir_error(ex, mk_and(v.get('bad'), simp(pos >= mk_len(v.get('names')))), ec)

    def dir_error(self, ex, bad, ec):
        if ec is None:
            self.throw(ex, bad, 'filesystem_error')
        else:
            ex.st.write(ec.f('v'), mk_ite(bad, IntVal(1), IntVal(0)))

    # ------------------------------------------------------- objects on the heap
    def heaps(self):
        return HEAPS

    def allocate(self, ex, cls, v):
        """number of a new object of a heap class with value v"""
        h, al = HEAPS[cls], ('alive', cls)
        if h not in ex.st.store:
            ex.st.store[h] = fresh('heap', ArraySort(IntSort(), TYPES[cls]))
        i = fresh('new', IntSort())
        ex.st.assume(i >= 1)
        if al in ex.st.store:
            ex.st.assume(mk_not(simp(Select(ex.st.store[al], i))))
            ex.st.store[al] = Store(ex.st.store[al], i, TRUE)
        ex.st.store[h] = Store(ex.st.store[h], i, to_term(v))
        return i

    def new(self, ex, n):
        if n.get('isArray'):
            raise Unsupported('new[]')
        base = simple_type(tyof(n))[:-1]
        sub = ex.inner(n)
        v = None
        if kind(base) == 'istream' or base.startswith('basic_ifstream'):
            for a in ex.inner(sub[-1]) if sub else ():
                if a['kind'] != 'CXXDefaultArgExpr':
                    ex.val(a)
        elif sub:
            v = ex.val(sub[-1])
            if isinstance(v, Path):
                v = ex.rd(v)
        if base in HEAPS:
            return self.allocate(ex, base, v if v is not None else ex.default_value(base))
        if base in OPAQUE or kind(base) == 'istream':
            i = fresh('new', IntSort())
            ex.st.assume(i >= 1)
            return i
        raise Unsupported('new %s' % base)

    def delete(self, ex, v, n, ty):
        base = ty[:-1]
        if v is NULL or ival(v) == 0:
            return VOID
        if base not in HEAPS:
            raise Unsupported('delete of %s' % ty)
        if not self.entails(ex, v >= 1) and ex.branch(mk_eq(v, IntVal(0))):
            return VOID
        al = ('alive', base)
        if al not in ex.st.store:
            raise Unsupported('delete of %s' % ty)
        ex.oblige('safety', 'only existing objects are destroyed', simp(Select(ex.st.store[al], v)), n)
        self.destroy(ex, Path(HEAPS[base]).k(v), base)
        ex.st.store[al] = Store(ex.st.store[al], v, FALSE)
        return VOID

    def destroy_uptr(self, ex, v, ty):
        if v is NULL or ival(v) == 0:
            return
        base = ty[len('unique_ptr<'):].rstrip('>').split(',')[0]
        if base in HEAPS:
            self.delete(ex, v, None, base + '*')
        elif base in OPAQUE:
            pass
        elif kind(base) == 'istream':
            ex.st.store.pop(('istream', v.sexpr()), None)
        else:
            raise Unsupported('destruction through %s' % ty)

    def needs_destroy(self, cls):
        return cls in self.DESTROY or cls.startswith('unique_ptr<') or cls in self.DESTROY_IN

    def destroy(self, ex, p, cls):
        if cls.startswith('unique_ptr<'):
            self.destroy_uptr(ex, ex.st.read(p), cls)
            return
        d = [g for tu in ex.prog.tus for g in tu.funcs.values() if g.cls == cls and g.kind == 'CXXDestructorDecl']
        if d:
            ex.call_func(d[0], p, [], {'id': 'dtor' + cls + str(p.loc)})
        for x in reversed(ex.prog.classes.get(cls, [])):
            c = simple_type(tyof(x))
            if self.needs_destroy(c) and not x['type']['qualType'].rstrip().endswith(('&', '*')):
                self.destroy(ex, p.f(x['name']), c)

    def virtual(self, ex, name, obj, callee, args, n):
        """the file system handed in by the user: its answers are functions of
        the state of the world, which is the same throughout one request"""
        p = ex.objpath(obj, callee)
        if not (isinstance(p, Path) and p.loc == ('fs',)):
            raise Unsupported('virtual call of %s' % name)
        w = ex.st.store.get(WORLD)
        if w is None:
            raise Unsupported('file system without a world')
        a = self.strof(ex, self.argv(ex, args[0]))
        st = {'open_directory': dirst, 'open_file': openst}.get(name)
        if st is None:
            raise Unsupported('virtual call of %s' % name)
        t = st(w, a)
        ok = [(mk_eq(t, IntVal(0)), 0)]
        if name == 'open_file':
            ok.append((mk_eq(t, IntVal(1)), 0))
        k = ex.decide(ok + [(mk_eq(t, IntVal(2)), 0), (mk_eq(t, IntVal(3)), 0)])
        if k >= len(ok):
            raise Throw('exception' if k == len(ok) else 'foreign')
        if name == 'open_directory':
            return dirlist(w, a)
        if k == 1:
            return IntVal(0)
        i = fresh('in', IntSort())
        ex.st.assume(i >= 1)
        ex.st.store[('istream', i.sexpr())] = Obj('istream', {'lines': filelines(w, a), 'pos': IntVal(0), 'good': filegood(w, a)})
        return i
