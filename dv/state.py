"""Values, locations and the store of the symbolic executor."""
from .smt import *
from . import smt
from .spec import DECL2DATA, DATA


WRITE_HOOK = [None]        # called on writes to objects of static storage duration


class Unsupported(Exception):
    """a construct outside the verified subset"""


class Infeasible(Exception):
    pass


class NeedFork(Exception):
    pass


class Throw(Exception):
    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value


class Obj:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def get(self, n):
        if n not in self.f:
            raise Unsupported('uninitialised or unknown field %s.%s' % (self.cls, n))
        return self.f[n]

    def set(self, n, v):
        d = dict(self.f)
        d[n] = v
        return Obj(self.cls, d)

    def __repr__(self):
        return '%s%s' % (self.cls, self.f)


class Path:
    __slots__ = ('loc', 'sels')

    def __init__(self, loc, sels=()):
        self.loc, self.sels = loc, tuple(sels)

    def f(self, n):
        return Path(self.loc, self.sels + (('f', n),))

    def i(self, t):
        return Path(self.loc, self.sels + (('i', t),))

    def k(self, t):
        return Path(self.loc, self.sels + (('k', t),))

    def __repr__(self):
        return 'Path(%s%s)' % (self.loc, ''.join('.%s:%s' % (s[0], s[1]) for s in self.sels))


class Ref:
    """a non-null pointer to an object of the store (or an array element)"""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'Ref(%s)' % self.path


class NullT:
    def __repr__(self):
        return 'NULL'


NULL = NullT()


class CStr:
    """const char*: possibly null pointer to a NUL-terminated string"""
    __slots__ = ('null', 's')

    def __init__(self, null, s):
        self.null, self.s = null, s

    def __repr__(self):
        return 'CStr(%s,%s)' % (self.null, self.s)


class Iter:
    """position in a container (`cpath`): element index, or index in the
    iteration order of a map; `rev` for reverse iterators"""
    __slots__ = ('cpath', 'pos', 'rev')

    def __init__(self, cpath, pos, rev=False):
        self.cpath, self.pos, self.rev = cpath, pos, rev

    def __repr__(self):
        return 'Iter(%s,%s)' % (self.cpath, self.pos)


class SPtr:
    """char* into the characters of a string object"""
    __slots__ = ('cpath', 'pos')
    rev = False

    def __init__(self, cpath, pos):
        self.cpath, self.pos = cpath, pos

    def __repr__(self):
        return 'SPtr(%s,%s)' % (self.cpath, self.pos)


class KIter:
    """iterator to a key of a map value whose index is irrelevant (result of find)"""
    __slots__ = ('cpath', 'key', 'found')

    def __init__(self, cpath, key, found):
        self.cpath, self.key, self.found = cpath, key, found


class CMap:
    __slots__ = ('items', 'vtype')

    def __init__(self, items, vtype):
        self.items, self.vtype = items, vtype      # dict bytes -> value


class CVec:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class Void:
    pass


VOID = Void()


class FnVal:
    """lambda / functor closure"""
    __slots__ = ('func', 'this')

    def __init__(self, func, this):
        self.func, self.this = func, this


def same(a, b):
    if a is b:
        return True
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, Obj):
        return a.cls == b.cls and a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Path):
        return a.loc == b.loc and len(a.sels) == len(b.sels) and all(
            x[0] == y[0] and same(x[1], y[1]) for x, y in zip(a.sels, b.sels))
    if isinstance(a, Ref):
        return same(a.path, b.path)
    if isinstance(a, CStr):
        return same(a.null, b.null) and same(a.s, b.s)
    if isinstance(a, (Iter, SPtr)):
        return same(a.cpath, b.cpath) and same(a.pos, b.pos) and a.rev == b.rev
    if isinstance(a, KIter):
        return same(a.cpath, b.cpath) and same(a.key, b.key) and same(a.found, b.found)
    if isinstance(a, CMap):
        return a.items.keys() == b.items.keys() and all(same(a.items[k], b.items[k]) for k in a.items)
    if isinstance(a, CVec):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, FnVal):
        return a.func is b.func
    return a == b


def vsize(v):
    return 1


# ---------------------------------------------- fields of a language table row
LANGF = {f: Function('lang_' + f, IntSort(), Str) for f in ('language', 'country', 'modifier', 'name', 'name_localized')}
LANGN = {f: Function('lang_%s_null' % f, IntSort(), BoolSort()) for f in LANGF}
LANGROWS = [None]


def langfield(sels):
    (_, i), (k, f) = sels
    if f not in LANGF:
        raise Unsupported('field %s of a language' % f)
    v = ival(i)
    rows = LANGROWS[0]
    if v is not None and rows is not None and 1 <= v <= len(rows):
        x = rows[v - 1][list(LANGF).index(f)]
        return CStr(TRUE, STR.empty) if x is None else CStr(FALSE, lit(x))
    return CStr(LANGN[f](i), LANGF[f](i))


# ------------------------------------------------------------------- store
def is_datarec(v):
    return z3.is_expr(v) and v.sort().kind() == z3.Z3_DATATYPE_SORT and v.sort().name() in DECL2DATA


def ent(mt, k):
    """index form of a map key"""
    return k


class State:
    __slots__ = ('store', 'pc', 'undef')

    def __init__(self, store=None, pc=None):
        self.store = {} if store is None else store
        self.pc = [] if pc is None else pc

    def copy(self):
        return State(dict(self.store), list(self.pc))

    def assume(self, c):
        if bval(c) is not True:
            self.pc.append(c)

    def read(self, p):
        if p.loc == ('lang',):
            return langfield(p.sels)
        if p.loc not in self.store:
            raise Unsupported('read of unknown location %s' % (p.loc,))
        v = self.store[p.loc]
        for s in p.sels:
            v = self.sel(v, s)
        return v

    def sel(self, v, s):
        k, x = s
        if k == 'f':
            if isinstance(v, Obj):
                return v.get(x)
            if is_datarec(v):
                return simp(DECL2DATA[v.sort().name()].get(v, x))
            raise Unsupported('field %s of %s' % (x, type(v).__name__))
        if k == 'i':
            if isinstance(v, CVec):
                n = ival(x)
                if n is None:
                    raise Unsupported('symbolic index into a static table')
                if not 0 <= n < len(v.items):
                    raise Unsupported('index %d outside a static table of %d' % (n, len(v.items)))
                return v.items[n]
            if z3.is_expr(v) and is_seq(v):
                return mk_at(v, x)
            raise Unsupported('index into %s' % type(v).__name__)
        if k == 'k':
            if isinstance(v, CMap):
                return v.items[x]
            mt = maptheory(v.sort()) if z3.is_expr(v) else None
            if mt:
                return mt.get(v, x)
            if z3.is_expr(v) and z3.is_array(v):
                return simp(Select(v, x))
        raise Unsupported('selector %s on %s' % (k, type(v).__name__))

    def write(self, p, val):
        if p.loc[0] in ('static', 'fstatic') and WRITE_HOOK[0]:
            WRITE_HOOK[0](self, p)
        if not p.sels:
            self.store[p.loc] = val
            return
        self.store[p.loc] = self.upd(self.store.get(p.loc), list(p.sels), val)

    def upd(self, v, sels, val):
        if not sels:
            return val
        (k, x), rest = sels[0], sels[1:]
        if k == 'f':
            if isinstance(v, Obj):
                new = val if not rest else self.upd(v.get(x), rest, val)
                return v.set(x, new)
            if is_datarec(v):
                info = DECL2DATA[v.sort().name()]
                new = val if not rest else self.upd(info.get(v, x), rest, val)
                new = to_term(new)
                return info.mk(*[new if f == x else info.get(v, f) for f in info.order])
        if k == 'i':
            if isinstance(v, CVec):
                n = ival(x)
                if n is None:
                    raise Unsupported('symbolic store into a static table')
                items = list(v.items)
                items[n] = self.upd(items[n], rest, val)
                return CVec(items)
            if z3.is_expr(v) and is_seq(v):
                new = val if not rest else self.upd(mk_at(v, x), rest, val)
                return mk_upd(v, x, new)
        if k == 'k':
            if isinstance(v, CMap):
                items = dict(v.items)
                items[x] = self.upd(items.get(x), rest, val)
                return CMap(items, v.vtype)
            mt = maptheory(v.sort()) if z3.is_expr(v) else None
            if mt:
                new = val if not rest else self.upd(mt.get(v, x), rest, val)
                return mt.put(v, x, to_term(new))
            if z3.is_expr(v) and z3.is_array(v):
                new = val if not rest else self.upd(simp(Select(v, x)), rest, val)
                return Store(v, x, to_term(new))
        raise Unsupported('store through %s on %s' % (k, type(v).__name__))


def to_term(v):
    """value -> logic term (records become datatype terms)"""
    if z3.is_expr(v):
        return v
    if isinstance(v, bool):
        return BoolVal(v)
    if isinstance(v, int):
        return IntVal(v)
    if v is NULL:
        return IntVal(0)
    if isinstance(v, Obj):
        if v.cls in DATA:
            info = DATA[v.cls]
            return info.mk(*[to_term(v.get(f)) for f in info.order])
        if v.cls == 'Language':
            return to_term(v.get('language_spec'))
    if isinstance(v, CStr):
        return v.s
    raise Unsupported('no logic term for %s' % type(v).__name__)


def leaves(v, path, out, expand=True):
    """(path, value) of the scalar leaves of an object"""
    if isinstance(v, Obj):
        for k in v.f:
            leaves(v.f[k], path.f(k), out)
    else:
        out.append((path, v))
    return out


# --------------------------------------------------------- integer types
INTS = {
    'bool': (1, False), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
    'short': (16, True), 'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False),
    'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
    'size_t': (64, False), 'std::size_t': (64, False), 'size_type': (64, False), 'difference_type': (64, True),
    'ptrdiff_t': (64, True), 'int8_t': (8, True), 'uint8_t': (8, False), 'int32_t': (32, True),
    'uint32_t': (32, False), 'uint64_t': (64, False), 'int64_t': (64, True), 'unsigned': (32, False),
    'std::string::size_type': (64, False), 'ssize_t': (64, True), 'streamsize': (64, True), 'std::streamsize': (64, True),
}


def strip_type(t):
    t = t.replace('volatile ', '').strip()
    while True:
        u = t.strip()
        for p in ('const ',):
            if u.startswith(p):
                u = u[len(p):]
        for p in (' const', '&&', '&'):
            if u.endswith(p):
                u = u[:-len(p)]
        u = u.strip()
        if u == t:
            return u
        t = u


def inttype(t):
    return INTS.get(strip_type(t))


def rng(it):
    b, s = it
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


# sign extension of a byte to `char`; remembered so that it folds away
_sx = {}


def sx(c):
    v = ival(c)
    if v is not None:
        return IntVal(v - 256 if v >= 128 else v)
    t = If(c >= 128, c - 256, c)
    _sx[t.get_id()] = (t, c)
    return t


def unsx(t):
    """byte term c when t is sx(c)"""
    r = _sx.get(t.get_id()) if z3.is_expr(t) else None
    return r[1] if r is not None else None


def cmp_int(op, a, b):
    """comparison of two integer terms with folding of sx(byte) against constants"""
    if op in ('==', '!='):
        for p, q in ((a, b), (b, a)):
            c, k = unsx(p), ival(q)
            if c is not None and k is not None:
                r = mk_eq(c, IntVal(k & 255)) if -128 <= k <= 127 else FALSE
                return r if op == '==' else mk_not(r)
            d = unsx(q)
            if c is not None and d is not None:
                r = mk_eq(c, d)
                return r if op == '==' else mk_not(r)
        r = mk_eq(a, b)
        return r if op == '==' else mk_not(r)
    for p, q, sw in ((a, b, False), (b, a, True)):
        c, k = unsx(p), ival(q)
        if c is not None and k is not None and 0 <= k <= 127:
            o = op
            if sw:
                o = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
            if o == '<':
                return mk_or(c < k, c >= 128)
            if o == '<=':
                return mk_or(c <= k, c >= 128)
            if o == '>':
                return mk_and(c > k, c < 128)
            if o == '>=':
                return mk_and(c >= k, c < 128)
    return simp({'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op])
