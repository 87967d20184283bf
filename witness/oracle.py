"""Plain-Python reference of the documented behaviour.  It only judges the
results of witness runs (failing-input search after a failed obligation, and
the bounded stand-in for text the verifier cannot read); it never decides a
property on its own."""
import json, os, re

REF = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'dv', 'ref', 'tables.json')))
LANGS = [tuple((x or '').encode() for x in r[:3]) for r in REF['languages']]
NAMES = {tuple((x or '').encode() for x in r[:3]): r[3:] for r in REF.get('names', [])}
ALIAS = {}
for k, v in REF["aliases"]:
    ALIAS[k.encode()] = v.encode()
HEADERS = [h.encode() for h in REF['headers']]
WS = b' \t\n\v\f\r'


# ------------------------------------------------------------ plural rules
class CExpr:
    TOK = re.compile(rb'\d+|n|\|\||&&|[=!<>]=|[<>?:!()%+*/-]')

    def __init__(self, text):
        self.t = self.TOK.findall(text)
        self.i = 0
        self.tree = self.cond()
        if self.i != len(self.t) or b''.join(self.t) != text:
            raise ValueError(text)

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def eat(self):
        self.i += 1
        return self.t[self.i - 1]

    def cond(self):
        c = self.bin(0)
        if self.peek() == b'?':
            self.eat()
            a = self.cond()
            if self.eat() != b':':
                raise ValueError
            return ('?', c, a, self.cond())
        return c
    LV = [(b'||',), (b'&&',), (b'==', b'!='), (b'<', b'>', b'<=', b'>='), (b'+', b'-'), (b'*', b'/', b'%')]

    def bin(self, k):
        if k == len(self.LV):
            t = self.eat()
            if t == b'(':
                e = self.cond()
                if self.eat() != b')':
                    raise ValueError
                return e
            if t == b'!':
                return ('!', self.bin(k))
            if t == b'n':
                return ('n',)
            return ('k', int(t))
        a = self.bin(k + 1)
        while self.peek() in self.LV[k]:
            o = self.eat()
            a = (o.decode(), a, self.bin(k + 1))
        return a


def cval(e, n):
    o = e[0]
    if o == 'n':
        return n
    if o == 'k':
        return e[1]
    if o == '?':
        return cval(e[2], n) if cval(e[1], n) else cval(e[3], n)
    if o == '!':
        return int(not cval(e[1], n))
    if o == '||':
        return int(bool(cval(e[1], n)) or bool(cval(e[2], n)))
    if o == '&&':
        return int(bool(cval(e[1], n)) and bool(cval(e[2], n)))
    a, b = cval(e[1], n), cval(e[2], n)
    if o == '/':
        return abs(a) // b if a >= 0 else -(abs(a) // b)
    if o == '%':
        return abs(a) % b if a >= 0 else -(abs(a) % b)
    return int({'+': a + b, '-': a - b, '*': a * b, '==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[o])


RULES = {}
for h in HEADERS:
    m = re.fullmatch(rb'Plural-Forms:nplurals=(\d+);plural=([^;]*);?', h)
    RULES[h] = (int(m.group(1)), CExpr(m.group(2)).tree)


class Plural:
    def __init__(self, n=0, e=None):
        self.n, self.e = n, e

    @staticmethod
    def of(text):
        r = RULES.get(bytes(c for c in text if c not in WS))
        return Plural(*r) if r else Plural()

    def get(self, n):
        return 0 if self.e is None else cval(self.e, n) % (1 << 32)

    def __eq__(self, o):
        return self.n == o.n and self.e == o.e


# -------------------------------------------------------------- dictionary
class Dict:
    def __init__(self, charset=b'UTF-8'):
        self.charset, self.e, self.c, self.pf, self.fb = charset, {}, {}, Plural(), None
        self.cleared = False

    def add(self, ctx, i, s):
        d = self.e if ctx is None else self.c.setdefault(ctx, {})
        l = d.setdefault(i, [])
        if l:
            l[0] = s
        else:
            l.append(s)

    def addl(self, ctx, i, l):
        d = self.e if ctx is None else self.c.setdefault(ctx, {})
        d[i] = list(l)

    def tr(self, ctx, i):
        d = self.e if ctx is None else self.c.get(ctx, {})
        if d.get(i):
            return d[i][0]
        if self.fb is not None:
            return self.fb.tr(ctx, i)
        return i

    def trp(self, ctx, i, p, n):
        d = self.e if ctx is None else self.c.get(ctx, {})
        if i in d:
            k = self.pf.get(n)
            if k >= len(d[i]):
                return i
            if d[i][k]:
                return d[i][k]
        return i if n == 1 else p

    def dump(self):
        v = ['m ' + ' '.join([hx(k)] + [hx(x) for x in l]) for k, l in self.e.items()]
        k = len(v)
        for c, d in self.c.items():
            for m, l in d.items():
                v.append('c ' + ' '.join([hx(c), hx(m)] + [hx(x) for x in l]))
        v.sort()
        r = '1 %d' % k
        for s in v:
            r += ' | ' + s
        r += ' # %d %d' % (self.pf.n, self.pf.e is not None)
        for n in (0, 1, 2, 3, 5, 11, 12, 21, 22, 100, 101, 102, 1000):
            r += ' %d' % self.pf.get(n)
        return r


def hx(b):
    return b.hex() if b else '.'


# ---------------------------------------------------------------- languages
def score(a, b):
    if a[0] != b[0]:
        return 0
    f = lambda x, y: 0 if x == y else 1 if not x or not y else 2
    return [[9, 8, 5], [7, 6, 3], [4, 2, 1]][f(a[1], b[1])][f(a[2], b[2])]


def spec(l, c=b'', m=b''):
    if b'\0' in l:
        return None
    want = (l, c.split(b'\0')[0], m.split(b'\0')[0])
    best, bs = None, 0
    for r in LANGS:
        s = score(r, want)
        if s > bs:
            best, bs = r, s
    return best


def env(s):
    m = re.match(rb'([^_.@]*)(?:_([^.@]*))?', s, re.S)
    l, c = m.group(1), m.group(2) or b''
    k = s.find(b'@')
    return spec(l, c, s[k + 1:] if k >= 0 else b'')


def name(s):
    low = bytes(c + 32 if 65 <= c <= 90 else c for c in s)
    return env(ALIAS.get(low, s))


def ltext(r):
    return r[0] + (b'_' + r[1] if r[1] else b'') + (b'@' + r[2] if r[2] else b'')


def langstr(r):
    if r is None:
        return '0 . . . . . .'
    nm, loc = NAMES.get(r, (None, None))
    return ' '.join(['1', hx(r[0]), hx(r[1]), hx(r[2]), hx(ltext(r)), hx(nm.encode()) if nm is not None else '*',
                     hx((loc if loc is not None else nm).encode()) if nm is not None else '*'])


def f2l(s):
    if s.endswith(b'.po'):
        s = s[:-3]
    s = bytearray(s)
    k = s.find(b'_')
    if k >= 0:
        for i in range(k + 1, len(s)):
            if not (65 <= s[i] <= 90 or 97 <= s[i] <= 122):
                break
            if s[i] >= 97:
                s[i] -= 32
    return bytes(s)


# ------------------------------------------------------------------- charsets
class Unknown(Exception):
    """the reference does not predict this"""


CODEC = {b'UTF-8': 'utf-8', b'UTF8': 'utf-8', b'ISO-8859-1': 'latin-1', b'LATIN1': 'latin-1', b'ISO-8859-2': 'iso8859-2', b'ISO-8859-15': 'iso8859-15',
         b'ASCII': 'ascii', b'US-ASCII': 'ascii', b'UTF-16LE': 'utf-16-le', b'UTF-16BE': 'utf-16-be', b'UTF-32LE': 'utf-32-le', b'UTF-32BE': 'utf-32-be',
         b'BIG5': 'big5', b'SHIFT_JIS': None, b'EUC-JP': 'euc-jp', b'KOI8-R': 'koi8-r', b'ISO-8859-7': 'iso8859-7',
         b'UTF-16': 'utf-16', b'UTF-32': 'utf-32', b'UCS-2LE': None, b'ISO-2022-JP': 'iso2022_jp', b'UTF-7': None}
BAD = (b'NO-SUCH-CHARSET', b'X-UNKNOWN', b'UTF-99', b'FOO', b'BIG5X')


def upper(s):
    return bytes(c - 32 if 97 <= c <= 122 else c for c in s)


def convert(f, t, s):
    """bytes, or None when the pair is not available"""
    f, t = upper(f), upper(t)
    if f == t:
        return s
    if f in BAD or t in BAD:
        return None
    a, b = CODEC.get(f), CODEC.get(t)
    if a is None or b is None:
        raise Unknown
    if a in ('utf-16', 'utf-32') or a == 'iso2022_jp' or a == 'big5' and b != 'utf-8':
        if s:
            raise Unknown
    try:
        u = s.decode(a)
    except UnicodeDecodeError as e:
        if a not in ('utf-8', 'latin-1', 'ascii', 'iso8859-2', 'iso8859-15', 'koi8-r', 'iso8859-7'):
            raise Unknown
        u = s[:e.start].decode(a)
        if b in ('iso2022_jp',):
            raise Unknown
    if a == 'big5' and any(ord(c) > 127 for c in u) and not all(0x4e00 <= ord(c) <= 0x9fff or ord(c) < 128 for c in u):
        raise Unknown
    if b in ('iso2022_jp', 'euc-jp', 'big5') and any(ord(c) > 127 and not 0x3041 <= ord(c) <= 0x3093 and not (b != 'big5' and 0x410 <= ord(c) <= 0x44f) for c in u):
        raise Unknown
    if b in ('utf-16', 'utf-32'):
        if not u:
            return b''
        return u.encode(b)
    try:
        return u.encode(b)
    except UnicodeEncodeError as e:
        return u[:e.start].encode(b)


# --------------------------------------------------------------------- parser
class PErr(Exception):
    pass


class RuntimeErr(Exception):
    pass


ESC = {97: 7, 98: 8, 118: 11, 110: 10, 116: 9, 114: 13, 34: 34, 92: 92}


class Parser:
    def __init__(self, text, d, fuzzy):
        self.lines = text.split(b'\n')
        if self.lines[-1] == b'':
            self.lines.pop()
        self.p = -1
        self.d, self.use, self.big5 = d, fuzzy, False
        self.f = self.t = None
        self.line, self.eof = b'', False

    def next(self):
        self.p += 1
        self.eof = self.p >= len(self.lines)
        self.line = b'' if self.eof else self.lines[self.p]

    def empty(self):
        l = self.line
        if l[:1] == b'#':
            return len(l) == 1 or l[1] in WS
        return all(c in WS for c in l)

    def error(self):
        while not self.eof and not self.empty():
            self.next()
        raise PErr

    def conv(self, s):
        if self.f is None:
            return s
        r = convert(self.f, self.t, s)
        if r is None:
            raise RuntimeErr
        return r

    def get_line(self, skip):
        l = self.line
        if skip + 1 >= len(l) or l[skip] != 34:
            self.error()
        i = skip + 1
        out = bytearray()
        while True:
            if i >= len(l):
                self.error()
            c = l[i]
            if c == 34:
                return bytes(out)
            if self.big5 and 0x81 <= c <= 0xfe:
                out.append(c)
                i += 1
                if i >= len(l):
                    self.error()
                out.append(l[i])
            elif c == 92:
                i += 1
                if i >= len(l):
                    self.error()
                if l[i] in ESC:
                    out.append(ESC[l[i]])
                else:
                    out += l[i - 1:i + 1]
            else:
                out.append(c)
            i += 1

    def get(self, skip):
        l = self.line
        if skip + 1 >= len(l):
            self.error()
        while True:
            if skip >= len(l):
                self.error()
            if l[skip] == 34:
                out = self.get_line(skip)
                break
            if l[skip] not in WS:
                self.error()
            skip += 1
        while True:
            self.next()
            k = len(self.line) - len(self.line.lstrip(WS))
            if self.line[k:k + 1] != b'"':
                return out
            out += self.get_line(k)

    def header(self, h):
        cs = b''
        for line in h.split(b'\n')[:-1]:
            if line.startswith(b'Content-Type:'):
                pre = b'Content-Type: text/plain; charset='
                if line.startswith(pre):
                    cs = upper(line[len(pre):])
            elif line.startswith(b'Plural-Forms:'):
                p = Plural.of(line)
                if p.e is not None and self.d.pf.e is None:
                    self.d.pf = p
        if cs == b'' or cs == b'CHARSET':
            cs = b'UTF-8'
        elif cs == b'BIG5':
            self.big5 = True
        self.f, self.t = cs, self.d.charset
        if convert(self.f, self.t, b'') is None:
            raise RuntimeErr

    def run(self):
        self.next()
        if self.line[:3] == b'\xef\xbb\xbf':
            self.line = self.line[3:]
        while not self.eof:
            try:
                self.entry()
            except PErr:
                pass

    def entry(self):
        fuzzy = False
        while self.line[:1] == b'#':
            if self.line[:2] == b'#,' and b'fuzzy' in self.line[2:]:
                fuzzy = True
            self.next()
        if not self.empty():
            ctx = None
            if self.line.startswith(b'msgctxt'):
                ctx = self.get(7)
            if not self.line.startswith(b'msgid'):
                self.error()
            i = self.get(5)
            if self.line.startswith(b'msgid_plural'):
                self.get(12)
                l = []
                some = False
                while True:
                    if self.empty():
                        if not l:
                            self.error()
                        break
                    x = self.line
                    if not (x.startswith(b'msgstr[') and len(x) > 8 and 48 <= x[7] <= 57 and x[8] == 93):
                        self.error()
                    k = x[7] - 48
                    s = self.get(9)
                    some = some or s != b''
                    l += [b''] * (k + 1 - len(l))
                    l[k] = self.conv(s)
                if some and (self.use or not fuzzy):
                    self.d.addl(ctx, i, l)
            elif self.line.startswith(b'msgstr'):
                s = self.get(6)
                if i == b'':
                    self.header(s)
                elif s and (self.use or not fuzzy):
                    self.d.add(ctx, i, self.conv(s))
            else:
                self.error()
        if not self.empty():
            self.error()
        self.next()


def parse(text, d, fuzzy):
    try:
        Parser(text, d, fuzzy).run()
        return 'ok'
    except RuntimeErr:
        return 'runtime_error'


# -------------------------------------------------------------------- manager
class Mgr:
    def __init__(self, w, charset):
        self.w, self.cs, self.fuzzy, self.dirs, self.lang = w, charset, True, [], None
        self.cache = {}

    def clear(self):
        self.cache = {}

    def get(self, lang):
        if lang in self.cache:
            return self.cache[lang]
        d = Dict(self.cs)
        opened = []
        for p in reversed(self.dirs):
            best, bs = None, 0
            for f in self.w.order.get(p, []):
                if f.endswith(b'.po'):
                    l = env(f2l(f))
                    if l is not None:
                        s = score(lang, l)
                        if s > bs:
                            best, bs = f, s
            if best is not None:
                opened.append(p + b'/' + best)
                c = self.w.fs.get((p, best))
                if isinstance(c, bytes):
                    parse(c, d, self.fuzzy)
        d.opened = opened
        if lang[1]:
            d.fb = self.get(spec(lang[0]))
            d.opened = opened + ([] if getattr(d.fb, 'seen', False) else d.fb.opened)
        self.cache[lang] = d
        return d

    def current(self):
        return EMPTY if self.lang is None else self.get(self.lang)


EMPTY = Dict(b'UTF-8')


class World:
    """expected results of driver operations (None: not predicted)"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.d, self.m, self.order, self.fs = [], [], {}, {}
        self.cb = {'i': 'i', 'w': 'w', 'e': 'e'}

    def do(self, op):
        v, a = op[0], op[1:]
        f = getattr(self, 'o_' + v, None)
        if f is None:
            return None
        try:
            return f(*a)
        except Unknown:
            self.dead = True
            return None

    def o_reset(self):
        self.reset()
        return 'ok'

    def o_dict(self, c):
        self.d.append(Dict(c))
        return str(len(self.d) - 1)

    def o_charset(self, k):
        return hx(self.d[k].charset)

    def o_pf(self, k, h):
        self.d[k].pf = Plural.of(h)
        return 'ok'

    def o_fb(self, k, j):
        self.d[k].fb = self.d[j]
        return 'ok'

    def o_add(self, k, i, s):
        self.d[k].add(None, i, s)
        return 'ok'

    def o_addc(self, k, c, i, s):
        self.d[k].add(c, i, s)
        return 'ok'

    def o_addl(self, k, i, p, *l):
        self.d[k].addl(None, i, l)
        return 'ok'

    def o_addcl(self, k, c, i, p, *l):
        self.d[k].addl(c, i, l)
        return 'ok'

    def o_tr(self, k, i):
        return hx(self.d[k].tr(None, i))

    def o_trc(self, k, c, i):
        return hx(self.d[k].tr(c, i))

    def o_trp(self, k, i, p, n):
        return hx(self.d[k].trp(None, i, p, n))

    def o_trcp(self, k, c, i, p, n):
        return hx(self.d[k].trp(c, i, p, n))

    def o_dump(self, k):
        return self.d[k].dump()

    def o_plural(self, h, *ns):
        p = Plural.of(h)
        return ' '.join([str(p.n), '01'[p.e is not None]] + [str(p.get(n)) for n in ns])

    def o_env(self, s):
        return langstr(env(s))

    def o_name(self, s):
        return langstr(name(s))

    def o_spec(self, l, c, m):
        return langstr(spec(l, c, m))

    def o_undef(self):
        return langstr(None)

    def o_match(self, *a):
        x, y = spec(*a[:3]), spec(*a[3:])
        return str(score(x or (b'', b'', b''), y or (b'', b'', b'')))

    def o_ident(self, *a):
        x, y = spec(*a[:3]), spec(*a[3:])

        def ok(r):
            if not re.fullmatch('[01]{7}', r):
                return False
            eq, ne, lt, gt, h = (int(c) for c in r[:5])
            return eq == (x == y) and ne == 1 - eq and (lt + gt == 0 if eq else lt + gt == 1) and (not eq or h) and \
                int(r[5]) == (x is not None) and int(r[6]) == (y is not None)
        return ok

    def conv(self, f, t, l):
        r = ''
        for s in l:
            c = convert(f, t, s)
            if c is None:
                return r + ' !exc'
            r += ' ' + hx(c)
        return r

    def o_conv(self, f, t, *l):
        if convert(f, t, b'') is None:
            return ' !exc'
        return self.conv(f, t, l)
    o_convl = o_conv

    def o_conv2(self, *a):
        r = ''
        for i in range(0, len(a), 3):
            c = convert(*a[i:i + 3])
            r += ' !exc' if c is None else ' ' + hx(c)
        return r

    def o_po(self, k, fz, text):
        return parse(text, self.d[k], bool(fz)) + ' log'

    def o_podef(self, k, text):
        return parse(text, self.d[k], True)

    def o_fs(self, d, f, c):
        self.order.setdefault(d, []).append(f)
        self.fs[d, f] = c
        return 'ok'

    def o_fsset(self, d, f, c):
        self.fs[d, f] = c
        return 'ok'

    def o_fsno(self, d, f):
        self.order.setdefault(d, []).append(f)
        return 'ok'
    o_fsthrow = o_fsno

    def o_mgr(self, c):
        self.m.append(Mgr(self, c))
        return str(len(self.m) - 1)

    o_unixmgr = o_mgr

    def o_ufile(self, d, f, c):
        return self.o_fs(d, f, c)

    def o_unixdir(self, d):
        return ''.join(' ' + hx(f) for f in sorted(self.order.get(d.rstrip(b'/'), [])))

    def o_unixopen(self, f):
        k = f.rfind(b'/')
        c = self.fs.get((f[:k], f[k + 1:]))
        return '0 .' if c is None else '1 ' + hx(c)

    def o_delmgr(self, k):
        return 'ok'

    def o_mdir(self, k, d, pre):
        m = self.m[k]
        if d not in m.dirs:
            m.clear()
            m.dirs = [d] + m.dirs if pre else m.dirs + [d]
        return 'ok'

    def o_mrm(self, k, d):
        m = self.m[k]
        if d in m.dirs:
            m.clear()
            m.dirs = [x for x in m.dirs if x != d]
        return 'ok'

    def o_mcs(self, k, c):
        self.m[k].clear()
        self.m[k].cs = c
        return 'ok'

    def o_mfz(self, k, b):
        self.m[k].clear()
        self.m[k].fuzzy = bool(b)
        return str(int(bool(b)))

    def o_mlang(self, k, some, *l):
        self.m[k].lang = spec(*l) if some else None
        return langstr(self.m[k].lang)

    def mget(self, d):
        x = d.dump() + ' @ ' + hx(d.charset) + ' @'
        return lambda r: r.startswith(x)

    def o_mget(self, k):
        return self.mget(self.m[k].current())

    def o_mgetl(self, k, *l):
        return self.mget(self.m[k].get(spec(*l)))

    def o_msame(self, k, *l):
        self.m[k].get(spec(*l))
        return '1'

    def o_mcur(self, k, *l):
        return str(int(self.m[k].current() is self.m[k].get(spec(*l))))

    def o_mtr(self, k, i):
        return hx(self.m[k].current().tr(None, i))

    def o_mtrl(self, k, l, c, m, i):
        return hx(self.m[k].get(spec(l, c, m)).tr(None, i))

    def o_mlangs(self, k):
        s = set()
        for p in self.m[k].dirs:
            for f in self.order.get(p, []):
                if f.endswith(b'.po'):
                    l = env(f2l(f))
                    if l:
                        s.add(l)
        return ''.join(' ' + x for x in sorted(hx(ltext(l)) for l in s))

    def o_mconv(self, k, s):
        return hx(f2l(s))

    def o_cb(self, sev, x):
        self.cb[sev] = sev if x == '1' else x
        return 'ok'

    def o_log(self, sev, s):
        x = self.cb[sev]
        tag = {'0': None, 'x': 'x'}.get(x, sev)
        return 'ok' + ('' if tag is None else ' ' + tag + hx(s + b'42'))

    def o_polog(self, k, fz, text):
        r = parse(text, self.d[k], bool(fz))
        cb = dict(self.cb)

        def ok(out):
            t = out.split()
            if t[0] != ('ok' if r == 'ok' else 'exc'):
                return False
            for m in t[1:]:
                if m[0] == 'i' and cb['i'] != 'i' or m[0] == 'w' and cb['w'] != 'w' or m[0] == 'e' and cb['e'] != 'e':
                    return False
                if m[0] == 'x' and 'x' not in cb.values():
                    return False
                if not m.endswith('0a') and m[1:] != '.':
                    return False
            return True
        return ok


STRARGS = {   # positions of integer arguments; the others are strings
    'fb': (0, 1), 'plural': None,
}


def encode(op):
    out = []
    for x in op:
        if isinstance(x, bytes):
            out.append(hx(x))
        else:
            out.append(str(x))
    return ' '.join(out)


def match(exp, got):
    """does the output of the driver agree with the expectation?"""
    if exp is None:
        return True
    if callable(exp):
        return exp(got)
    if '*' in exp.split():
        e, g = exp.split(), got.split()
        return len(e) == len(g) and all(a == '*' or a == b for a, b in zip(e, g))
    return exp == got
