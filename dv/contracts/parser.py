"""POParser (C09-C14): what a .po text means, line by line.

`ls` are the lines of the stream.  Every function below says what one part of
the parser computes from a line number; run() is the meaning of a whole file."""
from ..smt import *
from ..spec import *
from ..verify import Contract, ret, throws, ANY, HAVOC
from ..state import Obj, NULL, Path, Ref, Unsupported, to_term
from ..lib import HEAPS, ICV, upper, cut0, icok, findstr, find1, inttype
from ..infer import tr, ForAll
from ..exec import CallCx
from ..cxxast import tyof
from . import iconv
from .iconv import icv, ghosts
from .plural import pfof
from .dictionary import reg1, regn, reg1x, regnx, pform


def _hp(l, k):
    v = litval(k)
    return mk_and(simp(mk_len(l) >= len(v)), *[mk_eq(mk_at(l, IntVal(i)), IntVal(c)) for i, c in enumerate(v)])


OPS['hp'] = _hp


def hp(l, k): return l[:len(k)] == k
BOM0, BOM1, BOM2 = 239, 187, 191


# ------------------------------------------------------------------ lines
@inline
def ws(c: 'Int') -> 'Bool':
    return c == 32 or (9 <= c and c <= 13)


@spec
def allws(l: 'Str', i: 'Int') -> 'Bool':
    """only white space from i on"""
    if not (0 <= i and i < ln(l)):
        return True
    return allws(l, i + 1) if ws(at(l, i)) else False


@spec
def blank(l: 'Str') -> 'Bool':
    """a line that ends an entry: white space only, or a comment without a flag character"""
    if ln(l) == 0:
        return True
    if at(l, 0) == 35:
        return ln(l) == 1 or ws(at(l, 1))
    return allws(l, 0)


@spec
def L(ls: 'SeqStr', p: 'Int') -> 'Str':
    """line p; empty past the end; without the byte order mark"""
    if not (0 <= p and p < ln(ls)):
        return b''
    s = at(ls, p)
    if p == 0 and ln(s) >= 3 and at(s, 0) == BOM0 and at(s, 1) == BOM1 and at(s, 2) == BOM2:
        return sub(s, 3, ln(s))
    return s


@inline
def nx(ls: 'SeqStr', p: 'Int') -> 'Int':
    return p + 1 if p < ln(ls) else ln(ls)


@spec
def rec(ls: 'SeqStr', p: 'Int') -> 'Int':
    """C12: after an error the parser goes on at the next blank line"""
    if p >= ln(ls):
        return p
    return p if blank(L(ls, p)) else rec(ls, p + 1)


# ------------------------------------------------------------------ C10: strings
@spec
def qpos(l: 'Str', k: 'Int') -> 'Int':
    """the quote that follows white space, -1 when there is none"""
    if not (0 <= k and k < ln(l)):
        return -1
    if at(l, k) == 34:
        return k
    return qpos(l, k + 1) if ws(at(l, k)) else -1


@inline
def lead5(c: 'Int', b5: 'Bool') -> 'Bool':
    """first byte of a two-byte Big5 character"""
    return b5 and 129 <= c and c <= 254


@spec
def dqe(l: 'Str', i: 'Int', b5: 'Bool') -> 'Int':
    """the closing quote of a string whose text begins at i, -1 when there is none"""
    if not (0 <= i and i < ln(l)):
        return -1
    c = at(l, i)
    if c == 34:
        return i
    if c == 92 or lead5(c, b5):
        return -1 if i + 1 >= ln(l) else dqe(l, i + 2, b5)
    return dqe(l, i + 1, b5)


@inline
def escaped(acc: 'Str', c: 'Int') -> 'Str':
    """what a backslash followed by c stands for"""
    return push(acc, 7) if c == 97 else (push(acc, 8) if c == 98 else (push(acc, 11) if c == 118 else (push(acc, 10) if c == 110 else (
        push(acc, 9) if c == 116 else (push(acc, 13) if c == 114 else (push(acc, 34) if c == 34 else (
            push(acc, 92) if c == 92 else push(push(acc, 92), c))))))))


@spec
def dqa(l: 'Str', i: 'Int', b5: 'Bool', acc: 'Str') -> 'Str':
    """acc followed by the decoded text of the string"""
    if not (0 <= i and i < ln(l)):
        return acc
    c = at(l, i)
    if c == 34:
        return acc
    if lead5(c, b5):
        return acc if i + 1 >= ln(l) else dqa(l, i + 2, b5, push(push(acc, c), at(l, i + 1)))
    if c == 92:
        return acc if i + 1 >= ln(l) else dqa(l, i + 2, b5, escaped(acc, at(l, i + 1)))
    return dqa(l, i + 1, b5, push(acc, c))


@inline
def lineok(l: 'Str', q: 'Int', b5: 'Bool') -> 'Bool':
    """a complete string starts at q"""
    return 0 <= q and q + 1 < ln(l) and at(l, q) == 34 and dqe(l, q + 1, b5) >= 0


@data
class GS:
    ok: 'Bool'
    p: 'Int'
    v: 'Str'


@spec
def cont(ls: 'SeqStr', p: 'Int', b5: 'Bool', acc: 'Str') -> 'GS':
    """continuation lines from line p on"""
    l = L(ls, p)
    k = qpos(l, 0)
    if k < 0:
        return GS(True, p, acc)
    if not lineok(l, k, b5):
        return GS(False, rec(ls, p), b'')
    return cont(ls, p + 1, b5, dqa(l, k + 1, b5, acc))


@spec
def gs(ls: 'SeqStr', p: 'Int', skip: 'Int', b5: 'Bool') -> 'GS':
    """the string after a keyword of `skip` bytes on line p, the line where reading ends"""
    l = L(ls, p)
    q = qpos(l, skip) if skip + 1 < ln(l) else -1
    if q < 0:
        return GS(False, rec(ls, p), b'')
    if not lineok(l, q, b5):
        return GS(False, rec(ls, p), b'')
    return cont(ls, p + 1, b5, dqa(l, q + 1, b5, b''))


# ------------------------------------------------------------------ C14: header
@data
class HD:
    cs: 'Str'
    pf: 'PluralForms'


@spec
def hd(h: 'Str', s: 'Int', i: 'Int', cs: 'Str', pf: 'PluralForms') -> 'HD':
    """charset and plural rule declared by the complete lines of a header"""
    if not (0 <= i and i < ln(h)):
        return HD(cs, pf)
    if at(h, i) != 10:
        return hd(h, s, i + 1, cs, pf)
    x = sub(h, s, i)
    if hp(x, b'Content-Type:'):
        if hp(x, b'Content-Type: text/plain; charset='):
            return hd(h, i + 1, i + 1, upper(sub(x, 34, ln(x))), pf)
        return hd(h, i + 1, i + 1, cs, pf)
    if hp(x, b'Plural-Forms:'):
        if pfof(x).plural != 0 and pf.plural == 0:
            return hd(h, i + 1, i + 1, cs, pfof(x))
        return hd(h, i + 1, i + 1, cs, pf)
    return hd(h, i + 1, i + 1, cs, pf)


@data
class PS:
    p: 'Int'
    d: 'Dictionary'
    b5: 'Bool'
    f: 'Str'
    t: 'Str'
    st: 'Int'


@inline
def hdcs(c: 'Str') -> 'Str':
    return upper(b'UTF-8') if ln(c) == 0 or c == b'CHARSET' else upper(c)


@inline
def hdok(c: 'Str', t: 'Str') -> 'Bool':
    """a converter between the charsets exists"""
    return icok(cut0(upper(b'UTF-8')), cut0(t)) if ln(c) == 0 or c == b'CHARSET' else icok(cut0(upper(c)), cut0(t))


@spec
def hdr(S: 'PS', h: 'Str') -> 'PS':
    """effect of a header; st = 2: the charset is unknown and parsing ends with runtime_error"""
    H = hd(h, 0, 0, b'', S.d.plural_forms)
    F = hdcs(H.cs)
    T = upper(S.d.charset)
    return repl(S, d=repl(S.d, plural_forms=H.pf), b5=S.b5 or H.cs == b'BIG5', f=F, t=T,
                st=0 if F == T or hdok(H.cs, T) else 2)


# ------------------------------------------------------------------ C13: comments
@spec
def skipc(ls: 'SeqStr', p: 'Int') -> 'Int':
    """first line that is no comment"""
    if p >= ln(ls):
        return p
    l = L(ls, p)
    return skipc(ls, p + 1) if ln(l) > 0 and at(l, 0) == 35 else p


@inline
def flagged(l: 'Str') -> 'Bool':
    return ln(l) >= 2 and at(l, 1) == 44 and findstr(l, b'fuzzy', 2) != -1


@spec
def fz(ls: 'SeqStr', p: 'Int', f: 'Bool') -> 'Bool':
    """one of the comments has the flag fuzzy"""
    if p >= ln(ls):
        return f
    l = L(ls, p)
    return fz(ls, p + 1, f or flagged(l)) if ln(l) > 0 and at(l, 0) == 35 else f


# ------------------------------------------------------------------ C11, C12: entries
@data
class PL:
    ok: 'Bool'
    p: 'Int'
    l: 'SeqStr'
    saw: 'Bool'


@inline
def setat(l: 'SeqStr', k: 'Int', s: 'Str') -> 'SeqStr':
    return upd(l, k, s) if k < ln(l) else upd(cat(l, fillS(k + 1 - ln(l), b'')), k, s)


@inline
def numbered(x: 'Str') -> 'Bool':
    return hp(x, b'msgstr[') and ln(x) > 8 and 48 <= at(x, 7) and at(x, 7) <= 57 and at(x, 8) == 93


@spec
def plur(ls: 'SeqStr', p: 'Int', b5: 'Bool', f: 'Str', t: 'Str', l: 'SeqStr', saw: 'Bool') -> 'PL':
    """the msgstr[N] lines from line p on"""
    x = L(ls, p)
    if blank(x):
        return PL(ln(l) > 0, p, l, saw)
    if not numbered(x):
        return PL(False, rec(ls, p), l, saw)
    g = gs(ls, p, 9, b5)
    if not g.ok:
        return PL(False, g.p, l, saw)
    return plur(ls, g.p, b5, f, t, setat(l, at(x, 7) - 48, icv(f, t, g.v)), saw or ln(g.v) > 0)


@inline
def put1(d: 'Dictionary', has: 'Bool', x: 'Str', id: 'Str', s: 'Str') -> 'Dictionary':
    return reg1x(d, x, id, s) if has else reg1(d, id, s)


@inline
def putn(d: 'Dictionary', has: 'Bool', x: 'Str', id: 'Str', l: 'SeqStr') -> 'Dictionary':
    return regnx(d, x, id, l) if has else regn(d, id, l)


@spec
def plural(ls: 'SeqStr', S: 'PS', use: 'Bool', has: 'Bool', x: 'Str', id: 'Str') -> 'PS':
    """an entry with plural forms; S.p is the line of msgid_plural"""
    g = gs(ls, S.p, 12, S.b5)
    if not g.ok:
        return repl(S, p=g.p)
    P = plur(ls, g.p, S.b5, S.f, S.t, fillS(0, b''), False)
    if not P.ok:
        return repl(S, p=P.p)
    return repl(S, p=nx(ls, P.p), d=putn(S.d, has, x, id, P.l) if P.saw and use else S.d)


@inline
def singular1(S: 'PS', use: 'Bool', has: 'Bool', x: 'Str', id: 'Str', v: 'Str') -> 'PS':
    return hdr(S, v) if ln(id) == 0 else repl(S, d=put1(S.d, has, x, id, icv(S.f, S.t, v)) if ln(v) > 0 and use else S.d)


@spec
def singular(ls: 'SeqStr', S: 'PS', use: 'Bool', has: 'Bool', x: 'Str', id: 'Str') -> 'PS':
    """an entry with one msgstr, or the header; S.p is the line of msgstr"""
    g = gs(ls, S.p, 6, S.b5)
    if not g.ok:
        return repl(S, p=g.p)
    R = singular1(S, use, has, x, id, g.v)
    if R.st != 0:
        return R
    return repl(R, p=nx(ls, g.p) if blank(L(ls, g.p)) else rec(ls, g.p))


@spec
def ent2(ls: 'SeqStr', S: 'PS', use: 'Bool', has: 'Bool', x: 'Str') -> 'PS':
    """from msgid on"""
    if not hp(L(ls, S.p), b'msgid'):
        return repl(S, p=rec(ls, S.p))
    g = gs(ls, S.p, 5, S.b5)
    if not g.ok:
        return repl(S, p=g.p)
    l = L(ls, g.p)
    if hp(l, b'msgid_plural'):
        return plural(ls, repl(S, p=g.p), use, has, x, g.v)
    if hp(l, b'msgstr'):
        return singular(ls, repl(S, p=g.p), use, has, x, g.v)
    return repl(S, p=rec(ls, g.p))


@spec
def ent(ls: 'SeqStr', S: 'PS', use: 'Bool') -> 'PS':
    """an entry from its first line that is no comment"""
    if hp(L(ls, S.p), b'msgctxt'):
        g = gs(ls, S.p, 7, S.b5)
        if not g.ok:
            return repl(S, p=g.p)
        return ent2(ls, repl(S, p=g.p), use, True, g.v)
    return ent2(ls, S, use, False, b'')


@spec
def step(ls: 'SeqStr', S: 'PS', use: 'Bool') -> 'PS':
    """one entry with the comments before it"""
    p = skipc(ls, S.p)
    if blank(L(ls, p)):
        return repl(S, p=nx(ls, p))
    return ent(ls, repl(S, p=p), use or not fz(ls, S.p, False))


@spec
def run(ls: 'SeqStr', S: 'PS', use: 'Bool') -> 'PS':
    if S.st != 0 or S.p >= ln(ls):
        return S
    return run(ls, step(ls, S, use), use)


# ------------------------------------------------------------------ lemmas
Lemma('rec_range', [('ls', 'SeqStr'), ('p', 'Int')],
      lambda ls, p: ([p >= 0, p <= mk_len(ls)], And(rec(ls, p) >= p, rec(ls, p) <= mk_len(ls)), [rec(ls, p)]),
      induct=lambda ls, p: mk_ite(p <= mk_len(ls), mk_len(ls) - p, IntVal(0)))
Lemma('skipc_range', [('ls', 'SeqStr'), ('p', 'Int')],
      lambda ls, p: ([p >= 0, p <= mk_len(ls)], And(skipc(ls, p) >= p, skipc(ls, p) <= mk_len(ls)), [skipc(ls, p)]),
      induct=lambda ls, p: mk_ite(p <= mk_len(ls), mk_len(ls) - p, IntVal(0)))
Lemma('qpos_range', [('l', 'Str'), ('k', 'Int')],
      lambda l, k: ([k >= 0], Or(qpos(l, k) == -1, And(qpos(l, k) >= k, qpos(l, k) < mk_len(l), mk_at(l, qpos(l, k)) == 34)), [qpos(l, k)]),
      induct=lambda l, k: mk_ite(k <= mk_len(l), mk_len(l) - k, IntVal(0)))

def _line_search(h, s, i, cs, pf):
    """searching the next line end from i is as good as walking to it"""
    j = find1(h, IntVal(10), i)
    return ([i >= 0], mk_eq(hd.term(h, s, i, cs, pf), mk_ite(j < 0, DATA['HD'].mk(cs, pf), hd.body(h, s, j, cs, pf))), [(hd.term(h, s, i, cs, pf), j)])


Lemma('hd_search', [('h', 'Str'), ('s', 'Int'), ('i', 'Int'), ('cs', 'Str'), ('pf', 'PluralForms')], _line_search,
      induct=lambda h, s, i, cs, pf: mk_ite(i <= mk_len(h), mk_len(h) - i, IntVal(0)),
      hints=lambda h, s, i, cs, pf: [find1(h, IntVal(10), simp(i + 1)), hd.term(h, s, simp(i + 1), cs, pf)],
      ground=('hd', lambda *a: (find1(a[0], IntVal(10), a[2]), lambda: Implies(*[mk_and(*x) if isinstance(x, list) else x for x in _line_search(*a)[:2]]))))

# ------------------------------------------------------------------ the object
IN, THIS = ('istream',), ('this',)
MAXL = (1 << 31) - 64


def lines(cx):
    return cx.rd(stream(cx)).get('lines')


def stream(cx):
    return cx.t('in').path


def posn(cx):
    """number of the current line"""
    o = cx.rd(stream(cx))
    return position(cx.t('eof'), mk_len(o.get('lines')), o.get('pos'))


def position(eof, n, pos):
    v = bval(eof)
    if v is not None:
        return n if v else simp(pos - 1)
    if z3.is_eq(eof) and eof.arg(0).sort() == IntSort() and z3.is_app(pos) and pos.decl().kind() == z3.Z3_OP_ITE and pos.arg(0).eq(eof):
        # ite(q = n, n, ite(q = n, _, x) - 1) = ite(q = n, n, x - 1), which is q when x = q + 1
        for q, m in ((eof.arg(0), eof.arg(1)), (eof.arg(1), eof.arg(0))):
            if m.eq(n) and simp(pos.arg(2) - 1).eq(simp(q)):
                return q
    return mk_ite(eof, n, simp(pos - 1))


def this(ex, st):
    """a parser at an arbitrary point of an arbitrary file"""
    f = {}
    for x in ex.prog.classes['POParser']:
        n = x['name']
        if n == 'in':
            st.store[IN] = ex.fresh_value('in', 'istream')
            f[n] = Ref(Path(IN))
        elif n == 'dict':
            h = HEAPS['Dictionary']
            st.store[h] = fresh('heap', ArraySort(IntSort(), TYPES['Dictionary']))
            d = fresh('dict', IntSort())
            st.assume(d >= 1)
            f[n] = Ref(Path(h).k(d))
        else:
            f[n] = ex.fresh_value(n, tyof(x))
    st.store[THIS] = Obj('POParser', f)
    return Path(THIS)


def inv(eof, good, pos, ls, cur, num, slack=16):
    """the current line is the last one read"""
    n = mk_len(ls)
    return And(pos >= 0, num >= 0, mk_ite(eof, mk_and(mk_not(good), simp(mk_len(cur) == 0), num <= pos + slack, pos <= n),
                                          mk_and(good, pos >= 1, pos <= n, num <= pos, mk_eq(cur, L.term(ls, simp(pos - 1))))))


def state(cx):
    o = cx.rd(stream(cx))
    return [('the current line is the last one read',
             inv(cx.t('eof'), o.get('good'), o.get('pos'), o.get('lines'), cx.t('current_line'), cx.t('line_number')))]


def sizes(cx):
    ls = lines(cx)
    return size_facts(ls)


def size_facts(ls):
    k = Int('k!l')
    return [('fewer than 2^31-64 lines of less than 2^31 bytes',
             And(mk_len(ls) < MAXL, ForAll([k], mk_len(L.decl(ls, k)) < 1 << 31, patterns=[L.decl(ls, k)])))]


SIZES = ['a .po file has fewer than 2^31-64 lines, each shorter than 2^31 bytes']


def moves(cx, q, guarantee=()):
    """the parser goes on at line q: (writes, assume, exist)"""
    ls = lines(cx)
    n = mk_len(ls)
    num = fresh('line_number', IntSort())
    pos = fresh('pos', IntSort())
    tp = cx.tp
    s = stream(cx)
    end = mk_eq(q, n)
    return ([(tp('eof'), end), (s.f('good'), mk_not(end)), (s.f('pos'), mk_ite(end, pos, simp(q + 1))), (tp('current_line'), L.term(ls, q)),
             (tp('line_number'), num)],
            [num >= 0, num <= pos + mk_ite(cx.t('eof'), IntVal(16), IntVal(1)), mk_or(end, num <= pos), pos >= 0, pos <= n, q >= 0, q <= n, mk_or(end, mk_eq(pos, simp(q + 1))),
             mk_len(L.term(ls, q)) < 1 << 31] + list(guarantee),
            [(num, ('w', tp('line_number'))), (pos, ('w', s.f('pos')))])


def gs_outs(cx, R, value, facets=None):
    """string functions: `value(v)` gives (result, extra writes)"""
    ls, p = lines(cx), posn(cx)
    n = mk_len(ls)
    G = DATA['GS']
    ok, q, v = G.get(R, 'ok'), G.get(R, 'p'), G.get(R, 'v')
    out = []
    w, a, e = moves(cx, q, [q > p])
    r, w2 = value(v)
    out.append(ret(r, cond=ok, writes=w + w2, assume=a, exist=e))
    w, a, e = moves(cx, q, [q >= p, mk_or(blank(L.term(ls, p)), q > p)])
    out.append(throws('POParserError', mk_not(ok), writes=w, assume=a, exist=e))
    return out


def get_string(cx):
    R = gs.term(lines(cx), posn(cx), cx.v(0), cx.t('big5'))
    return gs_outs(cx, R, lambda v: (v, []))


def failing(cx, cond=TRUE, extra=()):
    ls, p = lines(cx), posn(cx)
    q = rec.term(ls, p)
    w, a, e = moves(cx, q, [q >= p, mk_or(blank(L.term(ls, p)), q > p)])
    return [throws('POParserError', cond, writes=w + list(extra), assume=a, exist=e)]


def get_string_line(cx):
    l, q, b5 = cx.t('current_line'), cx.v(1), cx.t('big5')
    ok = lineok.term(l, q, b5)
    out = cx.path(0).f('buf')
    return [ret(cond=ok, writes=[(out, dqa.term(l, simp(q + 1), b5, cx.rd(out)))])] + failing(cx, mk_not(ok), [(out, HAVOC)])


def next_line(cx):
    o = cx.rd(stream(cx))
    ls, pos, good = o.get('lines'), o.get('pos'), o.get('good')
    num = simp(cx.t('line_number') + 1)
    s = stream(cx)
    more = mk_and(good, simp(pos < mk_len(ls)))
    N = (cx.tp('line_number'), num)
    return [ret(cond=more, writes=[N, (cx.tp('current_line'), mk_at(ls, pos)), (s.f('pos'), simp(pos + 1))]),
            ret(cond=mk_not(more), writes=[N, (cx.tp('current_line'), STR.empty), (cx.tp('eof'), TRUE), (s.f('good'), FALSE)])]


def numfits(cx):
    return [('the line number fits an int', And(cx.t('line_number') >= 0, cx.t('line_number') < (1 << 31) - 1))]


def conv(cx):
    return CallCx(cx.ex, cx.f, cx.tp('conv'), cx.vals, cx.st)


def dict_of(cx):
    return cx.t('dict').path


def ps(cx, p):
    return DATA['PS'].mk(p, cx.rd(dict_of(cx)), cx.t('big5'), cx.t('conv', 'from_charset'), cx.t('conv', 'to_charset'), IntVal(0))


def parse_header(cx):
    P = DATA['PS']
    R = hdr.term(ps(cx, IntVal(0)), cx.v(0))
    d = cx.rd(dict_of(cx))
    H = hd.term(cx.v(0), IntVal(0), IntVal(0), STR.empty, DATA['Dictionary'].get(d, 'plural_forms'))
    cc = conv(cx)
    info = DATA['Dictionary']
    d2 = info.mk(*[DATA['HD'].get(H, 'pf') if x == 'plural_forms' else info.get(d, x) for x in info.order])

    cs = DATA['HD'].get(H, 'cs')
    none = mk_or(mk_eq(mk_len(cs), IntVal(0)), mk_eq(cs, lit(b'CHARSET')))

    def obj(F, T, cd, cond, ghost, exc=None, h=None, assume=()):
        w = [(dict_of(cx), d2), (cx.tp('big5'), mk_or(cx.t('big5'), mk_eq(cs, lit(b'BIG5')))),
             (cc.tp('from_charset'), F), (cc.tp('to_charset'), T), (cc.tp('cd'), cd)] + iconv.ERR
        ex = [(h, ('w', cc.tp('cd')))] if h is not None else []
        if exc:
            return throws(exc, cond, w, ghost=ghost)
        return ret(cond=cond, writes=w, ghost=ghost, assume=assume, exist=ex)
    out = []
    for c, F0 in ((none, lit(b'UTF-8')), (mk_not(none), cs)):
        out += iconv.setc(cc, F0, info.get(d, 'charset'), lambda *a, c=c, **kw: obj(*a, **dict(kw, cond=mk_and(c, kw['cond']))), iconv.released(cc))
    return out


def dict_path(vw):
    for v in vw.head.store.values():
        if isinstance(v, Obj) and v.cls == 'POParser' and 'dict' in v.f:
            return v.get('dict').path
    return None


def plural_forms(vw):
    """the plural rule of the dictionary"""
    q = dict_path(vw)
    if q is not None:
        yield 'plural_forms', lambda st: DATA['Dictionary'].get(st.read(q), 'plural_forms')


def only_rule(vw):
    """nothing but the plural rule of the dictionary changes"""
    q = dict_path(vw)
    if q is None or len(q.sels) != 1:
        return
    info = DATA['Dictionary']

    def f(st):
        d0, h0 = vw.entry.read(q), vw.entry.store[q.loc]
        d = info.mk(*[info.get(st.read(q) if x == 'plural_forms' else d0, x) for x in info.order])
        return mk_eq(st.store[q.loc], Store(h0, q.sels[0][1], d))
    yield 'only the plural rule of the dictionary changes', f


def whole_file(cx):
    o = cx.v(1)
    return [('the stream is at its first line', mk_eq(o.get('pos'), IntVal(0)))] + size_facts(o.get('lines'))


def parse(cx):
    o = cx.v(1)
    d = cx.path(2)
    P = DATA['PS']
    R = run.term(o.get('lines'), P.mk(IntVal(0), cx.rd(d), FALSE, STR.empty, STR.empty, IntVal(0)), cx.v(3))
    bad = mk_and(o.get('good'), mk_not(mk_eq(P.get(R, 'st'), IntVal(0))))
    w = [(d, mk_ite(o.get('good'), P.get(R, 'd'), cx.rd(d))), (cx.path(1).f('pos'), HAVOC), (cx.path(1).f('good'), HAVOC), (Path(('errno',)), HAVOC)]
    w += [(Path(ICV[k]), HAVOC) for k in ('from', 'to', 'phase', 'src', 'tot', 'in', 'emit')]
    return [ret(cond=mk_not(bad), writes=w), throws('runtime_error', bad, w)]


def hsize(cx):
    return [('a header of less than 2^31 bytes', mk_len(cx.v(0)) < 1 << 31)]


def parser_of(vw):
    for loc, v in vw.head.store.items():
        if isinstance(v, Obj) and v.cls == 'POParser' and 'in' in v.f:
            return loc
    return None


def here(loc):
    """State -> current position, line, ..."""
    def f(st):
        o = st.store[loc]
        i = st.read(o.get('in').path)
        ls = i.get('lines')
        return ls, position(o.get('eof'), mk_len(ls), i.get('pos')), o, i
    return f


def reading(vw):
    """the object invariant; recovery"""
    loc = parser_of(vw)
    if loc is None:
        return
    h = here(loc)

    def ok(st, slack):
        ls, p, o, i = h(st)
        return inv(o.get('eof'), i.get('good'), i.get('pos'), ls, o.get('current_line'), o.get('line_number'), slack)
    for k, slack in enumerate((IntVal(1), mk_ite(h(vw.entry)[2].get('eof'), IntVal(16), IntVal(1)), IntVal(17))):
        yield 'the current line is the last one read' + '.' * k, lambda st, slack=slack: ok(st, slack)
    yield 'the parser does not go back', lambda st: h(st)[1] >= h(vw.entry)[1]
    yield 'the parser goes on', lambda st: h(st)[1] > h(vw.entry)[1]
    yield 'recovery goes to the same line', lambda st: mk_eq(rec.term(*h(st)[:2]), rec.term(*h(vw.entry)[:2]))


def left(vw):
    """lines that are left"""
    loc = parser_of(vw)
    if loc is None:
        return
    h = here(loc)
    yield 'lines left', lambda st: simp(mk_len(h(st)[0]) - h(st)[1])


def continuing(vw):
    """the string read so far, followed by what the lines from the next one on add to it"""
    loc = parser_of(vw)
    if loc is None:
        return
    h = here(loc)
    for a in vw.of('Str', True):
        if a.p.loc == loc:
            continue

        def f(st, d, a=a):
            ls, p, o, i = h(st)
            return cont.term(ls, simp(p + d), o.get('big5'), a(st))
        yield '%s: continued on the next line as at entry' % a.name(vw.ex), lambda st, f=f: mk_eq(f(st, 1), f(vw.entry, 1))
        yield '%s: continued as at entry' % a.name(vw.ex), lambda st, f=f: mk_eq(f(st, 0), f(vw.entry, 0))


DQ = [tr('dqe', 'Str', 'Int*', 'Bool'), tr('dqa', 'Str', 'Int*', 'Bool', 'Str*')]

def running(vw):
    """what the rest of the file does"""
    loc = parser_of(vw)
    if loc is None:
        return
    h = here(loc)
    P = DATA['PS']

    def S(st):
        ls, p, o, i = h(st)
        cv = o.get('conv')
        return P.mk(p, st.read(o.get('dict').path), o.get('big5'), cv.get('from_charset'), cv.get('to_charset'), IntVal(0))
    q = dict_path(vw)
    for b in vw.of('Bool', False) if any(k[0] == q.loc for k in vw.W) else []:
        yield 'the rest of the file, %s' % b.name(vw.ex), lambda st, b=b: mk_eq(
            run.term(h(st)[0], S(st), b(st)), run.term(h(vw.entry)[0], S(vw.entry), b(vw.entry)))
    yield 'only this dictionary changes', lambda st: mk_eq(
        st.store[q.loc], Store(vw.entry.store[q.loc], q.sels[0][1], st.read(q)))


def comments(vw):
    loc = parser_of(vw)
    if loc is None:
        return
    h = here(loc)
    yield 'comments end at the same line', lambda st: mk_eq(skipc.term(*h(st)[:2]), skipc.term(*h(vw.entry)[:2]))
    for b in vw.of('Bool', True):
        if b.p.loc[0] == 'v' and b.p.loc != loc:
            f = lambda st, b=b: fz.term(*(h(st)[:2] + (b(st),)))
            yield '%s: flagged as at entry' % b.name(vw.ex), lambda st, f=f: mk_eq(f(st), f(vw.entry))


def forms(vw):
    loc = parser_of(vw)
    if loc is None:
        return
    h = here(loc)
    for l in vw.of('SeqStr', True):
        for b in vw.of('Bool', True):
            if b.field:
                continue

            def f(st, l=l, b=b):
                ls, p, o, i = h(st)
                cv = o.get('conv')
                return plur.term(ls, p, o.get('big5'), cv.get('from_charset'), cv.get('to_charset'), l(st), b(st))
            yield '%s, %s: numbered forms as at entry' % (l.name(vw.ex), b.name(vw.ex)), lambda st, f=f: mk_eq(f(st), f(vw.entry))


def converter(vw):
    """the parser owns at most one descriptor, closed when it ends"""
    loc = parser_of(vw)
    if loc is None or ICV['live'] not in vw.entry.store:
        return

    def f(st):
        cv = st.store[loc].get('conv')
        cd = cv.get('cd')
        cd = IntVal(0) if cd is NULL else cd
        F, T = cv.get('from_charset'), cv.get('to_charset')
        g = lambda k: st.store[ICV[k]]
        live0 = vw.entry.store[ICV['live']]
        none = mk_eq(cd, IntVal(0))
        return And(cd >= 0, none == mk_eq(F, T), mk_ite(none, mk_eq(g('live'), live0), And(
            Not(Select(live0, cd)), mk_eq(g('live'), Store(live0, cd, TRUE)), Select(g('from'), cd) == cut0(F), Select(g('to'), cd) == cut0(T),
            Select(g('phase'), cd) == 0)))
    yield 'one descriptor for the charsets', f


ALL = ['C10', 'C11', 'C12', 'C13', 'C14']

CONTRACTS = [
    Contract('POParser::is_empty_line', lambda cx: ret(blank.term(cx.t('current_line'))), this=this, props=['C11', 'C12'], also=['C09'],
             safety=['C09'], templates=[tr('allws', 'Str', 'Int*')], optional=True),
    Contract('POParser::next_line', next_line, this=this, pre=numfits, props=['C10', 'C11', 'C12'], also=['C09'], safety=['C09'], facets_pre=['C09'],
             optional=True),
    Contract('POParser::warning', lambda cx: ret(), this=this, props=ALL, also=['C09', 'C19'], safety=['C09'], optional=True),
    Contract('POParser::error', failing, this=this, pre=state, given=sizes, assumes=SIZES, props=['C12'], also=['C09'], safety=['C09'],
             facets_pre=ALL + ['C09'], optional=True, lemmas=['rec_range'], templates=[reading], measures=[left]),
    Contract('POParser::get_string_line', get_string_line, this=this, pre=lambda cx: state(cx) + [('the position fits', cx.v(1) < 1 << 32)], given=sizes, assumes=SIZES, props=['C10'], also=['C09', 'C12'],
             safety=['C09'], facets_pre=ALL + ['C09'], optional=True, templates=DQ),
    Contract('POParser::get_string', get_string, parallel=True, this=this, pre=lambda cx: state(cx) + [('the position fits', cx.v(0) < 1 << 31)], given=sizes, assumes=SIZES, props=['C10'], also=['C09', 'C12'],
             safety=['C09'], facets_pre=ALL + ['C09'], optional=True, lemmas=['qpos_range', 'rec_range'],
             templates=[tr('qpos', 'Str', 'Int*'), reading, continuing], measures=[left]),
    Contract('POParser::parse_header', parse_header, parallel=True, this=this, entry=ghosts, pre=lambda cx: iconv.owned(conv(cx)), given=hsize, assumes=SIZES,
             props=['C14'], also=['C09', 'C15'], safety=['C09'], facets_pre=['C15'], optional=True, timeout=10000,
             lemmas=['hd_search'],
             templates=[tr('hd', 'Str', 'Int*', 'Int*', 'Str*', plural_forms), tr('hd', 'Str', 'Int*', 1, 'Str*', plural_forms), only_rule]),
    Contract('POParser::parse', parse, nparams=4, join=True, parallel=True, follow=['run', 'step', 'ent', 'ent2', 'plural', 'singular', 'hdr'], entry=ghosts, given=whole_file, assumes=SIZES, props=ALL, also=['C09', 'C15'], safety=['C09'],
             depth=1, timeout=15000, maxsteps=400000, fold=['cont', 'gs', 'dqe', 'dqa', 'qpos', 'allws', 'hd', 'regn', 'regnx', 'reg1', 'reg1x', 'cut0', 'upper'],
             lemmas=['rec_range'], templates=[reading, running, comments, forms, converter], measures=[left]),
]
