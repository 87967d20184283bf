"""Plural rules (C04)."""
import json, os, re
from ..smt import *
from ..spec import *
from ..verify import Contract, ret, ANY
from ..lib import c_isspace
from ..state import Obj, Unsupported
from .. import smt
from . import dictionary      # PluralForms record

REF = json.load(open(os.path.join(os.path.dirname(__file__), '..', 'ref', 'tables.json')))
HEADERS = [h.encode() for h in REF['headers']]


@inline
def isspc(c: 'Int') -> 'Bool':
    return (c >= 9 and c <= 13) or c == 32


@spec
def nosp(s: 'Str', k: 'Int') -> 'Str':
    """the first k bytes of s without white space"""
    if k <= 0:
        return b''
    c = at(s, k - 1)
    return nosp(s, k - 1) if isspc(c) else push(nosp(s, k - 1), c)


# ------------------------------------------- the C expression of a header
class Expr:
    """recursive-descent parser for the expression language of Plural-Forms"""

    def __init__(self, text):
        self.t = re.findall(r'\d+|n|\|\||&&|==|!=|<=|>=|[-+*/%<>?:()!]', text)
        if ''.join(self.t) != text:
            raise ValueError('unknown token in %r' % text)
        self.i = 0
        self.tree = self.tern()
        if self.i != len(self.t):
            raise ValueError('trailing text in %r' % text)

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self, *ts):
        if self.peek() in ts:
            self.i += 1
            return self.t[self.i - 1]

    def tern(self):
        c = self.binary(0)
        if self.take('?'):
            a = self.tern()
            if not self.take(':'):
                raise ValueError(': expected')
            return ('?', c, a, self.tern())
        return c
    LEVELS = [('||',), ('&&',), ('==', '!='), ('<', '>', '<=', '>='), ('+', '-'), ('*', '/', '%')]

    def binary(self, l):
        if l == len(self.LEVELS):
            return self.unary()
        a = self.binary(l + 1)
        while True:
            o = self.take(*self.LEVELS[l])
            if not o:
                return a
            a = (o, a, self.binary(l + 1))

    def unary(self):
        if self.take('!'):
            return ('!', self.unary())
        if self.take('('):
            e = self.tern()
            if not self.take(')'):
                raise ValueError(') expected')
            return e
        x = self.peek()
        self.i += 1
        if x == 'n':
            return ('n',)
        if x and x.isdigit():
            return ('k', int(x))
        raise ValueError('operand expected')


def cval(e, n):
    """value of the expression for the int n (C semantics)"""
    o = e[0]
    if o == 'n':
        return n
    if o == 'k':
        return e[1]
    if o == '?':
        return cval(e[2], n) if cval(e[1], n) else cval(e[3], n)
    if o == '!':
        return int(not cval(e[1], n))
    if o == '||':
        return int(bool(cval(e[1], n)) or bool(cval(e[2], n)))
    if o == '&&':
        return int(bool(cval(e[1], n)) and bool(cval(e[2], n)))
    a, b = cval(e[1], n), cval(e[2], n)
    if o in ('/', '%'):
        return cdiv(a, b) if o == '/' else cmod(a, b)
    return {'==': lambda: int(a == b), '!=': lambda: int(a != b), '<': lambda: int(a < b), '>': lambda: int(a > b),
            '<=': lambda: int(a <= b), '>=': lambda: int(a >= b), '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[o]()


def tval(e, n):
    """the same as a term"""
    o = e[0]
    B = lambda t: mk_not(mk_eq(t, IntVal(0)))
    N = lambda c: mk_ite(c, IntVal(1), IntVal(0))
    if o == 'n':
        return n
    if o == 'k':
        return IntVal(e[1])
    if o == '?':
        return mk_ite(tbool(e[1], n), tval(e[2], n), tval(e[3], n))
    if o in ('!', '||', '&&', '==', '!=', '<', '>', '<=', '>='):
        return N(tbool(e, n))
    a, b = tval(e[1], n), tval(e[2], n)
    if o == '/':
        return t_cdiv(a, b)
    if o == '%':
        return t_cmod(a, b)
    return {'+': a + b, '-': a - b, '*': a * b}[o]


def tbool(e, n):
    o = e[0]
    if o == '!':
        return mk_not(tbool(e[1], n))
    if o == '||':
        return mk_or(tbool(e[1], n), tbool(e[2], n))
    if o == '&&':
        return mk_and(tbool(e[1], n), tbool(e[2], n))
    if o in ('==', '!=', '<', '>', '<=', '>='):
        a, b = tval(e[1], n), tval(e[2], n)
        return simp({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[o])
    return mk_not(mk_eq(tval(e, n), IntVal(0)))


def parse_header(h):
    """(nplurals, expression) of a header without white space, or None"""
    m = re.fullmatch(r'Plural-Forms:nplurals=(\d+);plural=([^;]*);?', h.decode('latin-1'))
    if not m:
        return None
    try:
        return int(m.group(1)), Expr(m.group(2)).tree
    except ValueError:
        return None


def rule_term(V, f):
    n = Int('n!rule')
    rng = [n >= -(1 << 31), n < (1 << 31)]
    return n, rng, V.pure_term(f, [n], pc=rng)


KNOWN_OUT_OF_RANGE = {HEADERS[12]}


def rule_proof(V, c, f, K, memo):
    """obligations: the function computes the declared expression, within range"""
    key = (f.key, f.mangled, K)
    if key in memo:
        return memo[key]
    ph = parse_header(K)
    if ph is None:
        memo[key] = (smt.Proof(False, 'the key is not a Plural-Forms header'), smt.Proof(False, 'no header'))
        return memo[key]
    N, e = ph
    n, rng, t = rule_term(V, f)
    p1 = V.prove(rng, mk_eq(t, tval(e, n)), c)
    p2 = V.prove(rng + [n >= 0], And(t >= 0, t < N), c)
    memo[key] = (p1, p2)
    return memo[key]


def from_string_end(V, ex, cx, k, s, v, pc):
    c = ex.cur_contract
    if k not in ('ret',):
        return []
    memo = V.__dict__.setdefault('rule_memo', {})
    key = nosp(cx.v(0), mk_len(cx.v(0)))
    np, pid = ival(v.get('nplural')), ival(v.get('plural'))
    if np is None or pid is None:
        raise Unsupported('a plural rule that is not a constant')
    out = []
    if pid == 0:
        out.append(('an undefined rule has no forms', BoolVal(np == 0), None))
        for K in HEADERS:
            out.append(('header %s is recognised' % K.decode(), mk_not(mk_eq(key, lit(K))), None))
        return out
    f = ex.fnids.get(pid)
    if f is None:
        raise Unsupported('unknown rule function')
    # the header that selects this rule on this path
    cand = set(HEADERS)
    for h in pc:
        for t in subterms([h]):
            b = litval(t) if t.num_args() == 0 and t.sort() == Str else None
            if b and b.startswith(b'Plural'):
                cand.add(b)
    hyps = pc
    first = []
    for t in subterms([h for h in pc if z3.is_eq(h) or z3.is_or(h)]):
        if z3.is_eq(t) and t.arg(0).sort() == Str:
            first += [litval(y) for y in t.children() if litval(y) in cand and litval(y) not in first]
    for Ks in [[K] for K in first] + [first] + [[K] for K in sorted(cand) if K not in first]:
        if Ks and V.prove(hyps, mk_or(*[mk_eq(key, lit(K)) for K in Ks]), c, timeout=3000).ok:
            for K in Ks:
                ph = parse_header(K)
                nm = K.decode()
                out.append(('nplurals of %s' % nm, BoolVal(ph is not None and np == ph[0]), None))
                p1, p2 = rule_proof(V, c, f, K, memo)
                out.append(('rule of %s computes the declared expression' % nm, p1, None))
                out.append(('rule of %s stays below nplurals' % nm, p2, None))
            return out
    out.append(('the chosen rule belongs to the header', FALSE, None))
    return out


def nosp_templates(vw):
    """a string collects the non-blank bytes of another one up to an index"""
    for s in vw.strs:
        if not s.ch:
            continue
        for a in vw.ints:
            if not a.ch:
                continue
            for t in vw.strs:
                if t.ch:
                    continue
                yield ('%s = nosp(%s, %s)' % (s.name(vw.ex), t.name(vw.ex), a.name(vw.ex)),
                       lambda st, s=s, a=a, t=t: mk_eq(s(st), nosp(t(st), a(st))))


@opaque()
def pfof(s: 'Str') -> 'PluralForms':
    """the rule from_string picks for a header line"""
    raise NotImplementedError


def picked(cx):
    """for callers: some function of the text (which one is what from_string_end proves)"""
    r = pfof.term(cx.v(0))
    info = DATA['PluralForms']
    n, p = info.get(r, 'nplural'), info.get(r, 'plural')
    return ret(Obj('PluralForms', {'nplural': n, 'plural': p}), assume=[p >= 0, n >= 0, n < 1 << 32])


CONTRACTS = [
    Contract('PluralForms::from_string', lambda cx: ret(ANY), outs_call=picked, props=['C04'], templates=[nosp_templates], endcheck=from_string_end,
             depth=3, timeout=5000),
]
