"""Case generators of the failing-input search, one per property.  A case is a
list of driver operations.  Constants harvested from the current sources (string
and integer literals) are mixed in, so that behaviour keyed on a new constant
can be reached."""
import itertools
from oracle import LANGS, ALIAS, HEADERS, WS, hx

FAMS = (b'de', b'en', b'pt', b'sr', b'zh', b'ca')
CTXS = [b'', b'menu', b'a', b'verb', b'menu\4', b'noun']
IDS = [b'a', b'b', b'hello', b'', b'a b', b'file', b'menu', b'x' * 40, b'a\0b', b'\xc3\xa9', b'menu\4a', b'ab']
STRS = [b'', b'X', b'Y', b'ZZ', b'\xc3\xa9t\xc3\xa9', b'a', b'eins', b'zwei', b'lang ' * 9]


class G:
    def __init__(self, rng, consts, ints):
        self.r, self.consts, self.ints = rng, [c for c in consts if len(c) < 60], ints

    def pick(self, l, p=0.06):
        if self.consts and self.r.random() < p:
            return self.r.choice(self.consts)
        return self.r.choice(l)

    def num(self):
        r = self.r
        x = r.random()
        if x < .6:
            return r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 19, 20, 21, 22, 25, 99, 100, 101, 102, 103, 104, 110, 111, 112, 119, 120, 121, 200, 1000, 1001])
        if x < .75 and self.ints:
            return max(-2**31, min(2**31 - 1, r.choice(self.ints) + r.choice([-1, 0, 1])))
        if x < .85:
            return r.choice([-1, -2, -5, -11, -100, 2**31 - 1, -2**31])
        return r.randrange(0, 2000)

    def header(self, p=0.85):
        r = self.r
        if r.random() > p:
            return r.choice([b'', b'Plural-Forms:nplurals=2;plural=n!=3;', b'Plural-Forms: nplurals=INTEGER; plural=EXPRESSION;', b'plural', HEADERS[1] + b'x',
                             HEADERS[2][:-1], b'x' + HEADERS[0], HEADERS[1].lower()])
        h = r.choice(HEADERS)
        if r.random() < .6:
            out = bytearray()
            for c in h:
                out.append(c)
                if r.random() < .15:
                    out += r.choice([b' ', b'\t', b'\n', b'  ', b'\r', b'\v', b'\f'])
            h = bytes(out)
            if r.random() < .4:
                h = r.choice([b' ', b'\t', b'\n']) + h
        return h

    # ----------------------------------------------------------- dictionary
    def lst(self):
        return [self.pick(STRS) for _ in range(self.r.choice([0, 1, 2, 2, 3, 3, 4, 6]))]

    def dictcase(self, nd=2, plural=True, ctx=True, singular=True, dump=False):
        r = self.r
        ops = []
        ids = r.sample(IDS, 3) + ([r.choice(self.consts)] if self.consts and r.random() < .3 else [])
        ctxs = r.sample(CTXS, 2) + [ids[0]] + ([r.choice(self.consts)] if self.consts and r.random() < .2 else [])
        n = r.choice([1, 2, 2, 3])
        for k in range(n):
            ops.append(('dict', b'UTF-8'))
        for k in range(n):
            if plural and r.random() < .7:
                ops.append(('pf', k, self.header()))
        for k in range(n - 1):
            if r.random() < .8:
                ops.append(('fb', k, k + 1))
        for _ in range(r.randrange(1, 14)):
            k = r.randrange(n)
            x = r.random()
            i, c = r.choice(ids), r.choice(ctxs)
            if x < .2 and singular:
                ops.append(('add', k, i, self.pick(STRS)))
            elif x < .4 and plural:
                ops.append(('addl', k, i, r.choice(ids), *self.lst()))
            elif x < .6 and ctx:
                ops.append(('addc', k, c, i, self.pick(STRS)))
            elif x < .75 and ctx and plural:
                ops.append(('addcl', k, c, i, r.choice(ids), *self.lst()))
            else:
                ops.append(('tr', k, i))
                if ctx:
                    ops.append(('trc', k, c, i))
                ops.append(('trp', k, i, r.choice(ids), self.num()))
                if ctx:
                    ops.append(('trcp', k, c, i, r.choice(ids), self.num()))
        for k in range(n):
            for i in ids:
                ops.append(('tr', k, i))
                ops.append(('trp', k, i, i + b's', self.num()))
                for c in ctxs:
                    ops.append(('trc', k, c, i))
                    ops.append(('trcp', k, c, i, i + b's', self.num()))
            if dump:
                ops += [('dump', k), ('dump', k)]
        return ops

    def C01(self):
        return self.dictcase()
    C02 = C03 = C01

    def C20(self):
        return self.dictcase(dump=True)

    def C04(self):
        ns = list(range(0, 130)) + [self.num() for _ in range(20)] + [-1, -2, -11, 2**31 - 1, -2**31]
        return [('plural', self.header(.9), *ns), ('plural', HEADERS[self.r.randrange(25)], *ns), ('plural', self.r.choice(HEADERS), *ns),
                ('dict', b'UTF-8'), ('pf', 0, self.header())] + \
               [('trp', 0, b'a', b'b', self.num()) for _ in range(2)]

    # ------------------------------------------------------------- languages
    def code(self):
        x = self.r.random()
        if x < .75:
            return self.r.choice(LANGS)[0]
        return self.pick([b'', b'xx', b'DE', b'de ', b'd', b'en\0', b'sr', b'ca', b'zh', b'pt', b'en', b'xyzzy'], .2)

    def cty(self):
        x = self.r.random()
        if x < .35:
            return b''
        if x < .8:
            return self.r.choice(LANGS)[1] or b'DE'
        return self.pick([b'XX', b'de', b'DE\0x', b'D', b'AT', b'\xc3', b'DE_AT', b'US'], .2)

    def mod(self):
        x = self.r.random()
        if x < .45:
            return b''
        if x < .85:
            return self.r.choice([b'latin', b'Latn', b'euro', b'valencia', b'ije', b'quot', b'boldquot', b'piglatin', b'cyrillic'])
        return self.pick([b'xx', b'latin\0', b'l@tin', b'_', b'.'], .2)

    def row(self):
        r = self.r.choice(LANGS)
        return r

    def spec(self):
        if self.r.random() < .5:
            return self.row()
        return (self.code(), self.cty(), self.mod())

    def loc(self):
        r = self.r
        if r.random() < .3:
            return bytes(r.choice(b'_.@_.@deUSx\0\xff-') for _ in range(r.randrange(0, 12)))
        parts = [self.code()]
        sep = []
        if r.random() < .7:
            sep.append(b'_' + self.cty())
        if r.random() < .5:
            sep.append(b'.' + r.choice([b'UTF-8', b'iso_8859', b'', b'ISO-8859-1', b'A_B', b'eucJP']))
        if r.random() < .5:
            sep.append(b'@' + self.mod())
        if r.random() < .25:
            r.shuffle(sep)
        if r.random() < .1:
            sep.append(r.choice([b'_', b'.', b'@', b'_DE', b'.x', b'@euro']))
        return b''.join(parts + sep)

    def C05(self):
        return [('env', self.loc()) for _ in range(25)]

    def C06(self):
        ops = []
        for _ in range(12):
            ops.append(('spec', *self.spec()))
            a, b = self.spec(), self.spec()
            if self.r.random() < .8:
                b = self.r.choice([l for l in LANGS if l[0] == a[0]] or [b])
            ops.append(('match', *a, *b))
            ops.append(('match', *b, *a))
        return ops

    def C07(self):
        ops = [('undef',)]
        for _ in range(15):
            l = self.row()
            ops.append(('spec', *l))
            ops.append(('env', l[0] + (b'_' + l[1] if l[1] else b'') + (b'@' + l[2] if l[2] else b'')))
            b = self.row() if self.r.random() < .5 else self.r.choice([x for x in LANGS if x[0] == l[0]])
            ops.append(('ident', *l, *b))
            ops.append(('ident', *l, *l))
            ops.append(('ident', *self.spec(), *self.spec()))
            ops.append(('ident', b'xx', b'', b'', *b))
        return ops

    def C08(self):
        r = self.r
        ops = []
        for _ in range(25):
            x = r.random()
            if x < .5:
                s = r.choice(list(ALIAS))
                s = bytes((c - 32 if 97 <= c <= 122 and r.random() < .4 else c) for c in s)
                if r.random() < .15:
                    s += r.choice([b' ', b'x', b'.', b'@euro', b'_DE'])
            elif x < .7:
                s = self.loc()
            elif x < .8:
                l = self.row()
                s = l[0] + (b'_' + l[1] if l[1] else b'') + (b'@' + l[2] if l[2] else b'')
                if r.random() < .3:
                    s = s.upper()
            else:
                s = self.pick([b'', b'\xff', b'\xe4', b'japanese.euc', b'JA_JP', b'ja_JP', b'no_NO', b'German', b'FRAN\xc3\x87AIS', b'C', b'POSIX'], .3)
            ops.append(('name', s))
        return ops

    # ---------------------------------------------------------------- parser
    def lit(self, s=None):
        r = self.r
        if s is None:
            s = self.body()
        return b'"' + s + b'"'

    def body(self):
        r = self.r
        out = bytearray()
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            x = r.random()
            if x < .45:
                out += r.choice([b'a', b'b', b'foo', b' ', b'x y', b'%d', b'\xc3\xa4', b'Z'])
            elif x < .75:
                out += b'\\' + bytes([r.choice(b'abvntr"\\abvntr"\\xz0?\'ef1 ')])
            elif x < .8 and self.consts:
                out += bytes(c for c in r.choice(self.consts) if c not in b'"\\\n')
            elif x < .9:
                out += bytes([r.choice([0x80, 0x81, 0x9f, 0xa4, 0xfe, 0xff, 0x40, 0x5c, 0, 9, 13, 12, 1])])
                if out[-1] == 0x5c:
                    out += b'n'
            else:
                out += r.choice([b'#', b'msgid', b'\\"', b'\\\\'])
        return bytes(out)

    def sep(self):
        r = self.r
        return b' ' if r.random() < .8 else r.choice([b'  ', b'\t', b'', b' \t ', b'\v', b'\f', b'\r'])

    def kw(self, k, s=None):
        r = self.r
        out = k + self.sep() + self.lit(s) + (b'' if r.random() < .85 else r.choice([b' ', b'\r', b' x', b'  "y"', b'\t']))
        lines = [out]
        while r.random() < .25:
            lines.append((b'' if r.random() < .7 else r.choice([b' ', b'\t', b'   ', b'\v'])) + self.lit() + (b'' if r.random() < .9 else b' z'))
        return lines

    def hdr(self, cs=None, pf=True):
        r = self.r
        l = []
        if r.random() < .9:
            c = cs or r.choice([b'UTF-8', b'utf-8', b'ISO-8859-1', b'iso-8859-1', b'CHARSET', b'charset', b'', b'BIG5', b'big5', b'UTF-16LE', b'ISO-8859-15', b'NO-SUCH-CHARSET', b'KOI8-R', b'ASCII', b'BIG5-HKSCS'])
            l.append(r.choice([b'Content-Type: text/plain; charset='] * 8 + [b'Content-Type: text/html; charset=', b'Content-type: text/plain; charset=', b'Content-Type:']) + c)
        if pf and r.random() < .7:
            l.append(b'Plural-Forms: ' + self.header(.8)[13:].replace(b'\n', b' ').replace(b'\r', b' '))
        if r.random() < .3:
            l.append(r.choice([b'Language: de', b'', b'Project-Id-Version: x', b'Plural-Forms: foo']))
        r.shuffle(l)
        lines = [b'msgid ""', b'msgstr ""'] if r.random() < .9 else [b'msgid ""', b'msgstr "x\\n"']
        for x in l:
            lines.append(b'"' + x + (b'\\n' if r.random() < .93 else b'') + b'"')
        if r.random() < .08:
            lines.insert(0, b'#, fuzzy')
        if r.random() < .05:
            lines.insert(0, b'msgctxt "c"')
        return lines

    def entry(self):
        r = self.r
        L = []
        while r.random() < .3:
            L.append(r.choice([b'# c', b'#', b'#: file.c:1', b'#, fuzzy', b'#, c-format', b'#, c-format, fuzzy', b'#,fuzzy', b'#. fuzzy', b'#| msgid "old"', b'#~ msgid "o"', b'#,', b'# fuzzy', b'#fuzzy', b'#\tx']))
        if r.random() < .3:
            L += self.kw(b'msgctxt', r.choice([None, b'menu', b'c', b'']))
        L += self.kw(b'msgid', r.choice([b'a', b'b', b'c', b'd', b'e', b'f', b'', None]))
        if r.random() < .35:
            L += self.kw(b'msgid_plural')
            ns = list(range(r.choice([1, 2, 3])))
            if r.random() < .3:
                ns = [r.randrange(10) for _ in range(r.choice([1, 2, 3]))]
            for n in ns:
                L += self.kw(b'msgstr[%d]' % n, r.choice([None, None, b'', b'p%d' % n]))
        else:
            L += self.kw(b'msgstr', r.choice([None, None, b'', b't']))
        return L

    def spoil(self, L):
        r = self.r
        L = list(L) or [b""]
        x = r.randrange(9)
        k = r.randrange(len(L))
        l = L[k]
        if x == 0:
            del L[k]
        elif x == 1:
            L[k] = l[:r.randrange(len(l) + 1)]
        elif x == 2:
            p = r.randrange(len(l) + 1)
            L[k] = l[:p] + bytes([r.choice(b'"\\ #[]x\0\xff1m')]) + l[p:]
        elif x == 3:
            L.insert(k, r.choice([b'garbage', b'msgid "x"', b'msgstr "y"', b'"z"', b'#, fuzzy', b'msgstr[1] "q"', b'msgid', b'msgctxt', b'msgid_plural "p"', b'msgstr[x] "s"', b'msgstr[10] "s"', b'  ', b' x', b'#~ x', b'msgstr[', b'msgstr[0]', b'msgstr[0']))
        elif x == 4 and len(l) > 1:
            p = r.randrange(len(l))
            L[k] = l[:p] + l[p + 1:]
        elif x == 5:
            L[k] = l.replace(b'msgstr', r.choice([b'msgst', b'MSGSTR', b'msgstr[', b'msgstr_']))
        elif x == 6:
            j = r.randrange(len(L))
            L[k], L[j] = L[j], L[k]
        elif x == 7:
            L[k] = b' ' + l
        else:
            L.insert(k, l)
        return L

    def po(self, big5=False, bad=.2, headerp=.7, cs=None, entries=None):
        r = self.r
        out = []
        if r.random() < headerp:
            h = self.hdr(b'BIG5' if big5 else cs)
            if r.random() < bad * .5:
                h = self.spoil(h)
            out += h + ([b''] if r.random() < .95 else [])
        for _ in range(entries or r.choice([0, 1, 2, 2, 3, 4])):
            e = self.entry()
            while r.random() < bad:
                e = self.spoil(e)
            out += e
            x = r.random()
            out += [b''] if x < .75 else [r.choice([b'  ', b'# x', b'#', b'\t', b'\r', b'#, fuzzy'])] if x < .93 else []
        t = b'\n'.join(out) + (b'\n' if r.random() < .8 else b'')
        if r.random() < .08:
            t = b'\xef\xbb\xbf' + t
        if r.random() < .05:
            t = t.replace(b'\n', b'\r\n')
        if r.random() < bad * .3:
            t = t[:r.randrange(len(t) + 1)]
        return t

    def pocase(self, **kw):
        r = self.r
        ops = [('dict', r.choice([b'UTF-8', b'UTF-8', b'UTF-8', b'utf-8', b'ISO-8859-1', b'UTF-16LE']))]
        if r.random() < .2:
            ops.append(('pf', 0, self.header()))
        for _ in range(r.choice([1, 1, 2])):
            ops.append(('po', 0, r.choice([0, 1]), self.po(**kw)))
            ops.append(('dump', 0))
        return ops

    def C09(self):
        r = self.r
        if r.random() < .3:
            n = r.choice([0, 1, 2, 3, 5, 20, 60])
            t = b''.join(r.choice([b'"', b'\\', b'\n', b'msgid', b'msgstr', b' ', b'#', b'[', b']', b'0', b'msgctxt', b'\xef\xbb\xbf', b'\0', b'\xff', b'\x81', b'_plural', b',', b'fuzzy', b'\t']) for _ in range(n))
            return [('dict', b'UTF-8'), ('po', 0, 1, t), ('dump', 0)]
        return self.pocase(bad=.6)

    def C10(self):
        return self.pocase(bad=.05, big5=self.r.random() < .3)

    def C11(self):
        return self.pocase(bad=.02, headerp=.5)

    def C12(self):
        return self.pocase(bad=.5)

    def C13(self):
        t = self.po(bad=.1, headerp=.3, entries=4)
        t2 = b'\n'.join(l if self.r.random() < .7 or l[:1] != b'm' else self.r.choice([b'#, fuzzy\n', b'#, c, fuzzy\n', b'#,fuzzy\n', b'# fuzzy\n']) + l if l[:6] == b'msgid ' else l for l in t.split(b'\n'))
        return [('dict', b'UTF-8'), ('po', 0, 0, t2), ('dump', 0), ('dict', b'UTF-8'), ('po', 1, 1, t2), ('dump', 1), ('dict', b'UTF-8'), ('podef', 2, t2), ('dump', 2)]

    def C14(self):
        return self.pocase(bad=.05, headerp=1)

    # --------------------------------------------------------------- charsets
    def txt(self):
        r = self.r
        x = r.random()
        if x < .3:
            return bytes(r.choice(b'abc XYZ09') for _ in range(r.choice([0, 1, 2, 7, 40, 300])))
        s = ''.join(r.choice(['\u00e9', 'a', '\u00df', '\u3042', '\u20ac', 'z', '\U0001f600', '\u4e2d', '\u0431']) for _ in range(r.choice([1, 2, 5, 30, 200])))
        b = s.encode('utf-8')
        if x < .5:
            k = r.randrange(len(b) + 1)
            b = b[:k] + r.choice([b'\xff', b'\xc3', b'\x80', b'']) + b[k:]
        return b

    def conv8(self):
        """between single-byte character sets, and to ones with states"""
        r = self.r
        if r.random() < .4:
            f, t = b'KOI8-R', r.choice([b'ISO-2022-JP', b'UTF-16', b'UTF-32', b'UTF-8', b'ISO-2022-JP'])
            ch = bytes(range(0xc0, 0x100)) + b'ab'
        else:
            f, t = r.sample([b'ISO-8859-1', b'ISO-8859-15', b'ISO-8859-2', b'iso-8859-1', b'ISO-8859-7'], 2)
            ch = b'ab\xa4\xa6\xe9\xe1\xb1\xd7 '
        return f, t, bytes(r.choice(ch) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 8, 30, 200])))

    def conv(self):
        r = self.r
        f = r.choice([b'UTF-8', b'utf-8', b'ISO-8859-1', b'ASCII', b'UTF-16LE', b'NO-SUCH-CHARSET', b'KOI8-R', b'UTF-8'])
        t = r.choice([b'UTF-8', b'Utf-8', b'ISO-8859-1', b'UTF-16', b'UTF-32', b'UTF-16LE', b'ISO-2022-JP', b'EUC-JP', b'X-UNKNOWN', b'UTF-32BE'])
        s = self.txt()
        if f.upper() == b'UTF-16LE':
            s = s.decode('utf-8', 'ignore').encode('utf-16-le')
        return f, t, s

    def C15(self):
        r = self.r
        ops = []
        for _ in range(6):
            f, t, s = self.conv()
            more = [self.conv()[2] for _ in range(r.choice([0, 1, 3]))]
            if f.upper() == b'UTF-16LE':
                more = []
            ops.append((r.choice(['conv', 'convl']), f, t, s, *more))
            f, t, s = self.conv8()
            ops.append((r.choice(['conv', 'convl']), f, t, s, s[:1], s[1:3], s))
            ops.append(('conv2', *self.conv8(), *self.conv8(), *r.choice([(), (b'UTF-8', b'NO-SUCH-CHARSET', b'a'), (b'NO-SUCH-CHARSET', b'X-UNKNOWN', b'')]), *self.conv8()))
            a = []
            for _ in range(3):
                a += self.conv()
            ops.append(('conv2', *a))
        return ops

    # ---------------------------------------------------------------- manager
    def fname(self):
        r = self.r
        l = self.row() if r.random() < .3 else r.choice([x for x in LANGS if x[0] in FAMS])
        s = l[0] + (b'_' + l[1] if l[1] else b'') + (b'@' + l[2] if l[2] else b'')
        x = r.random()
        if x < .25:
            s = s.lower()
        if x > .93:
            s = r.choice([b'', b'x', b'notes', b'de_', b'de_a1', b'_', b'de.UTF-8', b'de_at.utf8', b'xx_YY', b'de_at_x', b'es_419', b'de_d3', b'de_1', b'ca_es@valencia', b'ca@valencia', b'sr_rs@latin', b'sr@latin', b'en_us@piglatin'])
        return s + (b'.po' if r.random() < .88 else r.choice([b'', b'.pot', b'.PO', b'po', b'.po~', b'.mo', b'.p']))

    def simple(self, tag):
        r = self.r
        out = b''
        if r.random() < .3:
            out += b'msgid ""\nmsgstr "Content-Type: text/plain; charset=%s\\n"\n\n' % r.choice([b'UTF-8', b'ISO-8859-1', b'NO-SUCH-CHARSET', b'utf-8'])
        for i in (b'a', b'b', b'c'):
            if r.random() < .6:
                out += (b'#, fuzzy\n' if r.random() < .2 else b'') + b'msgid "%s"\nmsgstr "%s-%s%s"\n\n' % (i, tag, i, b'\xc3\xa9' if r.random() < .3 else b'')
            elif r.random() < .1:
                out += b'msgid "%s"\nmsgst\n\n' % i
        return out

    def mgrcase(self):
        r = self.r
        dirs = [b'd1', b'd2', b'd3']
        ops = []
        for k, d in enumerate(dirs):
            for j in range(r.choice([0, 1, 3, 5])):
                f = self.fname()
                x = r.random()
                if (d, f) in [(o[1], o[2]) for o in ops]:
                    continue
                ops.append(('fs', d, f, self.simple(b'%d%d' % (k, j))) if x < .85 else ('fsno', d, f) if x < .93 else ('fsthrow', d, f))
        ops.append(('mgr', r.choice([b'UTF-8', b'UTF-8', b'ISO-8859-1', b'X-UNKNOWN'])))
        for d in r.sample(dirs, r.choice([1, 2, 3])):
            ops.append(('mdir', 0, d, r.choice([0, 1])))
        known = [x for x in LANGS if x[0] in FAMS]
        for _ in range(r.randrange(3, 16)):
            l = r.choice(known) if r.random() < .9 else self.row()
            x = r.random()
            if x < .2:
                ops.append(('mget', 0))
            elif x < .35:
                ops.append(('mgetl', 0, *l))
            elif x < .45:
                ops.append(('mlang', 0, int(r.random() < .9), *l))
                ops.append(('mcur', 0, *l) if ops[-1][2] else ('mget', 0))
            elif x < .5:
                ops.append(('msame', 0, *l))
            elif x < .55:
                ops.append(('mdir', 0, r.choice(dirs), r.choice([0, 1])))
            elif x < .6:
                ops.append(('mrm', 0, r.choice(dirs + [b'd4'])))
            elif x < .66:
                ops.append(('mcs', 0, r.choice([b'UTF-8', b'ISO-8859-1', b'UTF-16LE', b'ISO-8859-2', b'utf-8'])))
            elif x < .72:
                ops.append(('mfz', 0, r.choice([0, 1])))
            elif x < .8:
                ops.append(('mtr', 0, r.choice([b'a', b'b', b'c'])))
            elif x < .9:
                ops.append(('mtrl', 0, *l, r.choice([b'a', b'b', b'c'])))
            elif x < .95:
                ops.append(('mlangs', 0))
            else:
                d = r.choice(dirs)
                fs = [o for o in ops if o[0] == 'fs' and o[1] == d]
                if fs:
                    ops.append(('mrm', 0, d))
                    ops.append(('fsset', d, r.choice(fs)[2], self.simple(b'new')))
                    ops.append(('mdir', 0, d, 0))
        ops += [('mlangs', 0), ('mget', 0), ('delmgr', 0)]
        return ops

    def unixcase(self):
        """real files in a scratch directory of the driver"""
        r = self.r
        ops, seen = [], set()
        for d in (b'u1', b'u2'):
            for j in range(r.choice([0, 1, 3])):
                f = r.choice([b'a', b'de', b'.x', b'po', b'.po', b'x.po~', b'de.po', b'de.po.po', b'README', b'a b.po', b'ab_c.po']) if r.random() < .6 else self.fname()
                if f in (b'', b'.', b'..') or b'/' in f or b'\0' in f or (d, f) in seen:
                    continue
                seen.add((d, f))
                ops.append(('ufile', b'scratch/' + d, f, self.simple(b'%d' % j)))
            ops.append(('unixdir', b'scratch/' + d + (b'/' if r.random() < .3 else b'')))
        ops += [('unixdir', b'scratch/none'), ('unixopen', b'scratch/none/x.po')]
        for d, f in sorted(seen):
            ops.append(('unixopen', b'scratch/' + d + b'/' + f))
        ops += [('unixmgr', b'UTF-8'), ('mdir', 0, b'scratch/u1', 0), ('mdir', 0, b'scratch/u2', r.choice([0, 1])), ('mdir', 0, b'scratch/none', 0), ('mlangs', 0)]
        if sum(d == b'u1' for d, _ in seen) <= 1 and sum(d == b'u2' for d, _ in seen) <= 1:
            for l in (b'de', b'en', b'pt'):
                ops += [('mtrl', 0, l, b'', b'', i) for i in (b'a', b'b', b'c')]
        return ops

    def C16(self):
        if self.r.random() < .12:
            return self.unixcase()
        return self.mgrcase()
    C17 = C16

    def C18(self):
        r = self.r
        if r.random() < .15:
            return self.unixcase()
        ops = [('fs', r.choice([b'd1', b'd2']), self.fname(), b'') for _ in range(r.choice([0, 2, 6]))]
        ops += [('mgr', b'UTF-8'), ('mdir', 0, b'd1', 0), ('mdir', 0, b'd2', 1), ('mlangs', 0)]
        for _ in range(8):
            f = self.fname() if r.random() < .6 else self.pick([b'', b'.po', b'po', b'o', b'p', b'a', b'_', b'_x.po', b'a_bc-de.po', b'de_at@euro.po', b'DE_at.po', b'a_\xe4b.po', b'a_b_c.po', b'.p', b'xpo', b'.po.po', b'a_b\0c.po', b'zh_tw.big5.po'], .2)
            ops.append(('mconv', 0, f))
        return ops

    def C19(self):
        r = self.r
        ops = []
        for _ in range(10):
            x = r.random()
            if x < .4:
                ops.append(('cb', r.choice(['i', 'w', 'e']), r.choice(['0', 'x', '1'])))
            elif x < .8:
                ops.append(('log', r.choice(['i', 'w', 'e']), self.pick([b'', b'hello', b'a\nb', b'x' * 300, b'\0z', b'%s%n'])))
            else:
                ops += [('dict', b'UTF-8'), ('polog', sum(o[0] == 'dict' for o in ops), 1, self.po(bad=.4))]
        ops += [('cb', s, '1') for s in 'iwe']
        return ops


STRETCH = {'plural', 'pf', 'add', 'addl', 'addc', 'addcl', 'tr', 'trp', 'trc', 'trcp', 'po', 'podef', 'env', 'spec', 'name'}


def stretch(ops, r):
    """the same case with one byte of a text repeated some hundred times: counters that are too small"""
    vals = sorted({a for o in ops if o[0] in STRETCH for a in o[1:] if isinstance(a, bytes) and a})
    if not vals:
        return ops
    v = r.choice(vals)
    k = r.randrange(len(v))
    if b'\n' in v and r.random() < .3:      # many lines
        i = v.index(b'\n', min(k, v.rindex(b'\n'))) + 1
        w = v[:i] + r.choice([b'\n', b'\n', b'# x\n', b'"y"\n']) * r.choice([260, 700, 1100]) + v[i:]
        return [o if o[0] not in STRETCH else tuple(w if isinstance(a, bytes) and a == v else a for a in o) for o in ops]
    if r.random() < .5:
        ks = [i for i in range(len(v)) if v[i:i + 1] in b' "\t#' or v[i:i + 1].isalpha()]
        k = r.choice(ks or [k])
    n = r.choice([254, 255, 256, 257, 300, 520])
    c = r.choice([v[k:k + 1], v[k:k + 1], b' ', b'a'])
    w = v[:k] + c * n + v[k:]
    return [o if o[0] not in STRETCH else tuple(w if isinstance(a, bytes) and a == v else a for a in o) for o in ops]
