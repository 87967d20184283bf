"""Front end: the functions of /repo, extracted from clang's AST on every run.

Nothing is transcribed by hand: every function body the verifier executes is
the clang JSON AST of the file in /repo's working tree.  What the extraction
drops: comments, `noexcept`/attributes, implicit noexcept, and function bodies
outside namespace tinygettext (those are the standard library, see lib.py)."""
import json, os, subprocess, re, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('DV_REPO', '/repo')
SOURCES = ['dictionary', 'dictionary_manager', 'iconv', 'language', 'log', 'plural_forms', 'po_parser',
           'tinygettext', 'unix_file_system']
FUNKINDS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')


class ExtractError(Exception):
    pass


def list_sources():
    d = os.path.join(REPO, 'src')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(('.cpp', '.cc', '.cxx')))


def dump(path, extra=()):
    cmd = ['clang++', '-std=c++17', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'),
           '-fsyntax-only', '-Wno-everything', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=tinygettext',
           *extra, path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise ExtractError('clang: %s: %s' % (path, p.stderr.decode(errors='replace')[:500]))
    s = p.stdout.decode()
    dec, i, out = json.JSONDecoder(), 0, []
    n = len(s)
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            return out
        o, i = dec.raw_decode(s, i)
        out.append(o)


class Func:
    def __init__(self, node, cls, tu, ns):
        self.node, self.cls, self.tu, self.ns = node, cls, tu, ns
        self.name = node.get('name', '')
        self.kind = node['kind']
        self.mangled = node.get('mangledName', '')
        self.params = [c for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        self.inits = [c for c in node.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
        self.body = next((c for c in node.get('inner', []) if c.get('kind') in ('CompoundStmt', 'CXXTryStmt')), None)
        self.qual = (cls + '::' if cls else '') + self.name
        self.key = self.qual + '(' + ','.join(simple_type(tyof(p)) for p in self.params) + ')'
        qt = node.get('type', {}).get('qualType', '')
        self.const = qt.rstrip().endswith('const')
        self.static = node.get('storageClass') == 'static'
        self.ret = qt[:qt.find('(')].strip() if '(' in qt else ''

    def __repr__(self):
        return self.key


def tyof(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')


TYPEDEFS = {}


def simple_type(t):
    t = t.replace('tinygettext::', '').replace('detail::', '')
    t = re.sub(r'\bconst\b', '', t)
    t = re.sub(r'std::(__cxx11::)?basic_string<char(, std::char_traits<char>, std::allocator<char>)?>', 'string', t)
    t = t.replace('std::string', 'string').replace('std::', '').replace('filesystem::', '')
    t = re.sub(r'[&\s]+', '', t)
    b = t.rstrip('*').split('::')[-1]
    if b in TYPEDEFS:
        return simple_type(TYPEDEFS[b]) + '*' * (len(t) - len(t.rstrip('*')))
    return t


class TU:
    def __init__(self, path, docs):
        self.path = path
        self.decl = {}       # id -> node (of decls in namespace tinygettext)
        self.owner = {}      # id -> class name
        self.funcs = {}      # mangled -> Func with a body
        self.classes = {}    # name -> [FieldDecl]
        self.globals = {}    # id -> VarDecl node
        self.enums = {}
        for d in docs:
            self.walk(d, None, '')

    def walk(self, n, cls, ns):
        k = n.get('kind')
        if k is None:
            return
        if 'id' in n and k.endswith('Decl'):
            self.decl[n['id']] = n
            self.owner[n['id']] = cls
        if k in FUNKINDS:
            if cls is None and 'parentDeclContextId' in n:
                p = self.decl.get(n['parentDeclContextId'])
                if p is not None and p['kind'] in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                    cls = p.get('name')
                    self.owner[n['id']] = cls
            f = Func(n, cls, self, ns)
            prev = self.decl.get(n.get('previousDecl'))
            if prev is not None and prev.get('storageClass') == 'static' and cls:
                f.static = True
            for p in f.params:
                self.decl[p['id']] = p
            if f.body is not None:
                self.funcs[f.mangled] = f
                self.collect_static(f.body)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            if n.get('completeDefinition'):
                self.classes[n.get('name')] = [c for c in n.get('inner', []) if c.get('kind') == 'FieldDecl']
            for c in n.get('inner', []):
                self.walk(c, n.get('name'), ns)
            return
        if k in ('TypedefDecl', 'TypeAliasDecl') and n.get('name'):
            u = tyof(n)
            if u.split('::')[-1] != n['name']:
                TYPEDEFS[n['name']] = u
            return
        if k == 'VarDecl':
            self.globals[n['id']] = n
            if cls is None and 'parentDeclContextId' in n:
                p = self.decl.get(n['parentDeclContextId'])
                if p is not None and p['kind'] == 'CXXRecordDecl':
                    self.owner[n['id']] = p.get('name')
            return
        if k == 'FunctionTemplateDecl':
            for c in n.get('inner', []):
                if c.get('kind') in FUNKINDS and any(x.get('kind') == 'TemplateArgument' for x in c.get('inner', [])):
                    self.walk(c, cls, ns)
            return
        for c in n.get('inner', []):
            self.walk(c, cls, ns)

    def collect_static(self, n):
        pass

    def func_by_decl(self, did):
        d = self.decl.get(did)
        if d is None:
            return None
        return self.funcs.get(d.get('mangledName'))


class Program:
    """all translation units of /repo/src (plus given extra files)"""

    def __init__(self, paths=None, extra=()):
        paths = list(paths or list_sources()) + list(extra)
        with ThreadPoolExecutor(8) as ex:
            docs = list(ex.map(dump, paths))
        self.tus = [TU(p, d) for p, d in zip(paths, docs)]
        self.bykey = {}
        self.bymangled = {}
        self.classes = {}
        for tu in self.tus:
            for f in tu.funcs.values():
                self.bykey.setdefault(f.key, f)
                if not f.mangled.startswith('_ZN11tinygettextL'):
                    self.bymangled.setdefault(f.mangled, f)
            self.classes.update(tu.classes)
        # out-of-class definitions of static members / globals: (class, name) -> (tu, node with init)
        self.statics = {}
        for tu in self.tus:
            for i, v in tu.globals.items():
                if v.get('inner'):
                    own = tu.owner.get(i)
                    k = (own or (tu.path if v.get('storageClass') == 'static' else ''), v.get('name'))
                    self.statics[k] = (tu, v)

    def find(self, qual, nparams=None, types=None):
        r = [f for f in self.bykey.values() if f.qual == qual and (nparams is None or len(f.params) == nparams)]
        if types is not None:
            r = [f for f in r if [simple_type(tyof(p)) for p in f.params] == types]
        return r[0] if len(r) == 1 else None

    def resolve(self, tu, did):
        """definition of the function whose declaration has this id, or None"""
        d = tu.decl.get(did)
        if d is None:
            return None
        m = d.get('mangledName')
        return tu.funcs.get(m) or self.bymangled.get(m)


def source_digest():
    h = hashlib.sha256()
    for root in ('src', 'include'):
        for dp, dn, fn in sorted(os.walk(os.path.join(REPO, root))):
            for f in sorted(fn):
                p = os.path.join(dp, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()
