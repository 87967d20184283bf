"""Build the witness driver from /repo's current sources and run cases on it."""
import glob, hashlib, os, random, re, subprocess, sys, shutil, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import gen, oracle
from oracle import World, encode, match

REPO = os.environ.get('DV_REPO', '/repo')


class BuildError(Exception):
    pass


class Driver:
    def __init__(self, repo=REPO):
        self.dir = tempfile.mkdtemp(prefix='dvw')
        cc = ['clang++', '-std=c++17', '-g', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS',
              '-I%s/include' % repo, '-I%s/src' % repo]
        srcs = sorted(glob.glob(repo + '/src/*.cpp')) + [os.path.join(HERE, 'driver.cpp')]
        procs = []
        for k, s in enumerate(srcs):
            o = '%s/%d.o' % (self.dir, k)
            procs.append((s, o, subprocess.Popen(cc + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for s, o, p in procs:
            out = p.communicate()[0]
            if p.returncode:
                self.close()
                raise BuildError('%s: %s' % (s, out.decode(errors='replace')[:2000]))
        self.exe = self.dir + '/driver'
        r = subprocess.run(cc + [o for _, o, _ in procs] + ['-o', self.exe], capture_output=True)
        if r.returncode:
            self.close()
            raise BuildError(r.stderr.decode(errors='replace')[:2000])

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, cases, timeout=20):
        """outputs per case (list of lines), and the failure of the process if any:
        (index of the case, what happened)"""
        text = []
        for k, ops in enumerate(cases):
            text.append('# %d' % k)
            text.append('reset')
            text += [encode(o) for o in ops]
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:allocator_may_return_null=0', LC_ALL='C')
        try:
            p = subprocess.run([self.exe], input=('\n'.join(text) + '\n').encode(), capture_output=True, timeout=timeout, env=env, cwd=self.dir)
            out, err, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as e:
            out, err, rc = e.stdout or b'', e.stderr or b'', 'timeout'
        res, cur = [], None
        for l in out.decode('latin-1').split('\n'):
            if l.startswith('# '):
                cur = []
                res.append(cur)
            elif l.startswith('> ') and cur is not None:
                cur.append(l[2:])
        bad = None
        if rc != 0:
            msg = 'no result within %ss' % timeout if rc == 'timeout' else 'exit %s' % rc
            m = re.search(rb'(ERROR: \w+: [^\n]*|runtime error: [^\n]*|[Aa]ssertion[^\n]*|terminate called[^\n]*|what\(\)[^\n]*)', err)
            if m:
                msg += ': ' + m.group(1).decode('latin-1')
            bad = (len(res) - 1, msg)
        return res, bad


def check_case(ops, got):
    """first disagreement of a case with the reference, or None"""
    w = World()
    w.dead = False
    got = got[1:]           # answer of reset
    for k, op in enumerate(ops):
        exp = w.do(op)
        if w.dead:
            return None
        if k >= len(got):
            return (k, 'no answer (crash or hang)', exp if isinstance(exp, str) else '?')
        if not match(exp, got[k]):
            return (k, got[k], exp if isinstance(exp, str) else 'a result consistent with the specification')
    return None


def shrink(drv, ops, fails, budget=60):
    """drop operations while the case still fails"""
    t0 = time.time()
    n = len(ops)
    step = max(1, n // 2)
    while step >= 1 and time.time() - t0 < budget:
        i = 0
        changed = False
        while i < len(ops) and time.time() - t0 < budget:
            cand = ops[:i] + ops[i + step:]
            if cand and fails(cand):
                ops = cand
                changed = True
            else:
                i += step
        if step == 1 and not changed:
            break
        step = max(1, step // 2) if step > 1 else (1 if changed else 0)
        if step == 0:
            break
    return ops


def wellformed(ops):
    nd = sum(o[0] == 'dict' for o in ops)
    nm = sum(o[0] in ('mgr', 'unixmgr') for o in ops)
    d = m = 0
    dead = set()
    for o in ops:
        if o[0] == 'dict':
            d += 1
        elif o[0] in ('mgr', 'unixmgr'):
            m += 1
        elif o[0] in ('charset', 'pf', 'add', 'addc', 'addl', 'addcl', 'tr', 'trc', 'trp', 'trcp', 'dump', 'po', 'podef', 'polog'):
            if o[1] >= d:
                return False
        elif o[0] == 'fb':
            if o[1] >= d or o[2] >= d:
                return False
        elif o[0][0] == 'm' and o[0] not in ('match', 'mgr', 'unixmgr') or o[0] == 'delmgr':
            if o[1] >= m or o[1] in dead:
                return False
            if o[0] == 'delmgr':
                dead.add(o[1])
    return True


def fails_of(drv, kind):
    def fails(ops):
        if not wellformed(ops):
            return False
        res, bad = drv.run([ops], timeout=5)
        if bad:
            return True
        return res and check_case(ops, res[0]) is not None
    return fails


def search(drv, gens, rng, budget=40.0, batch=60, known=lambda ops, d: False):
    """(ops, description) of a failing case, or None; and the number of cases run"""
    t0 = time.time()
    n = 0
    while time.time() - t0 < budget:
        cases = [g() for g in gens for _ in range(batch // len(gens) + 1)]
        rs = gens[0].__self__.r
        cases = [c if rs.random() > .04 else gen.stretch(c, rs) for c in cases]
        while cases:
            res, bad = drv.run(cases)
            upto = len(res) if not bad else bad[0]
            n += len(res)
            for ops, got in zip(cases[:upto], res):
                d = check_case(ops, got)
                if d is not None and not known(ops, d):
                    f = fails_of(drv, None)
                    small = shrink(drv, ops, f)
                    res2, bad2 = drv.run([small], timeout=5)
                    d2 = check_case(small, res2[0]) if res2 else None
                    if d2 is None and not bad2:
                        small, d2 = ops, d
                    return (small, describe(small, d2, bad2)), n
            if not bad:
                break
            k = max(0, bad[0])
            ops = cases[k]
            r1, b1 = drv.run([ops], timeout=8)
            if b1 or not r1:
                small = shrink(drv, ops, fails_of(drv, None))
                res2, bad2 = drv.run([small], timeout=5)
                return (small, describe(small, None, bad2 or b1)), n
            r = drv.run(cases[:k + 1])
            if k + 1 >= len(cases) and bad[1].find('Leak') >= 0:
                # a leak reported at the end: find the case
                for ops in cases:
                    r1, b1 = drv.run([ops], timeout=8)
                    if b1:
                        return (ops, describe(ops, None, b1)), n
            cases = cases[k + 1:]
    return None, n


def describe(ops, d, bad):
    if d is not None:
        k, got, exp = d
        return 'operation %d: %s\n  expected: %s\n  got:      %s%s' % (k, show(ops[k]), exp, got, '\n  ' + bad[1] if bad else '')
    return bad[1] if bad else '?'


def show(op):
    return ' '.join(repr(x)[1:] if isinstance(x, bytes) else str(x) for x in op)


def harvest(repo=REPO):
    """string and integer literals of the current sources"""
    strs, ints = set(), set()
    for f in glob.glob(repo + '/src/*.cpp') + glob.glob(repo + '/include/tinygettext/*.hpp'):
        t = open(f, 'rb').read()
        if f.endswith('language.cpp'):
            t = t[t.find(b'resolve_language_alias'):]
        t = re.sub(rb'//[^\n]*', b'', t)
        for m in re.finditer(rb'"((?:[^"\\\n]|\\.)*)"', t):
            try:
                s = m.group(1).decode('latin-1').encode('latin-1').decode('unicode_escape').encode('latin-1')
            except (UnicodeDecodeError, UnicodeEncodeError):
                s = m.group(1)
            if 0 < len(s) < 60:
                strs.add(s)
        for m in re.finditer(rb"'((?:[^'\\]|\\.)+)'", t):
            s = m.group(1)
            if len(s) == 1:
                strs.add(s)
        for m in re.finditer(rb'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])', t):
            v = int(m.group(1), 0) if not (m.group(1).startswith(b'0') and len(m.group(1)) > 1 and m.group(1)[1:2] != b'x') else 0
            if v < 2**31:
                ints.add(v)
    return sorted(strs), sorted(ints)


def races(repo, runs):
    """several threads on objects of their own under the race detector: (what happened, runs, note)"""
    d = tempfile.mkdtemp(prefix='dvr')
    try:
        cc = ['g++', '-std=c++17', '-g', '-O1', '-w', '-fsanitize=thread', '-I%s/include' % repo, '-I%s/src' % repo]
        procs = []
        for k, s in enumerate(sorted(glob.glob(repo + '/src/*.cpp')) + [os.path.join(HERE, 'race.cpp')]):
            o = '%s/%d.o' % (d, k)
            procs.append((s, o, subprocess.Popen(cc + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        bad = None
        for s, o, p in procs:
            out = p.communicate()[0]
            if p.returncode:
                bad = '%s: %s' % (s, out.decode(errors='replace')[:1000])
        if bad:
            return None, 0, bad
        r = subprocess.run(cc + [o for _, o, _ in procs] + ['-o', d + '/race'], capture_output=True)
        if r.returncode:
            return None, 0, r.stderr.decode(errors='replace')[:1000]
        with open(d + '/supp', 'w') as f:
            f.write('race:_dl_close_worker\nrace:__gconv\nrace:gconv\n')
        for k in range(runs):
            try:
                p = subprocess.run([d + '/race'], capture_output=True, timeout=60, cwd=d,
                                   env=dict(os.environ, TSAN_OPTIONS='suppressions=%s/supp' % d, LC_ALL='C'))
                text, rc = (p.stdout + p.stderr).decode(errors='replace'), p.returncode
            except subprocess.TimeoutExpired as e:
                text, rc = ((e.stdout or b'') + (e.stderr or b'')).decode(errors='replace') + '\nthe threads do not end', 'timeout'
            if 'unexpected memory mapping' in text:
                return None, k, 'the race detector does not run here'
            if rc != 0:
                i = max(0, text.find('WARNING: ThreadSanitizer'))
                return ([('six threads run witness/race.cpp on objects of their own',)], 'exit status %s:\n%s' % (rc, text[i:i + 2500])), k + 1, None
        return None, runs, None
    finally:
        shutil.rmtree(d, ignore_errors=True)
