#!/usr/bin/env python3-vt
"""Decide one property on /repo's current sources:  python3-vt check.py C01 [quick|thorough]

Exit 0: every obligation of the property was discharged (known findings aside).
Exit 1: `VIOLATION property=<id> replay=<path>`."""
import collections, importlib, json, multiprocessing as mp, os, random, re, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'witness'))
sys.setrecursionlimit(20000)
MODULES = ['dictionary', 'visit', 'plural', 'language', 'log', 'iconv', 'parser', 'manager']
REPO = os.environ.get('DV_REPO', '/repo')
GENERAL = [
    'machine model of the verifier: LP64, two\'s complement, the C locale; int arithmetic is checked for overflow, size_t arithmetic wraps',
    'standard library behaves as its contracts in dv/lib.py state (strings, vectors, maps, streams); memory allocation does not fail',
    'clang\'s AST is the program that gcc compiles; the verifier (dv/*.py) and z3 are sound',
    'fallback chains of dictionaries are acyclic; dictionaries are not modified while they are iterated',
]
THREADS = [
    'an operation that writes only objects reachable from its arguments, or fresh ones, cannot race with one on other objects (C++ [intro.races])',
    'initialisation of function-local statics is synchronised (C++ [stmt.dcl]); the C and C++ library functions used are thread-safe',
    'nobody installs log callbacks meanwhile, and the installed ones are themselves thread-safe',
]


def load():
    out = []
    for m in MODULES:
        out += importlib.import_module('dv.contracts.' + m).CONTRACTS
    return out


_J = {}


def _job(args):
    k, effort = args
    V, cs = _J['V'], _J['cs']
    if isinstance(k, str):
        return k, V.frame(V.prog.bykey[k]).__dict__
    c = cs[k]
    try:
        V.deadline = _J['deadline'] - 5
        if effort:
            c.timeout *= 4
            c.depth += effort - 1 if effort > 1 else 0
        r = V.verify(c)
    except Exception as e:                                  # the verifier itself failed
        from dv.verify import Result
        r = Result(c.key or c.qual)
        r.unsupported = 'verifier: %s: %s' % (type(e).__name__, e)
        r.trace = traceback.format_exc()
    return k, r.__dict__


def run_all(V, cs, which, effort=0, procs=8, budget=240):
    """verify contracts in parallel processes; {index: result dict}"""
    from dv.verify import Result
    _J['V'], _J['cs'], _J['deadline'] = V, cs, time.time() + budget
    out = {}
    pool = mp.get_context('fork').Pool(min(procs, max(1, len(which))), maxtasksperchild=1)
    try:
        it = pool.imap_unordered(_job, [(k, effort) for k in which], chunksize=1)
        for _ in which:
            k, r = it.next(timeout=max(1, _J['deadline'] + 20 - time.time()))
            out[k] = r
    except mp.TimeoutError:
        pass
    finally:
        pool.terminate()
    for k, r in out.items():
        if not r['unsupported'] and any(o['reason'] == 'time budget' for o in r['obls']) and all(
                o['ok'] or o['reason'] == 'time budget' for o in r['obls']):
            r['unsupported'] = 'not decided within the time budget'
    for k in which:
        if k not in out:
            r = Result(k if isinstance(k, str) else cs[k].key or cs[k].qual)
            r.unsupported = 'not decided within the time budget'
            out[k] = r.__dict__
    return out


def known_findings():
    res = []
    p = os.path.join(HERE, 'known-findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'finding: property=(\S+) obligation="([^"]*)" (.*)', l)
        if m:
            res.append(m.groups())
    return res


FAMILY = ['C09', 'C10', 'C11', 'C12', 'C13', 'C14']       # judged by one specification of a whole .po file


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()

    def budget(self):
        return 240 if self.tier == 'quick' else 1200

    def left(self, want):
        """seconds for another proof attempt: quick checks have to end within 900 s"""
        return want if self.tier != 'quick' else max(20, min(want, 560 - (time.time() - self.t0)))

    def relevant(self, o):
        return not o['facets'] or self.pid in o['facets']

    def bad(self, r):
        """failed obligations of this property in a result"""
        known = {(p, n) for p, n, _ in self.known}
        return [o for o in r['obls'] if not o['ok'] and o['reason'] != 'time budget' and self.relevant(o) and (self.pid, o['name']) not in known]

    def verifier(self, cs):
        from dv.verify import Verifier
        V = Verifier(self.prog, cs)
        V.only = self.pid
        return V

    def decide_frames(self):
        """threads: every function of the library leaves shared objects alone"""
        which = [k for k, c in enumerate(self.cs) if self.pid in c.also and c.key]
        have = {self.cs[k].key for k in which} | {c.key for c in self.cs}
        mine = os.path.join(REPO, '')
        which += [f.key for f in self.prog.bykey.values() if f.key not in have and f.tu.path.startswith(mine) and f.body is not None
                  and 'Probe' not in f.key and 'ConstPtrHack' not in f.key]
        res = run_all(self.V, self.cs, which)
        # what cannot be executed on its own is executed where it is called
        called = {g for r in res.values() for g in r['inlined']}
        for k in [k for k in res if isinstance(k, str) and res[k]['unsupported'] and k in called and not self.bad(res[k])]:
            del res[k]
        for k in res:
            res[k]['vacuous'] = False
        self.res = {str(k): res[k] for k in res}
        self.failed = [(res[k]['key'], o) for k in sorted(res, key=str) for o in self.bad(res[k])]
        self.unsup = [(res[k]['key'], res[k]['unsupported']) for k in sorted(res, key=str) if res[k]['unsupported'] and not self.bad(res[k])]

    def decide(self):
        from dv import cxxast
        self.known = known_findings()
        if self.tier != 'quick':
            from dv import smt
            smt.CROSS, smt.CROSSEND = mp.Array('i', 3), mp.Value('d', time.time() + 400)
        self.prog = cxxast.Program(extra=[os.path.join(HERE, 'dv', 'extra', 'probe.cpp')])
        self.cs = load()
        self.dropped = []
        mine = lambda cs: [k for k, c in enumerate(cs) if self.pid in c.props + c.also]
        self.V = self.verifier(self.cs)
        self.early = None
        if self.pid == 'C21':
            return self.decide_frames()
        which = [k for k in mine(self.cs) if not (self.cs[k].optional and self.cs[k].key is None)]
        res = run_all(self.V, self.cs, which, budget=self.budget())
        # a helper that no longer meets the contract we wrote for it: judge its callers with its body instead
        weak = [k for k in res if self.cs[k].optional and (self.bad(res[k]) or res[k]['unsupported'] or res[k]['vacuous'])]
        gone = [c for c in self.cs if c.optional and c.key is None and self.pid in c.props + c.also]
        self.early = None
        if any(self.bad(res[k]) for k in res):
            # an input that shows the violation settles it
            self.early = self.witness(40 if self.tier == 'quick' else 120)
        if self.early:
            weak = []
        if weak:
            strong = run_all(self.V, self.cs, weak, effort=2, budget=60)
            for k in list(weak):
                if not (self.bad(strong[k]) or strong[k]['unsupported'] or strong[k]['vacuous']):
                    res[k] = strong[k]
                    weak.remove(k)
        if weak:
            self.dropped = [self.cs[k].key for k in weak]
            drop = {id(self.cs[k]) for k in weak}
            cs2 = [c for c in self.cs if id(c) not in drop]
            V2 = self.verifier(cs2)
            again = [k for k in mine(cs2) if cs2[k].key]
            r2 = run_all(V2, cs2, again, budget=self.left(240))
            fixed = {cs2[k].key or cs2[k].qual: (cs2, k, V2) for k in r2}
            # what the helper contract covered is now covered in its callers; failures there are reported
            self.cs, self.V = cs2, V2
            res = r2
        hard = [k for k in res if self.bad(res[k]) or res[k]['vacuous']]
        if hard and not self.early:
            again = run_all(self.V, self.cs, hard, effort=2, budget=self.left(120))
            for k in hard:
                a, b = again[k], res[k]
                if not a['unsupported'] and len(self.bad(a)) <= len(self.bad(b)):
                    res[k] = a
        self.res = res
        self.failed = [(res[k]['key'], o) for k in sorted(res) for o in self.bad(res[k])]
        if self.tier != 'quick' and smt.CROSS[2]:
            self.failed.append(('cvc5', {'name': 'queries cvc5 does not find unsatisfiable', 'kind': 'second solver', 'ok': False, 'reason': '%d queries' % smt.CROSS[2],
                                         'time': 0.0, 'facets': (), 'backend': 'cvc5', 'detail': None}))
        for k in sorted(res):
            if res[k]['vacuous'] and not res[k]['unsupported']:
                self.failed.append((res[k]['key'], {'name': '%s: some execution reaches the end' % res[k]['key'], 'kind': 'vacuity', 'ok': False,
                                                    'reason': 'vacuous', 'time': 0.0, 'facets': (), 'backend': 'z3', 'detail': None}))
        self.unsup = [(res[k]['key'], res[k]['unsupported']) for k in sorted(res) if res[k]['unsupported']]

    # ------------------------------------------------------------- witnesses
    def witness(self, budget, pid=None):
        """search an input on which the real code contradicts the property"""
        import witness, gen
        self.searched = 0
        if self.pid == 'C21':
            w, self.searched, self.wnote = witness.races(REPO, 4 if self.tier == 'quick' else 40)
            return w
        try:
            drv = witness.Driver(REPO)
        except witness.BuildError as e:
            self.wnote = 'the witness driver does not build: %s' % e
            return None
        try:
            g = gen.G(random.Random(self.seed), *witness.harvest(REPO))
            w, self.searched = witness.search(drv, [getattr(g, pid or self.pid)], None, budget=budget)
            return w
        finally:
            drv.close()

    def elsewhere(self):
        """only obligations shared by the parser properties failed, and an input shows which other property is broken"""
        if self.pid not in FAMILY or any(not self.shared(o) for _, o in self.failed):
            return False
        n = self.searched
        for q in FAMILY:
            if q != self.pid:
                w = self.witness(15, q)
                if w:
                    self.other, self.searched = q, n
                    print('the failing input found is one of %s: %s' % (q, w[1]))
                    return True
        self.searched = n
        return False

    def shared(self, o):
        return len([q for q in FAMILY if q in o['facets']]) > 1 or 'POParser::parse()' in o['name'] or 'POParser::parse(' in o['name']

    def replay_file(self, name, d):
        os.makedirs(os.path.join(os.environ.get('DV_OUT', HERE), 'out'), exist_ok=True)
        p = os.path.join(os.environ.get('DV_OUT', HERE), 'out', name)
        with open(p, 'w') as f:
            json.dump(d, f, indent=1)
        return p

    def main(self):
        pid = self.pid
        self.wnote, self.searched = None, 0
        self.decide()
        rc = 0
        names = collections.OrderedDict()
        for p, n, text in self.known:
            if p == pid and text not in names:
                hit = any(o['name'] == n and not o['ok'] for r in self.res.values() for o in r['obls'])
                if hit:
                    names[text] = n
        for text in names:
            print('KNOWN-FINDING: property=%s %s' % (pid, text))
        w = None
        bounded = False
        violations = 0
        if self.failed:
            w = self.early or self.witness(60 if self.tier == 'quick' else 240)
            if not w and self.elsewhere():
                bounded = True
                self.unsup += [(k, 'its specification covers several properties; the one it breaks is %s' % self.other) for k in sorted({k for k, _ in self.failed})]
                for k, why in self.unsup:
                    print('BOUNDED: %s fails obligations: %s; %d generated cases of this property agree with the specification' % (k, why, self.searched))
                self.failed = []
        if self.failed:
            violations = len(self.failed)
            d = {'property': pid, 'failed_obligations': [
                {'function': k, 'obligation': o['name'], 'kind': o['kind'], 'verifier': o['reason'], 'detail': o.get('detail')}
                for k, o in self.failed[:40]]}
            if self.dropped:
                d['helpers_without_contract'] = self.dropped
            for k, o in self.failed[:8]:
                print('failed obligation: %s [%s]' % (o['name'], o['reason']))
            if w:
                ops, text = w
                d['failing_input'] = {'operations': [[x.decode('latin-1') if isinstance(x, bytes) else x for x in o] for o in ops],
                                      'what_happens': text}
                print(text)
            else:
                d['failing_input'] = None
                d['search'] = self.wnote or '%d generated cases agree with the specification' % self.searched
            path = self.replay_file('%s-violation.json' % pid, d)
            print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if w else ' no-failing-input-found'))
            rc = 1
        elif (self.unsup or self.tier == 'thorough') and not bounded:
            bounded = bool(self.unsup)
            for k, why in self.unsup:
                print('BOUNDED: %s is outside the verifier\'s reach (%s); bounded differential check instead' % (k, why))
            w = self.witness(60 if self.tier == 'quick' else 300)
            if self.wnote:
                print(self.wnote)
            if w:
                ops, text = w
                print(text)
                violations = 1
                path = self.replay_file('%s-violation.json' % pid, {
                    'property': pid, 'unverified': self.unsup, 'failing_input': {
                        'operations': [[x.decode('latin-1') if isinstance(x, bytes) else x for x in o] for o in ops], 'what_happens': text}})
                print('VIOLATION property=%s replay=%s' % (pid, path))
                rc = 1
        self.evidence(violations, bounded)
        n, d = self.counts
        print('%s: %d of %d obligations discharged, %d functions, %.1f s' % (pid, d, n, len(self.res), time.time() - self.t0))
        return rc

    def evidence(self, violations, bounded):
        fns, trusted = [], set()
        nob = nd = 0
        by = collections.Counter()
        st = 0.0
        samples = []
        for k in sorted(self.res):
            r = self.res[k]
            obls = [o for o in r['obls'] if self.relevant(o)]
            ok = sum(o['ok'] for o in obls)
            nob += len(obls)
            nd += ok
            for o in obls:
                by[o['backend']] += 1 if o['ok'] else 0
                st += o['time']
            fns.append({'function': r['key'], 'at': r['loc'], 'obligations': len(obls), 'discharged': ok, 'paths': r['paths'],
                        'loops': r['loops'], 'callee_contracts': r['used_contracts'], 'inlined': r['inlined'],
                        'status': 'BOUNDED: ' + r['unsupported'] if r['unsupported'] else 'proved' if ok == len(obls) else 'open',
                        'seconds': round(r['time'], 2)})
            trusted |= set(r['used_lib'])
            samples += [o['name'] for o in obls[:3]]
        self.counts = (nob, nd)
        cov = {'obligations': nob, 'discharged': nd,
               'checker_cmd': 'python3-vt check.py %s %s' % (self.pid, self.tier),
               'trusted_base': sorted('assumed contract: ' + x for x in trusted) + ['clang 18 (front end)', 'z3', 'dv/*.py (VC generator, invariant inference)'],
               'functions_under_contract': fns, 'discharged_by': dict(by), 'solver_seconds': round(st, 2),
               'samples': samples[:25]}
        if self.tier != 'quick' and self.pid != 'C21':
            from dv import smt
            cov['second_solver'] = {'cvc5': 'queries that z3 found unsatisfiable while discharging obligations, given to cvc5 with 5 s each',
                                    'confirmed': smt.CROSS[0], 'not_answered': smt.CROSS[1], 'contradicted': smt.CROSS[2]}
        if bounded:
            cov['bounded'] = {'functions': [list(x) for x in self.unsup], 'cases': self.searched,
                              'bound': 'seeded differential cases against witness/oracle.py within the time limit; not counted as proved'}
        elif self.searched:
            cov['differential_cases'] = self.searched
        if self.dropped:
            cov['helper_contracts_replaced_by_bodies'] = self.dropped
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'proof', 'coverage': cov,
              'assumptions': GENERAL + (THREADS if self.pid == 'C21' else []) + sorted({a for k in self.res if isinstance(k, int) for a in self.cs[k].assumes}),
              'wall_s': round(time.time() - self.t0, 2), 'violations': violations}
        os.makedirs(os.path.join(os.environ.get('DV_OUT', HERE), 'evidence'), exist_ok=True)
        with open(os.path.join(os.environ.get('DV_OUT', HERE), 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


if __name__ == '__main__':
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    sys.exit(Check(pid, tier, seed).main())
