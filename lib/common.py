"""Shared machinery: building, running the symbolic executor, replay, evidence."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
EVID = os.path.join(VERIF, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_TARGET_DIR'):
    ENV.pop(k, None)
T0 = time.time()


class CheckError(Exception):
    pass


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def sh(cmd, cwd=None, timeout=900, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout)


def build_symex():
    d = os.path.join(VERIF, 'symex')
    r = sh(['cargo', 'build', '--offline', '--release'], cwd=d)
    if r.returncode:
        raise CheckError('symex does not build:\n' + r.stderr[-3000:])
    return os.path.join(d, 'target', 'release', 'symex')


def build_replay():
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'replay')
    r = sh(['gcc', '-O1', '-rdynamic', '-o', out, os.path.join(VERIF, 'rt', 'replay.c'), '-ldl'])
    if r.returncode:
        raise CheckError('replay does not build:\n' + r.stderr)
    return out


def cargo_crate(d, name, target='target'):
    """Compiles a harness crate to LLVM IR and a shared object.

    Returns (ll, so, errors): errors is None, or a list of (files, message) of the compiler's errors.
    """
    tgt = os.path.join(BUILD, target)
    env = dict(ENV, CARGO_TARGET_DIR=tgt)
    r = sh(['cargo', 'rustc', '--offline', '--release', '--message-format=json', '--', '--emit=llvm-ir,link', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp', '-A', 'warnings'],
           cwd=d, env=env, timeout=1500)
    if r.returncode == 0:
        ll = os.path.join(tgt, 'release', 'deps', name + '.ll')
        so = os.path.join(tgt, 'release', 'lib' + name + '.so')
        if not (os.path.exists(ll) and os.path.exists(so)):
            raise CheckError('no IR written for ' + name)
        return ll, so, None
    errs = []
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get('reason') == 'compiler-message' and m['message']['level'] == 'error':
            pkg = m.get('target', {}).get('name', '')
            fs = set()
            todo = list(m['message']['spans'])
            while todo:
                s = todo.pop()
                if pkg == name:
                    fs.add(os.path.basename(s['file_name']))
                if s.get('expansion'):
                    todo.append(s['expansion']['span'])
            hint = ' / '.join(c['message'] for c in m['message'].get('children', []) if c['level'] == 'help')[:300]
            errs.append((pkg, sorted(fs), m['message']['message'] + (' (' + hint + ')' if hint else '')))
    if not errs:
        raise CheckError('cargo failed:\n' + r.stderr[-3000:])
    return None, None, errs


def demangle(names):
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        return r.stdout.split('\n')
    except OSError:
        return names


class Run:
    """Results of the executor over many entries."""

    def __init__(self):
        self.entries = []

    def total(self, k):
        return sum(e[k] for e in self.entries)


def run_symex(symex, ll, entries, jobs=1, par=8, timeout=600, extra=(), tag='run', max_viol=4):
    """entries: list of (name, [args])"""
    if not entries:
        return []
    out = os.path.join(BUILD, tag + '.json')
    cmd = [symex, '--ll', ll, '--jobs', str(jobs), '--par', str(par), '--timeout', str(timeout), '--max-viol', str(max_viol), '--out', out] + list(extra)
    for n, a in entries:
        cmd += ['--entry', n + (':' + ','.join(map(str, a)) if a else '')]
    r = sh(cmd, timeout=timeout + 240)
    if r.returncode:
        raise CheckError('symex failed (%d): %s' % (r.returncode, r.stderr[-2000:]))
    res = json.load(open(out))
    os.unlink(out)
    return res


def replay(so, entry, args, inputs, timeout=120):
    """Native run on recorded inputs. Returns (verdict, text, observed)."""
    fd, p = tempfile.mkstemp(prefix='in_', dir=BUILD)
    os.close(fd)
    open(p, 'w').write(''.join('%d %d %d\n' % tuple(x) for x in inputs))
    try:
        r = subprocess.run([os.path.join(BUILD, 'replay'), so, entry, ','.join(map(str, args)) or '-', p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout,
                           preexec_fn=limit_mem)
        rc, out, err = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        rc, out, err = 10, 'REPRODUCED no end after %d s' % timeout, ''
    os.unlink(p)
    obs = [int(l[4:]) for l in out.splitlines() if l.startswith('OBS ')]
    text = ' '.join(l for l in out.splitlines() if not l.startswith('OBS '))
    if rc == 10:
        return 'reproduced', (text + ' ' + err.strip()[:600]).strip(), obs
    if rc == 0 and 'memory allocation of' in err:
        return 'reproduced', 'out of memory', obs
    if rc == 0:
        return 'not', text, obs
    if rc < 0:
        return 'reproduced', 'died of signal %d %s' % (-rc, err.strip()[:300]), obs
    return 'misfit', text + ' ' + err[:300], obs


def limit_mem():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.violations = []        # (text, replay dict)
        self.known = []
        self.ev = {}
        self.assumptions = []
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        self.symex = build_symex()
        build_replay()
        self.res = []
        self.validated = 0
        self.diverged = []
        self.notes = []

    # -- exploration
    def explore(self, ll, so, entries, **kw):
        res = run_symex(self.symex, ll, entries, tag=self.prop, **kw)
        for r in res:
            r['so'] = so
        self.res += res
        if os.environ.get('VERIF_DEBUG'):
            for r in sorted(res, key=lambda r: -r['seconds'])[:25]:
                log('   ', r['entry'], r['args'], r['paths'], 'paths', r['seconds'], 's')
        return res

    def digest(self, describe, known=(), validate=40):
        """Turns executor results into verdicts; describe(entry result, violation) -> text"""
        errs = []
        for r in self.res:
            if r.get('digested'):
                continue
            r['digested'] = True
            for v in r['violations']:
                if len(self.violations) >= 40:
                    self.unreplayed = getattr(self, 'unreplayed', 0) + 1
                    continue
                verdict, text, _ = replay(r['so'], r['entry'], r['args'], v['inputs'], 30 if v['kind'] == 'steps' else 120)
                if verdict == 'reproduced':
                    self.violations.append((describe(r, v), {'entry': r['entry'], 'args': r['args'], 'inputs': v['inputs'], 'symbolic': v['msg'], 'native': text}))
                else:
                    errs.append('%s%s: %s (%s) is not confirmed by the native run: %s; inputs %s' % (r['entry'], r['args'], v['key'], v['msg'], text, v['inputs']))
            for e in r['errors']:
                errs.append('%s%s: %s' % (r['entry'], r['args'], e))
            if r['incomplete'] and not r['violations'] and not r['errors']:
                errs.append('%s%s: exploration incomplete' % (r['entry'], r['args']))
        # the executor against the machine: same inputs, same observations
        pool = ThreadPoolExecutor(8)
        jobs = []
        for r in self.res:
            if r.get('validated'):
                continue
            r['validated'] = True
            for s in r['samples'][:validate]:
                jobs.append((r, s, pool.submit(replay, r['so'], r['entry'], r['args'], s['inputs'])))
        for r, s, f in jobs:
            verdict, text, obs = f.result()
            if verdict == 'reproduced' and r['violations']:
                continue
            if verdict != 'not' or 'inputs left' in text or obs != s['observed']:
                errs.append('%s%s: the executor and the native run differ on %s: %s %s, executor saw %s' % (r['entry'], r['args'], s['inputs'], text, obs, s['observed']))
            else:
                self.validated += 1
        self.errors = getattr(self, 'errors', []) + errs

    def require(self, cond, what):
        if not cond:
            self.errors = getattr(self, 'errors', []) + ['vacuous: ' + what]

    def finish(self, coverage, samples):
        """Writes evidence, prints the verdict, exits."""
        errors = getattr(self, 'errors', [])
        tot = {}
        for k in ('paths', 'completed', 'killed', 'panics_ok', 'instructions', 'forks', 'asserts', 'assert_queries', 'queries', 'sat', 'unsat', 'cached'):
            tot[k] = sum(r[k] for r in self.res)
        tot['solver_seconds'] = round(sum(r['solver_seconds'] for r in self.res), 2)
        tot['max_query_ms'] = max([r['max_query_ms'] for r in self.res] or [0])
        covers = {}
        funcs = set()
        for r in self.res:
            for k, v in r['covers'].items():
                covers[k] = covers.get(k, 0) + v
            funcs.update(r['functions'])
        names = sorted(set(re.sub(r'\[[0-9a-f]{16}\]', '', x) for x in demangle(sorted(funcs)) if x))
        own = [x for x in names if not re.match(r'<?(core|alloc|std|compiler_builtins)\b', x) and 'core::' not in x.split('::')[0]]
        cov = {
            'states': tot['paths'],
            'transitions': tot['forks'],
            'traces_validated_against_impl': self.validated,
            'samples': samples[:12],
            'what_states_are': 'states: complete symbolic paths (each a set of inputs described by its path condition); transitions: forks decided by the solver',
            'entries': len(self.res),
            'executor': tot,
            'covers': covers,
            'solver': 'z3 ' + (self.res[0]['z3'] if self.res else ''),
            'functions_encoded': len(names),
            'functions_encoded_sample': (own or names)[:60],
            'exhaustive': not any(r['incomplete'] for r in self.res),
        }
        cov.update(coverage)
        if self.notes:
            cov['notes'] = self.notes
        doc = {
            'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': self.level,
            'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - T0, 2), 'violations': len(self.violations),
        }
        p = os.path.join(EVID, self.prop + '.json')
        json.dump(doc, open(p + '.tmp', 'w'), indent=1)
        os.replace(p + '.tmp', p)
        log('%s: %d entries, %d paths, %d queries (%.1f s in the solver), %d native replays agree' % (self.prop, len(self.res), tot['paths'], tot['queries'], tot['solver_seconds'], self.validated))
        if self.violations:
            rd = os.path.join(EVID, 'replay')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.prop + '.json')
            json.dump([dict(r, what=t) for t, r in self.violations], open(path, 'w'), indent=1)
            for t, r in self.violations[:20]:
                print('  ' + t)
            print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
            sys.exit(1)
        if errors:
            for e in errors[:20]:
                print('ERROR ' + e, flush=True)
            sys.exit(2)
        print('OK %s' % self.prop, flush=True)
        sys.exit(0)
