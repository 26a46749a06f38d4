#!/usr/bin/env python3
"""Decides one property of /repo by running its real code under monitors.

  check.py ID [--replay FILE]      VERIF_SEED, VERIF_TIER from the environment
"""
import collections, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from props import PROPS

NCPU = max(1, min(8, os.cpu_count() or 1))
T0 = time.time()
MODS = ('core', 'process', 'algorithm', 'highgui', 'satellite')
INC = ['-I%s/modules/%s/include' % (REPO, m) for m in MODS]
GDAL = ['-I/usr/include/gdal']
WRAPS = ['malloc', 'calloc', 'realloc', 'free', 'create_hyper_mat', 'create_hyper_mat_with_data',
         'create_simple_mat', 'create_simple_mat_with_data', 'simple_mat_copy', 'hyper_mat_copy']

VARIANTS = {
    'asan': dict(cc='gcc', cxx='g++', lib=['-fsanitize=float-cast-overflow'], flags=['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                                             '-fno-omit-frame-pointer'], defs=['-DREGISTRY'], wrap=True),
    'msan': dict(cc='clang', cxx='clang++', flags=['-O1', '-g1', '-fsanitize=memory', '-fno-sanitize-recover=all',
                                                   '-fno-omit-frame-pointer'], defs=['-D_GLIBCXX_EXTERN_TEMPLATE=0'], wrap=False),
    'tsan': dict(cc='gcc', cxx='g++', flags=['-O1', '-g1', '-fsanitize=thread', '-fno-omit-frame-pointer'], defs=[], wrap=False),
    'plain': dict(cc='gcc', cxx='g++', flags=['-O1', '-g1'], defs=['-DREGISTRY', '-DHAVE_VALGRIND'], wrap=True),
    # the optimisation level of a release, for sizes that make sanitizers too slow
    'fast': dict(cc='gcc', cxx='g++', flags=['-O2', '-g1'], defs=['-DREGISTRY'], wrap=True),
}
SAN_ENV = {
    'ASAN_OPTIONS': 'exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=268435456:'
                    'quarantine_size_mb=32:handle_abort=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'MSAN_OPTIONS': 'exitcode=99:allocator_may_return_null=1',
    'TSAN_OPTIONS': 'exitcode=99:halt_on_error=1:second_deadlock_stack=1',
}


def note(*a):
    print(*a, flush=True)


class BuildError(Exception):
    pass


# ------------------------------------------------------------------ scenarios ----
def scenario_files():
    m = {}
    for f in sorted(glob.glob(HERE + '/harness/ops_*.cpp')):
        for name, n, flags in re.findall(r'^SC\((\w+),\s*(\d+),\s*([^)]*)\)', open(f).read(), re.M):
            m[name] = (f, int(n), flags)
    return m


SCEN = scenario_files()


def is_cxx(f):
    return 'cxx' in os.path.basename(f)


# ---------------------------------------------------------------------- build ----
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def lib_sources(cxx):
    exts = ('.cpp', '.cxx', '.cc') if cxx else ('.c',)
    out = []
    for m in MODS:
        for d, _, fs in os.walk('%s/modules/%s/src' % (REPO, m)):
            out += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return sorted(out)


def build(work, jobs):
    """jobs: set of (variant, group, frozenset(files)); returns {job: binary}"""
    todo = {}
    link = {}
    for variant, group, files in jobs:
        v = VARIANTS[variant]
        objs = []
        d = os.path.join(work, variant)
        os.makedirs(d, exist_ok=True)

        def add(src, comp, extra):
            o = os.path.join(d, hashlib.md5((src + ' '.join(extra)).encode()).hexdigest()[:12] + '.o')
            cmd = [comp, '-c', '-w', '-D_cplusplus'] + v['flags'] + INC + extra + [src, '-o', o]
            if comp.startswith('clang') and src.endswith('.c'):
                cmd.insert(3, '-Wno-everything')
                cmd[3:3] = ['-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion',
                            '-Wno-error=incompatible-function-pointer-types']
            todo[o] = cmd
            objs.append(o)

        for s in lib_sources(False):
            add(s, v['cc'], v.get('lib', []))
        if group == 'cxx':
            for s in lib_sources(True):
                add(s, v['cxx'], v.get('lib', []) + ['-Dgdal_switch=1'] + GDAL)
        h = v['defs'] + ['-I' + HERE + '/harness']
        add(HERE + '/harness/h.cpp', v['cxx'], h)
        for f in sorted(files):
            add(f, v['cxx'], h + (v.get('lib', []) + ['-Dgdal_switch=1'] + GDAL if group == 'cxx' else []))
        wraps = list(WRAPS) if v['wrap'] else []
        if any(os.path.basename(f) == 'ops_alg.cpp' for f in files):
            wraps.append('time')
        b = os.path.join(work, 'w.%s.%s' % (variant, group))
        link[(variant, group, files)] = (b, [v['cxx']] + v['flags'] + objs + ['-o', b] + (['-lgdal'] if group == 'cxx' else []) +
                                         ['-lm', '-lpthread'] + (['-Wl,' + ','.join('--wrap=' + w for w in wraps)] if wraps else []))

    big = lambda o: -os.path.getsize([x for x in todo[o] if x.endswith(('.c', '.cpp', '.cc', '.cxx'))][0])
    with ThreadPoolExecutor(NCPU) as ex:
        for cmd, r in ex.map(lambda o: (todo[o], sh(todo[o])), sorted(todo, key=big)):
            if r.returncode:
                raise BuildError(' '.join(cmd) + '\n' + r.stdout[-3000:])
        for (b, cmd), r in ex.map(lambda x: (x, sh(x[1])), link.values()):
            if r.returncode:
                raise BuildError(' '.join(cmd) + '\n' + r.stdout[-3000:])
    return {j: b for j, (b, _) in link.items()}


# -------------------------------------------------------------------- workers ----
class Result:
    def __init__(self):
        self.fails = []          # dicts: scenario seed kind msg case, run
        self.cases = self.skipped = self.compared = 0
        self.features = collections.Counter()
        self.per = collections.Counter()
        self.samples = []
        self.sigs = set()
        self.digs = {}
        self.inconclusive = []
        self.harness_errors = []


def parse_sanitizer(err, out):
    """kind, message of a worker that died"""
    t = err + '\n' + out
    frames = [f for f in re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+?)(?:\(.*?\))? [^\n]*', t)]
    lib = [f for f in frames if not f.startswith(('__', 'sc_', 'main', 'run_once', 'fail', 'check_watches', 'std::', 'req_'))][:3]
    where = ' in ' + ' < '.join(lib) if lib else ''
    m = re.search(r'ERROR: AddressSanitizer: ([^\n]{0,200})', t)
    if m:
        return 'memory', 'AddressSanitizer: ' + m.group(1) + where
    m = re.search(r'WARNING: MemorySanitizer: ([^\n]{0,160})', t)
    if m:
        return 'uninit', 'MemorySanitizer: ' + m.group(1) + where
    m = re.search(r'WARNING: ThreadSanitizer: ([^\n]{0,160})', t)
    if m:
        return 'race', 'ThreadSanitizer: ' + m.group(1) + where
    m = re.search(r'([^\s:]*:\d+:\d+): runtime error: ([^\n]{0,200})', t)
    if m:
        return 'memory', 'undefined behaviour at %s: %s%s' % (m.group(1), m.group(2), where)
    m = re.search(r'==\d+==ERROR: \w+Sanitizer[^\n]{0,200}', t)
    if m:
        return 'memory', m.group(0) + where
    m = re.search(r'==\d+== ((?:Conditional jump|Use of uninit|Syscall param)[^\n]{0,160})', t)
    if m:
        by = re.findall(r'==\d+==\s+(?:at|by) 0x[0-9A-F]+: (\S+)', t)[:4]
        return 'uninit', 'memcheck: ' + m.group(1) + ' in ' + ' < '.join(by)
    m = re.search(r'==\d+== (Invalid (?:read|write|free)[^\n]{0,160})', t)
    if m:
        return 'memory', 'memcheck: ' + m.group(1)
    m = re.search(r'ERROR: ([^\n]{0,160})', out)
    return None, m.group(1) if m else ''


class Cur:
    @staticmethod
    def read(path):
        try:
            b = open(path, 'rb').read()
        except OSError:
            return None
        if len(b) < 88:
            return None
        return dict(active=int.from_bytes(b[0:4], 'little'), index=int.from_bytes(b[4:8], 'little', signed=True),
                    name=b[16:80].split(b'\0')[0].decode(),
                    seed=str(int.from_bytes(b[8:16], 'little')) + ('.%d' % int.from_bytes(b[80:88], 'little') if b[87] < 128 else ''))


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_shard(binary, p, scens, shard, nshards, work, deadline, seed, thorough, mult, alone=False):
    R = Result()
    tag = '%s.%s.%d' % (os.path.basename(binary), p['mode'], shard)
    d = os.path.join(work, 'run.' + tag + '.' + hashlib.md5(repr((p, scens)).encode()).hexdigest()[:6])
    os.makedirs(d + '/s', exist_ok=True)
    out, cur = d + '/out', d + '/cur'
    env = dict(os.environ)
    env.update(SAN_ENV)
    for k, v in p.get('env', {}).items():
        env[k] = env[k] + ':' + v if k in SAN_ENV else v
    env.update(LC_ALL='C', MALLOC_PERTURB_='165', TMPDIR=d + '/s', HOME=d + '/s')
    if alone:        # huge pages: several of the operations walk images of gigabytes by columns
        env['GLIBC_TUNABLES'] = 'glibc.malloc.hugetlb=1'
    for k in ('GDAL_DATA', 'GDAL_DRIVER_PATH'):
        env.pop(k, None)
    start, restarts, retried = 0, 0, set()
    base = [binary, '--scen', ','.join(scens), '--cur', cur, '--out', out, '--seed', str(seed), '--shard', str(0 if alone else shard),
            '--nshards', str(1 if alone else nshards), '--mult', repr(mult), '--scratch', d + '/s', '--mode', p['mode'], '--cpu', str(p.get('cpu', 40))]
    if p.get('cap'):
        base += ['--cap', str(p['cap'] * (10 if thorough else 1))]
    base += p.get('args', [])
    if thorough:
        base.append('--thorough')
    if p.get('valgrind'):
        base = ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=no', '--main-stacksize=8388608',
                '--suppressions=' + HERE + '/valgrind.supp'] + base
    while True:
        for f in (out, out + '.sig', cur):
            if os.path.exists(f):
                os.truncate(f, 0)
        budget = deadline - time.time()
        if budget <= 1:
            R.inconclusive.append('time budget used up at case %d of %s' % (start, tag))
            break
        se, so = d + '/stderr', d + '/stdout'
        killed = False
        with open(se, 'wb') as fe, open(so, 'wb') as fo:
            pr = subprocess.Popen(base + ['--start', str(start)], stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=env, cwd=d + '/s',
                                  preexec_fn=limits, start_new_session=True)
            try:
                pr.wait(timeout=budget)
            except subprocess.TimeoutExpired:
                killed = True
                os.killpg(pr.pid, signal.SIGKILL)
                pr.wait()
        try:
            os.killpg(pr.pid, signal.SIGKILL)
        except OSError:
            pass
        rc = pr.returncode
        tail = lambda f: open(f, 'rb').read()[-60000:].decode('utf8', 'replace')
        done = stuck = False
        for line in open(out, errors='replace') if os.path.exists(out) else []:
            try:
                j = json.loads(line)
            except ValueError:
                continue
            if 'fail' in j:
                j['run'] = p['name']
                R.fails.append(j)
            elif 'dig' in j:
                R.digs[(j['s'], j['k'])] = (j['dig'], j['seed'])
            elif 'stuck' in j:
                stuck = True
            elif 'done' in j:
                done = True
                R.cases += j['cases']
                R.skipped += j['skipped']
                R.compared += j['compared']
                R.features.update(j['features'])
                R.per.update(j['scenarios'])
                R.samples += j.get('samples', [])
        try:
            b = open(out + '.sig', 'rb').read()
            R.sigs.update(b[i:i + 8] for i in range(0, len(b), 8))
        except OSError:
            pass
        if done and rc == 0:
            break
        c = Cur.read(cur)
        if killed:
            R.inconclusive.append('time budget used up in %s' % tag)
            break
        if rc == 97 or c is None or not c['active']:
            R.harness_errors.append('worker %s ended with %s: %s' % (tag, rc, (tail(se) + tail(so))[-600:]))
            break
        R.cases += max(0, c['index'] - start) + 1     # the counters of the lost worker
        R.per[c['name']] += 1
        key = (c['index'])
        if rc in (-9, 96) or stuck:       # killed from outside, or the machine was stuck: no verdict
            if key in retried:
                R.inconclusive.append('%s seed %s could not be run (%s)' % (c['name'], c['seed'], rc))
                start = c['index'] + 1
            else:
                retried.add(key)
                start = c['index']
        else:
            kind, msg = parse_sanitizer(tail(se), tail(so))
            if rc == 98:
                kind, msg = 'hang', 'no result within %d s of processor time' % p.get('cpu', 40)
            elif kind is None and rc == 1:
                kind, msg = 'exit', 'the process exited: ERROR: ' + msg
            elif kind is None and rc < 0:
                kind, msg = 'memory', 'killed by signal %d %s' % (-rc, tail(se)[-200:])
            elif kind is None and rc == 134:
                kind, msg = 'memory', 'aborted ' + tail(se)[-200:]
            elif kind is None:
                kind, msg = 'exit', 'the process exited with status %d %s' % (rc, msg)
            R.fails.append(dict(scenario=c['name'], seed=c['seed'], kind=kind, msg=msg, case='', run=p['name'],
                                report=(tail(se) + tail(so))[-6000:]))
            start = c['index'] + 1
        restarts += 1
        if restarts >= 6:
            R.inconclusive.append('%s stopped after %d restarts' % (tag, restarts))
            break
    shutil.rmtree(d, ignore_errors=True)
    return R


def merge(rs):
    T = Result()
    for r in rs:
        T.fails += r.fails
        T.cases += r.cases
        T.skipped += r.skipped
        T.compared += r.compared
        T.features.update(r.features)
        T.per.update(r.per)
        T.samples += r.samples
        T.sigs |= r.sigs
        T.digs.update(r.digs)
        T.inconclusive += r.inconclusive
        T.harness_errors += r.harness_errors
    return T


def run_pass(binary, p, work, deadline, seed, thorough, tmult):
    if 'lanes' in p:                 # one process for each list of scenarios: what runs at once fits into memory
        with ThreadPoolExecutor(len(p['lanes'])) as ex:
            return merge(ex.map(lambda k: run_shard(binary, p, p['lanes'][k], k, len(p['lanes']), work, deadline, seed, thorough,
                                                    p['mult'] * tmult, alone=True), range(len(p['lanes']))))
    n = min(p.get('shards', NCPU), NCPU)
    with ThreadPoolExecutor(n) as ex:
        return merge(ex.map(lambda k: run_shard(binary, p, p['scen'], k, n, work, deadline, seed, thorough,
                                                p['mult'] * tmult), range(n)))


def run_threads(binary, p, work, deadline, seed, thorough, tmult):
    """concurrent callers under the race detector"""
    R = Result()

    def go(k, threads, sc=None):
        d = tempfile.mkdtemp(dir=work)
        env = dict(os.environ)
        env.update(SAN_ENV)
        out = d + '/out'
        cmd = [binary, '--scen', ','.join(sc or p['scen']), '--out', out, '--cur', d + '/cur', '--seed', str(seed * 1000 + k), '--threads', str(threads),
               '--mult', str(max(1, int(p['mult'] * tmult))), '--scratch', d]
        try:
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, cwd=d,
                               timeout=max(5, min(300, deadline - time.time())), preexec_fn=limits)
            rc, text = r.returncode, (r.stderr + r.stdout).decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            rc, text = 'timeout', ''
        lines = []
        try:
            lines = [json.loads(x) for x in open(out, errors='replace') if x.strip()]
        except (OSError, ValueError):
            pass
        shutil.rmtree(d, ignore_errors=True)
        return rc, text, lines

    for k in range(p['rounds'] * 4 if thorough else p['rounds']):
        if time.time() > deadline - 5:
            R.inconclusive.append('time budget used up')
            break
        rc, text, lines = go(k, p['threads'])
        for j in lines:
            if 'done' in j:
                R.cases += j['cases']
                R.compared += j['compared']
                for f, v in j['features'].items():
                    R.features[f] = max(R.features[f], v) if f in ('threads', 'operations') else R.features[f] + v
                R.sigs.update((k, i) for i in range(j['distinct']))
            elif 'fail' in j and j['kind'] == 'race':
                j['run'] = p['name']
                j['round'] = k
                R.fails.append(j)
        if rc == 0:
            continue
        kind, msg = parse_sanitizer(text, '')
        if kind != 'race' and kind is not None or rc == 'timeout' or rc != 0 and kind is None:
            rc1, text1, _ = go(k, 1)              # the same calls one after another
            if rc1 == 0:
                if rc == 'timeout':
                    rc, text, _ = go(k, p['threads'])
                    if rc != 'timeout':
                        R.inconclusive.append('round %d timed out once' % k)
                        continue
                kind, msg = 'race', 'concurrent calls fail (%s) where the same calls one after another do not: %s' % (rc, msg)
            else:
                R.inconclusive.append('round %d fails without concurrency as well (%s %s)' % (k, rc1, msg))
                continue
        R.fails.append(dict(scenario='threads', seed=str(seed * 1000 + k), kind='race', msg=msg, case='round %d' % k, run=p['name'],
                            report=text[:6000]))
        break
    return R


# ---------------------------------------------------------------------- check ----
def load_known():
    known = []
    for line in open(HERE + '/known_findings.txt'):
        m = re.match(r'known: property=(\S+) scenario=(\S+) match=(.*?) :: (.*)$', line.strip())
        if m:
            known.append(dict(property=m.group(1), scenario=m.group(2), match=m.group(3), text=m.group(4)))
    return known


def main():
    if sys.argv[1:] == ['--selftest']:
        return selftest()
    pid = sys.argv[1]
    replay = sys.argv[sys.argv.index('--replay') + 1] if '--replay' in sys.argv else None
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in sys.argv else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    spec = PROPS[pid]
    thorough = tier == 'thorough'
    tmult = spec['thorough'] * spec['quick'] if thorough else spec['quick']
    deadline = T0 + (3000 if thorough else 560)
    base = os.environ.get('VERIF_TMP') or tempfile.gettempdir()
    work = tempfile.mkdtemp(prefix='hv-%s-' % pid, dir=base)
    try:
        return check(pid, spec, replay, tier, seed, thorough, tmult, deadline, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def selftest():
    """the tools and monitors of the checks are there and see what they should see"""
    with tempfile.TemporaryDirectory(prefix='hv-self-') as d:
        cases = [
            ('asan', 'char*p=malloc(9);free(p);return p[n];', 'heap-use-after-free', None),
            ('asan', 'int x=0x7fffffff;return (x+n)&1;', 'signed integer overflow', None),
            ('msan', 'char*p=malloc(9);if(p[n])return 3;return 0;', 'use-of-uninitialized-value', None),
            ('plain', 'char*p=malloc(9);if(p[n]==7)puts("x");return 0;', 'uninitialised value', ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes',
                                                                                                  '--suppressions=' + HERE + '/valgrind.supp']),
        ]
        for i, (v, body, want, pre) in enumerate(cases):
            c, b = d + '/t%d.c' % i, d + '/t%d' % i
            open(c, 'w').write('#include <stdlib.h>\n#include <stdio.h>\nint main(int n,char**v){' + body + '}\n')
            r = sh([VARIANTS[v]['cc'], '-w'] + VARIANTS[v]['flags'] + [c, '-o', b])
            env = dict(os.environ)
            env.update(SAN_ENV)
            x = sh((pre or []) + [b], env=env)
            if r.returncode or x.returncode != 99 or want not in x.stdout:
                note('selftest: %s does not report a %s: %s' % (v, want, (r.stdout + x.stdout)[-800:]))
                return 2
        c, b = d + '/t.c', d + '/t'
        open(c, 'w').write('#include <pthread.h>\nint g;void*f(void*a){for(int i=0;i<1000;i++)g++;return 0;}'
                           'int main(void){pthread_t a,b;pthread_create(&a,0,f,0);pthread_create(&b,0,f,0);pthread_join(a,0);pthread_join(b,0);return 0;}\n')
        r = sh([VARIANTS['tsan']['cc'], '-w'] + VARIANTS['tsan']['flags'] + [c, '-o', b, '-lpthread'])
        env = dict(os.environ)
        env.update(SAN_ENV)
        x = sh([b], env=env)
        if r.returncode or 'data race' not in x.stdout:
            note('selftest: tsan does not report a race: ' + (r.stdout + x.stdout)[-800:])
            return 2
    note('selftest: the sanitizers and memcheck work')
    return 0


def plan(spec):
    """passes with their binaries"""
    passes = []
    for p in spec['passes']:
        names = [s for s in p['scen'] if s in SCEN]
        missing = [s for s in p['scen'] if s not in SCEN]
        if missing:
            raise SystemExit('unknown scenarios %s' % missing)
        for group in ('c', 'cxx'):
            sub = [s for s in names if is_cxx(SCEN[s][0]) == (group == 'cxx')
                   and not (p['variant'] == 'msan' and 'F_NOMSAN' in SCEN[s][2])]
            if sub:
                q = dict(p, scen=sub, group=group)
                q['files'] = frozenset(SCEN[s][0] for s in sub)
                q['name'] = '%s-%s-%s' % (p['variant'], p['mode'], group)
                passes.append(q)
    return passes


def check(pid, spec, replay, tier, seed, thorough, tmult, deadline, work):
    passes = plan(spec)
    # one binary for each variant and group
    files = collections.defaultdict(set)
    for p in passes:
        files[(p['variant'], p['group'])] |= p['files']
    jobs = {(v, g, frozenset(f)) for (v, g), f in files.items()}
    try:
        bins = {(v, g): b for (v, g, _), b in build(work, jobs).items()}
    except BuildError as e:
        note('cannot build the tree:')
        note(str(e))
        return 2
    tb = time.time() - T0
    if replay:
        return do_replay(pid, replay, passes, bins, work)

    results = []
    for p in passes:
        b = bins[(p['variant'], p['group'])]
        t = time.time()
        if p['mode'] == 'threads':
            r = run_threads(b, p, work, deadline, seed, thorough, tmult)
        else:
            r = run_pass(b, p, work, deadline, seed, thorough, tmult)
        p['wall'] = time.time() - t
        results.append((p, r))

    # what counts for this property
    viol, other = [], collections.Counter()
    for p, r in results:
        for f in r.fails:
            if f['kind'] in spec['kinds']:
                viol.append(f)
            else:
                other[f['kind']] += 1
    if 'digest' in spec['kinds']:
        byg = collections.defaultdict(list)
        for p, r in results:
            byg[p['group']].append(r.digs)
        for ds in byg.values():
            for k in ds[0]:
                for d in ds[1:]:
                    if k in d and d[k] != ds[0][k]:
                        viol.append(dict(scenario=k[0], seed=ds[0][k][1], kind='digest', case='', run='digest',
                                         msg='the same call gives different results in two runs that differ in what ran before and in the contents of fresh memory'))
    T = merge([r for _, r in results])
    if T.harness_errors:
        note('the harness failed:')
        for e in T.harness_errors[:3]:
            note(e)
        if not viol:
            return 2

    known = [k for k in load_known() if k['property'] == pid]
    new, hit = [], set()
    for f in viol:
        for i, k in enumerate(known):
            if f['scenario'] == k['scenario'] and re.search(k['match'], f['msg'] + ' | ' + f.get('case', '')):
                hit.add(i)
                break
        else:
            new.append(f)
    for i, k in enumerate(known):
        note('KNOWN-FINDING: property=%s %s' % (pid, k['text']))

    os.makedirs(HERE + '/evidence/replay', exist_ok=True)
    for f in glob.glob(HERE + '/evidence/replay/%s-*.json' % pid):
        os.unlink(f)
    shown = set()
    for f in new:
        k = (f['scenario'], f['kind'])
        if k in shown or len(shown) >= 12:
            continue
        shown.add(k)
        rel = 'evidence/replay/%s-%s-%s.json' % (pid, f['scenario'], f['kind'])
        json.dump(dict(property=pid, **f), open(os.path.join(HERE, rel), 'w'), indent=1)
        note('VIOLATION property=%s replay=%s' % (pid, rel))
        note('  %s (%s): %s%s' % (f['scenario'], f['kind'], f['msg'][:400], ' [' + f['case'] + ']' if f.get('case') else ''))

    seen, samples = set(), []
    for s in T.samples:
        if s['scenario'] not in seen:
            seen.add(s['scenario'])
            samples.append(s)
    cov = dict(
        evaluations=T.cases - T.skipped,
        distinct_nontrivial=len(T.sigs),
        rule=spec['rule'],
        samples=samples[:8] or ['%d concurrent calls' % T.compared],
        oracle_comparisons=T.compared,
        ill_posed_cases_dropped=T.skipped,
        cases_of_each_scenario=dict(sorted(T.per.items())),
        observed=dict(T.features.most_common(150)),
        distinct_observations=len(T.features),
        runs=[dict(run=p['name'], monitor=spec['monitor'], cases=r.cases, comparisons=r.compared, wall_s=round(p['wall'], 1)) for p, r in results],
        build_s=round(tb, 1),
        inconclusive=T.inconclusive[:20],
        deviations_that_other_properties_report=dict(other),
    )
    if 'digest' in spec['kinds']:
        cov['results_compared_between_runs'] = len(results[0][1].digs)
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=spec.get('assumptions', []), wall_s=round(time.time() - T0, 1), violations=len(new))
    json.dump(ev, open(HERE + '/evidence/%s.json' % pid, 'w'), indent=1)
    note('%s %s: %d cases, %d distinct, %d comparisons, %d violations, %.1f s' % (
        pid, tier, cov['evaluations'], cov['distinct_nontrivial'], T.compared, len(new), time.time() - T0))
    for i in T.inconclusive[:5]:
        note('  inconclusive: ' + i)
    if new:
        return 1
    if cov['evaluations'] == 0 and not known:
        note('nothing was run')
        return 2
    return 0


def do_replay(pid, path, passes, bins, work):
    f = json.load(open(path if os.path.isabs(path) else os.path.join(HERE, path)))
    for p in passes:
        if p['mode'] == 'threads' and f['kind'] == 'race':
            r = run_threads(bins[(p['variant'], p['group'])], p, work, T0 + 500, int(os.environ.get('VERIF_SEED', '1')), False, 1)
            for x in r.fails:
                note(x['msg'])
                note(x.get('report', ''))
            return 1 if r.fails else 0
        if f['scenario'] not in p['scen']:
            continue
        env = dict(os.environ)
        env.update(SAN_ENV)
        cmd = [bins[(p['variant'], p['group'])], '--one', f['scenario'], '--caseseed', f['seed'], '--scratch', work, '--mode', p['mode']] + p.get('args', [])
        if p.get('valgrind'):
            cmd = ['valgrind', '-q', '--error-exitcode=99'] + cmd
        r = subprocess.run(cmd, env=env, cwd=work)
        note('%s: exit status %d' % (p['name'], r.returncode))
        if r.returncode:
            return 1
    return 0


sys.exit(main())
