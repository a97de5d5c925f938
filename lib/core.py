"""Build the harness, run jobs on the real code, run TLC on recorded traces, report verdicts."""
import json, os, sys, subprocess, tempfile, shutil, threading, time, random, atexit, hashlib, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
REPO = '/repo'
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
NPROC = max(2, min(8, os.cpu_count() or 2))
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class CheckError(Exception):
    pass

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='tshv.')
        os.chmod(_scratch, 0o755)
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def go_env():
    e = dict(os.environ)
    e.update(HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=mod', GOWORK='off',
             CGO_ENABLED='0', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')
    return e

_built = None
def build():
    """Build the harness against /repo's working tree into a scratch directory of this run."""
    global _built
    if _built: return _built
    out = os.path.join(scratch(), 'bin')
    os.makedirs(out, exist_ok=True)
    src = os.path.join(scratch(), 'hsrc')
    shutil.copytree(os.path.join(VERIF, 'harness'), src)
    r = subprocess.run(['go', 'build', '-trimpath', '-o', out + '/harness', '.'], cwd=src, env=go_env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError('harness build failed:\n' + r.stdout + r.stderr)
    r = subprocess.run(['go', 'build', '-trimpath', '-o', out + '/tsh', '.'], cwd=REPO, env=go_env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError('tsh build failed:\n' + r.stderr)
    shutil.copytree(REPO + '/std', out + '/std')
    os.makedirs(out + '/second inst')      # an installation in another place
    os.link(out + '/harness', out + '/second inst/harness')
    shutil.copytree(REPO + '/std', out + '/second inst/std')
    if os.path.isdir(os.path.join(src, 'probe')):
        os.makedirs(out + '/probes')
        r = subprocess.run(['go', 'build', '-trimpath', '-o', out + '/probes/pshow', './probe'], cwd=src, env=go_env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError('probe build failed:\n' + r.stderr)
        for n in PROBES[1:]:
            os.link(out + '/probes/pshow', out + '/probes/' + n)
    _built = out
    return out

PROBES = ['pshow', 'pecho', 'pfilt', 'pcat', 'pfail', 'perr']

def _worker(jobs, results, lock, slow):
    """Feed jobs one by one to a harness process; restart it when it dies."""
    exe = build() + '/harness'
    proc = None
    def start():
        return subprocess.Popen([exe, scratch()], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    while True:
        with lock:
            if not jobs: break
            j = jobs.pop()
        if slow[0] > 24: j = dict(j, timeout=min(j.get('timeout') or 1500, 1500))   # many runs do not end: that is established
        if proc is None: proc = start()
        try:
            proc.stdin.write((json.dumps(j) + '\n').encode())
            proc.stdin.flush()
            line = proc.stdout.readline()
        except BrokenPipeError:
            line = b''
        if not line:
            err = proc.stderr.read().decode(errors='replace')
            proc.wait()
            results[j['id']] = dict(id=j['id'], crash=err[:2000] or ('exit %s' % proc.returncode))
            proc = None
            continue
        r = json.loads(line)
        if r.get('fail'): raise CheckError('harness: ' + r['fail'])
        results[j['id']] = r
        if any((r.get(t) or {}).get('timeout') for t in ('run', 'runbat')): slow[0] += 1
        if any((r.get(t) or {}).get('hang') for t in ('bash', 'batch')) or r.get('lexpanic') == 'hang':
            proc.kill(); proc.wait(); proc = None   # do not let runaway goroutines accumulate
    if proc:
        proc.stdin.close()
        proc.wait()

def run_jobs(jobs, workers=None):
    """jobs: list of dicts with unique 'id'. Returns id -> result."""
    build()
    q = list(reversed(jobs))
    results, lock, errs, slow = {}, threading.Lock(), [], [0]
    def w():
        try:
            _worker(q, results, lock, slow)
        except Exception as e:
            errs.append(e)
            with lock: q.clear()
    ts = [threading.Thread(target=w) for _ in range(min(workers or NPROC, max(1, len(jobs))))]
    for t in ts: t.start()
    for t in ts: t.join()
    if errs: raise CheckError(repr(errs[0]))
    return results

# ---------------------------------------------------------------- TLC
def _java(args, env, cwd, timeout, heap):
    cmd = ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=%d' % (4 if TIER == 'thorough' else 1), '-Xss64m', '-Xmx%dm' % heap, '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8', '-cp', JAR, 'tlc2.TLC'] + args
    e = dict(os.environ); e.update(env); e['LC_ALL'] = 'C.UTF-8'
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b'').decode(errors='replace') + '\nTLC TIMEOUT'
    return r.returncode, r.stdout.decode('utf-8', errors='replace')

def tlc(module, cfg=None, env=None, timeout=800, workers=1, extra=(), heap=3000):
    """One TLC run. Returns (rc, output, stats)."""
    d = tempfile.mkdtemp(dir=scratch())
    args = ['-workers', str(workers), '-config', cfg or module + '.cfg', '-metadir', d, '-nowarning', '-noGenerateSpecTE'] + list(extra) + [module + '.tla']
    rc, out = _java(args, env or {}, SPEC, timeout, heap)
    shutil.rmtree(d, ignore_errors=True)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', '').replace('states generated ', 'states generated, '))
    if not m:
        m = re.findall(r'(\d+) states generated\D+(\d+) distinct', out)
    st = dict(states=int(m[-1][1]), transitions=int(m[-1][0])) if m else dict(states=0, transitions=0)
    return rc, out, st

def says(out):
    """The @@-prefixed JSON lines a spec printed."""
    r = []
    for l in out.splitlines():
        if l.startswith('"@@'):
            r.append(json.loads(json.loads(fix_tla_string(l))[2:]))
    return r

def fix_tla_string(l):
    return l

def tlc_cases(module, cases, env=None, shards=None, timeout=800, heap=2500, cfg=None):
    """Run TLC over ndjson cases, sharded over processes. Returns (id -> verdict record, stats)."""
    n = shards or max(1, min(NPROC, len(cases) // 40 + 1))
    parts = [cases[i::n] for i in range(n)]
    res, stats, errs = {}, dict(states=0, transitions=0), []
    lock = threading.Lock()
    def one(i):
        f = os.path.join(scratch(), 'cases_%s_%d_%d.ndjson' % (module, i, threading.get_ident()))
        with open(f, 'w') as h:
            for c in parts[i]: h.write(json.dumps(c) + '\n')
        rc, out, st = tlc(module, env=dict(env or {}, CASES=f), timeout=timeout, heap=heap, cfg=cfg)
        os.unlink(f)
        with lock:
            for k in stats: stats[k] += st[k]
            for v in says(out): res[v['id']] = v
            if rc != 0: errs.append((rc, out))
    ts = [threading.Thread(target=one, args=(i,)) for i in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()
    if errs:
        log = os.path.join(BUILD, 'tlc_error.log')
        os.makedirs(BUILD, exist_ok=True)
        open(log, 'w').write(errs[0][1])
        raise CheckError('TLC failed (%s) rc=%s: %s' % (module, errs[0][0], tail_err(errs[0][1])))
    miss = [c['id'] for c in cases if c['id'] not in res]
    if miss: raise CheckError('TLC gave no verdict for %d cases, e.g. %s' % (len(miss), miss[:3]))
    return res, stats

def tlc_verdicts(module, cases, env=None, shards=None, timeout=800, heap=3000, cfg=None):
    """Like tlc_cases for specs that only print the cases they do not accept: returns (list of printed records, stats)."""
    n = shards or max(1, min(NPROC, len(cases) // 200 + 1))
    parts = [cases[i::n] for i in range(n)]
    outl, stats, errs = [], dict(states=0, transitions=0), []
    lock = threading.Lock()
    def one(i):
        if not parts[i]: return
        f = os.path.join(scratch(), 'cases_%s_%d_%d.ndjson' % (module, i, threading.get_ident()))
        with open(f, 'w') as h:
            for c in parts[i]: h.write(json.dumps(c) + '\n')
        rc, out, st = tlc(module, env=dict(env or {}, CASES=f), timeout=timeout, heap=heap, cfg=cfg)
        os.unlink(f)
        with lock:
            for k in stats: stats[k] += st[k]
            outl.extend(says(out))
            if rc != 0: errs.append((rc, out))
            elif st['states'] < len(parts[i]): errs.append((rc, 'Error: too few states: %s\n' % st + out))
    ts = [threading.Thread(target=one, args=(i,)) for i in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()
    if errs:
        os.makedirs(BUILD, exist_ok=True)
        open(os.path.join(BUILD, 'tlc_error.log'), 'w').write(errs[0][1])
        raise CheckError('TLC failed (%s) rc=%s: %s' % (module, errs[0][0], tail_err(errs[0][1])))
    return outl, stats

def tail_err(out):
    i = out.find('Error:')
    return out[i:i + 1500] if i >= 0 else out[-1500:]

# ---------------------------------------------------------------- reporting
class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = {}
        self.violations = []
        self.assumptions = []
        self.known = load_known(prop)
        self.known_hit = {}
    def violation(self, key, what, replay):
        """key identifies the failing input/site; replay: dict written to a file."""
        for k in self.known:
            if k['key'] == key:
                if key not in self.known_hit:
                    self.known_hit[key] = what
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
                return
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha256(json.dumps([self.prop, key, replay], sort_keys=True, default=str).encode()).hexdigest()[:10]
        f = os.path.join(d, '%s_%s.json' % (self.prop, h))
        if len(self.violations) < 20:
            with open(f, 'w') as o: json.dump(dict(property=self.prop, key=key, what=what, replay=replay), o, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (self.prop, f))
            print('  ' + what[:1500].replace('\n', '\n  '))
            sys.stdout.flush()
        self.violations.append(what)
    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = dict(property=self.prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        if self.known_hit: ev['coverage']['known_findings_seen'] = sorted(self.known_hit)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as o: json.dump(ev, o, indent=1)
        print('%s %s: %s in %.1fs; %s' % (self.prop, TIER, 'VIOLATED' if self.violations else 'held', time.time() - self.t0,
              ', '.join('%s=%s' % (k, v) for k, v in self.cov.items() if isinstance(v, (int, bool)))))
        sys.exit(1 if self.violations else 0)

def load_known(prop):
    r = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop: r.append(dict(key=m.group(2), what=m.group(3)))
    return r

def main(prop, level, fn):
    ck = Check(prop, level)
    try:
        fn(ck)
    except CheckError as e:
        print('CHECK-ERROR property=%s %s' % (prop, e))
        sys.exit(2)
    ck.finish()
