"""C14: histories of transpilations (Purity.tla) are replayed; the recorded answers must be a function of content and target (PurityTrace.tla)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from conform import *
import corpus, modprogs, gen, progs, re

PLACES = {1: 'one/', 2: 'an other/pl_2/x/'}
ENVS = [{}, {'HOME': '/nonexistent', 'LANG': 'de_DE.UTF-8'}, {'TMPDIR': '/nope', 'GOMAXPROCS': '1'}, {'GODEBUG': 'randautoseed=0', 'TZ': 'Asia/Tokyo', 'USER': 'x'}]

def pool(rng, n):
    """program trees: files of version 1 and 2, main"""
    out = []
    for name, t in corpus.OK.items():
        f = dict(corpus.LIB, **{'m.tsh': t})
        out.append(dict(name=name, main='m.tsh', v={1: f, 2: dict(f, **{'m.tsh': t + 'print("v2")\n'})}))
    for name in list(corpus.BAD)[:6]:
        f = dict(corpus.LIB, **{'m.tsh': corpus.BAD[name]})
        out.append(dict(name='bad ' + name, main='m.tsh', v={1: f, 2: dict(f, **{'m.tsh': 'print("fine now")\n'})}))
    rc, o, st = tlc('Modules')
    graphs = [g for g in says(o) if len(g['imp'][-1]) >= 2 and sum(map(len, g['imp'])) >= 4]
    for k in range(n):
        p = modprogs.program(rng.choice(graphs)['imp'], 'C14-%s-%d' % (SEED, k))
        if p.get('links'): continue
        j = job_of(p, 0)
        f = j['files']
        g = dict(f)
        e = rng.choice([x for x in f])
        g[e] += rng.choice(['print("v2")\n', '// v2\n', 'func Added() int {\n\treturn 3\n}\n'])
        out.append(dict(name='modules %d' % k, main=j['main'], v={1: f, 2: g}))
    # many files, many functions, names in every map of the transpiler
    for k in range(3):
        fs = {'l%d.tsh' % i: ''.join('var G%d int = %d\nfunc F%d(a int) int {\n\tG%d += a\n\treturn %s\n}\nfunc u%d() int {\n\treturn F%d(1)\n}\n' % (x, x, x, x, 'F%d(a)' % (x - 1) if x else 'a', x, x) for x in range(6)) + '// %d %d\n' % (i, k) for i in range(9)}
        order = list(range(9))
        rng.shuffle(order)
        fs['m.tsh'] = 'import (\n' + ''.join('\ta%d "l%d.tsh"\n' % (i, i) for i in order) + '\tstrings "strings"\n)\nprint(strings.Index("abc", "c"))\n' + ''.join('print(a%d.F%d(%d))\n' % (i, rng.randrange(6), i) for i in order) + ''.join('v%d := %d\nfunc w%d(p%d int) int {\n\treturn p%d + v%d\n}\n' % ((i,) * 6) for i in range(12)) + 'print(w3(w7(1)))\n'
        g = dict(fs)
        g['l4.tsh'] += '// changed\n'
        out.append(dict(name='many files %d' % k, main='m.tsh', v={1: fs, 2: g}))
    for i in range(n // 2):
        t = render(gen.program('%s/C14/%d' % (SEED, i), **progs.profile(rng.choice(['calls', 'callsl', 'data', 'mixed']))))
        out.append(dict(name='random %d' % i, main='m.tsh', v={1: {'m.tsh': t}, 2: {'m.tsh': t + 'print("end")\n'}}))
    # equal names, different contents
    for a, b in (('1', '2'), ('"a"', '"b"')):
        f = {'sub/m.tsh': 'import lib "../lib.tsh"\nprint(lib.F(), %s)\n' % a, 'lib.tsh': 'func F() int {\n\treturn 1\n}\n'}
        out.append(dict(name='twin ' + a, main='sub/m.tsh', v={1: f, 2: dict(f, **{'lib.tsh': 'var x int = 4\nfunc F() int {\n\treturn x\n}\n'})}))
    return out

def tree(p, v, root): return {root + n: c for n, c in p['v'][v].items()}
def question(p, v, t): return hashlib.sha256(json.dumps([sorted(p['v'][v].items()), p['main']]).encode()).hexdigest()[:16] + ':' + t

def spell(rng, path):
    r = rng.random()
    d, b = os.path.split(path)
    return path if r < .6 else d + '/./' + b if r < .75 else d + '//' + b if r < .85 else d + '/../' + os.path.basename(d) + '/' + b

def run(ck):
    deep = TIER == 'thorough'
    rng = random.Random('%s/C14' % SEED)
    ps = pool(rng, 60 if deep else 14)
    rc, out, st = tlc('Purity')
    if rc: raise CheckError('Purity: ' + tail_err(out))
    hs = [x['h'] for x in says(out)]
    hs = [h for h in hs if sum(e['a'] in 'TF' for e in h) >= 2]
    short = len(hs)
    ck.cov.update(states=st['states'], transitions=st['transitions'], histories_of_model=short)
    hs = hs if deep else rng.sample(hs, 1500)
    rc, out, st = tlc('Purity', cfg='PurityLong.cfg', extra=('-simulate', 'num=%d' % (2000 if deep else 250), '-depth', '12', '-seed', str(SEED)))
    if rc: raise CheckError('Purity: ' + tail_err(out))
    long_ = [x['h'] for x in says(out)]
    ck.cov['long_histories'] = len(long_)
    hs += long_
    jobs, meta = [], []
    def job(files, steps, ev): 
        jobs.append(dict(id=len(jobs), op='hist', files=files, hist=steps))
        meta.append(ev)
    for h in hs:
        sel = rng.sample(ps, 3)
        files = {}
        for pl in PLACES.values():
            for i, p in enumerate(sel): files.update(tree(p, 1, '%sp%d/' % (pl, i + 1)))
        steps, ev = [], []
        for e in h:
            if e['a'] == 'M': continue
            p = sel[e['p'] - 1]
            if e['a'] == 'E':
                nv = 3 - e['v']
                w = {}
                for pl in PLACES.values(): w.update(tree(p, nv, '%sp%d/' % (pl, e['p'])))
                steps.append(dict(act='W', files=w))
                ev.append(None)
                continue
            root = '%sp%d/' % (PLACES[e['w']], e['p'])
            s = dict(act=e['a'], obj=e['o'], path=spell(rng, root + p['main']), target=e['t'])
            if e['a'] == 'F': s.update(cwd=rng.choice(['', root, PLACES[e['w']]]), env=rng.choice(ENVS), inst=rng.random() < .3)
            steps.append(s)
            ev.append((question(p, e['v'], e['t']), p['name']))
        job(files, steps, ev)
    # repetition
    for p in ps:
        files = {}
        for pl in PLACES.values(): files.update(tree(p, 1, pl + 'p/'))
        steps, ev = [], []
        for k in range(40 if deep else 10):
            for t in ('bash', 'batch'):
                pl = rng.choice(list(PLACES.values()))
                f = k % 4 == 3
                steps.append(dict(act='F' if f else 'T', obj=rng.choice([1, 1, 2, 10 + k]), path=pl + 'p/' + p['main'], target=t, **(dict(cwd=pl, env=rng.choice(ENVS), inst=k % 8 == 3) if f else {})))
                ev.append((question(p, 1, t), p['name']))
        job(files, steps, ev)
    res = run_jobs(jobs)
    cases = []
    glob = {}
    n = 0
    for j, ev in zip(jobs, meta):
        r = res[j['id']]
        if r.get('crash'):
            ck.violation('crash', 'crash in a history: ' + r['crash'][:300], j)
            continue
        rec = []
        for e, o in zip(ev, r['hist']):
            if e is None: continue
            n += 1
            bad = o['o'] not in ('S', 'E')
            ans = o['o'] + o['hash']
            rec.append(dict(q=e[0], r=ans, bad=bad))
            glob.setdefault(e[0], {}).setdefault(ans, (j, e[1], bad))
        cases.append(dict(id=j['id'], ev=rec))
    # all histories together: one question, one answer
    base = len(jobs)
    qs = sorted(glob)
    for k in range(0, len(qs), 40):
        cases.append(dict(id=base + k, ev=[dict(q=q, r=a, bad=x[2]) for q in qs[k:k + 40] for a, x in glob[q].items()]))
    out, st = tlc_verdicts('PurityTrace', cases, shards=NPROC)
    for k in ('states', 'transitions'): ck.cov[k] += st[k]
    reported = set()
    by = {c['id']: c for c in cases}
    for v in out:
        c = by[v['id']]
        e = c['ev'][v['k'] - 1]
        if e['q'] in reported: continue
        reported.add(e['q'])
        ans = glob[e['q']]
        if v['v'] == 'bad':
            ck.violation('outcome', 'neither a script nor an error: %s, program %s' % (e['r'], ans[e['r']][1]), ans[e['r']][0])
            continue
        js = [x[0] for x in ans.values()]
        ck.violation('differs-' + next(iter(ans.values()))[1].replace(' ', '_'), 'program %s gives %d different answers for the target %s: %s' % (next(iter(ans.values()))[1], len(ans), e['q'].split(':')[1], sorted(ans)), dict(histories=[[{k: x for k, x in s.items() if k != 'files'} for s in j['hist']] for j in js[:3]], files=js[0]['files']))
    ck.cov.update(traces_validated_against_impl=len(jobs), evaluations=n, questions=len(glob), programs=len(ps), samples=[[(s['act'], s.get('obj'), s.get('path'), s.get('target')) for s in jobs[i]['hist']] for i in (5, len(jobs) // 2)])
    ck.assumptions += ['every transpilation has a converter of its own', 'messages of errors are not compared']

main('C14', 'model_checking', run)
