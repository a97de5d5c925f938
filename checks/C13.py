"""C13: transpilation of every input ends, within a bounded time, in a script or in an error (Outcome.tla)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from static import *
import corpus, total, lex, gen, progs, mutate, typing_tab as tt

OKAY = {'S', 'E'}
def enc(s): return list(s.encode('latin-1'))

class Inputs:
    """every input with what the specification is told about it"""
    def __init__(t): t.groups, t.singles = [], []
    def bulk(t, fam, texts, files=None, bin=False, lexed=False):
        texts = list(dict.fromkeys(texts))
        t.groups.append(dict(fam=fam, texts=texts, files=files or {}, bin=bin, lexed=lexed))
    def single(t, fam, what, job, missing=False, graph='', static=''):
        t.singles.append(dict(fam=fam, what=what, job=job, missing=missing, graph=graph, static=static))

def run(ck):
    deep = TIER == 'thorough'
    rng = random.Random('%s/C13' % SEED)
    I = Inputs()
    L = corpus.LIB
    # bytes
    S2 = lex.short(2)
    I.bulk('short texts', [x.encode('utf-8').decode('latin-1') for x in S2 + ([''.join(rng.choice(lex.SYM) for _ in range(3)) for _ in range(30000 if deep else 3000)])], bin=True, lexed=True)
    I.bulk('bytes', total.bytes_(rng, 40000 if deep else 2500), bin=True, lexed=True)
    I.bulk('programs with changed bytes', total.mutated_bytes(rng, 60000 if deep else 1500), L, bin=True)
    # tokens
    I.bulk('token pairs', total.pairs())
    I.bulk('token sequences', total.soups(rng, 120000 if deep else 4000))
    I.bulk('phrases in holes', total.phrases(rng, None if deep else 2500))
    for n, t in list(corpus.OK.items()) + list(corpus.BAD.items()):
        good = n in corpus.OK
        I.bulk('edits of ' + ('accepted' if good else 'rejected') + ' programs', total.edits(rng, t, 1, 4000 if deep else 40, wide=deep and good), L)
    for n, t in L.items():
        I.bulk('edits of imported files', total.edits(rng, t, 1, 2000 if deep else 60, wide=deep), dict(L))
    for i in range(60 if deep else 6):
        t = render(gen.program('%s/C13/%d' % (SEED, i), **progs.profile(rng.choice(['calls', 'data', 'ctl', 'mixed', 'callsl']))))
        I.bulk('edits of random programs', total.edits(rng, t, 2, 300 if deep else 30))
    # every operand in every position of the typing table, as it is judged by TshStatic in C06
    st_progs = []
    for pn, pf in tt.positions():
        for on, ty_, of in tt.offers():
            for ctx in (tt.CTX if deep else rng.sample(tt.CTX, 1)):
                st = tt.program(pf, of(), ctx)
                if st is not None: st_progs.append(render(st))
    I.bulk('operands in positions', st_progs if deep else rng.sample(st_progs, min(len(st_progs), 1500)))
    # growing programs
    for n in ([1, 7, 24, 80, 300, 1000, 3000] if deep else [24, 700]):
        for name, t in total.scaled(n): I.bulk('growing: ' + name, [t], L)
    # files
    ml = lambda t, **kw: dict(dict(files={'m.tsh': t}, main='m.tsh', bash=True, batch=True), **kw)
    I.single('files', 'missing main', ml('', main='nope.tsh'), missing=True)
    I.single('files', 'main in a missing directory', ml('', main='x/y/nope.tsh'), missing=True)
    I.single('files', 'main is a directory', dict(files={'d/m.tsh': 'print(1)\n'}, main='d', bash=True, batch=True), missing=True)
    I.single('files', 'empty file name', dict(files={'m.tsh': ''}, main='', bash=True, batch=True), missing=True)
    I.single('files', 'dangling link', dict(files={'a.tsh': ''}, links={'m.tsh': 'gone.tsh'}, main='m.tsh', bash=True, batch=True), missing=True)
    I.single('files', 'link to itself', dict(files={'a.tsh': ''}, links={'m.tsh': 'm.tsh'}, main='m.tsh', bash=True, batch=True), missing=True)
    I.single('files', 'name that is too long', ml('', main='x' * 300 + '.tsh'), missing=True)
    for p in ['', '.', '..', '/', './', '../', 'nope.tsh', 'nope', 'd', './d/', '/nope/x.tsh', '../../../../../../../../../../nope.tsh', 'm.tsh/x.tsh', 'a\\tb', ' ', '~/x.tsh', '$HOME/x.tsh', '*.tsh', 'http://x/y.tsh', 'x' * 300 + '.tsh', 'strings.tsh', 'std/strings', '../std/strings']:
        for al in ('', 'a '):
            for form in ('import %s"%s"\nprint(1)\n', 'import (\n\t%s"%s"\n)\nprint(1)\n'):
                I.single('import paths', '%r' % p, dict(files={'m.tsh': form % (al, p), 'd/x.tsh': 'print(1)\n'}, main='m.tsh', bash=True, batch=True), graph='' if 'strings' in p else 'error')
    I.single('import paths', 'NUL', dict(files={'m.tsh': 'import a "a\\x00b"\nprint(1)\n'}, main='m.tsh', bash=True, batch=True), graph='error')
    for al, p in (('', 'strings'), ('s ', 'strings')): I.single('import paths', 'std', ml('import %s"%s"\nprint(1)\n' % (al, p)), graph='linked', static='ok')
    I.single('import paths', 'link to the importing file', dict(files={'m.tsh': 'import a "l.tsh"\nprint(1)\n'}, links={'l.tsh': 'm.tsh'}, main='m.tsh', bash=True, batch=True))
    I.single('import paths', 'directory cycle', dict(files={'m.tsh': 'import a "d/d/d/x.tsh"\nprint(a.F())\n', 'd/x.tsh': 'func F() int {\n\treturn 1\n}\n'}, links={'d/d': '.'}, main='m.tsh', bash=True, batch=True), graph='linked', static='ok')
    n = 400 if deep else 120
    chain = {'f%d.tsh' % k: ('import a "f%d.tsh"\n' % (k + 1) if k + 1 < n else '') + 'func F() int {\n\treturn %s\n}\n' % ('a.F() + 1' if k + 1 < n else '1') for k in range(n)}
    chain['m.tsh'] = 'import a "f0.tsh"\nprint(a.F())\n'
    I.single('import chains', 'chain of %d files' % n, dict(files=chain, main='m.tsh', bash=True, batch=True), graph='linked', static='ok')
    loop = dict(chain)
    loop['f%d.tsh' % (n - 1)] = 'import a "f0.tsh"\n' + chain['f%d.tsh' % (n - 1)]
    I.single('import chains', 'cycle of %d files' % n, dict(files=loop, main='m.tsh', bash=True, batch=True), graph='error')
    k = 14         # every file imports all later ones: 2^k paths
    dense = {'f%d.tsh' % i: 'import (\n' + ''.join('\ta%d "f%d.tsh"\n' % (j, j) for j in range(i + 1, k)) + ')\nfunc F() int {\n\treturn 1\n}\n' if i + 1 < k else 'func F() int {\n\treturn 1\n}\n' for i in range(k)}
    dense['m.tsh'] = 'import a "f0.tsh"\nprint(a.F())\n'
    I.single('import chains', 'dense graph', dict(files=dense, main='m.tsh', bash=True, batch=True), graph='linked', static='ok')
    # all import graphs over three files, with cycles and missing files
    rc, out, st = tlc('Modules', cfg='ModulesCyc.cfg')
    if rc: raise CheckError('Modules: ' + tail_err(out))
    graphs = says(out)
    ck.cov.update(states=st['states'], transitions=st['transitions'], import_graphs=len(graphs))
    for g in graphs if deep else rng.sample(graphs, 1500):
        fs = {}
        spell = rng.choice(['f%d.tsh', 'f%d.tsh', './f%d.tsh', '../src/f%d.tsh', 'd/../f%d.tsh'])
        for i, imps in enumerate(g['imp']):
            t = ''.join('\ta%d "%s"\n' % (j, spell % x) for j, x in enumerate(imps))
            fs['f%d.tsh' % (i + 1)] = ('import (\n%s)\n' % t if t else '') + 'func F() int {\n\treturn %d\n}\nprint(%s)\n' % (i, ', '.join(['F()'] + ['a%d.F()' % j for j in range(len(imps))]))
        fs['d/x'] = ''
        I.single('import graphs', str(g['imp']), dict(files=fs, main='f%d.tsh' % len(g['imp']), bash=True, batch=True), graph=g['v'], static='ok')
    # ---------------------------------------------------------------- execution
    jobs, at = [], {}
    for gi, g in enumerate(I.groups):
        for k in range(0, len(g['texts']), 250):
            jobs.append(dict(id=len(jobs), op='bulk', files=g['files'], main='m.tsh', vars=g['texts'][k:k + 250], bin=g['bin']))
            at[jobs[-1]['id']] = (gi, k)
    nb = len(jobs)
    for s in I.singles: jobs.append(dict(s['job'], id=len(jobs)))
    jobs_by = {j['id']: j for j in jobs}
    order = sorted(jobs, key=lambda j: -len(j.get('vars', '')))
    res = run_jobs(order)
    # (family, description, missing, graph, static, lex text, observed per target, job to repeat)
    rec = []
    lost = []
    slow = 0
    for b in range(nb):
        gi, k = at[b]
        g, r = I.groups[gi], res[b]
        got = r.get('bulk') or []
        slow = max(slow, r.get('ms') or 0)
        for i, t in enumerate(jobs_by[b]['vars']):
            if i < len(got): rec.append((g, t, got[i]))
            else: lost.append((g, t))
    # a crash or a hang hides the rest of its batch: these are executed one by one
    hung = sum('H' in o for _, _, o in rec)
    if lost:
        lj = [dict(id=i, files=dict(g['files'], **{'m.tsh': t}), main='m.tsh', bash=True, batch=True, bin=g['bin']) for i, (g, t) in enumerate(lost[:4000 if hung < 5 else 100])]
        if lj[0]['bin']: pass
        lr = run_jobs(lj)
        for i, (g, t) in enumerate(lost[:len(lj)]): rec.append((g, t, letters(lr[i])))
    cases, who = [], []
    agg = {}
    for g, t, o in rec:
        agg.setdefault(g['fam'].split(':')[0], {}).setdefault(o, 0)
        agg[g['fam'].split(':')[0]][o] += 1
        for k, x in enumerate(o):
            if g['lexed'] and len(t) < 400 or x not in OKAY or agg[g['fam'].split(':')[0]][o] == 1:
                cases.append(dict(id=len(cases), missing=False, graph='', static='', lex=g['lexed'] and len(t) < 400, t=enc(t) if g['lexed'] and len(t) < 400 else [], obs=x))
                who.append((g['fam'], t, k, dict(files=g['files'], main='m.tsh', bin=g['bin'])))
    for s, j in zip(I.singles, jobs[nb:]):
        o = letters(res[j['id']])
        agg.setdefault(s['fam'], {}).setdefault(o, 0)
        agg[s['fam']][o] += 1
        for k, x in enumerate(o):
            cases.append(dict(id=len(cases), missing=s['missing'], graph=s['graph'], static=s['static'], lex=False, t=[], obs=x))
            who.append((s['fam'], s['what'], k, s['job']))
    out, st = tlc_verdicts('Outcome', cases, shards=NPROC)
    ok = {v['id'] for v in out}
    for x in ('states', 'transitions'): ck.cov[x] += st[x]
    n = 0
    for c in cases:
        if c['id'] in ok: continue
        fam, t, k, job = who[c['id']]
        n += 1
        if n > 60: break
        tg = ('bash', 'batch')[k]
        j = dict(job, id=0, bash=k == 0, batch=k == 1)
        if fam in {g['fam'] for g in I.groups}: j['files'] = dict(job['files'], **{'m.tsh': t})
        r = run_jobs([j])[0]           # once more, alone
        o = letters(r)
        if o == c['obs'] or o not in ('S', 'E'):
            want = 'an error' if c['missing'] or c['graph'] == 'error' or c['lex'] and o == 'S' else 'a script' if c['static'] == 'ok' else 'a script or an error'
            d = r.get(tg) or {}
            ck.violation('%s-%s-%s' % (fam, tg, hashlib.sha256(t.encode('utf-8', 'replace')).hexdigest()[:8]), '%s, %s: %s instead of %s: %s\n%r' % (fam, tg, NAMES.get(o, 'outcome ' + o), want, (r.get('crash') or d.get('panic') or d.get('err') or '')[:300], t[:600]), j)
    total_n = len(rec) + len(I.singles)
    runs = sum(len(o) for _, _, o in rec) + 2 * len(I.singles)
    ck.cov.update(inputs=total_n, evaluations=runs, traces_validated_against_impl=runs, judged_individually=len(cases), families={k: v for k, v in sorted(agg.items())}, longest_ms=slow, samples=[dict(family=g['fam'], text=t[:200], outcome=o) for g, t, o in rng.sample(rec, 3)])
    ck.assumptions += ['bound of 10 seconds and 3 GB per transpilation', 'growing programs up to %d repetitions' % (3000 if deep else 1500)]

NAMES = dict(S='a script', E='an error', e='an error without a message', B='a script and an error', P='a panic', H='no result in time', C='a crash')
def letters(r):
    if r.get('crash'): return 'C'
    o = ''
    for t in ('bash', 'batch'):
        x = r.get(t)
        if x is None: continue
        o += 'H' if x.get('hang') else 'P' if x.get('panic') else 'S' if x.get('ok') else 'B' if x.get('both') else 'E' if (x.get('err') or '').strip() else 'e'
    return o

main('C13', 'model_checking', run)
