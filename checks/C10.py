"""C10: renamings of identifiers into the names the back-ends, the shells and cmd.exe use.  TshMachine prescribes the behaviour of the original
program (its states contain values and scopes, not spellings); every renamed program must show the same observations or be rejected."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from conform import *
from renames import *
import gen, progs

def observation(x, fs=False):
    return json.dumps([x['out'], x['err'], x['code'], x.get('timeout', False), x.get('argv'), x.get('files')], sort_keys=True)

def nmaps(p): return len(p['mods']) if 'mods' in p else 0
def mapped(p, m): return rename_prog(p, m if nmaps(p) else m[0])
def trees(p): return [d['stmts'] for d in p['mods']] if nmaps(p) else [p['stmts']]
def roles(p):
    """per file the identifiers that may be renamed"""
    out = []
    for d in (p['mods'] if nmaps(p) else [dict(stmts=p['stmts'])]):
        ns = [n for n in ids(d['stmts']) if not n.startswith('Pub')]
        out.append(ns)
    return out

def run(ck):
    deep = TIER == 'thorough'
    rng = random.Random('%s/C10' % SEED)
    sc = scenarios()
    # --- the scenarios themselves, under names of their own, and how the back-ends spell these names
    base = []
    jobs, k = [], 0
    for n, p, bat in sc:
        q = [{r: 'qz%dx' % (100 * i + j) for j, r in enumerate(rs)} for i, rs in enumerate(roles(p))]
        for t in ('bash', 'batch') if bat else ('bash',):
            jobs.append(job_of(mapped(p, q), k, t, scripts=True))
            base.append(dict(name=n, p=p, t=t, q=q))
            k += 1
    res = run_jobs(jobs)
    cases, gaps = [], []
    images, pats = set(), set()
    for i, b in enumerate(base):
        r = res[i]
        kk, v = outcome(r, b['t'])
        if kk != 'ok':
            ck.violation('base-%s-%s' % (b['name'], b['t']), 'a well-formed program is not translated: %s' % v, jobs[i])
            continue
        x = r['run' if b['t'] == 'bash' else 'runbat']
        if x.get('unsup'): gaps.append('%s: %s' % (b['name'], x['unsup']))      # a form of script that the emulator of cmd.exe does not know: not judged
        else:
            b['obs'] = observation(x)
            cases.append(case_of(b['p'], i, x, 64 if b['t'] == 'bash' else 32))
            cases.append(dict(case_of(mapped(b['p'], b['q']), 1000 + i, x, 64 if b['t'] == 'bash' else 32)))
        words = set(IDENT.findall(v['script']))
        marks = [m for q in b['q'] for m in q.values()]
        b['shape'] = set()
        for w in words:
            for m in marks:
                if m in w:
                    a, _, z = w.partition(m)
                    pats.add((a, z))
                    b['shape'].add((a, z))
                    break
            else:
                if len(w) < 40: images.add(w)
    v, s = tlc_cases('TshTrace', cases)
    states, trans = s['states'], s['transitions']
    judged = {c['id']: v[c['id']]['v'] for c in cases}
    for i, b in enumerate(base):       # the machine does not know spellings: original and renamed tree accept the same behaviour
        if 'obs' in b and (judged[i] == 'accept') != (judged[1000 + i] == 'accept'): raise CheckError('the machine depends on names: ' + b['name'])
        b['accepted'] = judged.get(i) == 'accept'
    # --- the pool
    solved = {x for w in images for x in solve(w, pats)}
    allimages = {a + n + z for a, z in pats for n in ('a', 'x', 'n', 'qz1x')}
    shapes = {x for w in allimages for x in solve(w, pats)}
    danger = sorted(n for n in images | solved | shapes | set(SHAPES) if LEGAL.match(n) and n not in LANG)
    common = sorted({n for n in CMD + SH + shell_names() if LEGAL.match(n) and n not in LANG} - set(danger))
    # names that are not accepted at all, for variables or for functions
    pool0 = danger + common
    pj = []
    for i, n in enumerate(pool0):
        pj.append(dict(id=i, files={'m.tsh': '%s := 1\nprint(%s)\n' % (n, n)}, main='m.tsh', bash=True, batch=True))
        pj.append(dict(id=100000 + i, files={'m.tsh': 'func %s(qzp int) int {\n\treturn qzp\n}\nprint(%s(1))\n' % (n, n)}, main='m.tsh', bash=True, batch=True))
    pr = run_jobs(pj)
    refused = set()
    for j in pj:
        r = pr[j['id']]
        for t in ('bash', 'batch'):
            kk, w = outcome(r, t)
            if kk == 'bad' or (kk == 'error' and not w): ck.violation('probe-%s' % pool0[j['id'] % 100000], 'identifier %s: %s' % (pool0[j['id'] % 100000], w or 'error without text'), j)
            if kk != 'ok': refused.add(pool0[j['id'] % 100000])
    danger = [n for n in danger if n not in refused]
    common = [n for n in common if n not in refused]
    # --- renamings
    runs = []
    def add_run(b, maps, why): runs.append((b, maps, why))
    for b in base:
        if 'obs' not in b: continue
        R = roles(b['p'])
        avoid = {'aa', 'bb'}
        pool = [n for n in danger if n not in avoid]
        com = [n for n in common if n not in avoid]
        rng.shuffle(pool)
        rng.shuffle(com)
        need = max(len(r) for r in R) + 1
        def cover(names, step=1):
            while len(names) < need: names = names + ['z%dz' % i for i in range(need)]
            N = len(names)
            offs = [rng.sample(range(N), len(r)) for r in R]
            for t in range(0, N, step):
                add_run(b, [{r: names[(t + o) % N] for r, o in zip(rs, os_)} for rs, os_ in zip(R, offs)], 'cover')
        cover(pool)
        cover(com, 1 if deep else 3)
        # all roles out of the shapes of one stem
        for stem in ('a', 'x', 'cnt', 'loc') + (('A', 'ab', 'h0', '_', 'a_b') if deep else ()):
            if stem == '_': stem = '_a'
            cl = {stem, stem.upper(), stem.capitalize(), stem.swapcase(), stem + '_', '_' + stem, stem + '0', stem + '1', '__' + stem, stem + stem, stem + '_' + stem, stem.upper() + '_', '_' + stem.upper(), stem + '_1', stem + '_len'}
            for a, z in sorted(b['shape'] | {('v_', ''), ('f1_', ''), ('f2_', ''), ('f0_', '')}):
                w = a + stem + z
                cl |= {w} | solve(w, pats) | {a + stem.upper() + z}
            cl = sorted(n for n in cl if LEGAL.match(n) and n not in LANG and n not in avoid and n not in refused)
            while len(cl) < need: cl.append(stem + 'q%d' % len(cl))
            for _ in range(60 if deep else 25):
                add_run(b, [dict(zip(rs, rng.sample(cl, len(rs)))) for rs in R], 'shapes of ' + stem)
        # all roles out of names that differ only in the case of one letter, in underscores and digits, or at the end of a long name
        fam = [sorted({x + y + z for x in ('', 'a', 'Q', 'm_') for z in ('', 'b', 'Q') for y in (ch, ch.upper())}) for ch in 'abcdefghijklmnopqrstuvwxyz']
        fam += [sorted({'%s%s%s%s%s' % (u, a, v, d, w) for u in ('', '_') for a in ('k', 'K') for v in ('', '_', '__') for d in ('1', '2', '11', '12', '21') for w in ('', '_')} | {'k0', 'k01', 'k10', 'k1_1', 'k11_', 'k_1_1'})]
        fam += [[('n' * k) + e for e in ('', 'a', 'b', 'A', 'B', '_', '1', '2', 'aa', 'ab', 'ba', 'n', 'nn', 'N', 'na', 'nA', 'n_', '_n', 'n1', 'n2', '0', '3', '4', '5', '6', '7', '8', '9')] for k in (7, 30, 62, 127, 254)]
        for names in fam:
            names = [n for n in names if n not in avoid and n not in refused and n not in LANG]
            while len(names) < need: names.append(names[0] + 'q%d' % len(names))
            for _ in range(6 if deep else 2): add_run(b, [dict(zip(rs, rng.sample(names, len(rs)))) for rs in R], 'names that are alike')
        # single roles
        for i, rs in enumerate(R):
            for r in rs:
                for n in rng.sample(pool, 40 if deep else 6):
                    m = [{x: x for x in y} for y in R]
                    if n in m[i]: continue
                    m[i][r] = n
                    add_run(b, m, 'single')
    # --- random programs
    gp = []
    for i in range(160 if deep else 50):
        name = rng.choice(['calls', 'callsl', 'data', 'ctl', 'mixed', 'order'])
        t = rng.choice(['bash', 'batch'])
        gp.append((t, progs.P(gen.program('%s/C10/%d' % (SEED, i), **dict(progs.profile(name), **({'bits': 32} if t == 'batch' else {}))), 'random-%d' % i)))
    jb = [job_of(p, i, t) for i, (t, p) in enumerate(gp)]
    rb = run_jobs(jb)
    rcases = []
    for i, (t, p) in enumerate(gp):
        kk, v = outcome(rb[i], t)
        if kk != 'ok': continue        # C01-C05 decide that
        x = rb[i]['run' if t == 'bash' else 'runbat']
        if x.get('unsup'): continue
        b = dict(name='random', p=p, t=t, obs=observation(x), accepted=None)
        R = roles(p)
        for j in range(6 if deep else 3):
            names = rng.sample(danger + common, len(R[0])) if j else rng.sample([n for n in shapes if n in danger] + danger, len(R[0]) + 5)
            names = list(dict.fromkeys(names))[:len(R[0])]
            while len(names) < len(R[0]): names.append('zq%d' % len(names))
            add_run(b, [dict(zip(R[0], names))], 'random program')
    jobs = [job_of(mapped(b['p'], m), i, b['t']) for i, (b, m, w) in enumerate(runs)]
    res = run_jobs(jobs)
    st = dict(renamed_programs=len(runs), same_behaviour=0, rejected_names=0, emulator_gaps=0)
    bad = []
    for i, (b, m, w) in enumerate(runs):
        kk, v = outcome(res[i], b['t'])
        if kk == 'bad' or kk == 'error' and not v: bad.append(i)
        elif kk == 'error': st['rejected_names'] += 1
        else:
            x = res[i]['run' if b['t'] == 'bash' else 'runbat']
            if x.get('unsup'): st['emulator_gaps'] += 1
            elif observation(x) == b['obs']: st['same_behaviour'] += 1
            else: bad.append(i)
    # --- differing behaviours: executed again, judged by the machine on the original tree, reduced to few names
    seen = 0
    bad.sort(key=lambda i: bool((res[i].get('run') or res[i].get('runbat') or {}).get('timeout')))
    limit = time.time() + 120
    for i in bad:
        if seen >= 8 or seen and time.time() > limit: break
        b, m, w = runs[i]
        rk = 'run' if b['t'] == 'bash' else 'runbat'
        def differs(mm, to=30000):
            r = run_jobs([dict(job_of(mapped(b['p'], mm), 0, b['t']), timeout=to)])[0]
            kk, v = outcome(r, b['t'])
            if kk == 'error' and v: return None
            if kk != 'ok': return v
            if r[rk].get('unsup') or observation(r[rk]) == b['obs']: return None
            return r[rk]
        d = differs(m)
        if d is None: continue
        cur = [dict(x) for x in m]
        for f in range(len(cur)):
            for r in list(cur[f]):
                old = cur[f][r]
                if old == r or r in cur[f].values(): continue
                cur[f][r] = r
                dd = differs(cur, 5000) if time.time() < limit else None
                if dd is None: cur[f][r] = old
                else: d = dd
        vd = ''
        if isinstance(d, dict):
            v, s = tlc_cases('TshTrace', [case_of(b['p'], 0, d, 64 if b['t'] == 'bash' else 32)])
            vd = 'machine: %s %s, expected %r' % (v[0]['v'], v[0]['what'], v[0]['exp'])
            if v[0]['v'] == 'accept' and b['accepted'] is not False: continue       # both behaviours are permitted
        seen += 1
        ch = {'%d:%s' % (f, r): n for f, x in enumerate(cur) for r, n in x.items() if r != n}
        ck.violation('%s-%s-%s' % (b['name'], b['t'], '+'.join(sorted(ch.values()))), '%s (%s): renaming %s changes the behaviour; %s\nobserved %r\noriginal %s' % (b['name'], b['t'], ch, vd, d if not isinstance(d, dict) else [d['out'][:400], d['err'][:200], d['code']], b['obs'][:500]), job_of(mapped(b['p'], cur), 0, b['t']))
    # --- a sample of renamed random programs against the machine with the renamed names
    smp = [i for i, (b, m, w) in enumerate(runs) if w == 'random program' and outcome(res[i], b['t'])[0] == 'ok' and i not in bad]
    cs = []
    for i in rng.sample(smp, min(len(smp), 200 if deep else 50)):
        b, m, w = runs[i]
        x = res[i]['run' if b['t'] == 'bash' else 'runbat']
        if not x.get('unsup'): cs.append(case_of(mapped(b['p'], m), i, x, 64 if b['t'] == 'bash' else 32))
    v, s = tlc_cases('TshTrace', cs)
    states, trans = states + s['states'], trans + s['transitions']
    acc = sum(1 for c in cs if v[c['id']]['v'] == 'accept')
    ck.cov.update(states=states, transitions=trans, traces_validated_against_impl=len(runs) - st['rejected_names'], evaluations=len(runs), scenarios=len(base), names_reserved=len(danger), names_of_shells=len(common),
                  names_not_accepted=len(refused), machine_accepts=acc + sum(1 for x in judged.values() if x == 'accept'), machine_judged=len(cs) + len(judged), scenario_gaps=gaps[:10], **st)
    ck.cov['samples'] = [dict(scenario=runs[i][0]['name'], target=runs[i][0]['t'], renaming={k: x for y in runs[i][1] for k, x in list(y.items())[:8]}) for i in (0, len(runs) // 2, len(runs) - 1)]
    ck.assumptions += ['Batch executions use the emulator of cmd.exe', 'names of the std library and import aliases are not renamed', 'app calls and files are exercised on Bash only']

main('C10', 'model_checking', run)
