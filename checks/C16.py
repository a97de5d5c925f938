"""C16: structure of emitted scripts against Script.tla."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcheck import *
import corpus, script, modprogs

def run(ck):
    deep = TIER == 'thorough'
    rng = random.Random('%s/struct' % SEED)
    progs = []      # dict(files, main, key, flow tables or none)
    def add(p, **k): progs.append(dict(p, **k))
    for p in script.exhaustive(rng, deep): add(p, files={'m.tsh': p['text']}, strict=True, fam='control structures')
    for p in script.programs(SEED, 9000 if deep else 900): add(p, files={'m.tsh': p['text']}, strict=True, fam='random marked programs')
    for p in script.programs('%s/deep' % SEED, 700 if deep else 40, depth=8, nf=6, size=200): add(p, files={'m.tsh': p['text']}, strict=True, fam='deep and large')
    for p in script.builtin_programs(deep, rng): add(p, strict=True, fam='builtins')
    for n, t in corpus.OK.items(): add(dict(files=dict(corpus.LIB, **{'m.tsh': t}), key='corpus-' + n), fam='corpus')
    for name in ('scalar', 'ctl', 'exprs', 'calls', 'callsl', 'data', 'order', 'mixed'):
        for p in random_progs(SEED + 1600, 120 if deep else 12, name): add(dict(files={'m.tsh': render(p['stmts'])}, key=p['key']), fam='generated programs')
    for p in magnitude.control(200) + magnitude.calls(): add(dict(files={'m.tsh': render(p['stmts'])}, key=p['key']), fam='large programs')
    jobs = [dict(id=i, files=p['files'], main='m.tsh', bash=True, batch=True, syntax=True, struct=True, scripts=True) for i, p in enumerate(progs)]
    res = run_jobs(jobs)
    cases, fam, lines, gaps = [], {}, 0, []
    called = {e['n'] for r in res.values() for e in (r.get('struct') or {}).get('ev', []) if e['k'] == 'call'}      # names of routines
    words = script.shell_words()
    for i, p in enumerate(progs):
        r = res[i]
        src = '\n'.join('--- %s\n%s' % x for x in p['files'].items())
        ks = [outcome(r, t) for t in ('bash', 'batch')]
        if [k for k, _ in ks] != ['ok', 'ok']:
            # acceptance is not judged here, but a valid program of this check has to be accepted for both targets or none
            if ks[0][0] == ks[1][0] == 'error':
                gaps.append('%s is rejected: %s' % (p['key'], ks[0][1]))
                continue
            ck.violation(p['key'], 'no script for an accepted program: %s\n%s' % (ks, src[:2500]), dict(jobs[i], observed=ks))
            continue
        st = r['struct']
        if st.get('unsup'):
            gaps.append('the structure of the Batch script of %s is not understood: %s' % (p['key'], st['unsup']))
            continue
        lines += st['lines']
        strict = bool(p.get('strict'))
        bd, bu = [], []
        if strict:
            d, u = script.bash_words(r['bash']['script'])
            apps = set(re.findall(r'@"?([\w ]+)', src))
            bd, bu = d, sorted(w for w in u if w in d or w not in words and w not in apps)
        cases.append(dict(id=i, ev=st['ev'], nodes=st['nodes'], start=st['start'], orph=[o for o in st['orph'] if o['n'] in called], allcalled=strict, flow='T' in p, T=p.get('T', []), b=p.get('b', []), fs=p.get('fs', []), bd=bd, bu=bu, syn=r.get('syntax', '')))
        fam[p['fam']] = fam.get(p['fam'], 0) + 1
    cases.sort(key=lambda c: -len(c['nodes']))
    out, st = tlc_verdicts('ScriptTrace', cases, shards=NPROC)
    for v in sorted(out, key=lambda v: len(progs[v['id']]['files']['m.tsh'])):
        p = progs[v['id']]
        src = '\n'.join('--- %s\n%s' % x for x in p['files'].items())
        ck.violation(p['key'], '%s\n%s' % ('; '.join(v['why']), src[:2500]), dict(jobs[v['id']], why=v['why'], batch=res[v['id']]['batch']['script'], bash=res[v['id']]['bash']['script']))
    ck.cov.update(states=st['states'], transitions=st['transitions'], traces_validated_against_impl=len(cases), evaluations=len(jobs), families=fam, batch_lines=lines, batch_events=sum(len(c['ev']) for c in cases), gaps=len(gaps), gap_examples=[g[:300] for g in gaps[:5]], flow_compared=sum(c['flow'] for c in cases),
                  samples=[dict(program=progs[5]['files']['m.tsh'][:400], events=cases[-1]['ev'][:12])])
    ck.assumptions += ['string contents are letters, digits and blanks: the text of a Batch script with quotes or parentheses in strings is not judged', 'the graph of a Batch script takes both ways of every condition']

main('C16', 'model_checking', run)
