"""Conformance of executed programs with TshMachine."""
from core import *
from tsh import render, export

def norm_mods(p):
    return p['mods'] if 'mods' in p else [dict(name='m.tsh', stmts=p['stmts'], imp={}, order=[], imports=[])]

def job_of(p, i, run='bash', **kw):
    """p: dict(stmts|mods, key, stdin, files, dirs, ...).  mods: [dict(name, stmts, imports=[(alias, path)], imp={alias: idx}, order=[idx])], main last."""
    ms = norm_mods(p)
    files = {m['name']: p.get('text') or m.get('head', '') + render(m['stmts'], m['imports']) + m.get('tail', '') for m in ms if not m.get('std')}
    j = dict(id=i, files=files, links=p.get('links', {}), main=ms[-1]['name'], stdin=''.join(l + '\n' for l in p.get('stdin', [])),
             rfiles=p.get('files', {}), rdirs=p.get('dirs', []), keepfs=bool(p.get('ckfs')), probes=bool(p.get('probes')), timeout=10000)
    if run == 'bash': j.update(bash=True, run=True)
    else: j.update(batch=True, runbat=True)
    j.update(kw)
    return j

def case_of(p, i, x, bits=64):
    ms = norm_mods(p)
    c = export([(m['stmts'], m['imp'], m['order']) for m in ms], main=len(ms), bits=bits, files=p.get('files', {}), dirs=p.get('dirs', []), stdin=p.get('stdin', []))
    c.update(id=i, out=x['out'][:200000], err=x['err'][:2000], code=-9 if x.get('timeout') else x['code'])
    if p.get('ckfs'): c.update(ckfs=True, fsout=x.get('files') or {})
    if p.get('ckargv'): c.update(ckargv=True, argv=x.get('argv') or [])
    return c

def outcome(r, target):
    """('ok', TRes) | ('error', msg) | ('bad', msg)"""
    t = r.get(target)
    if r.get('crash'): return 'bad', 'crash: ' + r['crash'][:300]
    if t.get('panic'): return 'bad', 'panic: ' + t['panic']
    if t.get('hang'): return 'bad', 'no result in time'
    if t.get('ok'): return 'ok', t
    return 'error', t.get('err') or ''

def conform(progs, target='bash', bits=64, report=None, what='', **kw):
    """Execute every program and let TLC validate the observed trace.  report(p, kind, text, detail) is called for every program
    whose behaviour the machine rejects (after a confirming second execution).  Returns statistics."""
    st = dict(programs=len(progs), accepted_by_spec=0, unspecified=0, rejected=0, states=0, transitions=0, not_translated=0, emulator_gaps=0, gaps=[])
    jobs = [job_of(p, i, target, **kw) for i, p in enumerate(progs)]
    res = run_jobs(jobs)
    cases, again = [], []
    rk = 'run' if target == 'bash' else 'runbat'
    for i, p in enumerate(progs):
        r = res[i]
        k, v = outcome(r, target)
        if k == 'error' and p.get('mayreject'): continue       # whether it is accepted is left open
        if k != 'ok':
            st['not_translated'] += 1
            report(p, 'rejected', 'a well-formed program is not translated to %s: %s' % (target, v), jobs[i])
            continue
        x = r[rk]
        p['obs'] = x
        if x.get('unsup'):      # outside what the emulator of cmd.exe models: not judged
            st['emulator_gaps'] += 1
            if len(st['gaps']) < 6: st['gaps'].append(x['unsup'])
            continue
        cases.append(case_of(p, i, x, bits))
    v, s = tlc_cases('TshTrace', cases) if cases else ({}, dict(states=0, transitions=0))
    st['states'] += s['states']
    st['transitions'] += s['transitions']
    for c in cases:
        d = v[c['id']]
        if d['v'] == 'accept': st['accepted_by_spec'] += 1
        elif d['v'] == 'unspec': st['unspecified'] += 1
        else: again.append(c['id'])
    st['suspects'] = len(again)
    quick = lambda i: bool(res[i][rk].get('timeout'))
    again.sort(key=quick)
    while again:       # confirm on a second execution (timing, resources)
        part, again = again[:20], again[20:]
        res2 = run_jobs([dict(jobs[i], timeout=30000) for i in part], workers=4)
        cases2 = [case_of(progs[i], i, res2[i][rk], bits) for i in part]
        v2, s = tlc_cases('TshTrace', cases2)
        for c in cases2:
            i = c['id']
            d = v2[i]
            if d['v'] == 'accept' or d['v'] == 'unspec':
                st['accepted_by_spec'] += 1
                continue
            st['rejected'] += 1
            x = res2[i][rk]
            exp = d['exp']
            got = x['out'][d['pos']:]
            txt = 'specification rejects the execution (%s) after %d characters of output: expected %r, observed %r, exit status %s, stderr %r' % (
                d['what'], d['pos'], exp[:200] if isinstance(exp, str) else exp, got[:200], x['code'], x['err'][:300])
            report(progs[i], d['what'], txt, dict(jobs[i], observed=x, verdict=d))
        if st['rejected']: break
    return st

def reporter(ck, keyf=None):
    def rep(p, kind, txt, job):
        src = '\n'.join('--- %s\n%s' % (n, t) for n, t in job['files'].items())
        ck.violation(p.get('key') or hashlib.sha256(src.encode()).hexdigest()[:12], '%s\n%s' % (txt, src[:1500]), job)
    return rep

def add(ck, st):
    for k, v in st.items():
        if k == 'gaps': ck.cov.setdefault(k, []).extend(v) if v else None
        else: ck.cov[k] = ck.cov.get(k, 0) + v
    ck.cov['traces_validated_against_impl'] = ck.cov.get('traces_validated_against_impl', 0) + st['accepted_by_spec'] + st['rejected']
