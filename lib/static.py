"""Programs for TshStatic: export of syntax trees, judging by TLC, comparison with the real transpiler on both targets."""
from conform import *
from tsh import *
import copy as _copy

ALIAS = {'e': 's', 'Se': 'Ss'}
def ty(t): return ALIAS.get(t, t) if t else ''

class STable:
    def __init__(s): s.N = []
    def add(s, **r):
        s.N.append(r)
        return len(s.N)
    def es(s, xs): return [s.expr(x) for x in xs]
    def expr(s, e):
        k = e['k']
        if k == 'copy': return s.add(k='copy', c=[s.add(k='var', n=e['n'])] + s.es(e['c']))
        r = dict(k=k)
        if k == 'lit': r['t'] = 'n' if e.get('nil') else ty(e['t'])
        elif k == 'var': r['n'] = e['n']
        else:
            r['c'] = s.es(e['c'])
            if k in ('bin', 'cmp', 'log'): r['o'] = e['o']
            elif k == 'call': r.update(a=e['a'], f=e['f'])
            elif k == 'sl': r['t'] = ty(e['et'])
        return s.add(**r)
    def block(s, b): return s.add(k='blk', c=[s.stmt(x) for x in b])
    def stmt(s, x):
        k = x['k']
        if k == 'func': return s.add(k='func', name=x['name'], ps=[n for n, _ in x['params']], pt=[ty(t) for _, t in x['params']], rt=[ty(t) for t in x['rets']], b=s.block(x['body']))
        if k == 'for':
            return s.add(k='for', c=[], i=s.stmt(x['init']) if x['init'] else 0, d=s.expr(x['cond']) if x['cond'] else 0, u=s.stmt(x['upd']) if x['upd'] else 0, b=s.block(x['body']))
        r = dict(k=k, c=s.es(x.get('c', [])))
        if k == 'vdef': r.update(ns=x['ns'], form=x['form'], t=ty(x['t']))
        elif k == 'asg': r['ns'] = x['ns']
        elif k in ('op', 'inc'): r.update(n=x['n'], o=x['o'])
        elif k == 'sas': r['n'] = x['n']
        elif k in ('if', 'sw'):
            r.update(b=[s.block(b) for b in x['bodies']], e=s.block(x['els']) if x['els'] is not None else 0)
            if k == 'sw': r['g'] = x['tag'] is not None
        elif k == 'rng': r.update(iv=x['iv'], vv=x['vv'] or '', b=s.block(x['body']))
        return s.add(**r)

def sexport(p, i):
    t = STable()
    ms = [dict(blk=t.block(m['stmts']), imp=m['imp']) for m in norm_mods(p)]
    return dict(id=i, N=t.N, mods=ms)

def judge(progs):
    """id -> ok|bad|unspec by TLC"""
    v, st = tlc_cases('StaticTrace', [sexport(p, i) for i, p in enumerate(progs)], shards=NPROC if len(progs) > 60 else 1, heap=3000)
    return [v[i]['v'] for i in range(len(progs))], st

def compare(ck, progs, good=None):
    """progs with static verdicts; every verdict other than unspec must be that of the real transpiler, for both targets."""
    verd, st = judge(progs)
    jobs = []
    for i, p in enumerate(progs):
        j = job_of(p, i, batch=True)
        j['run'] = False
        jobs.append(j)
    res = run_jobs(jobs)
    n = dict(ok=0, bad=0, unspec=0)
    for i, p in enumerate(progs):
        v = verd[i]
        n[v] += 1
        r = res[i]
        o = {t: outcome(r, t) for t in ('bash', 'batch')}
        kinds = [o[t][0] for t in ('bash', 'batch')]
        bad = ''
        if v != 'unspec' and p.get('expect') and p['expect'] != v: raise CheckError('specification says %s where the table says %s: %s' % (v, p['expect'], jobs[i]['files']))
        if 'bad' in kinds: bad = 'no outcome: %s' % [o[t][1] for t in o if o[t][0] == 'bad'][0]
        elif any(r[t].get('both') for t in o): bad = 'an error and a script at once'
        elif kinds[0] != kinds[1]: bad = 'the targets disagree: Bash %s, Batch %s (%s)' % (kinds[0], kinds[1], [o[t][1] for t in o if o[t][0] == 'error'][0])
        elif v == 'ok' and kinds[0] == 'error': bad = 'the specification allows this program, but it is rejected: %s' % o['bash'][1]
        elif v == 'bad' and kinds[0] == 'ok': bad = 'the specification forbids this program, but it is translated'
        if bad:
            src = '\n'.join('--- %s\n%s' % x for x in jobs[i]['files'].items())
            ck.violation(p.get('key') or hashlib.sha256(src.encode()).hexdigest()[:12], '%s\n%s' % (bad + (' [%s]' % p['note'] if p.get('note') else ''), src[:2500]), dict(jobs[i], verdict=v, observed=o))
    for k, x in (('states', st['states']), ('transitions', st['transitions']), ('traces_validated_against_impl', len(progs) - n['unspec']), ('evaluations', len(progs)), ('accepted_by_spec', n['ok']), ('forbidden_by_spec', n['bad']), ('unspecified', n['unspec'])):
        ck.cov[k] = ck.cov.get(k, 0) + x
    return verd

# ---------------------------------------------------------------- trees: places and mutations
def sub_exprs(e, path=()):
    for i, x in enumerate(e.get('c', [])):
        yield e['c'], i, path
        yield from sub_exprs(x, path + (e['k'],))

def stmts_of(b):
    for s in b:
        yield b, s
        for x in nested(s): yield from stmts_of(x)

def nested(s):
    if s['k'] in ('if', 'sw'): return s['bodies'] + ([s['els']] if s['els'] is not None else [])
    if s['k'] in ('for', 'rng', 'func'): return [s['body']]
    return []

def expr_places(b):
    """all (container, key) that hold an expression"""
    out = []
    def lst(cs):
        for i, x in enumerate(cs):
            out.append((cs, i))
            lst(x.get('c', []))
    for _, s in stmts_of(b):
        lst(s.get('c', []))
        if s['k'] == 'sw' and s['tag']: s['c'][0] = s['tag']
        if s['k'] == 'for':
            for w in ('init', 'upd'):
                if s[w]: lst(s[w].get('c', []))
            if s['cond']:
                out.append((s, 'cond'))
                lst(s['cond'].get('c', []))
    return out

def fix_tags(b):
    for _, s in stmts_of(b):
        if s['k'] == 'sw' and s['tag']: s['tag'] = s['c'][0]
