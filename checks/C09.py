"""C09: multi-file programs behave as the composition of their modules; removing unused functions is safe."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from static import *
from mcheck import *
import modprogs

def calls_of(b):
    for _, s in stmts_of(b):
        pass
    return [c[i] for c, i in expr_places(b) if c[i]['k'] == 'call']

def run(ck):
    deep = TIER == 'thorough'
    rng = random.Random('%s/modgraphs' % SEED)
    rc, out, st = tlc('Modules')
    if rc: raise CheckError('Modules: ' + tail_err(out))
    graphs = [g for g in says(out) if g['imp'][-1]]
    ck.cov.update(states=st['states'], transitions=st['transitions'], import_graphs=len(graphs))
    n = 2400 if deep else 260
    progs, exp = [], []
    pick = rng.sample(graphs, min(n, len(graphs)))
    for k, g in enumerate(pick):
        p = modprogs.program(g['imp'], '%s-%d' % (SEED, k))
        p['order'] = g['order']
        progs.append(p)
    # large graphs
    big = [[[]] + [[k] for k in range(1, 9)], [[] for _ in range(11)] + [list(range(1, 12))], [[], [], [], [1, 2, 3], [1, 2, 3], [1, 2, 3], [4, 5, 6], [4, 5, 6], [7, 8, 1]], [[]] + [[k, 1] if k > 1 else [1] for k in range(1, 8)], [[], [1], [1], [2, 3], [2, 3], [4, 5, 1], [6, 1, 6]], [[], [1] * 9], [[], [1], [2], [1, 2, 3, 1, 2, 3]]]
    for k in range(12 if deep else 2):
        for z, imp in enumerate(big): progs.append(modprogs.program(imp, '%s-big-%d-%d' % (SEED, z, k), 'hand'))
    for z, imp in enumerate([[[], [], [], [1, 2, 3]], [[], [], [], [], [], [1, 2], [3, 4, 5, 6]], [[] for _ in range(9)] + [list(range(1, 10))]]):
        for k in range(6 if deep else 2): progs.append(modprogs.program(imp, '%s-twins-%d-%d' % (SEED, z, k), 'hand', True))
    npick = len(progs)
    # hash variety: one program, many contents
    base = modprogs.program([[], [1], [1, 2]], '%s-hash' % SEED, 'hand')
    for k in range(400 if deep else 60):
        q = copy_prog(base)
        for m in q['mods']:
            if not m.get('std'): m['tail'] = '// %d\n' % (k * 7919 + rng.randrange(1000))
        q['key'] = 'hash%d' % k
        progs.append(q)
    ch = [p for p in modprogs.chains() if not deep or True]
    if not deep: ch = rng.sample(ch, 1100)
    ch += [modprogs.exported(p) for p in (ch if deep else rng.sample(ch, 350))]
    verd, s2 = judge(ch + progs)
    for k in ('states', 'transitions'): ck.cov[k] += s2[k]
    for p, v in zip(progs, verd[len(ch):]):
        if v == 'bad': raise CheckError('generator: ill-formed module program %s' % p['note'])
    okc = [p for p, v in zip(ch, verd) if v == 'ok' and not any(x in p['note'] for x in ('read', 'input', 'write', 'exists'))]
    for p in okc: p['probes'] = True
    # private, undefined and mistyped names through aliases
    neg = []
    for p in rng.sample(progs, min(len(progs), 600 if deep else 90)):
        for _ in range(4):
            q = copy_prog(p)
            m = rng.choice([m for m in q['mods'] if not m.get('std')])
            cs = [c for c in calls_of(m['stmts']) if c['a']] or calls_of(m['stmts'])
            if not cs: continue
            c = rng.choice(cs)
            other = [x for m2 in q['mods'] for x in [f['name'] for f in m2['stmts'] if f['k'] == 'func']]
            r = rng.random()
            if r < .5: c['f'] = rng.choice(other + ['Nope', 'help', 'inner', 'get', 'late'])
            elif r < .8: c['a'] = rng.choice(list(m['imp']) + ['', 'zz'])
            else: c['a'], c['f'] = rng.choice(list(m['imp']) + ['', 'zz']), rng.choice(other)
            q['note'] = 'a call changed to %s.%s' % (c['a'], c['f'])
            q.pop('key', None)
            neg.append(q)
    compare(ck, neg)
    run_families(ck, [('import graphs', progs[:npick]), ('hash variety', progs[npick:]), ('reachable functions', okc)])
    ck.cov['wrong_names'] = len(neg)
    ck.assumptions += ['graphs of up to three imported files with import lists of up to three entries, all of them in the thorough tier']

def copy_prog(p):
    import copy
    return copy.deepcopy(p)
main('C09', 'model_checking', run)
