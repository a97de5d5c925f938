"""C07: names resolve lexically; out-of-scope and misplaced constructs are rejected (TshStatic)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from static import *
from progs import *
import scopes, mutate

def run(ck):
    deep = TIER == 'thorough'
    rng = random.Random('%s/scopes' % SEED)
    allp = list(scopes.pairs())
    chosen = rng.sample(allp, 90000 if deep else 8000)
    if not deep:        # every place x use once, and every place x definition once
        chosen += [(a, b, 'short', rng.choice(list(scopes.uses('x'))), False) for a in range(scopes.NSLOT) for b in range(scopes.NSLOT)]
    pairs = [scopes.pair_program(t) for t in chosen]
    bn = list(scopes.builtin_names())
    if not deep: bn = rng.sample(bn, 900)
    fixed = list(scopes.jumps()) + list(scopes.deep(rng, deep)) + list(scopes.endings()) + [dict(stmts=s, note=n) for n, s in scopes.functions()] + list(scopes.modules())
    good, mut = [], []
    for prof in ('scalar', 'ctl', 'exprs', 'calls', 'callsl', 'data', 'grow', 'order', 'mixed'):
        for p in random_progs(SEED + 700, 60 if deep else 7, prof):
            p['expect'] = 'ok'
            good.append(p)
            for k in range(40 if deep else 14):
                q = mutate.places(rng, p['stmts'])
                if q: mut.append(dict(stmts=q[0], note=q[1]))
    mods = []
    for p in rng.sample(pairs + mut + fixed, 1500 if deep else 250):
        if 'mods' in p or any(s['k'] == 'func' and s['name'] == 'Exported' for s in p['stmts']): continue
        mods.append(dict(note='imported: ' + p['note'], mods=[dict(name='lib.tsh', stmts=p['stmts'] + [FUNC('Exported', [], ['i'], [RETURN(I(1))])], imports=[], imp={}, order=[]),
                    dict(name='m.tsh', stmts=[PRINT(CALL('Exported', [], ['i'], 'lib'))], imports=[('lib', 'lib.tsh')], imp=dict(lib=1), order=[1])]))
    verd = compare(ck, pairs + bn + fixed + good + mut + mods)
    by = {}
    for p, v in zip(pairs + bn + fixed + good + mut + mods, verd): by.setdefault('pairs' if ' at ' in p.get('note', '') else p.get('note', 'well-formed').split(':')[0][:24], []).append(v)
    ck.cov.update(places=scopes.NSLOT, definition_forms=len(scopes.defs('x')), use_forms=len(scopes.uses('x')), pairs=len(pairs), all_pairs=len(allp), placements=len(fixed), skeleton_names=len(bn), well_formed_random=len(good), mutated_random=len(mut), in_imported_module=len(mods),
                  samples=[dict(note=pairs[3]['note'], program=render(pairs[3]['stmts']), verdict=verd[3])])
    if ck.cov['unspecified'] > len(verd) * .35: raise CheckError('too much left open: %s' % ck.cov['unspecified'])
    ck.assumptions += ['Left open: := that re-uses a variable of an outer scope, break directly inside a switch inside a loop, variables named like functions, bare return, functions whose last statement is an if/switch whose every branch returns']

main('C07', 'model_checking', run)
