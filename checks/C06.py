"""C06: ill-typed programs are never translated, well-typed ones are, for both targets (TshStatic)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from static import *
from progs import *
import typing_tab as tt, mutate, corpus

def run(ck):
    deep = TIER == 'thorough'
    rng = random.Random('%s/types' % SEED)
    offers, poss = tt.offers(), tt.positions()
    progs = []
    base = [o for o in offers if o[0] in ('var', 'void', 'multi')]
    n = 0
    for pn, pf in poss:
        for on, ot, of in offers:
            cs = [rng.choice(tt.CTX)]
            if on in ('var', 'void', 'multi') and deep: cs = tt.CTX
            elif on == 'var': cs = rng.sample(tt.CTX, 2)
            if pn.startswith('returned'): cs = ['fn', 'ufn'] if deep or rng.random() < .2 else ['fn']
            elif not deep and on not in ('var', 'void', 'multi', 'app') and rng.random() < .3: continue
            for c in cs:
                st = tt.program(pf, of(), c)
                if st is not None: progs.append(P(st, 't', note='%s: %s %s in %s' % (pn, on, ot, c)))
    for note, st in tt.wide(rng, deep): progs.append(P(st if rng.random() < .5 else tt.in_ctx('fn', st) if not any(s['k'] == 'func' for s in st) else st, 't', note=note))
    tab = len(progs)
    ck.cov['table'] = dict(positions=len(poss), offers=len(offers), contexts=len(tt.CTX), programs=tab)
    # well-typed random programs, and the same with one place changed
    good, mut = [], []
    for prof in ('scalar', 'ctl', 'exprs', 'calls', 'callsl', 'data', 'grow', 'order', 'mixed'):
        for p in random_progs(SEED + 600, 60 if deep else 7, prof):
            p['expect'] = 'ok'
            good.append(p)
            for k in range(30 if deep else 12):
                q = mutate.types(rng, p['stmts'])
                if q: mut.append(P(q[0], 'm', note=q[1]))
    # the same inside an imported module
    mods = []
    for p in rng.sample(progs, len(progs) // (4 if deep else 12)) + rng.sample(mut, len(mut) // (4 if deep else 12)):
        lib = p['stmts'] + [FUNC('Exported', [], ['i'], [RETURN(I(1))])]
        if not any(s['k'] == 'func' and s['name'] == 'Exported' for s in p['stmts']):
            mods.append(dict(key='m', note='imported: ' + p['note'], mods=[dict(name='lib.tsh', stmts=lib, imports=[], imp={}, order=[]),
                        dict(name='m.tsh', stmts=[PRINT(CALL('Exported', [], ['i'], 'lib'))], imports=[('lib', 'lib.tsh')], imp=dict(lib=1), order=[1])]))
    for p in progs + mut + mods: p.pop('key')
    verd = compare(ck, progs + good + mut + mods)
    pos = {}
    for p, v in zip(progs, verd): pos.setdefault(p['note'].split(':')[0], set()).add(v)
    ck.cov['positions_with_both_verdicts'] = sum(1 for v in pos.values() if {'ok', 'bad'} <= v)
    ck.cov.update(well_typed_random=len(good), mutated_random=len(mut), in_imported_module=len(mods),
                  samples=[dict(note=progs[7]['note'], program=render(progs[7]['stmts']), verdict=verd[7])])
    if ck.cov['unspecified'] > len(verd) * .35: raise CheckError('too much left open: %s' % ck.cov)
    ck.assumptions += ['Left open: ordering of strings, comparison of slices, arguments of programs that are not strings, printing slices, panic of a non-string, := which re-uses a variable of an outer scope, nil as a slice']

main('C06', 'model_checking', run)
