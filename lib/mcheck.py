"""Checks whose oracle is TshMachine: run families of programs and let TLC validate the traces."""
from conform import *
from progs import *
import magnitude

def run_families(ck, fams, target='bash', bits=64):
    """fams: list of (name, programs)"""
    per = {}
    samples = []
    batch = [p for _, ps in fams for p in ps]
    for name, ps in fams: per[name] = len(ps)
    t = conform(batch, target, bits, reporter(ck))
    add(ck, t)
    texts = set()
    loc = 0
    for p in batch:
        if p.get('obs'):
            texts.add(p['obs']['out'])
            loc += p['obs']['out'].count('\n')
    for name, ps in fams:
        if ps and len(samples) < 3: samples.append(dict(family=name, program=''.join(render(m['stmts'], m['imports']) for m in norm_mods(ps[-1]))[:1500], output=(ps[-1].get('obs') or {}).get('out', '')[:300]))
    ck.cov.setdefault('families', {}).update({k: per[k] for k in per})
    ck.cov['evaluations'] = ck.cov.get('evaluations', 0) + len(batch)
    ck.cov['distinct_outputs'] = ck.cov.get('distinct_outputs', 0) + len(texts)
    ck.cov['output_lines_validated'] = ck.cov.get('output_lines_validated', 0) + loc
    ck.cov.setdefault('samples', []).extend(samples)
    ck.cov['samples'] = ck.cov['samples'][:4]
    if t['unspecified'] > len(batch) // 5: raise CheckError('too many programs without a prescribed meaning: %d of %d' % (t['unspecified'], len(batch)))
