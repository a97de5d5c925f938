"""C08: strings are opaque data on every path."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcheck import *
import strs

def run(ck):
    deep = TIER == 'thorough'
    rng = random.Random(SEED)
    fams = []
    sysm = strs.systematic()
    for o in strs.ORIGINS:
        ss = list(sysm)
        rng.shuffle(ss)
        ps = [strs.data_program(ch, o, rng, '%s-%d' % (o, i), None if deep else 7) for i, ch in enumerate(chunks(ss, 10))]
        fams.append(('every character and special content from ' + o, ps))
    ps = []
    for i in range(400 if deep else 60):
        ps.append(strs.data_program([strs.rand(rng, 12) for _ in range(5)], rng.choice(strs.ORIGINS), rng, 'random-%d' % i))
    fams.append(('random contents', ps))
    ps = []
    for i in range(48 if deep else 12):
        s = ''.join(rng.choice(strs.SPECIAL) if rng.random() < .5 else rng.choice(strs.ALL) for _ in range(rng.choice([70, 150, 300])))
        o = strs.ORIGINS[i % len(strs.ORIGINS)]
        if o == 'stdin': s = s.replace('\n', ' ')
        ps.append(strs.data_program([s, s[::-1]], o, rng, 'long-%d' % i))
    fams.append(('long contents', ps))
    for name, k in (('data', 60), ('calls', 40), ('callsl', 40)):
        ps = random_progs(SEED + 500, k * (8 if deep else 1), name, **dict(profile(name), strings=strs.wide))
        for p in ps: p['ckfs'] = True
        fams.append(('random programs over the full alphabet, ' + name, ps))
    run_families(ck, fams)
    ck.cov['distinct_contents'] = len(sysm)
    ck.assumptions += ['the directory after the run must hold exactly the files the specification prescribes, so a canary that executed data could create is seen']

main('C08', 'model_checking', run)
