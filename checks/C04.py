"""C04: every operand exactly once, in source order; conditions eagerly."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcheck import *

def run(ck):
    n = 8 if TIER == "thorough" else 2
    fams = [('operand positions', order_table(random.Random(SEED), n > 2, True))]
    for name, k in (('order', 150), ('order2', 110)): fams.append(('random ' + name, random_progs(SEED, k * n, name, **profile(name))))
    fams.append(('old values in front of every kind of expression', keep_table(random.Random('%s/keep' % SEED), n > 2, True)))
    fams.append(('random programs with files and commands', io_progs('%s/C04' % SEED, 40 * n)))
    fams.append(('expressions as statements', expr_stmts()))
    fams.append(('many calls with effects', magnitude.calls() + [p for p in magnitude.control(200) if 'rotate' in p['key'] or 'keep' in p['key']]))
    run_families(ck, fams)
    ck.assumptions += ['standard input is not part of these programs; the order of effects inside one pipeline of programs is that of C18']

main('C04', 'model_checking', run)
