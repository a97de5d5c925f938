"""C01: scalar expressions and control flow.  Observed executions of the emitted Bash are validated against TshMachine."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcheck import *

def run(ck):
    deep = TIER == 'thorough'
    rng = random.Random(SEED)
    n = 8 if deep else 2
    fams = [('operators on boundary values', op_table(64, rng, 1 if deep else .3)), ('logical operators', logic_table()), ('precedence', prec_table()),
            ('loop forms x jumps', ctl_progs(rng, 18 if deep else 3)), ('program ends', exit_table()), ('print', print_table())]
    for name, k in (('scalar', 130), ('ctl', 130), ('exprs', 60)): fams.append(('random ' + name, random_progs(SEED, k * n, name, **profile(name))))
    fams.append(('large programs', magnitude.control(3000 if deep else 1000)))
    run_families(ck, fams)
    ck.assumptions += ['strings restricted to a shell-neutral alphabet', 'division by zero, break inside switch, redeclaration of outer variables and effects in a switch tag are never generated']

main('C01', 'model_checking', run)
