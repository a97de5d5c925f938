"""C05: the emitted Batch scripts, executed by an emulator of cmd.exe's documented rules; the executions are validated against TshMachine
with 32-bit integers.  A sample is also executed as Bash: both targets must agree."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcheck import *

def run(ck):
    deep = TIER == 'thorough'
    rng = random.Random(SEED)
    n = 8 if deep else 1
    fams = [('operators on boundary values', op_table(32, rng, 1 if deep else .3)), ('logical operators', logic_table()), ('precedence', prec_table()),
            ('loop forms x jumps', ctl_progs(rng, 18 if deep else 5)), ('program ends', exit_table()), ('print', print_table()), ('call table', call_table(rng, deep)),
            ('string bounds', str_table(12 if deep else 6)), ('slice growth, copy, aliases', slice_table()), ('slice histories', heap_histories(SEED + 5, 60 * n)),
            ('operand positions', order_table(rng, deep)), ('old values in front of every kind of expression', keep_table(random.Random('%s/keep' % SEED), deep))]
    for name, k in (('scalar', 90), ('ctl', 130), ('exprs', 40), ('calls', 100), ('callsl', 80), ('data', 80), ('grow', 60), ('order', 60), ('order2', 40)):
        fams.append(('random ' + name, random_progs(SEED + 5000, k * n, name, **dict(profile(name), bits=32))))
    fams.append(('expressions as statements', expr_stmts()))
    fams.append(('errors and nil', error_table()))
    fams.append(('large programs', magnitude.data(70, 256) + magnitude.control(200) + magnitude.calls()))
    run_families(ck, fams, target='batch', bits=32)
    ck.assumptions += ['cmd.exe itself is not available: its documented rules are modelled by harness/cmdexe.go, constructs outside that model are reported as emulator_gaps and not judged',
                       'a SET /A whose operand is -2147483648 is not judged (cmd.exe refuses these digits)', 'strings restricted to a cmd-neutral alphabet']

main('C05', 'model_checking', run)
