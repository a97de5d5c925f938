"""C02: calls, parameters, locals, globals, return values, simultaneous assignment."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcheck import *

def run(ck):
    n = 8 if TIER == "thorough" else 2
    fams = [('call table', call_table(random.Random(SEED), TIER == 'thorough'))]
    for name, k in (('calls', 170), ('callsl', 110)): fams.append(('random ' + name, random_progs(SEED, k * n, name, **profile(name))))
    fams.append(('random programs with files and commands', io_progs('%s/C02' % SEED, 30 * n)))
    fams.append(('errors and nil', error_table()))
    fams.append(('many names, parameters, results and nested calls', magnitude.calls() + [p for p in magnitude.control(200) if 'rotate' in p['key'] or 'keep' in p['key']]))
    run_families(ck, fams)
    ck.assumptions += ['a name defined with := in a function while an equally named global is visible is not generated (the language rejects it)']

main('C02', 'model_checking', run)
