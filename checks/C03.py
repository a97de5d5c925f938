"""C03: slices with reference semantics, strings as character sequences."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcheck import *

def run(ck):
    n = 8 if TIER == "thorough" else 2
    fams = [('string bounds', str_table(9 if n > 2 else 6)), ('slice growth, copy, aliases', slice_table()), ('slice histories', heap_histories(SEED, 60 * n))]
    for name, k in (('data', 130), ('grow', 90), ('callsl', 60)): fams.append(('random ' + name, random_progs(SEED + 1000, k * n, name, **profile(name))))
    fams.append(('errors and nil', error_table()))
    fams.append(('long slices and strings', [p for p in magnitude.control(200) if 'range' in p['key'] or 'within' in p['key']] + magnitude.data() + (magnitude.data(300, 4096) if n > 2 else [])))
    run_families(ck, fams)
    ck.assumptions += ['out-of-range reads, negative indices, resizing during range and copying into a longer destination are outside the property and not judged']

main('C03', 'model_checking', run)
