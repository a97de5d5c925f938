#!/usr/bin/env python3
"""Write MANIFEST.json for the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C01': 'TLC validates every recorded execution of the emitted Bash (stdout, stderr, exit status) against the TshMachine specification: systematic operator/precedence/loop/exit tables plus seeded random programs. Bounded by the generated programs; trusts bash, TLC and the tree exporter.',
 'C02': 'As C01, for calls: arities 0..14, all permutations of simultaneous assignments, colliding names, return values of every arity, nested calls, early returns, random call graphs.',
 'C03': 'As C01, for slices and strings: all in-range bounds of short strings, growth and copy tables, alias histories over a heap, random programs.',
 'C04': 'As C01, with tracing and state-changing calls in every operand position of every construct.',
 'C05': 'As C01-C04 on the emitted Batch, executed by an emulator of the documented cmd.exe rules, against TshMachine at 32 bits. Trusts the emulator (calibrated on the repository\'s own expectations).',
 'C06': 'TLC enumerates the typing specification (position x offered type x context) and predicts accept/reject; each predicted case is replayed on both converters.',
 'C07': 'TLC enumerates block-structure histories with definitions, uses and jumps and predicts accept/reject; replayed on the parser.',
 'C08': 'TshMachine moves strings as opaque values; executions over the whole printable alphabet, every data path and both origins are validated as traces.',
 'C09': 'Module-graph specification enumerated by TLC plus TshMachine as the oracle for linked programs; also calls-versus-definitions in the script text.',
 'C10': 'Renamed programs must produce a trace the (name-free) machine accepts, or be rejected by the transpiler; names are taken from the emitted scripts, the shells and the language.',
 'C11': 'Token streams recorded from the real lexer are validated by the TshLexer automaton (longest match, positions, values); exhaustive short texts plus random ones.',
 'C12': 'Layout edit sequences enumerated from the Layout specification are applied to programs; emitted bytes must be unchanged.',
 'C13': 'Outcome specification (script xor non-empty error, in bounded time) validated on mutated programs, token soups, bytes and import graphs.',
 'C14': 'All short histories of transpilations enumerated by TLC are replayed in one process and in fresh processes; outcomes must be a function of content and target.',
 'C15': 'TLC evaluates mathematical definitions of every std/strings function (cross-checked with Go) on each recorded call of the compiled library.',
 'C16': 'Event traces of the emitted scripts are validated by the ScriptStruct automaton, plus bash -n.',
 'C17': 'FileStore histories enumerated by TLC are compiled, executed and compared (stdout and file tree) with the specification.',
 'C18': 'argv, stdin and stdout of probe programs recorded from executed scripts are validated against the machine\'s command rules.',
 'C19': 'Invocation histories enumerated from the Cli specification are run on the built binary; exit status and directory contents must be the predicted ones.',
}
checks, na = [], []
for i in range(1, 20):
    p = 'C%02d' % i
    if os.path.exists(os.path.join(V, 'checks', p + '.py')):
        checks.append(dict(property=p, quick_cmd='./run.sh ' + p, thorough_cmd='VERIF_TIER=thorough ./run.sh ' + p, evidence_file='evidence/%s.json' % p,
                           technique='explicit TLA+ specification checked with TLC; conformance of real executions (trace validation / model-generated cases)', level='model_checking', level_note=NOTE[p]))
    else:
        na.append(dict(property=p, reason='the check for this property is still being built'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo are needed: the harness links the packages of /repo\'s working tree. Specifications are TLA+ (spec/), checked with TLC.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
