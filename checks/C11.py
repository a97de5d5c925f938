"""C11: the recorded token streams are behaviours of TshLexer."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *
import itertools, lex

def run(ck):
    deep = TIER == 'thorough'
    rng = random.Random('%s/lex' % SEED)
    fams = lex.families(rng, deep)
    texts = list(dict.fromkeys(t for _, ts in fams for t in ts))
    # several texts of one job would only save process round trips; one job each keeps failures apart
    jobs = [dict(id=i, op='lex', bin=True, files={'src': t.decode('latin-1')}) for i, t in enumerate(texts)]
    res = run_jobs(jobs)
    cases = []
    for i, t in enumerate(texts):
        r = res[i]
        if r.get('crash') or r.get('lexpanic'):
            ck.violation('crash', 'Tokenize does not return on %r: %s' % (t[:300], r.get('crash') or r.get('lexpanic')), dict(text=t.decode('latin-1')))
            continue
        toks = [[x['t'], list(x['v'].encode('latin-1')), x['r'], x['c']] for x in r.get('toks') or []]
        if not r.get('lexerr'):
            if not toks or toks[-1][0] != 'EOF':
                ck.violation('eof', 'no end of file token on %r' % t[:300], dict(text=t.decode('latin-1')))
                continue
            toks = toks[:-1]
        cases.append(dict(id=i, t=list(t), toks=[] if r.get('lexerr') else toks, err=bool(r.get('lexerr'))))
    bad, st = tlc_verdicts('LexTrace', cases, shards=NPROC)
    unspec = 0
    byid = {c['id']: c for c in cases}
    for v in bad:
        if v['v'] == 'unspec':
            unspec += 1
            continue
        t = texts[v['id']]
        c = byid[v['id']]
        lexeme = dict(type=v['lex']['type'], value=bytes(v['lex']['val']).decode('latin-1'), row=v['p'][0], column=v['p'][1])
        got = c['toks'][v['k'] - 1] if v['k'] <= len(c['toks']) else None
        got = dict(type=got[0], value=bytes(got[1]).decode('latin-1'), row=got[2], column=got[3]) if got else None
        what = {'error': 'text of the token grammar is rejected: %s' % res[v['id']].get('lexerr'), 'extra': 'more tokens than the text has lexemes: %r' % got, 'no-error': 'accepted although no lexeme starts at byte %d (%r)' % (v['at'], t[v['at'] - 1:v['at'] + 20]),
                'token': 'at byte %d the grammar has %r, reported is %r' % (v['at'], lexeme, got)}[v['v']]
        ck.violation('lex', '%s\n  text: %r' % (what, t[:400]), dict(text=t.decode('latin-1'), verdict=v))
    ntok = sum(len(c['toks']) for c in cases)
    ck.cov.update(states=st['states'], transitions=st['transitions'], traces_validated_against_impl=len(cases), evaluations=len(texts), tokens=ntok, erroneous_texts=sum(c['err'] for c in cases), unspecified=unspec,
                  token_types=len({x[0] for c in cases for x in c['toks']}), families={n: len(t) for n, t in fams}, samples=[dict(text=texts[k].decode('latin-1')[:200]) for k in (5, len(texts) // 2, len(texts) - 5)])
    ck.assumptions += ['interpreted string literals with a raw line break or carriage return are not Go literals and not judged', 'columns may count bytes or characters', 'the position of the end-of-file token and tokens in front of an error are not judged']

main('C11', 'model_checking', run)
