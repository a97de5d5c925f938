"""C12: every legal re-layout (Layout.tla) of a program leaves acceptance and script bytes unchanged."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcheck import *
import corpus, re

IN = ['', ' ', '  ', '\t', ' \t ', '/**/', '/* c */', ' /* c */ ', '/* a\n b */', '/*\r\n*/', '/* " */', '/* // */', '/*é*/', '\t/* x */\t/* y */ ', '/* } */', '/***/', ' ' * 130, '/* ' + 'x' * 260 + ' */', '/*' + '*' * 64 + '*/']
BR = ['\n', '\r\n', ' \n', '\t\r\n', '\n\n', '\n\n\n', '\r\n\r\n', '\n \n', '\n\t\n\t', '// c\n', ' // c\n', '\n// c\n', '\n\t// c\r\n\t', '/* c */\n', '\n/* c */\n', '\n/* a\n b */\n', ' /* c */ // d\n', '\n/* c */', '\n/* c */ ', ' // {\n', ' // "\n', '// `\n',
      '\n\n// c\n\n', '\n        ', '\n//\n', ' // /*\n', ' //*/\n', '\n' * 70, ' ' * 90 + '\n', '// ' + 'y' * 300 + '\n', '\n' + '// c\n' * 20, '/*\n*/\n', '\n/*\n\n*/\n\n', '\n\n\n\n\n\n', '//\\\n', '\n \t\r\n\r\n  ']
END = ['', ' ', '// c', '/* c */', ' // c\n// d', '\n// c', '\n/* c\n*/']
MENU = list(dict.fromkeys(IN + BR + END))
TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|`[^`]*`|[A-Za-z_]\w*|\d+(?:\.\d+)?|==|!=|<=|>=|&&|\|\||[-+*/%:]=|\+\+|--|\n|[ \t\r]+|.''', re.S)
ENDS = re.compile(r'[\w"`)\]}]$')
RES = {'import', 'var', 'func', 'return', 'if', 'else', 'switch', 'case', 'default', 'for', 'range', 'break', 'continue', 'len', 'print', 'input', 'copy', 'itoa', 'exists', 'read', 'write', 'panic', 'bool', 'int', 'string', 'error'}

def split(text):
    """tokens, separators, line-break flags of a house-style text (verified by the specification)"""
    toks, seps, cur, neg = [], [], '', None
    for m in TOK.finditer(text):
        s = m.group()
        if s == '\n' or s.isspace() or s.startswith('//') or s.startswith('/*'):
            cur += s
            continue
        if neg and s[0].isdigit() and cur == '':
            toks[-1] += s
            neg = None
            continue
        prev = toks[-1] if toks and '\n' not in re.sub(r'/\*.*?\*/', '', cur, flags=re.S) else ''
        neg = s == '-' and not (prev and ENDS.search(prev) and prev not in RES)
        seps.append(cur)
        cur = ''
        toks.append(s)
    seps.append(cur)
    return toks, seps, [('\n' in re.sub(r'/\*.*?\*/', '', s, flags=re.S)) for s in seps]

def norm(t): return t if t in RES or not (t[0].isalnum() or t[0] in '_"`-') or t in ('-', '--', '-=') else '1' if t[0].isdigit() or t[0] == '-' else t[0] if t[0] in '"`' else 'a'

def build_text(toks, seps, ed):
    seps = list(seps)
    for g, k in ed: seps[g] = MENU[k - 1]
    return ''.join(a + b for a, b in zip(seps, toks)) + seps[-1] if toks else seps[0]

def options(g, n, brk):
    if g == 0: return IN + BR
    if g == n: return IN + BR + END
    return BR if brk[g] else IN

SAFE = set('()[]{},;@')
def likely(a, b, s):
    """whether the separator s between tokens a and b probably keeps them apart (the specification decides)"""
    if a.endswith('/') and s.startswith('/'): return False
    if s: return True
    return a[-1] in SAFE or b[0] in SAFE or a[-1] in '"`' or b[0] in '"`' or (a[-1].isalnum() != b[0].isalnum() and not (a[-1] in '-.' or b[0] in '-.' or '_' in a[-1] + b[0]))

def run(ck):
    deep = TIER == 'thorough'
    rng = random.Random('%s/layout' % SEED)
    idx = {s: i + 1 for i, s in enumerate(MENU)}
    bases = [(n, t, corpus.LIB, True) for n, t in corpus.OK.items()] + [(n, t, corpus.LIB, False) for n, t in corpus.BAD.items() if n not in ('tok', 'str')]
    n_exh = len(bases)
    for name in ('scalar', 'ctl', 'exprs', 'calls', 'callsl', 'data', 'order', 'mixed'):
        for p in random_progs(SEED + 900, 20 if deep else 2, name): bases.append((p['key'], render(p['stmts']), {}, True))
    bases = [(n, t, l, g, 'm.tsh') for n, t, l, g in bases]
    # the layout of imported files
    mods = [('module ' + n, t, dict(corpus.LIB, **{'m.tsh': corpus.OK['import2']}), True, n) for n, t in corpus.LIB.items()]
    mods += [('module ' + n, t, dict(corpus.LIB, **{'m.tsh': 'import (\n\tx "x.tsh"\n\tlib "lib.tsh"\n)\nlib.Show("s")\nprint(lib.Twice(2))\n', 'sub/lib.tsh': corpus.LIB['lib.tsh']}), True, 'x.tsh') for n, t in corpus.OK.items() if 'sub/' not in t]
    n_mod = len(bases)
    bases += mods
    variants, places, ctx = [], {}, set()
    for b, (name, text, lib, good, where) in enumerate(bases):
        toks, seps, brk = split(text)
        n = len(toks)
        if n == 0: seps, brk = [text], [True]
        eds = []
        mod = b >= n_mod
        whole = n_exh <= b < n_mod
        if not whole:       # every single edit
            for g in range(n + 1):
                for s in dict.fromkeys(options(g, n, brk)):
                    if s != seps[g]: eds.append([[g, idx[s]]])
            if not good and not deep: eds = rng.sample(eds, min(len(eds), 60))
            if mod: eds = rng.sample(eds, min(len(eds), 400 if deep else 25))
            elif good and not deep:       # one place per context: the two tokens before and behind
                rng.shuffle(eds)
                keep = []
                for ed in eds:
                    g = ed[0][0]
                    c = (tuple(norm(t) for t in toks[max(0, g - 2):g + 2]), ed[0][1])
                    if c not in ctx:
                        ctx.add(c)
                        keep.append(ed)
                eds = keep
        ok = [[x for x in options(g, n, brk) if g in (0, n) or likely(toks[g - 1], toks[g], x)] for g in range(n + 1)]
        mul = []
        for _ in range((60 if deep else 8) if whole or good else 6):
            pr = rng.choice([.05, .2, .5, 1])
            mul.append([[g, idx[rng.choice(ok[g])]] for g in range(n + 1) if rng.random() < pr])
        # whole-file styles
        for f in (lambda g: None if not brk[g] else '\r\n', lambda g: (None if g == n or brk[g] else ''), lambda g: None if brk[g] else ' ' if 0 < g < n else None, lambda g: BR[4] if brk[g] else None, lambda g: '' if g == n else None, lambda g: '\n' if brk[g] else None, lambda g: '/* c */' if not brk[g] and 0 < g < n else ' // c\n' if brk[g] else None):
            mul.append([[g, idx[f(g)]] for g in range(n + 1) if f(g) in ok[g]])
        # blanks removed wherever the grammar allows it: greedy halves
        noblank = [[g, idx['']] for g in range(1, n) if not brk[g] and '' in ok[g]]
        for q in (1, 1, .5, .5, .2): mul.append([x for x in noblank if rng.random() < q])
        # the line ends of the whole file, also those within raw strings and comments
        full = [text.replace('\n', '\r\n')] + ([''.join('\r\n' if c == '\n' and rng.random() < .5 else c for c in text) for _ in range(3)] if any('\n' in x for x in toks) else [])
        variants.append((toks, seps, eds, mul, full))
        op = [False] * (n + 1)          # op[k]: token k (1-based) can end an operand in front of token k + 1
        for k in range(1, n): op[k] = not brk[k] and bool(ENDS.search(toks[k - 1])) and toks[k - 1] not in RES
        # single edits: only the surroundings of the edited place can split differently
        for w, es in ((0, eds), (1, mul)):
            for i, ed in enumerate(es):
                if w or n == 0: a, z = 1, n
                else:
                    g = ed[0][0]
                    a, z = max(g - 1, 1), min(g + 2, n)
                sp = dict((g, MENU[k - 1]) for g, k in ed)
                t = sp.get(0, seps[0]) if a == 1 else ''
                for k in range(a, z + 1): t += toks[k - 1] + (sp.get(k, seps[k]) if k < z or z == n else '')
                key = (t, tuple(toks[a - 1:z]), tuple(brk[a - 1:z]), op[a - 1])
                places.setdefault(key, []).append((b, w, i))
        for i, t in enumerate(full): places.setdefault((t, tuple(toks), tuple(brk[:n]), False), []).append((b, 3, i))
        places.setdefault((text, tuple(toks), tuple(brk[:n]), False), []).append((b, 2, 0))
    enc = lambda s: list(s.encode('utf-8'))
    keys = sorted(places, key=lambda k: -len(k[0]))
    cases = [dict(id=i, t=enc(t), toks=[enc(x) for x in tk], brk=list(bk), op=op) for i, (t, tk, bk, op) in enumerate(keys)]
    out, st = tlc_verdicts('Layout', cases, shards=NPROC)
    ill = set()
    for v in out:
        for pl in places[keys[v['id']]]:
            if pl[1] == 2: raise CheckError('base layout of %s is not split as expected at byte %d' % (bases[pl[0]][0], v['at']))
            ill.add(pl)
    jobs, meta, seen = [], [], set()
    skipped = 0
    for b, (name, text, lib, good, where) in enumerate(bases):
        toks, seps, eds, mul, full = variants[b]
        jobs.append(dict(id=len(jobs), files=dict(lib, **{where: text}), main='m.tsh', bash=True, batch=True, hashes=True))
        meta.append((b, None, text))
        for w, es in ((0, eds), (1, mul), (3, full)):
            for i, ed in enumerate(es):
                if (b, w, i) in ill:
                    skipped += 1
                    continue
                t = ed if w == 3 else build_text(toks, seps, ed)
                if (b, t) in seen or t == text: continue
                seen.add((b, t))
                jobs.append(dict(id=len(jobs), files=dict(lib, **{where: t}), main='m.tsh', bash=True, batch=True, hashes=True))
                meta.append((b, [] if w == 3 else ed, t))
    res = run_jobs(jobs)
    base, odd = {}, []
    traces = 0
    for j, (b, ed, t) in zip(jobs, meta):
        r = res[j['id']]
        key = []
        for tg in ('bash', 'batch'):
            k, v = outcome(r, tg)
            key.append(r[tg]['hash'] if k == 'ok' else k if k == 'error' else 'bad: ' + v)
        if ed is None:
            base[b] = key
            if bases[b][3] and 'error' in key: odd.append(bases[b][0])      # whether it is to be accepted is decided elsewhere; its layouts have to agree all the same
            continue
        traces += 1
        if key != base[b]:
            w = [('script changes' if len(x) > 10 and len(y) > 10 else 'accepted program is rejected: %s' % r[tg].get('err', '') if y == 'error' else 'rejected program is accepted' if x == 'error' else y) + ' for ' + tg for tg, x, y in zip(('bash', 'batch'), base[b], key) if x != y]
            toks = variants[b][0]
            ck.violation('layout', 'program %s: %s\n  edits: %s\n  text: %r' % (bases[b][0], '; '.join(w), [(g, toks[g - 1] if g else '', MENU[k - 1], toks[g] if g < len(toks) else '') for g, k in ed][:6], t[:500]), dict(program=bases[b][1], layout=t, base=base[b], got=key))
    if skipped > len(jobs): raise CheckError('too many illegal layouts')
    ck.cov.update(states=st['states'], transitions=st['transitions'], traces_validated_against_impl=traces, evaluations=len(jobs), programs=n_mod, modules=len(mods), exhaustive_single_edits=n_exh, gaps=sum(len(v[1]) for v in variants), illegal_edits_excluded=skipped, rejected_bases=odd, layouts_decided=len(cases),
                  separators=len(MENU), samples=[dict(program=bases[0][1][:200], layout=meta[5][2][:300])])
    ck.assumptions += ['single edits at every gap with every separator for the hand-written programs; combinations of edits are sampled', 'line breaks are only inserted where the program already has one']

main('C12', 'model_checking', run)
