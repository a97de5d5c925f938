"""C17: histories of write/append/read/exists enumerated from FileStore.tla are compiled, executed and compared."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcheck import *
import strs

# each entry: spellings of one path
PATHS = [['f'], ['a b'], ['x', './x', 'sub/../x'], [' lead'], ['trail '], ['-n'], ['-'], ['$HOME'], ['*'], ['a*b'], ['[a-z]'], ["it's"], ['say "x"'], ['a;b'], ['a&b'], ['&1'], ['1'], ['#h'], ['~'], ['!!'], ['`id`'], ['$(touch canary)'],
         ['a\\b'], ['\\n'], ['a\tb'], ['a\nb'], ['sub/in dir', 'sub//in dir'], ['sub dir/f'], ['a|b'], ['a>b'], ['<f'], ['(p)'], ['{a,b}'], ['%s'], ['a=b'], ['..x'], ['-e'], ['--'], ['sub/-n'], ['?'], ['a  b'], ['${x}'], ['x$'], ['canary2; touch canary'], ['file.txt'], ['.hidden'], ['A'], ['long' * 30]]
DIRS = ['sub', 'sub dir']
# devices, files which are not readable or writable for the user who runs the script, directories, no file at all
ODD = ['/dev/null', '/', '.', '..', '/dev', '/etc/shadow', '/etc/passwd', '', '/dev/null/x', '/no/such']

import progs as programs

def contents(rng, deep):
    r = rng.random()
    if r < .5: return rng.choice(strs.SPECIAL)
    if r < .7: return rng.choice(strs.systematic())
    return strs.rand(rng, 12)

class Prog:
    def __init__(s):
        s.st = [FUNC('wr', [('p', 's'), ('d', 's'), ('ap', 'b')], [], [WRITE(V('p', 's'), V('d', 's'), V('ap', 'b'))]),
                FUNC('wr2', [('p', 's'), ('d', 's')], [], [VDEF(['l'], [V('p', 's')]), WRITE(V('l', 's'), V('d', 's'))]),
                FUNC('rd', [('p', 's')], ['s'], [RETURN(READ(V('p', 's')))]), FUNC('ex', [('p', 's')], ['b'], [IF([(EXISTS(V('p', 's')), [RETURN(B(True))])]), RETURN(B(False))]),
                VDEF(['yes', 'no'], [B(True), B(False)])]
        s.exp, s.fs, s.n, s.pre = '', {}, 0, {}
    def val(s, rng, t):
        """an expression for string t: literal, raw, variable, concatenation, element"""
        r = rng.randrange(5)
        if r == 1: return S(t, '`' not in t)
        if r == 2:
            s.n += 1
            s.st.append(VDEF(['v%d' % s.n], [S(t)]))
            return V('v%d' % s.n, 's')
        if r == 3:
            k = rng.randint(0, len(t))
            return BIN('+', S(t[:k]), S(t[k:]))
        return S(t)
    def history(s, h, init, fs, paths, cont, rng):
        for p in init: s.pre[os.path.normpath(paths[p][0])] = ''
        for a in h:
            sp = rng.choice(paths[a['p']])
            p = s.val(rng, sp)
            ctx = rng.randrange(4)
            if a['op'] in ('write', 'append'):
                d = s.val(rng, cont[a['c']])
                ap = a['op'] == 'append'
                flag = rng.choice([B(True), V('yes', 'b'), NOT(V('no', 'b'))]) if ap else rng.choice([None, None, B(False), V('no', 'b')])
                if ctx == 0: x = EXPR(CALL('wr', [p, d, flag if flag is not None else B(False)], []))
                elif ctx == 1 and not ap: x = EXPR(CALL('wr2', [p, d], []))
                else: x = WRITE(p, d, flag)
                if ctx == 2: x = IF([(V('yes', 'b'), [x])])
                s.st.append(x)
            elif a['op'] == 'read':
                e = CALL('rd', [p], ['s']) if ctx < 2 else READ(p)
                t = '\n'.join(cont[c] for c in a['obs'])
                if ctx == 3:
                    s.n += 1
                    s.st += [VDEF(['r%d' % s.n], [e]), PRINT(V('r%d' % s.n, 's'), LEN(V('r%d' % s.n, 's')))]
                    s.exp += t + ' ' + str(len(t)) + '\n'
                else:
                    s.st.append(PRINT(e, S('.')))
                    s.exp += t + ' .\n'
            else:
                s.st.append(PRINT(CALL('ex', [p], ['b']) if ctx < 2 else EXISTS(p)))
                s.exp += '%d\n' % a['obs'][0]
        for k, v in fs.items():
            if v != [-1]: s.fs[os.path.normpath(paths[int(k)][0]) if paths[int(k)][0] != '' else ''] = ''.join(cont[c] + '\n' for c in v)

def large(rng):
    """long contents, many lines, many files, many reads"""
    s, i = lambda n: V(n, 's'), lambda n: V(n, 'i')
    out = []
    for k, unit in enumerate(('ab cd  e', '$x `y` "\\', '*\t?\n[a] ')):
        st = [VDEF(['d'], [S(unit)]), FOR(None, CMP('<', LEN(s('d')), I(3000)), None, [OPA('d', '+', s('d'))]), WRITE(S('big'), s('d')), VDEF(['r'], [READ(S('big'))]), PRINT(LEN(s('r')), CMP('==', s('r'), s('d'))),
              WRITE(S('big'), s('r'), B(True)), WRITE(S('copy'), READ(S('big'))), PRINT(LEN(READ(S('copy'))), EXISTS(S('big'))), WRITE(S('big'), S('short')), PRINT(READ(S('big')))]
        out.append(P(st, 'fs-large-%d' % k, ckfs=True))
    st = [FUNC('log', [('l', 's'), ('more', 'b')], [], [WRITE(S('sub/log'), s('l'), V('more', 'b'))]), FOR(VDEF(['k'], [I(0)]), CMP('<', i('k'), I(130)), INC('k'), [EXPR(CALL('log', [BIN('+', S('line '), ITOA(i('k'))), CMP('!=', i('k'), I(0))], []))]),
          VDEF(['t'], [READ(S('sub/log'))]), PRINT(LEN(s('t'))), PRINT(s('t')), WRITE(S('sub/log'), S(''), B(True)), PRINT(LEN(READ(S('sub/log'))))]
    out.append(P(st, 'fs-lines', dirs=DIRS, ckfs=True))
    st = [FOR(VDEF(['k'], [I(0)]), CMP('<', i('k'), I(60)), INC('k'), [VDEF(['n'], [BIN('+', S('f '), ITOA(i('k')))]), PRINT(EXISTS(s('n'))), WRITE(s('n'), BIN('+', S('content of '), s('n')), CMP('==', BIN('%', i('k'), I(2)), I(0)))]),
          FOR(VDEF(['k'], [I(59)]), CMP('>=', i('k'), I(0)), INC('k', '-'), [VDEF(['n'], [BIN('+', S('f '), ITOA(i('k')))]), IF([(LOG('&&', EXISTS(s('n')), CMP('!=', BIN('%', i('k'), I(3)), I(0))), [WRITE(s('n'), READ(s('n')), B(True))])]), PRINT(READ(s('n')))])]
    out.append(P(st, 'fs-files', ckfs=True))
    d = ['d' * 40 + str(k) for k in range(5)]
    dirs = ['/'.join(d[:k + 1]) for k in range(5)]
    st = [VDEF(['p'], [S(dirs[-1] + '/' + 'n' * 200)]), PRINT(EXISTS(s('p'))), WRITE(s('p'), S('1')), WRITE(s('p'), S('2'), B(True)), PRINT(EXISTS(s('p')), READ(s('p')))]
    out.append(P(st, 'fs-path', dirs=dirs, ckfs=True))
    return out

def run(ck):
    deep = TIER == 'thorough'
    rng = random.Random(SEED)
    rc, out, st = tlc('FileStore', cfg='FileStore4.cfg' if deep else None)
    if rc: raise CheckError('FileStore: ' + tail_err(out))
    hs = says(out)
    if len(hs) < 1000: raise CheckError('too few histories')
    def hist_fs(h):     # TLC prints the function over 1..n as an array
        f = h['fs']
        return {str(i + 1): v for i, v in enumerate(f)} if isinstance(f, list) else f
    rng.shuffle(hs)
    n_hist = len(hs)
    if not deep: hs = hs[:4800]
    progs, cur, used = [], None, None
    for h in hs:
        if cur is None or len(used) + 2 > len(PATHS):
            cur, used = Prog(), set()
            progs.append(cur)
        free = [i for i in range(len(PATHS)) if i not in used]
        a, b = rng.sample(free, 2)
        used |= {a, b}
        cont = {1: contents(rng, deep), 2: contents(rng, deep)}
        cur.history(h['h'], h['init'], hist_fs(h), {1: PATHS[a], 2: PATHS[b]}, cont, rng)
        if len(used) + 2 > len(PATHS):
            cur.st += [PRINT(EXISTS(S('sub')), EXISTS(S('sub dir')), EXISTS(S('sub/')), EXISTS(S('absent')), EXISTS(S('sub/absent')), EXISTS(S('no such/x'))),
                       PRINT(*[EXISTS(S(x)) for x in ODD])]
            cur.exp += '1 1 1 0 0 0\n' + ' '.join('%d' % os.path.exists(x) for x in ODD) + '\n'
    jobs = [dict(id=i, files={'m.tsh': render(p.st)}, main='m.tsh', bash=True, run=True, keepfs=True, rfiles=p.pre, rdirs=DIRS, timeout=30000) for i, p in enumerate(progs)]
    res = run_jobs(jobs)
    ok = 0
    for i, p in enumerate(progs):
        k, v = outcome(res[i], 'bash')
        if k != 'ok':
            ck.violation('translate', 'file operations are not translated: %s' % v, jobs[i])
            continue
        x = res[i]['run']
        want = {os.path.normpath(a): b for a, b in p.fs.items()}
        if (x['out'], x['err'], x['code'], x['files']) == (p.exp, '', 0, want):
            ok += 1
            continue
        why = []
        if x['out'] != p.exp:
            m = next((j for j in range(min(len(x['out']), len(p.exp))) if x['out'][j] != p.exp[j]), min(len(x['out']), len(p.exp)))
            why.append('output differs at %d: store prescribes %r, observed %r' % (m, p.exp[m - 20 if m > 20 else 0:m + 80], x['out'][m - 20 if m > 20 else 0:m + 80]))
        if x['err'] or x['code']: why.append('exit %s, stderr %r' % (x['code'], x['err'][:300]))
        if x['files'] != want:
            d = [(a, want.get(a), x['files'].get(a)) for a in sorted(set(want) | set(x['files'])) if want.get(a) != x['files'].get(a)]
            why.append('files differ (path, prescribed, found): %r' % (d[:4],))
        ck.violation('hist', '; '.join(why), dict(source=jobs[i]['files']['m.tsh'], observed=x, expected=dict(out=p.exp, files=want)))
    ck.cov.update(states=st['states'], transitions=st['transitions'], traces_validated_against_impl=len(hs), histories=n_hist, histories_replayed=len(hs), programs=len(progs), programs_agreeing=ok,
                  paths=len(PATHS), samples=[dict(history=hs[0])])
    # longer random histories, validated by the machine
    ps = []
    for i in range(200 if deep else 60):
        r = random.Random('%s/fs/%d' % (SEED, i))
        paths = [q[0] for q in r.sample(PATHS, 3)]
        body, have = [], set()
        pre = {r.choice(paths): r.choice(['old\n', 'l1\nl2\n', '\n', ''])} if r.random() < .5 else {}
        have |= set(pre)
        dst = [VDEF(['k'], [I(0)])]
        fns = [FUNC('path', [('p', 's')], ['s'], [INC('k'), PRINT(S('path'), V('k', 'i')), RETURN(V('p', 's'))]), FUNC('data', [('p', 's')], ['s'], [INC('k'), PRINT(S('data'), V('k', 'i')), RETURN(BIN('+', V('p', 's'), ITOA(V('k', 'i'))))]),
               FUNC('flag', [('b', 'b')], ['b'], [INC('k'), PRINT(S('flag'), V('k', 'i')), RETURN(V('b', 'b'))])]
        for _ in range(r.randint(8, 20)):
            p = r.choice(paths)
            P_ = CALL('path', [S(p)], ['s']) if r.random() < .3 else S(p)
            op = r.randrange(6)
            if op < 3:
                ap = r.random() < .6
                D = CALL('data', [S(strs.rand(r))], ['s']) if r.random() < .3 else READ(S(r.choice(sorted(have)))) if have and r.random() < .3 else S(strs.rand(r))
                F_ = CALL('flag', [B(ap)], ['b']) if r.random() < .3 else (B(True) if ap else None)
                body.append(WRITE(P_, D, F_))
                have.add(p)
            elif op < 5:
                if p in have: body.append(PRINT(READ(P_), CMP('==', READ(S(p)), READ(S(r.choice(sorted(have)))))))
            else: body.append(IF([(EXISTS(P_), [PRINT(S('there'))])], [PRINT(S('absent'))]))
        if r.random() < .4: body = [FUNC('main', [], [], body), EXPR(CALL('main', [], []))]
        ps.append(P(dst + fns + body, 'fsrand-%d' % i, files=pre, dirs=DIRS, ckfs=True))
    run_families(ck, [('long random histories', ps), ('large', large(rng)), ('random programs with files and commands', programs.io_progs('%s/C17' % SEED, 240 if TIER == 'thorough' else 60))])
    ck.assumptions += ['spellings of one path are only compared with themselves and their ./ and .. variants', 'files that exist before the run are empty or end in a newline']

main('C17', 'model_checking', run)
