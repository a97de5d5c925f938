"""C19: invocations of the built tsh command against Cli.tla."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcheck import *
import corpus, itertools, threading, shutil

TG = {'bash': 'sh', 'batch': 'bat'}
PRG = {
    'ok': 'x := 1\nif x > 0 {\n\tprint("hi", x)\n}\n',
    'big': 'gn := 1\n' + ''.join('func f%d(a int) int {\n\tfor i := 0; i < a; i++ {\n\t\tgn += i\n\t}\n\treturn gn\n}\nprint(f%d(%d), "text %d")\n' % (k, k, k, k) for k in range(120)),
    'huge': 'gn := 1\n' + ''.join('print("%s", gn)\n' % (('text%d ' % k) * 700) for k in range(160)) + 'print("' + 'long ' * 70000 + '")\n',
    'slices': 'a := []int{1, 2}\na[3] = 4\nprint(len(a), a[1], "abc"[0:1])\n'.replace('"abc"[0:1]', 'itoa(a[0])'),
    'imp': 'import l "dep.tsh"\n\nl.F()\nprint(l.G())\n',
    'std': 'import "strings"\n\nprint(strings.Contains("abc", "b"), strings.Repeat("x", 3))\n',
    'empty': '',
    'comment': '// nothing\n',
    'noeol': 'print("x")',
    'crlf': 'x := 1\r\nprint(x)\r\n',
    'lex': 'x := "abc\n',
    'lex2': 'x := 1\n#\n',
    'syn': 'if {\n',
    'syn2': 'print("a"',
    'typ': 'x := 1\nx = "s"\n',
    'undef': 'print(y)\n',
    'late': 'print(1)\nwrite("canary", "x")\nfunc f() int {\n}\n',
    'noimp': 'import x "missing.tsh"\nx.F()\n',
    'conv': 'a := []int{1}\nprint(a == a)\n',
    'selfimp': 'import x "dep2.tsh"\nprint(1)\n',
}
DEPS = {'dep.tsh': 'func F() {\n\tprint("F")\n}\nfunc G() int {\n\treturn 3\n}\n', 'dep2.tsh': 'import y "dep3.tsh"\nprint(2)\n', 'dep3.tsh': 'import y "dep2.tsh"\nprint(2)\n'}
NAMES = ['prog.tsh', 'prog', 'a.b.c.tsh', 'a b.tsh', ' lead.tsh', 'trail .tsh', 'UPPER.TSH', 'x.tsh.tsh', 'prog.txt', 'a.sh', 'a.bat', 'n.1', "q'uote.tsh", 'st*r.tsh', '$v.tsh', 'é ü.tsh', '-i.tsh', '-t', 'a..tsh', 'v1.2', 'x.sh.tsh', 'a\tb.tsh', 'b\\c.tsh', '%d.tsh', 'a.b c', '(x).tsh', '~.tsh', 'bash', 'batch.tsh', 'x' * 120 + '.tsh', 'a.tshb.tsh', 'x.tsh.old.tsh', 'tsh.tsh', 'a.sh.sh', 'a.bat.bat', 'sh.sh', 'a.b.b', 'a.tsh.', 'x.bat.tsh', 'tsh', '-o.tsh', 'a.tsh b']
def stem(n):
    i = n.rfind('.')
    return n[:i] if i > 0 else n
INV = {'i': ('-i', '--in'), 'o': ('-o', '--out'), 't': ('-t', '--type')}

def run(ck):
    deep = TIER == 'thorough'
    rng = random.Random('%s/cli' % SEED)
    exe = os.path.join(build(), 'tsh')
    root = os.path.join(scratch(), 'cli')
    os.makedirs(root)
    cases = []
    def case(fam, args, **k):
        k = dict(dict(name='prog.tsh', prg='ok', place='other', pre={}, cwd='work', spell='rel', env=0, link=''), **k)
        cases.append(dict(k, fam=fam, args=args))
    # 1: every sequence of option pairs up to a length
    U = [('i', 'ok'), ('o', 'ok'), ('t', 'bash'), ('t', 'batch')]
    BAD = [('i', 'missing'), ('i', 'wrong'), ('o', 'missing'), ('o', 'wrong'), ('t', 'bad'), ('bad', 'ok'), ('lone', 'ok')]
    for n in range(0, 6 if deep else 5):
        for c in itertools.product(U, repeat=n): case('sequences of options', list(c))
    for n in range(0, 4):
        for c in itertools.product(U, repeat=n):
            for b in BAD:
                if not deep and n == 3 and rng.random() < .5: continue
                for k in ([n] if b[0] == 'lone' else range(n + 1)): case('sequences of options', list(c[:k]) + [b] + list(c[k:]))
    if deep:
        for c in itertools.product(U + BAD[:-1], repeat=4):
            if sum(x in BAD for x in c) > 1: case('sequences of options', list(c))
    full = [list(p) for ts in (['bash'], ['batch'], ['bash', 'batch'], ['batch', 'bash'], ['bash', 'bash'], ['bash', 'batch', 'bash'], ['batch', 'batch', 'bash', 'bash']) for p in set(itertools.permutations([('i', 'ok'), ('o', 'ok')] + [('t', t) for t in ts])) if [x[1] for x in p if x[0] == 't'] == ts]
    # 2: all file names
    global NAMES
    for _ in range(300 if deep else 30):
        n = ''.join(rng.choice(['a', 'tsh', '.tsh', '.', '.sh', '.bat', 'sh', ' ', '-', 'b', 'TSH', '_1']) for _ in range(rng.randint(2, 6)))
        if n.strip('.') == n and n not in ('out dir', 'sub') and n not in NAMES: NAMES = NAMES + [n]
    NAMES = [n for n in NAMES if n.strip('.') == n]
    for n in NAMES:
        for pl in ('same', 'other'):
            for ts in (['bash'], ['batch'], ['bash', 'batch'], ['batch', 'bash']):
                case('file names', [('i', 'ok'), ('o', 'ok')] + [('t', t) for t in ts], name=n, place=pl)
    # 3: all programs
    for p in PRG:
        for f in rng.sample(full, 12 if deep else 5): case('programs', f, prg=p, place=rng.choice(['same', 'other']), pre={t: rng.choice(['none', 'old', 'long']) for t in TG})
        for t in TG:
            for pre in ('none', 'old', 'long'): case('programs', [('t', t), ('i', 'ok'), ('o', 'ok')], prg=p, pre={x: pre for x in TG})
    for n, t in list(corpus.OK.items()) + list(corpus.BAD.items()): case('corpus', rng.choice(full), prg='corpus:' + n, pre={x: rng.choice(['none', 'old']) for x in TG})
    # 4: every combination of what is at the place of the outputs
    for a, b in itertools.product(['none', 'old', 'long', 'empty', 'dir', 'symlink', 'tofull', 'input', 'hard'], repeat=2):
        for f in ([('i', 'ok'), ('o', 'ok'), ('t', 'bash'), ('t', 'batch')], [('t', 'batch'), ('t', 'bash'), ('i', 'ok'), ('o', 'ok')], [('i', 'ok'), ('t', 'bash'), ('o', 'ok')], [('i', 'ok'), ('t', 'batch'), ('o', 'ok')]):
            for p in ('ok', 'typ'): case('earlier outputs', f, pre={'bash': a, 'batch': b}, prg=p)
    # large outputs, many targets, long names, deep directories
    for q, f in enumerate(full[:: 1 if deep else 3]):
        for pl in ('other', 'deep'): case('large', f, prg='huge', place=pl, pre={t: rng.choice(['none', 'old', 'long', 'symlink']) for t in TG})
    for q in (9, 10, 11, 16, 33, 64, 100):
        for ts in (['bash'] * q, ['batch'] * q, ['bash', 'batch'] * (q // 2), ['batch'] * (q - 1) + ['bash'], ['bash'] + ['batch'] * (q - 1)):
            for p in ('ok', 'typ') if q == 16 else ('ok',): case('large', [('i', 'ok')] + [('t', t) for t in ts] + [('o', 'ok')], prg=p, place=rng.choice(['other', 'deep']))
    for q in (60, 100, 127, 128, 200, 245, 247, 251):
        for n in ('n' * q + '.tsh', 'a.' * (q // 2) + 'tsh', 'n' * q):
            for t in (['bash'], ['batch'], ['bash', 'batch']): case('large', [('o', 'ok'), ('i', 'ok')] + [('t', x) for x in t], name=n, place=rng.choice(['same', 'deep']))
    # 5: everything at random
    for _ in range(12000 if deep else 1200):
        f = list(rng.choice(full))
        for _ in range(rng.choice([0, 0, 0, 1, 2])): f.insert(rng.randint(0, len(f)), rng.choice(U + (BAD[:-1] if rng.random() < .2 else [])))
        case('random', f, name=rng.choice(NAMES), prg=rng.choice(list(PRG)), place=rng.choice(['same', 'other', 'sub', 'link', 'dot', 'up']), pre={t: rng.choice(['none', 'none', 'old', 'long', 'empty', 'dir', 'symlink', 'tofull', 'input', 'hard']) for t in TG},
             cwd=rng.choice(['work', 'root', 'out']), spell=rng.choice(['rel', 'abs', 'dotted', 'slash']), env=rng.choice([0, 1]), link=rng.choice(['', '', 'link']))
    text = lambda c: corpus.OK.get(c['prg'][7:], corpus.BAD.get(c['prg'][7:])) if c['prg'].startswith('corpus:') else PRG[c['prg']]
    # the library's scripts
    prgs = sorted({c['prg'] for c in cases})
    lib = {}
    res = run_jobs([dict(id=i, files=dict(corpus.LIB, **dict(DEPS, **{'prog.tsh': text(dict(prg=p))})), main='prog.tsh', bash=True, batch=True, scripts=True) for i, p in enumerate(prgs)])
    for i, p in enumerate(prgs):
        for t in TG: lib[p, t] = res[i][t]['script'].encode() if res[i][t]['ok'] else None
    lock, errs = threading.Lock(), []
    def one(i, c):
        d = os.path.join(root, str(i))
        work, out = d + '/work', d + '/out dir'
        os.makedirs(work + '/sub/o'); os.makedirs(out)
        name = c['name']
        src = text(c).encode()
        real = work + '/' + name
        if c['link']:
            real = work + '/real source'
            os.symlink('real source', work + '/' + name)
        with open(real, 'wb') as f: f.write(src)
        for n, t in dict(corpus.LIB, **DEPS).items():
            p = work + '/' + n
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if n != name:
                with open(p, 'w') as f: f.write(t)
        D = {'same': work, 'other': out, 'sub': work + '/sub/o', 'link': out, 'dot': work, 'up': d, 'deep': d + '/deep' + ('/' + 'd' * 100) * 12}[c['place']]
        if c['place'] == 'deep': os.makedirs(D)
        if c['place'] == 'link': os.symlink('out dir', d + '/lnk')
        outs, pre, self, symb = {}, {}, {}, {}
        for t, ext in TG.items():
            outs[t] = D + '/' + stem(name) + '.' + ext
            k = c['pre'].get(t, 'none')
            if os.path.lexists(outs[t]): k = 'self' if os.path.realpath(outs[t]) == os.path.realpath(work + '/' + name) else 'there'      # the input itself
            self[t] = k in ('self', 'input', 'hard')
            old = {'old': b'old\n', 'long': b'old text\n' * 40000, 'empty': b''}.get(k)
            if old is not None:
                with open(outs[t], 'wb') as f: f.write(old)
            if k == 'dir': os.makedirs(outs[t])
            if k == 'symlink':
                with open(d + '/target.' + ext, 'wb') as f: f.write(b'behind a link\n')
                os.symlink(d + '/target.' + ext, outs[t])
            if k == 'tofull': os.symlink('/dev/full', outs[t])
            if k == 'input': os.symlink(real, outs[t])
            if k == 'hard': os.link(real, outs[t])
            pre[t] = {'none': 'none', 'dir': 'dir', 'tofull': 'dir'}.get(k, 'old')
            symb[t] = k
        def snap():
            m = {}
            for a, ds, fs in os.walk(d):
                for f in fs:
                    p = os.path.join(a, f)
                    if os.path.islink(p) and os.path.realpath(p) == '/dev/full': m[p] = 'full'
                    else:
                        with open(p, 'rb') as h: m[p] = h.read()
                for x in ds: m[os.path.join(a, x)] = 'link' if os.path.islink(os.path.join(a, x)) else 'dir'
            return m
        before = snap()
        cwd = {'work': work, 'root': d, 'out': out}[c['cwd']]
        def sp(p, what):
            s = c['spell']
            r = os.path.relpath(p, cwd)
            if c['place'] == 'link' and what == 'o': r = os.path.join(os.path.relpath(d, cwd), 'lnk')
            if s == 'abs': return os.path.join(cwd, r)
            if s == 'dotted': return './' + r
            if s == 'slash' and what == 'o': return r + '/'
            return r
        argv, k = [exe], i
        vals = {('i', 'ok'): sp(work + '/' + name, 'i'), ('o', 'ok'): sp(D, 'o'), ('i', 'missing'): 'no such file', ('i', 'wrong'): sp(D, 'i'), ('o', 'missing'): 'no such dir', ('o', 'wrong'): sp(work + '/' + name, 'o'), ('t', 'bad'): ['powershell', '', 'Bash', 'bash ', 'sh', 'bat'][i % 6]}
        for o, v in c['args']:
            k = k * 7 + 3
            if o == 'lone': argv.append(['-i', '-o', '-t', '--type', '-x'][k % 5])
            elif o == 'bad': argv += [['-x', '--input', 'in', '', '-I', '-h'][k % 6], vals['i', 'ok']]
            else: argv += [INV[o][k // 3 % 2], vals.get((o, v), v)]
        e = {'PATH': '/usr/bin:/bin', 'HOME': d} if c['env'] else {}
        try: r = subprocess.run(argv, cwd=cwd, env=e, capture_output=True, timeout=60)
        except subprocess.TimeoutExpired: r = None
        after = snap()
        fs = {'in': 'src', 'other': 'none'}
        with open(real, 'rb') as f:
            if f.read() != src: fs['in'] = 'changed'
        for p in set(before) | set(after):
            if before.get(p) == after.get(p): continue
            ts = [t for t in TG if outs[t] == p or symb[t] == 'symlink' and p.endswith('/target.' + TG[t])]
            if not ts and os.path.realpath(p) != os.path.realpath(real): fs['other'] = 'changed: ' + os.path.relpath(p, d)
        for t in TG:
            p = outs[t]
            a, b = before.get(p), after.get(p)
            if a == b and not (a is not None and a == lib[c['prg'], t]): fs[t] = pre[t]
            elif b is not None and b == lib[c['prg'], t]: fs[t] = 'lib'
            else: fs[t] = 'wrong'
        shutil.rmtree(d)
        c.update(case=dict(id=i, args=[dict(o=o, v=v) for o, v in c['args']], prog={t: lib[c['prg'], t] is not None for t in TG}, pre=pre, self=self, obs=dict(fs=fs, err=r is None or r.returncode != 0)),
                 argv=argv[1:], rc=r.returncode if r else 'timeout', stderr=r.stderr.decode(errors='replace')[:400] if r else '')
    it = iter(list(enumerate(cases)))
    def worker():
        while True:
            with lock: x = next(it, None)
            if x is None: return
            try: one(*x)
            except Exception as e:
                errs.append(repr(e) + ' ' + str({k: v for k, v in x[1].items() if k != 'case'})[:600])
                return
    ts = [threading.Thread(target=worker) for _ in range(NPROC)]
    for t in ts: t.start()
    for t in ts: t.join()
    if errs: raise CheckError(errs[0])
    out, st = tlc_verdicts('Cli', [c['case'] for c in cases], shards=NPROC)
    good = {v['id'] for v in out}
    fam = {}
    for i, c in enumerate(cases):
        fam[c['fam']] = fam.get(c['fam'], 0) + 1
        if i in good: continue
        o = c['case']['obs']
        ck.violation('cli', 'no behaviour of the specification ends like this: tsh %s\n  exit status %s; after the run: %s; before: %s; program %s (%s), input %r, output directory: %s, in place of the outputs: %s\n  %s' %
                     (c['argv'], c['rc'], o['fs'], c['case']['pre'], c['prg'], c['case']['prog'], c['name'], c['place'], c['pre'], c['stderr'].split('\n')[0]), dict({k: v for k, v in c.items()}, text=text(c)))
    ck.cov.update(states=st['states'], transitions=st['transitions'], traces_validated_against_impl=len(cases), evaluations=len(cases), families=fam, names=len(NAMES), programs=len(prgs), samples=[cases[300]['case'], cases[-1]['case']])
    ck.assumptions += ['names which begin or end with a dot are not used (what their extension is is left open)', 'two values for one option of which one is usable: both readings are accepted', 'files are written as root: missing write permission is represented by directories and /dev/full in place of an output']

main('C19', 'model_checking', run)
