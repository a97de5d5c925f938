"""C15: std/strings, compiled and executed, returns what spec/StdStrings.tla defines (cross-checked with Go)."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from core import *
from tsh import quote

TWO = ['Contains', 'Index', 'HasPrefix', 'HasSuffix', 'Count', 'Split', 'Cut', 'CutPrefix', 'CutSuffix', 'TrimPrefix', 'TrimSuffix',
       'TrimLeft', 'TrimRight', 'Trim']
RET = {'Split': 'E', 'Cut': 3, 'CutPrefix': 2, 'CutSuffix': 2}
WS = '\t\n\v\f\r '

def words(alpha, n):
    return [''.join(w) for k in range(n + 1) for w in itertools.product(alpha, repeat=k)]

def tuples(tier, rng):
    deep = tier == 'thorough'
    seen, out = set(), []
    def add(f, s=(), n=0, e=()):
        key = (f, tuple(s), n, tuple(e))
        if key not in seen:
            seen.add(key)
            out.append(dict(f=f, s=list(s), n=n, e=list(e)))
    ab = words('ab', 5 if deep else 4)
    for f in TWO:
        for s in ab:
            for t in words('ab', 3 if deep else 2): add(f, (s, t))
    for f in TWO:
        for s in words('a b', 3):
            for t in words('a b', 2 if deep else 1): add(f, (s, t))
    for s in words(' \ta', 4 if deep else 3): add('TrimSpace', (s,))
    for s in words(WS + 'a', 3 if deep else 2): add('TrimSpace', (s,))
    for s in words('ab ', 2) + ['abc']:
        for n in range(0, 5): add('Repeat', (s,), n)
    for s in words('ab', 4 if deep else 3):
        for o in words('ab', 2):
            for w in ['', 'a', 'b', 'ab', 'ba'] if deep else ['', 'a', 'bc']:
                add('ReplaceAll', (s, o, w))
                for n in range(-2, 5): add('Replace', (s, o, w), n)
    for k in range(5):
        for e in itertools.product(['', 'a', 'b '] if k > 2 else ['', 'a', 'b', ' ', 'ab'], repeat=k):
            for sep in ['', ',', 'ab', ' ']: add('Join', (sep,), 0, e)
    # every printable character, in arguments of every function
    ascii_ = [chr(c) for c in range(32, 127)] + ['\n', '\t']
    for i, ch in enumerate(ascii_):
        for f in TWO:
            if deep or (i + len(f)) % 4 == SEED % 4:
                add(f, (ch + 'x' + ch, ch))
                add(f, ('x' + ch + 'y', ch + 'y'))
        add('Replace', ('a' + ch + 'a', ch, ch + ch), -1)
        add('Join', (ch,), 0, ('a', ch, ''))
    for _ in range(4000 if deep else 400):
        w = lambda m: ''.join(rng.choice(rng.choice(['ab', 'ab ', ''.join(ascii_)])) for _ in range(rng.randint(0, m)))
        f = rng.choice(TWO)
        s = w(9)
        t = w(3) if rng.random() < .5 or not s else (lambda i: s[i:i + rng.randint(0, 3)])(rng.randrange(len(s)))
        add(f, (s, t))
        add('Replace', (s, t, w(2)), rng.randint(-2, 4))
    # long texts, many occurrences, long separators, many elements
    for _ in range(1500 if deep else 150):
        a = rng.choice(['a', 'ab', 'ab', 'abc', 'xy z', ''.join(ascii_)])
        w = lambda m: ''.join(rng.choice(a) for _ in range(m))
        f = rng.choice(TWO)
        n = rng.choice([8, 16, 17, 32, 33, 40, 64, 65])
        s = w(n)
        i, k = rng.randrange(n), rng.choice([1, 1, 2, 3, 7, 9, 16])
        t = rng.choice([s[i:i + k], s[:k], s[-k:], w(k), w(1)])
        if f in ('TrimLeft', 'TrimRight', 'Trim') and rng.random() < .6: s, t = t[:1] * rng.choice([9, 17, 33]) + 'M' + t[-1:] * rng.choice([9, 17, 33]), t[:1] + t[-1:] + 'N'
        add(f, (s, t))
        add(rng.choice(['Index', 'Contains', 'HasPrefix', 'HasSuffix']), (s, s[rng.randrange(3):] if rng.random() < .5 else s[:-1] + 'Q'))
        if rng.random() < .5: add('Replace', (s, t, w(rng.choice([0, 1, 5, 20]))), rng.choice([-1, 1, 2, 3, 5, 8, 13, 21, 40, 100]))
        if rng.random() < .3: add('TrimSpace', (''.join(rng.choice(WS) for _ in range(rng.choice([0, 9, 17]))) + 'x ' + s + '\ty' + ''.join(rng.choice(WS) for _ in range(rng.choice([0, 9, 17]))),))
    for n in list(range(5, 20)) + [24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129]: add('Repeat', ('a' if n % 2 else 'xy ',), n)
    for n in [5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33]:
        add('Join', (rng.choice([',', '', 'ab', ' '] if n % 2 else [',', ' - ']),), 0, tuple(rng.choice(['', 'a', 'b ', 'xyz', ',']) for _ in range(n)))
        add('Join', (', ',), 0, tuple('e%d' % k for k in range(n)))
        add('Split', (','.join('e%d' % k for k in range(n)), ','))
        add('Split', ('', ',') if n == 5 else (',' * n, ',' if n % 2 else ',,'))
        add('Split', ('abcdefghijklmnopqrstuvwxyzabcdefghij'[:n], ''))
    return out

def nested(rng, n):
    """Calls whose arguments are results of calls: (outer call, source text of its text arguments, inner calls)."""
    out = []
    T = ['Trim', 'TrimLeft', 'TrimRight', 'TrimPrefix', 'TrimSuffix', 'ReplaceAll', 'Replace', 'Repeat', 'TrimSpace']
    for _ in range(n):
        w = lambda m, a='ab ': ''.join(rng.choice(a) for _ in range(rng.randint(0, m)))
        def inner():
            f = rng.choice(T)
            k = 3 if f.startswith('Repl') else 1 if f in ('Repeat', 'TrimSpace') else 2
            return dict(f=f, s=[w(7)] + [w(2, 'ab')] * (k > 1) + [w(2)] * (k > 2), n=rng.randint(0, 3), e=[])
        f = rng.choice(TWO + T)
        k = 3 if f.startswith('Repl') else 1 if f in ('Repeat', 'TrimSpace') else 2
        ins = [inner() if i < 2 and (i == 0 or rng.random() < .6) else None for i in range(k)]
        out.append((dict(f=f, s=[w(3, 'ab') for _ in range(k)], n=rng.randint(0, 3), e=[]), ins))
    return out

PRE = '''import "strings"

func show(s string) {
	print(len(s), s)
}

func showAll(e []string) {
	print(len(e))
	for i := 0; i < len(e); i++ {
		show(e[i])
	}
}

'''

def call(c):
    a = [t or quote(x) for x, t in zip(c['s'], c.get('x') or [None] * len(c['s']))]
    f = c['f']
    if f == 'Join': a = ['[]string{' + ', '.join(quote(x) for x in c['e']) + '}'] + a
    if f in ('Repeat', 'Replace'): a.append(str(c['n']))
    return 'strings.%s(%s)' % (f, ', '.join(a))

def stmt(c, i):
    f, x = c['f'], call(c)
    r = RET.get(f)
    if r == 'E': return 'showAll(%s)' % x
    if r == 3: return 'a%d, b%d, c%d := %s\nshow(a%d)\nshow(b%d)\nprint(c%d)' % ((i,) * 3 + (x,) + (i,) * 3)
    if r == 2: return 'a%d, c%d := %s\nshow(a%d)\nprint(c%d)' % (i, i, x, i, i)
    if f in ('Index', 'Count', 'Contains', 'HasPrefix', 'HasSuffix'): return 'print(%s)' % x
    return 'show(%s)' % x

class Reader:
    def __init__(self, t): self.t, self.p = t, 0
    def line(self):
        i = self.t.index('\n', self.p)
        l = self.t[self.p:i]
        self.p = i + 1
        return l
    def text(self):
        i = self.t.index(' ', self.p)
        n = int(self.t[self.p:i])
        l = self.t[i + 1:i + 1 + n]
        if self.t[i + 1 + n:i + 2 + n] != '\n': raise ValueError('text')
        self.p = i + 2 + n
        return l

def read(c, rd):
    r = RET.get(c['f'])
    if r == 'E': return [rd.text() for _ in range(int(rd.line()))]
    if r == 3: return [rd.text(), rd.text(), rd.line()]
    if r == 2: return [rd.text(), rd.line()]
    if c['f'] in ('Index', 'Count', 'Contains', 'HasPrefix', 'HasSuffix'): return rd.line()
    return rd.text()

def run(ck):
    rng = random.Random(SEED)
    cs = tuples(TIER, rng)
    rng.shuffle(cs)
    ns = nested(rng, 3000 if TIER == 'thorough' else 300)
    ins = [x for _, i in ns for x in i if x]
    vals = iter(run_jobs([dict(id=0, op='gostr', calls=ins)])[0]['vals'])
    for c, i in ns:
        c['x'] = [x and call(x) for x in i]
        c['s'] = [v if x is None else next(vals) for x, v in zip(i, c['s'])]
        cs.append(c)
    cs += [dict(x, e=[]) for x in ins]     # the definitions of the inner calls are judged, too
    size = 120
    chunks = [cs[i:i + size] for i in range(0, len(cs), size)]
    jobs = [dict(id=i, files={'m.tsh': PRE + '\n'.join(stmt(c, k) for k, c in enumerate(ch)) + '\n'}, main='m.tsh', bash=True, run=True, timeout=120000)
            for i, ch in enumerate(chunks)]
    res = run_jobs(jobs)
    gos = run_jobs([dict(id=i, op='gostr', calls=ch) for i, ch in enumerate(chunks)])
    cases = []
    for i, ch in enumerate(chunks):
        r = res[i]
        b = r.get('bash') or {}
        if not b.get('ok'):
            ck.violation('compile', 'a program that only calls std/strings is not translated: %s' % (b.get('err') or b.get('panic') or r.get('crash')), jobs[i])
            continue
        x = r['run']
        rd = Reader(x['out'])
        bad = None
        for k, c in enumerate(ch):
            try:
                c['got'] = read(c, rd)
            except Exception:
                bad = c
                break
            g = gos[i]['vals'][k]
            c['go'] = str(g) if isinstance(g, int) else (g or []) if c['f'] == 'Split' else g
            c['id'] = len(cases)
            c['ws'] = WS
            cases.append(c)
        if bad or x['code'] != 0 or x['err'] or rd.p != len(x['out']):
            ck.violation('run', 'calling std/strings misbehaves at %s: exit %s, stderr %r' % (call(bad or ch[-1]), x['code'], x['err'][:300]), dict(source=jobs[i]['files']['m.tsh'], out=x['out'][-500:]))
    v, stats = tlc_verdicts('StdStrings', [{k: y for k, y in c.items() if k != 'x'} for c in cases])
    for x in v:
        c = cases[x['id']]
        if x['v'] == 'oracle': raise CheckError('specification disagrees with Go on %s: %r vs %r' % (call(c), x['exp'], c['go']))
        ck.violation(call(c).replace(' ', '_'), '%s returned %r, defined is %r' % (call(c), c['got'], x['exp']),
                     dict(source=PRE + stmt(c, 0) + '\n', got=c['got'], expected=x['exp']))
    per = {}
    for c in cases: per[c['f']] = per.get(c['f'], 0) + 1
    if len(per) != 19 and not ck.violations: raise CheckError('functions missing')
    ck.cov.update(evaluations=len(cases), distinct_inputs=len(cases), states=stats['states'], transitions=stats['transitions'], traces_conformed=len(cases) - len(v),
                  per_function=per, programs_executed=len(jobs), exhaustive=False,
                  rejected=len(v))
    ck.assumptions += ['Repeat with a negative count is not judged (Go has no result for it)', 'executed with the installed bash; the definitions are cross-checked with Go strings on every tuple']

main('C15', 'model_checking', run)
