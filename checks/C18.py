"""C18: commands get exactly the given arguments; pipes and capture are exact."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcheck import *
import strs

PROGS = ['pshow', 'pecho', 'pfilt', 'pcat', 'pfail', 'perr']
s_ = lambda n: V(n, 's')
i_ = lambda n: V(n, 'i')

class B_:
    """Builds one program."""
    def __init__(s, rng, key):
        s.rng, s.key, s.n = rng, key, 0
        s.st = list(strs.GLOB) + list(strs.PRE) + [VDEF(['gs', 'ge', 'gc'], [S(''), S(''), I(0)]),
            FUNC('fe', [('p', 's')], ['s'], [PRINT(S('fe'), s_('p')), RETURN(s_('p'))])]
        s.stdin, s.files = [], {}
    def name(s, p):
        s.n += 1
        return p + str(s.n)
    def arg(s, t, how=None):
        """an expression with string value t"""
        r = s.rng
        how = r.randrange(10) if how is None else how
        if how == 1 and '`' not in t: return S(t, True)
        if how == 2:
            v = s.name('v')
            s.pre.append(VDEF([v], [S(t)]))
            return s_(v)
        if how == 3:
            k = r.randint(0, len(t))
            return BIN('+', S(t[:k]), S(t[k:]))
        if how == 4:
            v = s.name('l')
            s.pre.append(VDEF([v], [SL('s', [S('x'), S(t)])]))
            return IDX(V(v, 'Ss'), I(1))
        if how == 5: return CALL('id', [S(t)], ['s'])
        if how == 6:
            v = s.name('u')
            s.pre.append(VDEF([v], [S('<' + t + '>')]))
            return SUB(s_(v), I(1), I(len(t) + 1))
        if how == 7:
            f = s.name('in')
            s.files[f] = t + '\n'
            return READ(S(f))
        if how == 8:
            v = s.name('w')
            s.pre.append(VDEF([v], [S('')], 'var'))
            s.pre.append(ASG([v], [S(t)]))
            s.pre.append(OPA(v, '+', S('')))
            return GRP(s_(v))
        return S(t)
    def stage(s, p, args, hows=None):
        sp = s.rng.choice([p, p, '"%s"' % p, '`%s`' % p, '"p d/%s"' % p, '"./p d/%s"' % p])
        return (p, [s.arg(a, hows[i] if hows else None) for i, a in enumerate(args)], sp)
    def fill(s, p, rng):
        """arguments which the probe accepts"""
        txt = strs.rand(rng, 6)
        if p == 'pfail': return [str(rng.choice([0, 1, 2, 3, 7, 42, 100, 126, 127, 128, 129, 137, 200, 254, 255]))] + ([txt] if rng.random() < .7 else [])
        if p == 'perr': return [txt] + [strs.rand(rng, 6) for _ in range(rng.randint(0, 2))]
        if p == 'pshow': return [strs.rand(rng, 6) for _ in range(rng.randint(0, 5))]
        return [txt] if p != 'pcat' and rng.random() < .9 else []
    def use(s, stages, form=None):
        """one call chain, captured or not, in some context"""
        r = s.rng
        form = r.randrange(8) if form is None else form
        a = lambda used: APP(stages, used)
        o, e, c = s.name('o'), s.name('e'), s.name('c')
        show = lambda o, c: [PRINT(S('['), s_(o), S(']'), LEN(s_(o)), i_(c)), IF([(CMP('==', i_(c), I(0)), [PRINT(S('ok'))])], [PRINT(S('failed'))])]
        if form == 0: body = [EXPR(a(False))]
        elif form == 1: body = [VDEF([o, e, c], [a(True)])] + show(o, c) + [PRINT(s_(e))]
        elif form == 2: body = [VDEF([o, e, c], [a(True)], 'var')] + show(o, c)
        elif form == 3: body = [ASG(['gs', 'ge', 'gc'], [a(True)])] + show('gs', 'gc')
        elif form == 4: body = [EXPR(a(False)), PRINT(S('after'))]
        elif form == 5: body = [VDEF([o, '_', c], [a(True)])] + show(o, c)
        elif form == 6: body = [VDEF([o], [S('was')]), VDEF([o, e, c], [a(True)])] + show(o, c)
        else: body = [VDEF(['_', '_', c], [a(True)]), PRINT(i_(c))]
        return body
    def chain(s, stagesf, form=None, ctx=None):
        s.pre = []
        st = stagesf()
        body = s.use(st, form)
        ctx = s.rng.randrange(6) if ctx is None else ctx
        if ctx == 1: body = [IF([(CMP('==', I(1), I(1)), body)])]
        if ctx == 2:
            i = s.name('i')
            body = [FOR(VDEF([i], [I(0)]), CMP('<', i_(i), I(2)), INC(i), body)]
        if ctx == 3:
            f = s.name('f')
            # the function sees the globals defined before it
            s.st += s.pre + [FUNC(f, [], [], body), EXPR(CALL(f, [], []))]
            return
        if ctx == 4:
            f = s.name('f')
            s.st += [FUNC(f, [], [], s.pre + body), EXPR(CALL(f, [], []))]
            return
        s.st += s.pre + body
    def prog(s):
        return P(s.st + [PRINT(S('end'))], s.key, stdin=s.stdin, files=s.files, probes=True, ckargv=True)

import progs

def run(ck):
    deep = TIER == 'thorough'
    rng = random.Random('%s/c18' % SEED)
    fams = []
    # 1: every content as an argument at every position of an argument list
    cont = strs.systematic()
    rng.shuffle(cont)
    ps = []
    for i, ch in enumerate(chunks(cont, 24)):
        b = B_(rng, 'args-%d' % i)
        k = 0
        while k < len(ch):
            n = rng.choice([1, 1, 2, 3, 4, 5])
            args = ch[k:k + n]
            k += n
            if rng.random() < .4: args.insert(rng.randint(0, len(args)), '')
            args = args[:5]
            b.chain(lambda: [b.stage('pshow', args)])
        b.chain(lambda: [b.stage('pshow', [])])
        b.chain(lambda: [b.stage('pshow', [''] * rng.randint(1, 5))])
        ps.append(b.prog())
    fams.append(('every content, argument lists of 0..5', ps))
    # 2: special contents from every origin
    ps = []
    sp = strs.SPECIAL + ([x for x in cont if len(x) < 3] if deep else [])
    for h in range(10):
        ss = list(sp)
        rng.shuffle(ss)
        for i, ch in enumerate(chunks(ss, 40)):
            b = B_(rng, 'origin-%d-%d' % (h, i))
            for j in range(0, len(ch), 4):
                a = ch[j:j + 4]
                b.chain(lambda: [b.stage('pshow', a, [h] * 4)], rng.choice([0, 1, 2, 3]))
            ps.append(b.prog())
    fams.append(('special contents from every kind of expression', ps))
    # 3: pipelines of 1..3 probes, every combination, captured and not
    combos = [c for n in (1, 2, 3) for c in itertools.product(PROGS, repeat=n)]
    ps = []
    for rep in range(6 if deep else 2):
        cs = [(c, f) for c in combos for f in (0, 1)]
        rng.shuffle(cs)
        for i, ch in enumerate(chunks(cs, 10)):
            b = B_(rng, 'pipe-%d-%d' % (rep, i))
            for c, f in ch: b.chain(lambda: [b.stage(p, b.fill(p, rng)) for p in c], f)
            ps.append(b.prog())
    fams.append(('all pipelines of 1..3 probes', ps))
    # 4: every exit status, alone and at each position of a pipeline
    ps = []
    sts = list(range(256))
    for i, ch in enumerate(chunks(sts, 16)):
        b = B_(rng, 'status-%d' % i)
        for n in ch:
            b.chain(lambda: [b.stage('pfail', [str(n), strs.rand(rng, 4)])], rng.choice([1, 2, 3, 5, 6, 7]))
            if deep or n % 4 == 0:
                b.chain(lambda: [b.stage('pcat', []), b.stage('pfail', [str(n), 'x\n'])], 1)
                b.chain(lambda: [b.stage('pfail', [str(n), 'x']), b.stage('pfilt', ['y'])], 1)
        ps.append(b.prog())
    fams.append(('every exit status', ps))
    # 5: capture: outputs with zero, one, two trailing newlines, blanks only, empty
    outs = [a + z for a in ['', 'x', ' ', ' x ', 'a\nb', '\t', '\n\na', 'a  b', '*', '-n', '\\n', '$(touch canary)'] for z in ['', '\n', '\n\n', '\n\n\n', ' \n', '\n ', '\t\n']]
    ps = []
    for i, ch in enumerate(chunks(outs, 12)):
        b = B_(rng, 'capture-%d' % i)
        for t in ch:
            for f in ((1, 2, 3, 6) if deep else (rng.choice([1, 2]), 3)):
                b.chain(lambda: [b.stage(*rng.choice([('pecho', [t]), ('pfail', ['3', t])]))], f)
        ps.append(b.prog())
    fams.append(('captured outputs', ps))
    # 6: standard input reaches the first command; input() before it takes its lines
    ps = []
    for i in range(60 if deep else 24):
        b = B_(rng, 'stdin-%d' % i)
        b.stdin = [strs.rand(rng, 6).replace('\n', '/') for _ in range(rng.randint(0, 4))]
        for k in range(rng.randint(0, 2)): b.st.append(PRINT(INPUT()))
        b.chain(lambda: [b.stage('pcat', [])] + ([b.stage('pfilt', ['f'])] if rng.random() < .5 else []), ctx=0)
        b.chain(lambda: [b.stage('pcat', [])], ctx=0)
        ps.append(b.prog())
    fams.append(('standard input', ps))
    # 7: operands with effects, nested calls, order
    ps = []
    for i in range(160 if deep else 45):
        b = B_(rng, 'effects-%d' % i)
        for _ in range(6):
            def stages():
                n = rng.randint(1, 3)
                return [(p, [CALL('fe', [b.arg(t)], ['s']) if rng.random() < .5 and p != 'pfail' else b.arg(t) for t in b.fill(p, rng)], p) for p in (rng.choice(PROGS) for _ in range(n))]
            b.chain(stages)
        ps.append(b.prog())
    fams.append(('arguments with effects', ps))
    # 8: one command feeds the next through variables
    ps = []
    for i in range(60 if deep else 20):
        b = B_(rng, 'feed-%d' % i)
        b.st.append(VDEF(['acc'], [S(strs.rand(rng, 5))]))
        for k in range(6):
            c = 'c%d' % k
            st = [('pecho', [s_('acc')], 'pecho')] if k % 2 else [('pecho', [s_('acc')], 'pecho'), ('pfilt', [S(strs.rand(rng, 2))], 'pfilt')]
            b.st += [VDEF(['acc', '_', c], [APP(st, True)]), PRINT(s_('acc'), LEN(s_('acc'))), EXPR(APP([('pshow', [s_('acc'), s_('acc')], 'pshow')]))]
        ps.append(b.prog())
    fams.append(('captured output as argument', ps))
    # 9: many arguments, long pipelines, long values, many lines, many calls
    ps = []
    for n in (6, 8, 9, 10, 11, 12, 16, 33):
        b = B_(rng, 'many-%d' % n)
        for how in (0, 2, None): b.chain(lambda: [b.stage('pshow', [strs.rand(rng, 4) for _ in range(n)], None if how is None else [how] * n)], ctx=None if how is None else 0)
        if n <= 12:
            for f in (0, 1): b.chain(lambda: [b.stage('pecho', ['start'])] + [b.stage('pfilt', [str(k)]) for k in range(n - 2)] + [b.stage(*rng.choice([('pshow', ['l']), ('pfail', [str(n), 'x'])]))], f)
        b.chain(lambda: [b.stage('pfail', ['9']), *[b.stage('pcat', []) for _ in range(3)]], 1)
        ps.append(b.prog())
    for k, unit in enumerate(('ab cd  e', '$x `y` "\\', '*\t?\n[a] ', 'line\n')):
        st = [VDEF(['d'], [S(unit)]), FOR(None, CMP('<', LEN(V('d', 's')), I(1500)), None, [OPA('d', '+', V('d', 's'))]), VDEF(['o', 'e', 'c'], [APP([('pecho', [s_('d')], 'pecho')], True)]), PRINT(LEN(s_('o')), i_('c'), CMP('==', s_('o'), s_('d'))),
              VDEF(['o2', '_', 'c2'], [APP([('pecho', [s_('o')], 'pecho'), ('pcat', [], 'pcat'), ('pcat', [], 'pcat')], True)]), PRINT(LEN(s_('o2')), i_('c2'), s_('o2')), EXPR(APP([('pshow', [s_('d'), s_('o2'), S('')], 'pshow')]))]
        ps.append(P(st, 'long-%d' % k, probes=True, ckargv=True))
    st = [VDEF(['n'], [I(0)]), FOR(VDEF(['k'], [I(0)]), CMP('<', i_('k'), I(25)), INC('k'), [VDEF(['o', '_', 'c'], [APP([('pfail', [ITOA(i_('k')), BIN('+', S('o'), ITOA(i_('k')))], 'pfail')], True)]), OPA('n', '+', i_('c')), PRINT(s_('o'), i_('c'))]), PRINT(i_('n'))]
    for k in range(14): st += [VDEF(['p%d' % k, '_', 'q%d' % k], [APP([('pfail', [S(str(k)), S('v%d' % k)], 'pfail')], True)])]
    st += [PRINT(*[x for k in range(14) for x in (s_('p%d' % k), i_('q%d' % k))])]
    ps.append(P(st, 'often', probes=True, ckargv=True))
    fams.append(('large', ps))
    fams.append(('random programs with files and commands', progs.io_progs('%s/C18' % SEED, 240 if TIER == 'thorough' else 60)))
    run_families(ck, fams)
    ck.cov['distinct_contents'] = len(cont)
    ck.assumptions += ['the probe programs log their argument vector after draining standard input; the log must equal the calls the specification prescribes, in stage order',
                       'standard error is not judged in programs where a command writes to it', 'arguments other than strings are not judged']

main('C18', 'model_checking', run)
