"""Programs in which something is large: many elements, long strings, many names, deep nesting, long expressions, many calls, many iterations.
The shell programs a compiler emits tend to change their form at such thresholds (one digit / two digits, positional parameters above 9,
counters, limits of helper loops)."""
import itertools
from tsh import *

def P(stmts, key, **kw): return dict(stmts=stmts, key=key, **kw)
i = lambda n: V(n, 'i')
s = lambda n: V(n, 's')
EDGE = [0, 1, 8, 9, 10, 11, 15, 16, 31, 32, 33, 63, 64, 65, 98, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257]

def data(n=132, L=1024):
    """slices of n elements, strings of L characters"""
    out = []
    edge = [k for k in EDGE if k < n] + [n - 1]
    for t, mk, z in (('i', lambda k: BIN('-', BIN('*', k, I(3)), I(7)), I(-1)), ('s', lambda k: BIN('+', S('e'), ITOA(k)), S('fresh')), ('b', lambda k: CMP('==', BIN('%', k, I(3)), I(0)), B(True))):
        T = 'S' + t
        d = lambda x: V(x, T)
        el = lambda x, k: IDX(d(x), I(k))
        st = [VDEF(['a', 'c'], [SL(t, []), SL(t, [])]), FOR(VDEF(['k'], [I(0)]), CMP('<', i('k'), I(n)), INC('k'), [SAS('a', i('k'), mk(i('k')))]),
              PRINT(LEN(d('a'))), PRINT(*[el('a', k) for k in edge]),
              VDEF(['bad'], [I(0)]), RNG('k', 'v', d('a'), [IF([(CMP('!=', V('v', t), mk(i('k'))), [INC('bad'), PRINT(S('differs'), i('k'), V('v', t))])])]), PRINT(i('bad')),
              PRINT(COPY('c', d('a'), T), LEN(d('c'))), PRINT(*[el('c', k) for k in edge])]
        st += [SAS('c', I(k), z) for k in edge[::3]]
        st += [PRINT(*[el('c', k) for k in edge]), PRINT(*[el('a', k) for k in edge]),
               FUNC('grow', [('p', T), ('x', t)], ['i'], [SAS('p', LEN(V('p', T)), V('x', t)), RETURN(LEN(V('p', T)))]),
               PRINT(CALL('grow', [d('a'), z], ['i']), LEN(d('a')), el('a', n), LEN(d('c')))]
        out.append(P(st, 'mag-slice-' + t))
        # assignment far beyond the end: the elements between have the zero value
        st = []
        for q, at in enumerate((9, 10, 63, 64, 100, n)):
            g = 'g%d' % q
            st += [VDEF([g], [SL(t, [z, z] if q % 2 else [])]), SAS(g, I(at), z), PRINT(LEN(d(g))), RNG('k', 'v', d(g), [IF([(CMP('!=', V('v', t), {'i': I(0), 's': S(''), 'b': B(False)}[t]), [PRINT(i('k'), V('v', t))])])]), SAS(g, I(at + 3), z), PRINT(LEN(d(g)), el(g, at), el(g, at + 1), el(g, at + 3))]
        out.append(P(st, 'mag-gap-' + t))
        lit = lambda k: {'i': I(k * 7 - 20), 's': S('l%d' % k), 'b': B(k % 5 == 0)}[t]
        st = [VDEF(['a'], [SL(t, [lit(k) for k in range(45)])]), PRINT(LEN(d('a'))), RNG('k', 'v', d('a'), [PRINT(i('k'), V('v', t))])]
        out.append(P(st, 'mag-literal-' + t))
    # many slices: each has its own elements
    st = [VDEF(['first'], [SL('i', [I(1), I(2), I(3)])]), VDEF(['keep'], [SL('i', [I(9)])]), FUNC('fresh', [('v', 'i')], ['Si'], [VDEF(['n'], [SL('i', [i('v'), I(5)])]), RETURN(V('n', 'Si'))]),
          FOR(VDEF(['k'], [I(0)]), CMP('<', i('k'), I(n)), INC('k'), [VDEF(['n'], [CALL('fresh', [i('k')], ['Si'])]), SAS('n', I(0), BIN('*', i('k'), I(2))), SAS('first', I(1), i('k')), IF([(CMP('==', BIN('%', i('k'), I(40)), I(0)), [ASG(['keep'], [V('n', 'Si')])])])]),
          PRINT(LEN(V('first', 'Si')), *[IDX(V('first', 'Si'), I(k)) for k in range(3)]), PRINT(LEN(V('keep', 'Si')), IDX(V('keep', 'Si'), I(0)), IDX(V('keep', 'Si'), I(1)))]
    out.append(P(st, 'mag-slices'))
    # long strings
    st = [VDEF(['t'], [S('abcdefgh')]), FOR(None, CMP('<', LEN(s('t')), I(L)), None, [OPA('t', '+', s('t'))]), PRINT(LEN(s('t'))), PRINT(s('t')),
          VDEF(['y', 'z'], [BIN('+', s('t'), S('x')), BIN('+', s('t'), S('y'))]), PRINT(CMP('==', s('y'), s('z')), CMP('!=', s('y'), s('z')), CMP('==', SUB(s('y'), None, I(L)), s('t')), CMP('==', BIN('+', S('x'), s('t')), s('y'))),
          FUNC('back', [('p', 's'), ('q', 's')], ['s', 'i'], [VDEF(['l'], [BIN('+', s('q'), s('p'))]), RETURN(s('l'), LEN(s('l')))]),
          VDEF(['r', 'n'], [CALL('back', [s('y'), s('z')], ['s', 'i'])]), PRINT(i('n'), s('r')), PRINT(IDX(s('r'), I(L)), IDX(s('r'), I(L + 1)), IDX(s('r'), I(2 * L + 1)))]
    for a, b in ((0, 9), (0, 10), (5, 15), (9, 10), (10, 11), (60, 70), (95, 105), (99, 100), (L // 2, L // 2 + 33), (L - 9, L), (0, L), (1, L - 1)):
        st.append(PRINT(LEN(SUB(s('t'), I(a), I(b))), SUB(s('t'), I(a), I(b))))
    st += [PRINT(SUB(s('t'), I(L - 5)), SUB(s('y'), None, I(12)), LEN(SUB(s('t'), I(3)))), PRINT(*[IDX(s('y'), I(k)) for k in EDGE if k < L] + [IDX(s('y'), I(L))])]
    st += [VDEF(['sl'], [SL('s', [s('t'), s('y')])]), SAS('sl', I(3), s('z')), PRINT(LEN(IDX(V('sl', 'Ss'), I(3))), CMP('==', IDX(V('sl', 'Ss'), I(1)), s('y')), IDX(V('sl', 'Ss'), I(3))),
           SWITCH(s('z'), [(s('y'), [PRINT(S('y'))]), (s('z'), [PRINT(S('z'))])], [PRINT(S('d'))])]
    out.append(P(st, 'mag-string'))
    st = [VDEF(['t'], [S('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')]), OPA('t', '+', s('t')), OPA('t', '+', s('t')), VDEF(['u'], [S('')]),
          RNG('k', 'ch', s('t'), [IF([(CMP('==', s('ch'), S('Z')), [PRINT(i('k'))])]), ASG(['u'], [BIN('+', s('ch'), s('u'))])]), PRINT(LEN(s('u')), s('u'))]
    out.append(P(st, 'mag-range'))
    return out

def control(n=1000):
    out = []
    out.append(P([VDEF(['t', 'o'], [I(0), I(0)]), FOR(VDEF(['k'], [I(0)]), CMP('<', i('k'), I(n)), INC('k'), [OPA('t', '+', i('k')), IF([(CMP('==', BIN('%', i('k'), I(100)), I(99)), [PRINT(i('k'), i('t'))])])]), PRINT(i('t'))], 'mag-iterations'))
    # nested loops
    st = [VDEF(['c'], [I(0)])]
    body = [INC('c'), IF([(CMP('==', BIN('%', i('c'), I(37)), I(0)), [PRINT(i('c'), *[i('k%d' % q) for q in range(8)])])])]
    for q in reversed(range(8)):
        body = [FOR(VDEF(['k%d' % q], [I(0)]), CMP('<', i('k%d' % q), I(2)), INC('k%d' % q), body), INC('c')]
        if q % 3 == 1: body.insert(0, IF([(CMP('==', i('k%d' % (q - 1)), I(5)), [BREAK()])])) if q else None
    out.append(P(st + body + [PRINT(i('c'))], 'mag-nested-loops'))
    # many loops one after another, also in a function
    loops = lambda p: [FOR(VDEF([p + 'k'], [I(0)]), CMP('<', i(p + 'k'), I(3)), INC(p + 'k'), [IF([(CMP('==', i(p + 'k'), I(q % 4)), [BREAK() if q % 2 else CONTINUE()])]), PRINT(I(q), i(p + 'k'))]) for q in range(22)]
    out.append(P(loops('a') + [FUNC('f', [('x', 'i')], [], loops('b') + [PRINT(i('x'))]), EXPR(CALL('f', [I(4)], []))], 'mag-loops'))
    # many ifs one after another
    st = [VDEF(['x'], [I(0)])]
    for q in range(45): st.append(IF([(CMP('==', BIN('%', i('x'), I(q % 5 + 1)), I(0)), [OPA('x', '+', I(q % 7))])], [INC('x', '-')] if q % 3 else None))
    out.append(P(st + [PRINT(i('x'))], 'mag-ifs'))
    # deep ifs, long else-if chains, switches of many cases
    body = [PRINT(S('deepest'))]
    for q in reversed(range(18)): body = [PRINT(S('d'), I(q)), IF([(CMP('>', i('x'), I(q)), body)], [PRINT(S('else'), I(q))]), PRINT(S('u'), I(q))]
    st = [VDEF(['x'], [I(0)])]
    for v in (0, 9, 10, 17, 18): st += [ASG(['x'], [I(v)])] + body if v in (10, 18) else [ASG(['x'], [I(v)]), PRINT(i('x'))]
    out.append(P(st, 'mag-deep-if'))
    tags = [0, 1, 8, 9, 10, 11, 20, 31, 32, 33]
    st = [FUNC('eif', [('x', 'i')], ['i'], [IF([(CMP('==', i('x'), I(q)), [RETURN(I(q * 2 + 1))]) for q in range(33)], [RETURN(I(-1))]), RETURN(I(-3))]),
          FUNC('sw', [('x', 'i')], ['i'], [SWITCH(i('x'), [(I(q), [RETURN(I(q * 3 + 1))]) for q in range(33)], [RETURN(I(-2))]), RETURN(I(-4))]),
          FUNC('sws', [('x', 's')], [], [SWITCH(s('x'), [(S('c%d' % q), [PRINT(S('case'), I(q))]) for q in range(33)], [PRINT(S('none'))])])]
    st += [PRINT(I(v), CALL('eif', [I(v)], ['i']), CALL('sw', [I(v)], ['i'])) for v in tags] + [EXPR(CALL('sws', [S('c%d' % v)], [])) for v in tags[::2]]
    out.append(P(st, 'mag-chains'))
    # an if, a loop, a range and a switch around so many others that a counter of any period would repeat inside
    for N, key in ((270, 'ifs'), (130, 'loops'), (140, 'ranges'), (140, 'switches')):
        inner = {'ifs': lambda q: IF([(CMP('==', i('x'), I(q)), [PRINT(S('if'), I(q))])], [PRINT(S('not'), I(q))] if q % 9 == 4 else None),
                 'loops': lambda q: FOR(VDEF(['k'], [I(q)]), CMP('<', i('k'), I(q + q % 3)), INC('k'), [OPA('c', '+', i('k'))] + ([IF([(CMP('==', i('k'), I(40)), [BREAK()])])] if q % 10 == 0 else [])),
                 'ranges': lambda q: RNG('k', 'v', SL('i', [I(q), I(-q)][:1 + q % 2]), [OPA('c', '+', BIN('+', i('v'), i('k')))]),
                 'switches': lambda q: SWITCH(BIN('+', i('x'), I(q)), [(I(q + 1), [INC('c')]), (I(q + 2), [OPA('c', '+', I(q))])], [INC('c', '-')] if q % 2 else None)}[key]
        run = lambda: [PRINT(S('c'), i('c'), i('x'))]
        many = lambda: [inner(q) for q in range(N)] + run()
        outer = {'ifs': lambda: [IF([(CMP('<', i('x'), I(0)), many()), (CMP('==', i('x'), I(3)), [PRINT(S('three'))])], [PRINT(S('other'), i('x'))])],
                 'loops': lambda: [FOR(VDEF(['o'], [I(0)]), CMP('<', i('o'), i('x')), INC('o'), many())],
                 'ranges': lambda: [RNG('o', 'w', SL('i', [i('x'), I(5)]), many() + [PRINT(i('o'), i('w'))])],
                 'switches': lambda: [SWITCH(i('x'), [(I(1), many()), (I(2), [PRINT(S('two'))])], [PRINT(S('other'), i('x'))])]}[key]
        st = [VDEF(['x', 'c'], [I(1), I(0)])] + outer()
        if key != 'loops': st += [ASG(['x'], [I(3)])] + outer()
        if key == 'ifs': st += [ASG(['x'], [I(-1)])] + outer()
        out.append(P(st + [PRINT(i('x'), i('c'))], 'mag-around-' + key))
    # loops and ranges inside one another: every one has its own state
    for kind in range(3):
        D = 34
        body = [INC('c'), PRINT(S('in'), i('c'), *[i('k%d' % q) for q in range(0, D, 5)])]
        for q in reversed(range(D)):
            k, v = 'k%d' % q, 'v%d' % q
            two = q in (0, 9, 33)
            r = RNG(k, v, SL('i', [I(q), I(q + 1)][:1 + two]) if q % 2 else S('ab'[:1 + two]), body + [OPA('c', '+', i(k) if q % 2 == 0 else i(v))])
            f = FOR(VDEF([k], [I(q)]), CMP('<', i(k), I(q + 1 + two)), INC(k), body + [OPA('c', '+', I(q))])
            body = [r if kind == 0 or kind == 2 and q % 2 else f]
            if kind == 2 and q % 4 == 0: body = [SWITCH(i('c'), [(I(-1), [PRINT(S('never'))])], body)]
        out.append(P([VDEF(['c'], [I(0)])] + body + [PRINT(i('c'))], 'mag-within%d' % kind))
    # long and deep expressions
    for t in range(3):
        ops = ['+-*', '+*', '-+'][t]
        e = i('x')
        for q in range(60): e = BIN(ops[q % len(ops)], e, [i('x'), I(q % 9 + 1), i('y')][q % 3]) if not (ops[q % len(ops)] == '*' and q % 6) else BIN('+', e, I(q))
        d = i('x')
        for q in range(30): d = BIN('+-'[q % 2], [i('y'), I(q)][q % 2], GRP(d))
        g = i('y')
        for q in range(25): g = GRP(g)
        l = CMP('==', i('x'), I(2))
        for q in range(40): l = LOG('&&' if q % 3 else '||', l, CMP(['<', '!=', '>='][q % 3], i('y'), I(q)))
        cc = S('a')
        for q in range(40): cc = BIN('+', cc, [S('s%d' % q), ITOA(i('x')), s('w')][q % 3])
        nn = CMP('==', i('x'), I(2))
        for q in range(13 + t): nn = NOT(GRP(nn))
        out.append(P([VDEF(['x', 'y', 'w'], [I(2 + t), I(3 - t), S('w%d' % t)]), PRINT(e), PRINT(d), PRINT(g), PRINT(l), PRINT(cc), PRINT(nn)], 'mag-expr%d' % t))
    # many intermediate values at the same time
    val = lambda q: [BIN('+', i('x'), I(q)), BIN('*', i('x'), I(q)), BIN('-', I(q), i('x'))][q % 3]
    st = [VDEF(['x'], [I(2)]), PRINT(*[val(q) for q in range(135)]), VDEF(['a'], [SL('i', [val(q) for q in range(135)])]), PRINT(LEN(V('a', 'Si')), *[IDX(V('a', 'Si'), I(q)) for q in (0, 1, 15, 16, 31, 40, 63, 64, 127, 128, 134)]),
          VDEF(['b'], [SL('b', [CMP('<', val(q), I(70)) for q in range(70)])]), RNG('k', 'v', V('b', 'Sb'), [IF([(V('v', 'b'), [OPA('x', '+', i('k'))])])]), PRINT(i('x')),
          VDEF(['m%d' % q for q in range(70)], [val(q) for q in range(70)]), PRINT(*[i('m%d' % q) for q in range(70)]), ASG(['m%d' % q for q in range(70)], [BIN('-', i('m%d' % (69 - q)), I(q)) for q in range(70)]), PRINT(*[i('m%d' % q) for q in range(70)])]
    out.append(P(st, 'mag-values'))
    # old values that have to be kept: rotations of variables, operands in front of calls that change them
    vs = ['m%d' % q for q in range(70)]
    ss = ['n%d' % q for q in range(36)]
    rot = lambda ns, k, f: ASG(ns, [f(ns[(q + k) % len(ns)]) for q in range(len(ns))])
    pr = lambda: [PRINT(*[i(n) for n in vs]), PRINT(*[s(n) for n in ss])]
    body = pr() + [rot(vs, 1, i), rot(ss, 1, s)] + pr() + [rot(vs, 67, i), rot(ss, 5, s)] + pr() + [ASG(vs, [i(n) for n in reversed(vs)])] + pr()
    init = [VDEF(vs, [I(q) for q in range(70)]), VDEF(ss, [S('w%d' % q) for q in range(36)])]
    out.append(P(init + body, 'mag-rotate'))
    out.append(P(init + [FUNC('f', [], [], body), EXPR(CALL('f', [], []))] + pr(), 'mag-rotate-globals'))
    out.append(P([FUNC('f', [], [], init + body), EXPR(CALL('f', [], []))], 'mag-rotate-locals'))
    up = CALL('up', [], ['i'])
    pre = [VDEF(['g', 'h'], [I(1), S('a')]), FUNC('up', [], ['i'], [INC('g'), OPA('h', '+', S('b')), RETURN(i('g'))])]
    mixed = lambda n: [[i('g'), up, ITOA(i('g')), GRP(i('g')), BIN('+', i('g'), up)][q % 5] for q in range(n)] + [up]
    e = up
    for q in range(40): e = BIN('+-'[q % 2], i('g'), GRP(e))
    c = CALL('ups', [], ['s'])
    for q in range(20): c = BIN('+', s('h'), GRP(c))
    keep = []
    for n in (4, 9, 17, 40, 70): keep += [PRINT(*mixed(n)), VDEF(['k%d' % n], [SL('i', [x for x in mixed(n) if x['t'] == 'i'])]), RNG('p', 'q', V('k%d' % n, 'Si'), [PRINT(i('p'), i('q'))])]
    keep += [PRINT(e), ASG(['h'], [S('')]), PRINT(c), PRINT(i('g'))]
    pre.append(FUNC('ups', [], ['s'], [OPA('h', '+', S('c')), RETURN(s('h'))]))
    out.append(P(pre + keep, 'mag-keep'))
    out.append(P(pre + [FUNC('f', [], [], keep), EXPR(CALL('f', [], [])), EXPR(CALL('f', [], []))], 'mag-keep-f'))
    return out

def calls(n=60):
    out = []
    names = ['v%d' % k for k in range(n)]
    st = [VDEF([x], [I(k * 5)]) for k, x in enumerate(names)] + [PRINT(*[i(x) for x in names])]
    m = ['m%d' % k for k in range(24)]
    st += [VDEF(m, [I(k) for k in range(24)]), ASG(m, [i(x) for x in m[1:] + m[:1]]), PRINT(*map(i, m)), ASG(m, [i(x) for x in reversed(m)]), PRINT(*map(i, m))]
    out.append(P(st, 'mag-vars'))
    out.append(P([FUNC('f', [('p', 'i')], ['i'], st[:n] + [PRINT(*[i(x) for x in names], i('p'))] + st[n + 1:] + [RETURN(i('v59'))]), PRINT(CALL('f', [I(3)], ['i']))], 'mag-locals'))
    st = [FUNC('f0', [('a', 'i'), ('b', 's')], ['i', 's'], [RETURN(BIN('+', i('a'), I(1)), BIN('+', s('b'), S('.')))])]
    for k in range(1, n): st.append(FUNC('f%d' % k, [('a', 'i'), ('b', 's')], ['i', 's'], [VDEF(['c', 'd'], [CALL('f%d' % (k - 1), [BIN('+', i('a'), I(k)), s('b')], ['i', 's'])]), RETURN(BIN('-', i('c'), i('a')), BIN('+', s('d'), ITOA(i('a'))))]))
    st += [VDEF(['x', 'y'], [CALL('f%d' % (n - 1), [I(7), S('q')], ['i', 's'])]), PRINT(i('x'), s('y'))] + [VDEF(['x%d' % k, 'y%d' % k], [CALL('f%d' % k, [I(1), S('z')], ['i', 's'])]) for k in (0, 9, 10, 11)] + [PRINT(*[z for k in (0, 9, 10, 11) for z in (i('x%d' % k), s('y%d' % k))])]
    out.append(P(st, 'mag-depth'))
    ps = [('p%d' % k, 'isb'[k % 3]) for k in range(30)]
    mk = lambda k: {'i': I(k), 's': S('a%d' % k), 'b': B(k % 4 == 0)}['isb'[k % 3]]
    rt = [t for _, t in reversed(ps)]
    rn = ['r%d' % k for k in range(30)]
    st = [FUNC('wide', ps, [], [PRINT(*[V(a, t) for a, t in ps])]), FUNC('rev', ps, rt, [VDEF(['l'], [i('p0')]), OPA('l', '+', I(100)), ASG(['p27'], [i('l')]), RETURN(*[V(a, t) for a, t in reversed(ps)])]),
          EXPR(CALL('wide', [mk(k) for k in range(30)], [])), VDEF(rn, [CALL('rev', [mk(k) for k in range(30)], rt)]), PRINT(*[V(a, t) for a, t in zip(rn, rt)]), PRINT(CALL('rev', [mk(k) for k in range(30)], rt)),
          FUNC('again', [], [], [EXPR(CALL('wide', [CALL('rev', [mk(k) for k in range(30)], rt)], [])) if False else EXPR(CALL('wide', [V(a, t) for a, t in reversed(list(zip(rn, rt)))], []))]), EXPR(CALL('again', [], []))]
    out.append(P(st, 'mag-wide'))
    # many calls in one program and in one function; every call has an effect
    st = [VDEF(['c'], [I(0)]), FUNC('n', [('k', 'i')], ['i'], [INC('c'), RETURN(BIN('+', BIN('*', i('c'), I(10)), i('k')))])]
    one = lambda k: CALL('n', [I(k % 10)], ['i'])
    many = [PRINT(*[one(q * 12 + k) for k in range(12)]) for q in range(6)]
    st += many + [FUNC('body', [], [], many + [VDEF(['s'], [SL('i', [one(k) for k in range(15)])]), RNG('k', 'v', V('s', 'Si'), [PRINT(i('k'), i('v'))])]), EXPR(CALL('body', [], [])), PRINT(i('c'))]
    e = one(0)
    for k in range(1, 30): e = BIN('+-'[k % 2], e, one(k))
    l = CMP('<', one(0), I(5000))
    for k in range(1, 25): l = LOG('&&' if k % 4 else '||', l, CMP('<', one(k), I(5000 - k)))
    st += [PRINT(e), PRINT(l), IF([(CMP('==', one(k), I(-1)), [PRINT(I(k))]) for k in range(14)], [PRINT(S('else'), i('c'))]), SWITCH(I(-1), [(one(k), [PRINT(I(k))]) for k in range(14)], [PRINT(S('default'), i('c'))])]
    out.append(P(st, 'mag-calls'))
    # every function calls functions that were defined any distance before, with the same names for its own variables
    def pairs(n, dist, key):
        st = []
        for k in range(n):
            js = [j for j in range(k) if k - j in dist]
            body = [VDEF(['x', 'y'], [BIN('+', I(1000 + 7 * k), i('p')), S('y%d' % k)]), VDEF(['t'], [I(0)])]
            if js:
                calls_ = []
                for j in js: calls_ += [VDEF(['r', 'w'], [CALL('f%d' % j, [I(0)], ['i', 's'])]) if j == js[0] else ASG(['r', 'w'], [CALL('f%d' % j, [I(0)], ['i', 's'])]), OPA('t', '+', BIN('+', i('r'), LEN(s('w')))), IF([(CMP('!=', s('y'), S('y%d' % k)), [PRINT(S('y'), s('y'), I(k), I(j))])])]
                body.append(FOR(VDEF(['q'], [I(0)]), CMP('<', i('q'), i('p')), INC('q'), calls_))
            st.append(FUNC('f%d' % k, [('p', 'i')], ['i', 's'], body + [RETURN(BIN('+', i('x'), i('t')), s('y'))]))
        for k in range(n): st += [VDEF(['a%d' % k, 'b%d' % k], [CALL('f%d' % k, [I(1)], ['i', 's'])])] + ([PRINT(*[z for j in range(max(0, k - 9), k + 1) for z in (i('a%d' % j), s('b%d' % j))])] if k % 10 == 9 or k == n - 1 else [])
        return P(st, key)
    out.append(pairs(36, range(36), 'mag-pairs'))
    out.append(pairs(132, {1, 50, 60, 64, 100, 127, 128, 129}, 'mag-far'))
    return out
