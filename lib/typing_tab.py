"""Systematic table: every typed position of the grammar x every kind of offered value x every surrounding construct."""
from tsh import *
T6 = ['i', 'b', 's', 'Si', 'Sb', 'Ss']
LITS = dict(i=lambda: I(4), b=lambda: B(True), s=lambda: S('q'), Si=lambda: SL('i', [I(1)]), Sb=lambda: SL('b', []), Ss=lambda: SL('s', [S('x')]))

def pre_var(t): return VDEF(['v' + t], [LITS[t]()])
def pre_fn(name):
    if name == 'fv': return FUNC('fv', [], [], [PRINT(S('v'))])
    if name == 'fii': return FUNC('fii', [], ['i', 'i'], [RETURN(I(1), I(2))])
    if name == 'fis': return FUNC('fis', [], ['i', 's'], [RETURN(I(1), S('x'))])
    if name == 'fe': return FUNC('fe', [], ['e'], [RETURN(NIL())])
    if name[0] == 'f': return FUNC(name, [], [name[1:]], [RETURN(LITS[name[1:]]())])
    if name[0] == 'c':      # consumers: c_i, c_i_s, ...
        ts = name.split('_')[1:]
        return FUNC(name, [('prm%d' % j, t) for j, t in enumerate(ts)], [], [PRINT(S(name))])
    raise KeyError(name)

def offers():
    """(name, type, builder)"""
    o = []
    for t in T6:
        o.append(('var', t, lambda t=t: V('v' + t, t)))
        o.append(('lit', t, lambda t=t: LITS[t]()))
        o.append(('call', t, lambda t=t: CALL('f' + t, [], [t])))
        o.append(('grp', t, lambda t=t: GRP(V('v' + t, t))))
    o += [('bin', 'i', lambda: BIN('*', V('vi', 'i'), I(3))), ('idx', 'i', lambda: IDX(V('vSi', 'Si'), I(0))), ('len', 'i', lambda: LEN(V('vSb', 'Sb'))),
          ('copy', 'i', lambda: COPY('vSi', V('vSi', 'Si'), 'Si')),
          ('cmp', 'b', lambda: CMP('<', V('vi', 'i'), I(3))), ('log', 'b', lambda: LOG('||', V('vb', 'b'), B(False))), ('not', 'b', lambda: NOT(V('vb', 'b'))),
          ('exists', 'b', lambda: EXISTS(S('p'))), ('idx', 'b', lambda: IDX(V('vSb', 'Sb'), I(0))), ('eqs', 'b', lambda: CMP('==', V('vs', 's'), S('a'))),
          ('cat', 's', lambda: BIN('+', V('vs', 's'), S('y'))), ('itoa', 's', lambda: ITOA(I(1))), ('sub', 's', lambda: SUB(V('vs', 's'), I(0), I(1))), ('idx', 's', lambda: IDX(V('vSs', 'Ss'), I(0))), ('ids', 's', lambda: IDX(V('vs', 's'), I(0))),
          ('input', 's', lambda: INPUT()), ('read', 's', lambda: READ(S('p'))), ('err', 's', lambda: CALL('fe', [], ['e'])), ('nil', 's', lambda: NIL()),
          ('empty', 's', lambda: S('')), ('zero', 'i', lambda: I(0)), ('one', 'i', lambda: I(1)), ('false', 'b', lambda: B(False)), ('none', 'Si', lambda: SL('i', [])), ('none', 'Ss', lambda: SL('s', [])), ('digits', 's', lambda: S('1')), ('catempty', 's', lambda: BIN('+', S(''), S(''))),
          ('gempty', 's', lambda: GRP(S(''))), ('gnil', 's', lambda: GRP(NIL())), ('nilcat', 's', lambda: BIN('+', NIL(), NIL())),
          ('void', 'v', lambda: CALL('fv', [], [])), ('multi', 'm', lambda: CALL('fii', [], ['i', 'i'])), ('multi2', 'm', lambda: CALL('fis', [], ['i', 's'])),
          ('app', 'm', lambda: APP([('pshow', [], 'pshow')], True)), ('gvoid', 'v', lambda: GRP(CALL('fv', [], []))), ('gmulti', 'm', lambda: GRP(CALL('fii', [], ['i', 'i'])))]
    return o

OPS = [('bin', o) for o in '+-*/%'] + [('cmp', o) for o in ('==', '!=', '<', '<=', '>', '>=')] + [('log', o) for o in ('&&', '||')]
def mk(k, o, l, r): return dict(k=k, o=o, c=[l, r], t='i')

def positions():
    """(name, needs-identifier-or-anything, builder(h) -> list of statements).  'rr...' names are free."""
    P = []
    def add(n, f): P.append((n, f))
    for k, o in OPS:
        for t in ('i', 'b', 's', 'Si'):
            add('%s right of %s' % (o, t), lambda h, k=k, o=o, t=t: [VDEF(['rr'], [mk(k, o, V('v' + t, t), h)])])
            add('%s left of %s' % (o, t), lambda h, k=k, o=o, t=t: [VDEF(['rr'], [mk(k, o, h, V('v' + t, t))])])
    for o in '+-*/%':
        for t in ('i', 'b', 's', 'Si'): add('%s%s=' % (t, o), lambda h, o=o, t=t: [OPA('v' + t, o, h)])
    add('not', lambda h: [VDEF(['rr'], [NOT(h)])])
    add('not grouped', lambda h: [VDEF(['rr'], [NOT(GRP(h))])])
    add('if', lambda h: [IF([(h, [PRINT(I(1))])])])
    add('else if', lambda h: [IF([(V('vb', 'b'), [PRINT(I(1))]), (h, [PRINT(I(2))])], [PRINT(I(3))])])
    add('if with else', lambda h: [IF([(h, [PRINT(I(1))])], [])])
    add('for cond', lambda h: [FOR(None, h, None, [BREAK()])])
    add('for clause cond', lambda h: [FOR(VDEF(['ii'], [I(0)]), h, INC('ii'), [BREAK()])])
    add('for init', lambda h: [FOR(VDEF(['ii'], [h]), CMP('<', V('ii', 'i'), I(3)), None, [BREAK()])])
    add('for update', lambda h: [FOR(VDEF(['ii'], [I(0)]), CMP('<', V('ii', 'i'), I(3)), ASG(['ii'], [h]), [BREAK()])])
    add('range', lambda h: [RNG('ii', 'xx', h, [PRINT(V('ii', 'i'))])])
    add('range int body', lambda h: [RNG('ii', 'xx', h, [VDEF(['rr'], [I(0)], 'vart', 'i'), ASG(['rr'], [V('xx', 'i')])])])
    add('range string body', lambda h: [RNG('ii', 'xx', h, [VDEF(['rr'], [], 'vart', 's'), ASG(['rr'], [V('xx', 's')])])])
    for t in ('i', 'b', 's'):
        add('case of %s' % t, lambda h, t=t: [SWITCH(V('v' + t, t), [(LITS[t](), [PRINT(I(1))]), (h, [PRINT(I(2))])], [])])
        add('tag with case %s' % t, lambda h, t=t: [SWITCH(h, [(LITS[t](), [PRINT(I(1))])])])
    add('case without tag', lambda h: [SWITCH(None, [(h, [PRINT(I(1))])], [PRINT(I(3))])])
    add('switch true case', lambda h: [SWITCH(B(True), [(V('vb', 'b'), []), (h, [PRINT(I(1))])])])
    add('tag without cases', lambda h: [SWITCH(h, [], [PRINT(I(2))])])
    for t in ('Si', 'Sb', 'Ss', 's'): add('index of %s' % t, lambda h, t=t: [PRINT(IDX(V('v' + t, t), h))])
    for t in ('Si', 'Sb', 'Ss'):
        add('assign index of %s' % t, lambda h, t=t: [SAS('v' + t, h, LITS[t[1]]())])
        add('assign element of %s' % t, lambda h, t=t: [SAS('v' + t, I(0), h)])
        add('element of %s literal' % t, lambda h, t=t: [VDEF(['rr'], [SL(t[1], [h])])])
        add('second element of %s literal' % t, lambda h, t=t: [VDEF(['rr'], [SL(t[1], [LITS[t[1]](), h])])])
        add('copy to %s' % t, lambda h, t=t: [EXPR(COPY('v' + t, h, t))])
        add('copy value to %s' % t, lambda h, t=t: [VDEF(['rr'], [COPY('v' + t, h, t)])])
    for t in T6:
        add('assigned to %s' % t, lambda h, t=t: [ASG(['v' + t], [h])])
        add('var %s' % t, lambda h, t=t: [VDEF(['rr'], [h], 'vart', t)])
        add('assigned second to %s' % t, lambda h, t=t: [ASG(['vi', 'v' + t] if t != 'i' else ['vb', 'vi'], [I(0) if t != 'i' else B(True), h])])
        add('redefined %s' % t, lambda h, t=t: [VDEF(['rr'], [LITS[t]()]), VDEF(['rr', 'rs'], [h, I(1)])])
        add('argument %s' % t, lambda h, t=t: [EXPR(CALL('c_' + t, [h], []))])
        add('argument 2 %s' % t, lambda h, t=t: [EXPR(CALL('c_s_' + t, [S('a'), h], []))])
        add('argument 1 of 2 %s' % t, lambda h, t=t: [EXPR(CALL('c_%s_i' % t, [h, I(2)], []))])
        add('too many after %s' % t, lambda h, t=t: [EXPR(CALL('c_' + t, [LITS[t](), h], []))])
    add('argument of none', lambda h: [EXPR(CALL('fv', [h], []))])
    add('argument ii', lambda h: [EXPR(CALL('c_i_i', [h], []))])
    add('argument is', lambda h: [EXPR(CALL('c_i_s', [h], []))])
    add('two of ii', lambda h: [VDEF(['ra', 'rb'], [h])])
    add('two typed', lambda h: [VDEF(['ra', 'rb'], [h], 'vart', 'i')])
    add('assign two', lambda h: [ASG(['vi', 'vs'], [h])])
    add('assign two ints', lambda h: [VDEF(['ra', 'rb'], [I(0), I(0)]), ASG(['ra', 'rb'], [h])])
    add('three', lambda h: [VDEF(['ra', 'rb', 'rc'], [h])])
    add('first of two values', lambda h: [VDEF(['ra', 'rb'], [h, I(1)])])
    add('one name two values', lambda h: [VDEF(['ra'], [h, I(1)])])
    add('error var', lambda h: [VDEF(['rr'], [h], 'vart', 'e')])
    add('plain definition', lambda h: [VDEF(['rr'], [h])])
    add('var definition', lambda h: [VDEF(['rr'], [h], 'var')])
    # the blank identifier takes values of every type, however often it was used
    add('blank defined', lambda h: [VDEF(['_'], [h], 'var')])
    add('blank assigned', lambda h: [ASG(['_'], [h])])
    for t in ('i', 's', 'Si'):
        add('blank assigned after %s' % t, lambda h, t=t: [VDEF(['_'], [LITS[t]()], 'vart', t), ASG(['_'], [h])])
        add('blank after %s' % t, lambda h, t=t: [VDEF(['ra', '_'], [I(1), LITS[t]()]), VDEF(['_', 'rb'], [h, I(2)]), PRINT(V('ra', 'i'), V('rb', 'i'))])
        add('blank in assignment after %s' % t, lambda h, t=t: [VDEF(['ra', '_'], [I(1), LITS[t]()]), ASG(['ra', '_'], [I(2), h])])
        add('blank typed %s' % t, lambda h, t=t: [VDEF(['_'], [h], 'vart', t)])
    add('blank beside', lambda h: [VDEF(['_', 'rr'], [I(1), h])])
    add('two with blank', lambda h: [VDEF(['_'], [S('a')], 'var'), VDEF(['_', 'ra'], [h]), VDEF(['rb', '_'], [h])])
    add('two with blank assigned', lambda h: [ASG(['_', '_'], [h]), ASG(['vi', '_'], [h])])
    add('blank parameter', lambda h: [FUNC('bp', [('_', 's'), ('_', 'i')], [], [PRINT(I(1))]), EXPR(CALL('bp', [S('a'), h], []))])
    for w, o in (('from', 'a'), ('to', 'b'), ('from with to', 'ab'), ('to with from', 'ba')):
        def f(h, o=o):
            a, b = (h if o in ('a', 'ab') else I(0) if o == 'ba' else None), (h if o in ('b', 'ba') else I(1) if o == 'ab' else None)
            return [PRINT(SUB(V('vs', 's'), a, b))]
        add('subscript ' + w, f)
    for n, f in (('len', LEN), ('itoa', ITOA), ('exists', EXISTS), ('read', READ), ('input', INPUT)):
        add(n, lambda h, f=f: [PRINT(f(h))])
        add(n + ' twice', lambda h, f=f: [VDEF(['rr'], [dict(f(S('a')), c=[S('a'), h])])])
    add('write path', lambda h: [WRITE(h, S('d'))])
    add('write data', lambda h: [WRITE(S('p'), h)])
    add('write append', lambda h: [WRITE(S('p'), S('d'), h)])
    add('write fourth', lambda h: [dict(k='write', c=[S('p'), S('d'), B(True), h])])
    add('write alone', lambda h: [dict(k='write', c=[h])])
    add('panic', lambda h: [PANIC(h)])
    add('panic second', lambda h: [dict(k='panic', c=[S('a'), h])])
    add('print', lambda h: [PRINT(h)])
    add('print second', lambda h: [PRINT(I(1), h)])
    add('app argument', lambda h: [EXPR(APP([('pshow', [h], 'pshow')]))])
    add('pipe argument', lambda h: [EXPR(APP([('pshow', [S('a')], 'pshow'), ('pcat', [h], 'pcat')]))])
    add('statement', lambda h: [EXPR(h)])
    add('group', lambda h: [VDEF(['rr'], [GRP(GRP(h))])])
    for rt in ([], ['i'], ['s'], ['Si'], ['Ss'], ['b'], ['i', 'i'], ['i', 's'], ['s', 's', 'i'], ['e']):
        add('returned as %s' % rt, lambda h, rt=rt: [('func', rt, [RETURN(h)])])
        add('returned deep as %s' % rt, lambda h, rt=rt: [('func', rt, [IF([(V('vb', 'b'), [FOR(None, None, None, [SWITCH(V('vi', 'i'), [(I(1), [RETURN(h)])])])])])] + ([RETURN(*[LITS.get(t, lambda: S(''))() for t in rt])] if rt else []))])
        if len(rt) == 2:
            add('returned first of %s' % rt, lambda h, rt=rt: [('func', rt, [RETURN(h, LITS[rt[1]]())])])
            add('returned second of %s' % rt, lambda h, rt=rt: [('func', rt, [RETURN(LITS[rt[0]](), h)])])
            add('returned third of %s' % rt, lambda h, rt=rt: [('func', rt, [RETURN(LITS[rt[0]](), LITS[rt[1]](), h)])])
    return P

def in_ctx(ctx, body):
    """wrap statements; returns (top-level statements)"""
    c = V('vb', 'b')
    w = dict(top=lambda b: b, If=lambda b: [IF([(c, b)])], Else=lambda b: [IF([(c, [])], b)], ElseIf=lambda b: [IF([(c, [PRINT(I(1))]), (NOT(c), b)])],
             For=lambda b: [FOR(VDEF(['zz'], [I(0)]), CMP('<', V('zz', 'i'), I(2)), INC('zz'), b)], While=lambda b: [FOR(None, c, None, b)], Range=lambda b: [RNG('zi', 'zz', V('vs', 's'), b)],
             Case=lambda b: [SWITCH(V('vi', 'i'), [(I(1), []), (I(2), b)])], Default=lambda b: [SWITCH(None, [(c, [])], b)])
    f = FUNC('ctx', [('pc', 'i')], [], None)
    if ctx in w: return w[ctx](body)
    if ctx == 'fn': return [FUNC('ctx', [('pc', 'i')], [], body), EXPR(CALL('ctx', [I(1)], []))]
    if ctx == 'ufn': return [FUNC('ctx', [], [], body)]
    if ctx == 'deep': return [FUNC('ctx', [('pc', 'i')], ['s'], w['Range'](w['Else'](w['Case'](body))) + [RETURN(S('x'))]), PRINT(CALL('ctx', [I(1)], ['s']))]
    raise KeyError(ctx)
CTX = ['top', 'If', 'Else', 'ElseIf', 'For', 'While', 'Range', 'Case', 'Default', 'fn', 'ufn', 'deep']

def used(stmts, prefix, acc):
    def ex(e):
        if e['k'] == 'var': acc.add(e['n'])
        if e['k'] == 'copy': acc.add(e['n'])
        if e['k'] == 'call': acc.add(e['f'])
        for x in e.get('c', []): ex(x)
    def go(s):
        if s['k'] in ('op', 'inc', 'sas'): acc.add(s['n'])
        if s['k'] == 'asg': acc.update(s['ns'])
        for x in s.get('c', []): ex(x)
        if s['k'] == 'for':
            for w in ('init', 'upd'):
                if s[w]: go(s[w])
            if s['cond']: ex(s['cond'])
        for b in ([s['body']] if s.get('body') is not None else []) + (s.get('bodies') or []) + ([s['els']] if s.get('els') is not None else []):
            for x in b: go(x)
    for s in stmts: go(s)

def program(pos, h, ctx, module=False):
    body = pos(h)
    if body and isinstance(body[0], tuple):
        _, rt, b = body[0]
        if ctx not in ('top', 'fn', 'ufn'): return None
        st = [FUNC('ctx', [], rt, b)] + ([EXPR(CALL('ctx', [], rt))] if ctx == 'fn' else [])
    else: st = in_ctx(ctx, body)
    acc = set()
    used(st, '', acc)
    acc -= {'ctx', '_', 'bp'}
    pre = [pre_var(n[1:]) for n in sorted(acc) if n[0] == 'v' and n[1:] in T6] + [pre_fn(n) for n in sorted(acc) if n[0] in 'fc' and (n in ('fv', 'fii', 'fis', 'fe') or n[1:] in T6 or n.startswith('c_'))]
    return pre + st

# ---------------------------------------------------------------- one wrong value at a chosen place among many
NS = (1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 16, 20)
def wide(rng, full=False):
    """constructs with n parts of which the k-th has another type, or which have one part too few or too many"""
    out = []
    def add(note, *st): out.append((note, list(st)))
    for n in NS:
        ks = range(n) if full or n < 4 else sorted({0, n - 1, rng.randrange(n), rng.randrange(n)})
        for cyc in (['i'], ['s'], ['i', 's', 'b'], ['b', 'Si', 'i', 'Ss']):
            ts = [cyc[k % len(cyc)] for k in range(n)]
            vals = lambda us: [LITS[u]() for u in us]
            bad = []
            for k in ks:
                w = rng.choice([t for t in T6 if t != ts[k]])
                bad.append(('%d of %d is %s' % (k, n, w), ts[:k] + [w] + ts[k + 1:]))
            bad += [('%d for %d' % (n - 1, n), ts[:-1]), ('%d for %d' % (n + 1, n), ts + [ts[0]]), ('%d for %d, all' % (n, n), ts)]
            for note, us in bad:
                ps = [('p%d' % k, t) for k, t in enumerate(ts)]
                ns = ['x%d' % k for k in range(n)]
                dfs = [VDEF([x], [LITS[t]()]) for x, t in zip(ns, ts)]
                vs = [VDEF(['w%d' % k], [LITS[t]()]) for k, t in enumerate(us)]
                av = [V('w%d' % k, t) for k, t in enumerate(us)]
                forms = [
                    ('arguments', [FUNC('f', ps, [], [PRINT(I(1))]), EXPR(CALL('f', vals(us), []))]),
                    ('argument variables', vs + [FUNC('f', ps, ['i'], [RETURN(I(1))]), PRINT(CALL('f', av, ['i']))]),
                    ('own results as arguments', [FUNC('r', [], us, [RETURN(*vals(us))]), FUNC('f', ps, [], [PRINT(I(1))])] + ([EXPR(CALL('f', [CALL('r', [], us)], []))] if us else [EXPR(CALL('f', [], []))])),
                    ('returned', [FUNC('f', [], ts, [RETURN(*vals(us))] if us else [PRINT(I(1)), RETURN(*vals(ts))])]),
                    ('returned early', [FUNC('f', ps, ts, [IF([(B(True), [RETURN(*vals(us or ts))])]), RETURN(*[V(a, t) for a, t in ps])])]),
                    ('assigned', dfs + ([ASG(ns, vals(us))] if us else [])),
                    ('assigned results', dfs + [FUNC('r', [], us or ['i'], [RETURN(*vals(us or ['i']))]), ASG(ns, [CALL('r', [], us or ['i'])])]),
                    ('redefined', dfs + ([VDEF(ns + ['nw'], vals(us) + [I(1)])] if len(us) == n else [VDEF(ns, vals(us) or [I(1)])])),
                    ('defined from results', [FUNC('r', [], us or ['i'], [RETURN(*vals(us or ['i']))]), VDEF(ns, [CALL('r', [], us or ['i'])])]),
                    ('typed definition', [VDEF(ns, vals(us) or [I(1)], 'vart', cyc[0])]),
                    ('cases', [VDEF(['t'], [LITS[cyc[0]]()]), SWITCH(V('t', cyc[0]), [(LITS[u](), [PRINT(I(k))]) for k, u in enumerate(us)], [PRINT(I(-1))])]),
                    ('elements', [VDEF(['e'], [SL(cyc[0], vals(us))])]),
                ]
                if cyc == ['i']:
                    e = I(3)
                    for u in us: e = mk('bin', '+', e, LITS[u]())
                    forms.append(('operands', [VDEF(['e'], [e])]))
                    forms.append(('conditions', [IF([((LITS[u]() if u != 'i' else CMP('==', I(1), I(2))), [PRINT(I(k))]) for k, u in enumerate(us or ['i'])], [PRINT(I(9))])]))
                    forms.append(('arguments of a program', [EXPR(APP([('pshow', [LITS['s']() if u == 'i' else CALL('nothing', [], []) for u in us], 'pshow')]))]))
                    forms.append(('printed', [FUNC('nothing', [], [], [PRINT(I(1))]), PRINT(*[I(1) if u == 'i' else CALL('nothing', [], []) for u in us])]))
                    g = LITS[us[-1]]() if us else I(1)
                    for k in range(n): g = GRP(g)
                    forms.append(('in groups', [VDEF(['e'], [mk('bin', '-', I(1), g)])]))
                if cyc == ['s'] and us:
                    e = S('a')
                    for u in us: e = mk('bin', '+', e, LITS[u]())
                    forms.append(('operands', [VDEF(['e'], [e])]))
                forms = [f for f in forms if f[0] != 'arguments of a program' or us == ts]
                for fn, st in (forms if full else rng.sample(forms, 7)): add('%s: %s' % (fn, note), *st)
    return out
