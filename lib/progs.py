"""Families of programs: systematic tables and profiles of the random generator."""
import itertools
from tsh import *
import gen

def P(stmts, key, **kw): return dict(stmts=stmts, key=key, **kw)

def chunks(xs, n): return [xs[i:i + n] for i in range(0, len(xs), n)]

BOUND64 = [0, 1, -1, 2, -3, 7, 10, 2147483647, -2147483648, 4294967296, 9223372036854775807, -9223372036854775808, -9223372036854775807, 4611686018427387904, 1073741823, 1073741824, -1073741825]
BOUND32 = [0, 1, -1, 2, -3, 7, 10, 46340, 46341, 65536, 2147483647, -2147483647, 1073741823, 1073741824, -1073741825]

def op_table(bits=64, rng=None, frac=1.0):
    """every operator on pairs of boundary values: once as variables, once as literals, once as compound assignment"""
    vals = BOUND64 if bits == 64 else BOUND32
    out, cur = [], []
    for a, b in itertools.product(vals, vals):
        if rng is not None and rng.random() > frac: continue
        body = [ASG(['a', 'b'], [I(a), I(b)])]
        x, y = V('a', 'i'), V('b', 'i')
        ops = '+-*' + ('/%' if b != 0 else '')
        body += [PRINT(*[BIN(o, x, y) for o in ops])]
        body += [PRINT(*[CMP(o, x, y) for o in ('==', '!=', '<', '<=', '>', '>=')])]
        if rng is None or rng.random() < .3: body += [PRINT(*[BIN(o, I(a), I(b)) for o in ops]), PRINT(*[CMP(o, I(a), I(b)) for o in ('==', '!=', '<', '<=', '>', '>=')])]
        for o in ops:
            if rng is None or rng.random() < .4: body += [ASG(['c'], [x]), OPA('c', o, y), PRINT(V('c', 'i'))]
        body += [ASG(['c'], [x]), INC('c', '+'), PRINT(V('c', 'i')), INC('c', '-'), INC('c', '-'), PRINT(V('c', 'i'), ITOA(V('c', 'i')))]
        cur.append(body)
    for i, ch in enumerate(chunks(cur, 8)):
        out.append(P([VDEF(['a', 'b', 'c'], [I(0), I(0), I(0)])] + [s for b in ch for s in b], 'optable%d' % i))
    return out

def logic_table():
    """truth tables of every shape of three operands, with and without negation and parentheses"""
    stm = [VDEF(['t', 'f'], [B(True), B(False)])]
    progs = []
    shapes = []
    for o1, o2 in itertools.product(('&&', '||', '==', '!='), repeat=2):
        mk = lambda o, l, r: (LOG if o in ('&&', '||') else CMP)(o, l, r)
        shapes.append(lambda a, b, c, o1=o1, o2=o2: mk(o2, mk(o1, a, b), c))
        shapes.append(lambda a, b, c, o1=o1, o2=o2: mk(o1, a, mk(o2, b, c)))
    n = 0
    for sh in shapes:
        body = []
        for v in itertools.product((True, False), repeat=3):
            a, b, c = [V('t' if x else 'f', 'b') for x in v]
            n += 1
            args = [sh(a, b, c)]
            args.append(sh(NOT(a), b, c) if n % 3 == 0 else sh(a, NOT(b), c) if n % 3 == 1 else sh(a, b, NOT(c)))
            args.append(NOT(sh(a, b, c)))
            body.append(PRINT(*args))
        progs.append(body)
    # chains of four without parentheses
    for ops in itertools.product(('&&', '||'), repeat=3):
        body = []
        for v in itertools.product((True, False), repeat=4):
            xs = [V('t' if x else 'f', 'b') for x in v]
            body.append(PRINT(chain(xs, ops)))
        progs.append(body)
    return [P(stm + [s for b in ch for s in b], 'logic%d' % i) for i, ch in enumerate(chunks(progs, 4))]

def chain(xs, ops):
    """x0 o0 x1 o1 ... as the grammar groups it: && binds tighter, left-associative"""
    terms, cur, rest = [], xs[0], []
    for o, x in zip(ops, xs[1:]):
        if o == '&&': cur = LOG('&&', cur, x)
        else:
            terms.append(cur)
            cur = x
    terms.append(cur)
    r = terms[0]
    for t in terms[1:]: r = LOG('||', r, t)
    return r

def prec_table(bits=64):
    """every well-typed expression of two binary operators over ints/bools, both groupings, rendered with the fewest parentheses"""
    A, C = '+-*/%', ('==', '!=', '<', '<=', '>', '>=')
    body = []
    x, y, z = V('x', 'i'), V('y', 'i'), V('z', 'i')
    es = []
    for o1, o2 in itertools.product(A, repeat=2):
        es += [BIN(o2, BIN(o1, x, y), z), BIN(o1, x, BIN(o2, y, z)) if not (o1 in '/%') else BIN(o1, x, BIN(o2, I(53), z))]
    for o, c in itertools.product(A, C):
        es += [CMP(c, BIN(o, x, y), z), CMP(c, x, BIN(o, y, z))]
    for c1, c2 in itertools.product(C, C):
        es += [LOG('&&', CMP(c1, x, y), CMP(c2, y, z)), LOG('||', CMP(c1, x, y), CMP(c2, y, z))]
        if c2 in ('==', '!='): es += [CMP(c2, CMP(c1, x, y), V('b', 'b')), CMP(c2, V('b', 'b'), CMP(c1, x, y))]
        es += [NOT(CMP(c1, x, y))] if c2 == '==' else []
    for o1, o2, o3 in itertools.product('+-*', '*/%-', '+-/'):
        es.append(BIN(o3, BIN(o1, x, BIN(o2, y, z)), I(3)))
        es.append(BIN(o1, x, BIN(o3, BIN(o2, y, z), I(3))))
    out = []
    for i, ch in enumerate(chunks(es, 60)):
        st = [VDEF(['x', 'y', 'z', 'b'], [I(17), I(5), I(3), B(True)])]
        st += [PRINT(*c) for c in chunks(ch, 3)]
        st += [ASG(['x', 'y', 'z', 'b'], [I(-9), I(4), I(-2), B(False)])] + [PRINT(*c) for c in chunks(ch, 3)]
        out.append(P(st, 'prec%d' % i))
    return out

def loop_forms():
    """(name, builder(body(counter expression)) -> statements); every builder yields a loop of 4 iterations with its own counter name"""
    def f3(n, body): return [FOR(VDEF([n], [I(0)]), CMP('<', V(n, 'i'), I(4)), INC(n), body)]
    def down(n, body): return [FOR(VDEF([n], [I(4)]), CMP('>', V(n, 'i'), I(0)), INC(n, '-'), body)]
    def step(n, body): return [FOR(VDEF([n], [I(0)]), CMP('!=', V(n, 'i'), I(8)), OPA(n, '+', I(2)), body)]
    def cond(n, body): return [VDEF([n], [I(4)]), FOR(None, CMP('>', V(n, 'i'), I(0)), None, [INC(n, '-')] + body)]
    def inf(n, body): return [VDEF([n], [I(0)]), FOR(None, None, None, [INC(n), IF([(CMP('>', V(n, 'i'), I(4)), [BREAK()])])] + body)]
    def noinit(n, body): return [VDEF([n], [I(0)]), FOR(None, CMP('<', V(n, 'i'), I(4)), INC(n), body)]
    def initasg(n, body): return [VDEF([n], [I(77)]), FOR(ASG([n], [I(0)]), CMP('<', V(n, 'i'), I(4)), ASG([n], [BIN('+', V(n, 'i'), I(1))]), body), PRINT(V(n, 'i'))]
    def nocond(n, body): return [FOR(VDEF([n], [I(0)]), None, INC(n), [IF([(CMP('>=', V(n, 'i'), I(4)), [BREAK()])])] + body)]
    def rs(n, body): return [RNG(n, n + 'v', S('wxyz'), [PRINT(V(n + 'v', 's'))] + body)]
    def ri(n, body): return [RNG(n, None, SL('i', [I(5), I(6), I(7), I(8)]), body)]
    return dict(three=f3, down=down, step=step, cond=cond, inf=inf, noinit=noinit, initasg=initasg, nocond=nocond, rngstr=rs, rngsl=ri)

def ctl_table(range_=True):
    """outer loop form x inner loop form x (break|continue|nothing) x where (plain if, else-if, else) in both loops"""
    F = loop_forms()
    if not range_: F = {k: v for k, v in F.items() if not k.startswith('rng')}
    def jump(kind, where, n, at):
        j = {'break': [BREAK()], 'continue': [CONTINUE()], 'none': [PRINT(S('x'))]}[kind]
        c = CMP('==', V(n, 'i'), I(at))
        if where == 'if': return [IF([(c, j)])]
        if where == 'elif': return [IF([(CMP('==', V(n, 'i'), I(9)), [PRINT(S('no'))]), (c, j)], [PRINT(S('e'), V(n, 'i'))])]
        return [IF([(CMP('!=', V(n, 'i'), I(at)), [PRINT(S('i'), V(n, 'i'))])], j)]
    out = []
    for (on, of), (inn, inf) in itertools.product(F.items(), F.items()):
        st = []
        for k, (jo, ji, w) in enumerate(itertools.product(('break', 'continue', 'none'), ('break', 'continue'), ('if', 'elif', 'else'))):
            n, m = 'o%d' % k, 'n%d' % k
            inner = inf(m, [PRINT(V(n, 'i'), V(m, 'i'))] + jump(ji, w, m, 2) + [PRINT(S('t'), V(m, 'i'))])
            st.append(of(n, [PRINT(S('<'), V(n, 'i'))] + jump(jo, w, n, 2) + inner + [PRINT(S('>'), V(n, 'i'))]))
        out.append((on, inn, st))
    return out

def ctl_progs(rng, per=4, range_=True):
    out = []
    for on, inn, st in ctl_table(range_):
        pick = rng.sample(range(len(st)), min(per, len(st)))
        for ch in chunks(pick, 6):
            out.append(P([s for k in ch for s in st[k]], 'ctl-%s-%s-%s' % (on, inn, '.'.join(map(str, ch)))))
    return out

def print_table():
    """print with no argument up to four, over values with nothing, blanks and signs at either end; from literals, variables, elements and results"""
    vals = [S(''), S(' '), S(' a'), S('a '), S('a  b'), S('0'), S('true'), S('x'), I(0), I(-5), I(12), B(True), B(False)]
    st = [VDEF(['v%d' % k for k in range(len(vals))], vals), VDEF(['sl'], [SL('s', [S(''), S(' '), S('q')])]), FUNC('e', [], ['s'], [RETURN(S(''))]), FUNC('two', [], ['s', 's'], [RETURN(S(''), S(''))])]
    vs = [V('v%d' % k, x['t']) for k, x in enumerate(vals)]
    a = [PRINT()] + [PRINT(x) for x in vals] + [PRINT(x) for x in vs] + [PRINT(x, y) for x, y in itertools.product(vs, vals)] + [PRINT(IDX(V('sl', 'Ss'), I(x)), IDX(V('sl', 'Ss'), I(y))) for x, y in itertools.product(range(3), repeat=2)]
    a += [PRINT(CALL('e', [], ['s'])), PRINT(S('a'), CALL('e', [], ['s'])), PRINT(CALL('e', [], ['s']), S('a')), PRINT(CALL('two', [], ['s', 's'])), PRINT(S(''), S(''), S('')), PRINT(S('x'), S(''), S('y'), S('')), PRINT(S(''), S(' '), I(1), S(' '))]
    a += [PRINT(BIN('+', x, y)) for x, y in itertools.product([v for v in vs if v['t'] == 's'], repeat=2)]
    fb = FUNC('inside', [('p', 's'), ('n', 'i'), ('b', 'b')], [], [PRINT(V('p', 's'), V('n', 'i'), V('b', 'b')), PRINT(V('p', 's')), PRINT(V('n', 'i'), V('p', 's'))])
    a += [fb] + [EXPR(CALL('inside', [x, I(-1), B(k % 2 == 0)], [])) for k, x in enumerate(vals) if x['t'] == 's']
    return [P(st + ch, 'print%d' % k) for k, ch in enumerate(chunks(a[:-len([x for x in vals if x['t'] == 's']) - 1], 60))] + [P(st + a[-len([x for x in vals if x['t'] == 's']) - 1:], 'print-inside')]

def exit_table():
    """how a program may end"""
    b = lambda x: [PRINT(S(x))]
    T, F_ = CMP('==', I(1), I(1)), CMP('==', I(1), I(2))
    ends = dict(
        empty_if=[IF([(F_, b('a'))])], if_t=[IF([(T, b('a'))])], emptybody=[IF([(T, [])])], emptyelse=[IF([(F_, [])], [])],
        loop0=[FOR(VDEF(['i'], [I(0)]), CMP('<', V('i', 'i'), I(0)), INC('i'), b('a'))], loop1=[FOR(VDEF(['i'], [I(0)]), CMP('<', V('i', 'i'), I(2)), INC('i'), b('a'))],
        loopempty=[FOR(VDEF(['i'], [I(0)]), CMP('<', V('i', 'i'), I(2)), INC('i'), [])],
        forever=[FOR(None, None, None, [BREAK()])], cond=[VDEF(['n'], [I(2)]), FOR(None, CMP('>', V('n', 'i'), I(0)), None, [INC('n', '-')])],
        contlast=[FOR(VDEF(['i'], [I(0)]), CMP('<', V('i', 'i'), I(2)), INC('i'), [CONTINUE()])],
        swnone=[SWITCH(I(3), [(I(1), b('a'))])], swdef=[SWITCH(I(3), [], b('d'))], swempty=[SWITCH(I(3), [(I(3), [])], [])], swonlydefault=[SWITCH(None, [], b('d'))],
        zero=[VDEF(['z'], [BIN('-', I(1), I(1))])], boolf=[VDEF(['z'], [F_])], dec=[VDEF(['z'], [I(1)]), INC('z', '-')], opz=[VDEF(['z'], [I(3)]), OPA('z', '*', I(0))],
        nota=[VDEF(['z'], [NOT(T)])], emptystr=[VDEF(['z'], [S('')])], printempty=[PRINT(S(''))],
        panic=[PANIC(S('end'))], panicif=[IF([(T, [PANIC(S('in if'))])]), PRINT(S('not reached'))], panicelif=[IF([(F_, b('a')), (T, [PANIC(S('x'))])], b('z'))],
        panicloop=[FOR(VDEF(['i'], [I(0)]), CMP('<', V('i', 'i'), I(3)), INC('i'), [IF([(CMP('==', V('i', 'i'), I(1)), [PANIC(S('loop'))])]), PRINT(V('i', 'i'))])],
        panicsw=[SWITCH(I(1), [(I(1), [PANIC(BIN('+', S('a'), ITOA(I(7))))])])], panicelse=[IF([(F_, b('a'))], [PANIC(S('else'))]), PRINT(S('no'))],
        panicdeep=[FOR(None, None, None, [FOR(VDEF(['i'], [I(0)]), CMP('<', V('i', 'i'), I(2)), INC('i'), [IF([(T, [SWITCH(None, [(T, [PANIC(S('deep'))])])])])])])],
        panicskip=[IF([(F_, [PANIC(S('never'))])]), PRINT(S('on'))],
        print_bool=[PRINT(B(True), B(False), F_)], )
    out = [P([PRINT(S('start'))] + e, 'exit-' + k) for k, e in ends.items()]
    out += [P(e, 'exit1-' + k) for k, e in ends.items()]
    fe = {k: v for k, v in ends.items()}
    out += [P([FUNC('fn', [], [], [PRINT(S('in'))] + e), EXPR(CALL('fn', [], [])), PRINT(S('after')), EXPR(CALL('fn', [], []))], 'exitf-' + k) for k, e in fe.items()]
    return out

# ---------------------------------------------------------------- strings and slices
def str_table(maxlen=6, chars='abcdefgh'):
    """every in-range index and pair of bounds, as literals, variables and expressions"""
    out = []
    for n in range(maxlen + 1):
        s = chars[:n]
        x = V('s', 's')
        st = [VDEF(['s'], [S(s)]), VDEF(['a', 'b'], [I(0), I(0)]), VDEF(['r'], [S('')])]
        pr = lambda e: PRINT(LEN_OF(e), e)
        for i in range(n): st += [PRINT(IDX(x, I(i))), ASG(['a'], [I(i)]), PRINT(IDX(x, V('a', 'i')), CMP('==', IDX(x, V('a', 'i')), S(s[i])))]
        for a in range(n + 1):
            st += [ASG(['r'], [SUB(x, I(a))]), PRINT(LEN(V('r', 's')), V('r', 's')), ASG(['r'], [SUB(x, None, I(a))]), PRINT(LEN(V('r', 's')), V('r', 's'))]
            for b in range(a, n + 1):
                st += [ASG(['a', 'b'], [I(a), I(b)]), ASG(['r'], [SUB(x, V('a', 'i'), V('b', 'i'))]), PRINT(LEN(V('r', 's')), V('r', 's'))]
                st += [PRINT(BIN('+', BIN('+', S('<'), SUB(x, I(a), BIN('+', V('a', 'i'), I(b - a)))), S('>')))]
        st += [PRINT(SUB(x)), RNG('i', 'c', x, [PRINT(V('i', 'i'), V('c', 's'))]), RNG('_', 'c', S(s), [PRINT(V('c', 's'))]), PRINT(LEN(x))]
        out.append(P(st, 'str%d' % n))
    return out
def LEN_OF(e): return LEN(e)

def slice_table(types=('i', 'b', 's'), maxlen=12):
    """growth from every length to every index beyond it, with gaps; copies between every two lengths; aliases"""
    val = {'i': lambda k: I(k * 7 - 3), 'b': lambda k: B(k % 2 == 0), 's': lambda k: S('e%d' % k)}
    out = []
    def show(n, t): return [PRINT(S(n), LEN(V(n, 'S' + t))), RNG('i', 'x', V(n, 'S' + t), [PRINT(V('i', 'i'), V('x', t))])]
    for t in types:
        st, k = [], 0
        for n in (0, 1, 2, 9, 10, 11):
            for i in (n, n + 1, n + 3):
                k += 1
                nm = 's%d' % k
                st += [VDEF([nm], [SL(t, [val[t](j) for j in range(n)])]), SAS(nm, I(i), val[t](50))] + show(nm, t)
        out += [P(ch, 'grow%s%d' % (t, q)) for q, ch in enumerate(chunks(st, 24))]
        st, k = [], 0
        for n in (0, 1, 3, 10, 12):
            for m in (0, 1, 3, 10, 12):
                k += 1
                d, s = 'd%d' % k, 'r%d' % k
                st += [VDEF([d], [SL(t, [val[t](90 + j) for j in range(m)])]), VDEF([s], [SL(t, [val[t](j) for j in range(n)])]),
                       VDEF(['n%d' % k], [COPY(d, V(s, 'S' + t), 'S' + t)]), PRINT(V('n%d' % k, 'i'))] + show(d, t)
                if n: st += [SAS(d, I(0), val[t](77)), PRINT(IDX(V(s, 'S' + t), I(0)), IDX(V(d, 'S' + t), I(0)))]
        out += [P(ch, 'copy%s%d' % (t, q)) for q, ch in enumerate(prog_chunks(st, d=24))]
        # aliases: variable, parameter, result, element type zero values
        st = [FUNC('id', [('p', 'S' + t)], ['S' + t], [RETURN(V('p', 'S' + t))]),
              FUNC('grow', [('p', 'S' + t), ('at', 'i'), ('v', t)], [], [SAS('p', V('at', 'i'), V('v', t))]),
              FUNC('mk', [('v', t)], ['S' + t], [VDEF(['loc'], [SL(t, [V('v', t), V('v', t)])]), RETURN(V('loc', 'S' + t))]),
              FUNC('two', [('p', 'S' + t), ('q', 'S' + t)], ['S' + t, 'S' + t], [RETURN(V('q', 'S' + t), V('p', 'S' + t))]),
              FUNC('swap', [('p', 'S' + t)], [], [VDEF(['p0'], [IDX(V('p', 'S' + t), I(0))]), SAS('p', I(0), IDX(V('p', 'S' + t), I(1))), SAS('p', I(1), V('p0', t))]),
              VDEF(['a'], [SL(t, [val[t](1), val[t](2)])]), VDEF(['b'], [V('a', 'S' + t)]), VDEF(['c'], [CALL('id', [V('b', 'S' + t)], ['S' + t])]),
              SAS('c', I(0), val[t](10)), EXPR(CALL('grow', [V('a', 'S' + t), I(4), val[t](11)], [])), SAS('b', LEN(V('c', 'S' + t)), val[t](12))] + show('a', t) + show('b', t) + show('c', t)
        st += [VDEF(['m1', 'm2'], [CALL('mk', [val[t](3)], ['S' + t]), CALL('mk', [val[t](4)], ['S' + t])]), SAS('m1', I(0), val[t](5))] + show('m1', t) + show('m2', t)
        st += [VDEF(['x1', 'x2'], [CALL('two', [V('m1', 'S' + t), V('m2', 'S' + t)], ['S' + t, 'S' + t])]), SAS('x1', I(1), val[t](20)), SAS('x2', I(3), val[t](21))] + show('m1', t) + show('m2', t)
        st += [ASG(['a', 'm1'], [V('m1', 'S' + t), V('a', 'S' + t)]), SAS('a', I(1), val[t](31)), EXPR(CALL('swap', [V('m1', 'S' + t)], []))] + show('a', t) + show('b', t) + show('m1', t) + show('x2', t)
        st += [VDEF(['e'], [], 'vart', 'S' + t), VDEF(['e2'], [V('e', 'S' + t)]), SAS('e2', I(2), val[t](1))] + show('e', t)
        out.append(P(st, 'alias' + t))
    return out
def prog_chunks(st, d): return chunks(st, 10 ** 6)

def random_progs(seed, n, name, **kw):
    return [P(gen.program('%s/%s/%d' % (seed, name, i), **kw), '%s-%s-%d' % (name, seed, i)) for i in range(n)]

# the fragments' random profiles
def profile(name):
    return dict(
        scalar=dict(slices=False, strops=False, funcs=0, depth=4, stmts=12, size=70, marks=.15, dump=.6),
        ctl=dict(slices=False, strops=False, funcs=1, depth=5, stmts=8, size=60, marks=.6, dump=.3, types=('i', 'b'), edepth=1, maxcost=600),
        exprs=dict(slices=False, strops=False, funcs=0, depth=1, stmts=16, size=40, edepth=5, loops=False),
        calls=dict(slices=False, strops=False, funcs=6, depth=3, stmts=12, size=90, names=['a', 'b', 'c', 'n', 'x'], manyparams=.1, maxcost=900),
        callsl=dict(slices=True, strops=True, funcs=6, depth=3, stmts=12, size=90, names=['a', 'b', 'c', 'n', 'x'], maxcost=900),
        data=dict(slices=True, strops=True, funcs=2, depth=2, stmts=16, size=80, growth=10, copies=2, sdefs=3, marks=0),
        grow=dict(slices=True, strops=False, funcs=3, depth=2, stmts=18, size=90, growth=30, copies=2, sdefs=4, types=('i', 's')),
        order=dict(effects=.35, slices=True, strops=True, funcs=3, depth=3, stmts=8, size=50, edepth=2, maxcost=700),
        order2=dict(effects=.7, slices=True, strops=False, funcs=2, depth=3, stmts=6, size=40, edepth=2, maxcost=700, types=('i', 'b')),
        io=dict(effects=.15, funcs=4, depth=3, stmts=14, size=70, edepth=2, maxcost=600, io=['f1', 'f 2', 'd-3']),
        mixed=dict(stmts=12, size=90, funcs=4, effects=.05),
    )[name]

def io_progs(seed, n):
    """random programs that also write, read and append to files and run commands; the directory is compared after the run"""
    ps = random_progs(seed, n, 'io', **profile('io'))
    for p in ps: p.update(ckfs=True, probes=True)
    return ps

# ---------------------------------------------------------------- evaluation order
def order_table(rng, full=False, apps=False):
    """every operand position of every construct, filled with: a tracing call, a global that later operands change, a call that
    changes the global, nested combinations"""
    N = [0]
    def op(t):
        """operand generators of a type, all over the globals g (int), h (string), w (bool), sl ([]int), st ([]string)"""
        def tr(x):
            N[0] += 1
            return CALL({'i': 'ti', 'b': 'tb', 's': 'ts'}[t], [I(N[0]), x], [t])
        base = {'i': [lambda: V('g', 'i'), lambda: CALL('mi', [I(rng.randint(1, 3))], ['i']), lambda: tr(I(rng.randint(0, 3))), lambda: IDX(V('sl', 'Si'), I(0)), lambda: tr(V('g', 'i')), lambda: LEN(V('h', 's')), lambda: LEN(V('sl', 'Si'))],
                'b': [lambda: V('w', 'b'), lambda: CALL('mb', [], ['b']), lambda: tr(B(rng.random() < .5)), lambda: tr(V('w', 'b')), lambda: CMP('==', V('g', 'i'), I(2)), lambda: CMP('<', CALL('mi', [I(1)], ['i']), I(4))],
                's': [lambda: V('h', 's'), lambda: CALL('ms', [S(rng.choice('pqr'))], ['s']), lambda: tr(S(rng.choice('xyz'))), lambda: tr(V('h', 's')), lambda: IDX(V('st', 'Ss'), I(0)), lambda: ITOA(V('g', 'i')), lambda: SUB(V('h', 's'), I(0), I(1))]}[t]
        return base
    def mod3(e): return BIN('%', BIN('+', BIN('%', e, I(3)), I(3)), I(3))
    cons = []
    def c(name, ts, f): cons.append((name, ts, f))
    for o in '+-*': c('bin' + o, 'ii', lambda a, b, o=o: [PRINT(BIN(o, a, b))])
    c('bin3', 'iii', lambda a, b, d: [PRINT(BIN('-', BIN('+', a, b), d))])
    c('bin3r', 'iii', lambda a, b, d: [PRINT(BIN('-', a, BIN('+', b, d)))])
    c('div', 'ii', lambda a, b: [PRINT(BIN('/', a, BIN('+', mod3(b), I(1))))])
    c('cat', 'ss', lambda a, b: [PRINT(BIN('+', a, b))])
    c('cat3', 'sss', lambda a, b, d: [PRINT(BIN('+', BIN('+', a, b), d))])
    for o in ('==', '<', '>='): c('cmp' + o, 'ii', lambda a, b, o=o: [PRINT(CMP(o, a, b))])
    c('cmps', 'ss', lambda a, b: [PRINT(CMP('!=', a, b))])
    for o in ('&&', '||'):
        c('log' + o, 'bb', lambda a, b, o=o: [PRINT(LOG(o, a, b))])
        c('log3' + o, 'bbb', lambda a, b, d, o=o: [PRINT(LOG('||', LOG('&&', a, b), d), LOG(o, a, GRP(LOG('||', b, d))))])
    c('not', 'b', lambda a: [PRINT(NOT(a), GRP(a))])
    c('print', 'isb', lambda a, b, d: [PRINT(a, b, d)])
    c('print2', 'iii', lambda a, b, d: [PRINT(a, b, d, V('g', 'i'))])
    c('args', 'iii', lambda a, b, d: [EXPR(CALL('show3', [a, b, d], []))])
    c('argsm', 'isb', lambda a, b, d: [EXPR(CALL('showm', [a, b, d], []))])
    c('nest', 'iii', lambda a, b, d: [PRINT(CALL('sum', [CALL('sum', [a, b], ['i']), d], ['i']))])
    c('index', 'i', lambda a: [PRINT(IDX(V('sl', 'Si'), mod3(a)))])
    c('strindex', 'i', lambda a: [VDEF(['q'], [S('klm')]), PRINT(IDX(V('q', 's'), mod3(a)))])
    c('sub', 'ii', lambda a, b: [VDEF(['q'], [S('klmnop')]), PRINT(SUB(V('q', 's'), mod3(a), BIN('+', mod3(b), I(3))))])
    c('store', 'ii', lambda a, b: [SAS('sl', mod3(a), b), PRINT(IDX(V('sl', 'Si'), I(0)), IDX(V('sl', 'Si'), I(1)), IDX(V('sl', 'Si'), I(2)))])
    c('elems', 'iii', lambda a, b, d: [VDEF(['q'], [SL('i', [a, b, d])]), RNG('qi', 'qv', V('q', 'Si'), [PRINT(V('qi', 'i'), V('qv', 'i'))])])
    c('selems', 'ss', lambda a, b: [VDEF(['q'], [SL('s', [a, b])]), PRINT(IDX(V('q', 'Ss'), I(0)), IDX(V('q', 'Ss'), I(1)))])
    c('def', 'i', lambda a: [VDEF(['q'], [a]), PRINT(V('q', 'i'))])
    c('mdef', 'iis', lambda a, b, d: [VDEF(['q', 'r', 'z'], [a, b, d]), PRINT(V('q', 'i'), V('r', 'i'), V('z', 's'))])
    c('masg', 'ii', lambda a, b: [ASG(['u', 'g'], [a, b]), PRINT(V('u', 'i'), V('g', 'i'))])
    c('masg3', 'sii', lambda a, b, d: [ASG(['h', 'g', 'u'], [a, b, d]), PRINT(V('h', 's'), V('u', 'i'), V('g', 'i'))])
    for o in '+-*': c('op' + o, 'i', lambda a, o=o: [OPA('g', o, a), PRINT(V('g', 'i'))])
    c('ops', 's', lambda a: [OPA('h', '+', a), PRINT(V('h', 's'))])
    c('itoa', 'i', lambda a: [PRINT(ITOA(a), LEN(V('h', 's')))])
    c('panicif', 's', lambda a: [IF([(CMP('==', V('g', 'i'), I(-99999)), [PANIC(a)])])])
    c('if', 'bb', lambda a, b: [IF([(a, [PRINT(S('1'), V('g', 'i'))]), (b, [PRINT(S('2'))])], [PRINT(S('3'))])])
    c('if3', 'bbb', lambda a, b, d: [IF([(a, [INC('g'), PRINT(S('1'))]), (b, [PRINT(S('2'))]), (d, [PRINT(S('3'))])])])
    c('sw', 'ii', lambda a, b: [VDEF(['q'], [I(2)]), SWITCH(V('q', 'i'), [(a, [PRINT(S('1'))]), (b, [PRINT(S('2'), V('g', 'i'))])], [PRINT(S('d'))])])
    c('swtrue', 'bbb', lambda a, b, d: [SWITCH(None, [(a, [PRINT(S('1'))]), (b, [PRINT(S('2'))]), (d, [PRINT(S('3'))])], [PRINT(S('d'))])])
    c('sws', 'ss', lambda a, b: [VDEF(['q'], [S('x')]), SWITCH(V('q', 's'), [(a, [PRINT(S('1'))]), (b, [PRINT(S('2'))])])])
    c('for', 'ii', lambda a, b: [FOR(VDEF(['q'], [I(0)]), CMP('<', V('q', 'i'), BIN('-', BIN('+', I(3), CALL('ti', [I(900), I(0)], ['i'])), GRP(mod3(a)))), OPA('q', '+', BIN('+', mod3(b), I(1))), [PRINT(V('q', 'i'), V('g', 'i'))])])
    c('forc', 'b', lambda a: [VDEF(['q'], [I(0)]), FOR(None, LOG('&&', CMP('<', V('q', 'i'), I(3)), LOG('||', a, CMP('<', V('q', 'i'), I(2)))), INC('q'), [IF([(CMP('==', V('q', 'i'), I(1)), [CONTINUE()])]), PRINT(S('b'), V('q', 'i'))])])
    c('forinit', 'i', lambda a: [FOR(VDEF(['q'], [mod3(a)]), CMP('<', V('q', 'i'), CALL('ti', [I(901), I(4)], ['i'])), INC('q'), [PRINT(V('q', 'i'))])])
    c('ret', 'ii', lambda a, b: [PRINT(S('r')), PRINT(CALL('pair', [a, b], ['i', 'i']))])
    c('read', 's', lambda a: [PRINT(EXISTS(BIN('+', S('no-'), a)))])
    c('expr', 'i', lambda a: [EXPR(a)] if a['k'] == 'call' else [PRINT(a)])
    # switch values, range operands, results and file operations with effects
    c('swtag', 'iii', lambda a, b, d: [SWITCH(a, [(b, [PRINT(S('1'), V('g', 'i'))]), (d, [PRINT(S('2'))])], [PRINT(S('d'), V('g', 'i'))])])
    c('swtags', 'ss', lambda a, b: [SWITCH(a, [(b, [ASG(['h'], [S('in')]), PRINT(S('1'), V('h', 's'))]), (S('ab'), [PRINT(S('2'))])], [PRINT(S('d'))])])
    c('swtagb', 'bb', lambda a, b: [SWITCH(a, [(b, [PRINT(S('1'))]), (NOT(V('w', 'b')), [PRINT(S('2'))])])])
    c('swnest', 'ii', lambda a, b: [SWITCH(a, [(I(2), [SWITCH(b, [(V('g', 'i'), [PRINT(S('in'))])], [PRINT(S('other'), V('g', 'i'))])]), (b, [PRINT(S('two'))])], [PRINT(S('none'))])])
    c('rngs', 's', lambda a: [RNG('ri', 'rv', a, [PRINT(V('ri', 'i'), V('rv', 's')), ASG(['h'], [S('changed')])]), PRINT(V('h', 's'))])
    c('rngcat', 'ss', lambda a, b: [RNG('ri', 'rv', GRP(BIN('+', a, b)), [PRINT(V('ri', 'i'), V('rv', 's')), OPA('h', '+', V('rv', 's'))]), PRINT(V('h', 's'))])
    c('rngsl', 'ii', lambda a, b: [RNG('ri', 'rv', SL('i', [a, b]), [PRINT(V('ri', 'i'), V('rv', 'i')), OPA('g', '+', V('rv', 'i'))]), PRINT(V('g', 'i'))])
    c('rngret', 'i', lambda a: [RNG('ri', 'rv', CALL('mksl', [a], ['Si']), [PRINT(V('ri', 'i'), V('rv', 'i')), ASG(['sl'], [SL('i', [I(70), I(71), I(72)])])]), PRINT(IDX(V('sl', 'Si'), I(0)))])
    c('rngg', 'i', lambda a: [RNG('ri', 'rv', V('sl', 'Si'), [ASG(['sl'], [SL('i', [a, I(8), I(9)])]), PRINT(V('ri', 'i'), V('rv', 'i'))])])
    c('ret3', 'is', lambda a, b: [VDEF(['qa', 'qb', 'qc', 'qd'], [CALL('four', [a, b], ['i', 'i', 's', 's'])]), PRINT(V('qa', 'i'), V('qb', 'i'), V('qc', 's'), V('qd', 's'))])
    c('spread', 'is', lambda a, b: [PRINT(CALL('four', [a, b], ['i', 'i', 's', 's'])), ASG(['u', 'g', '_', 'h'], [CALL('four', [a, b], ['i', 'i', 's', 's'])]), PRINT(V('u', 'i'), V('g', 'i'), V('h', 's'))])
    c('copy', 'i', lambda a: [PRINT(V('g', 'i'), COPY('sl', CALL('mksl', [a], ['Si']), 'Si'), V('g', 'i'), IDX(V('sl', 'Si'), I(0)))])
    c('elem3', 'iis', lambda a, b, d: [SAS('st', mod3(a), BIN('+', ITOA(b), d)), RNG('_', 'rv', V('st', 'Ss'), [PRINT(S('e'), V('rv', 's'))])])
    c('whileg', 'i', lambda a: [VDEF(['q'], [I(0)]), FOR(None, LOG('&&', CMP('<', V('q', 'i'), I(3)), CMP('!=', a, I(-7))), None, [INC('q'), PRINT(V('q', 'i'), V('g', 'i'))])])
    if apps:
        c('wr', 'ss', lambda a, b: [WRITE(BIN('+', S('f'), a), b), PRINT(EXISTS(BIN('+', S('f'), V('h', 's')))), WRITE(S('f0'), b, CMP('==', a, V('h', 's'))), PRINT(READ(S('f0')))])
        c('wrf', 'bs', lambda a, b: [WRITE(S('f1'), S('x')), WRITE(S('f1'), b, a), PRINT(READ(S('f1')))])
        c('app', 'sss', lambda a, b, d: [EXPR(APP([('pshow', [a, b, d], 'pshow')]))])
        c('apppipe', 'ss', lambda a, b: [EXPR(APP([('pecho', [a], 'pecho'), ('pfilt', [b], 'pfilt')]))])
        c('appcap', 'ss', lambda a, b: [VDEF(['q', '_', 'qc'], [APP([('pecho', [a], 'pecho'), ('pfilt', [b], 'pfilt')], True)]), PRINT(V('q', 's'), V('qc', 'i'), V('h', 's'))])
        c('appasg', 's', lambda a: [ASG(['h', '_', 'g'], [APP([('pecho', [a], 'pecho'), ('pcat', [], 'pcat')], True)]), PRINT(V('h', 's'), V('g', 'i'))])
    progs = []
    for name, ts, f in cons:
        gens = [op(t) for t in ts]
        combos = list(itertools.product(*gens))
        if not full:
            k = min(len(combos), 24 if apps else 10)
            combos = rng.sample(combos, k)
        elif len(combos) > 120: combos = rng.sample(combos, 120)
        progs += [(name, [g() for g in cb], f) for cb in combos]
    rng.shuffle(progs)
    pre = [VDEF(['g', 'h', 'w', 'u'], [I(2), S('ab'), B(True), I(0)]), VDEF(['sl'], [SL('i', [I(4), I(5), I(6)])]), VDEF(['st'], [SL('s', [S('e'), S('f')])]),
           FUNC('ti', [('id', 'i'), ('v', 'i')], ['i'], [PRINT(S('ti'), V('id', 'i'), V('v', 'i')), RETURN(V('v', 'i'))]),
           FUNC('tb', [('id', 'i'), ('v', 'b')], ['b'], [PRINT(S('tb'), V('id', 'i'), V('v', 'b')), RETURN(V('v', 'b'))]),
           FUNC('ts', [('id', 'i'), ('v', 's')], ['s'], [PRINT(S('ts'), V('id', 'i'), V('v', 's')), RETURN(V('v', 's'))]),
           FUNC('mi', [('k', 'i')], ['i'], [OPA('g', '+', V('k', 'i')), SAS('sl', I(0), V('g', 'i')), PRINT(S('mi'), V('g', 'i')), IF([(CMP('>', V('g', 'i'), I(1000)), [ASG(['g'], [I(1)])])]), RETURN(V('g', 'i'))]),
           FUNC('mb', [], ['b'], [ASG(['w'], [NOT(V('w', 'b'))]), INC('g'), PRINT(S('mb'), V('w', 'b')), RETURN(V('w', 'b'))]),
           FUNC('ms', [('k', 's')], ['s'], [ASG(['h'], [BIN('+', V('k', 's'), SUB(V('h', 's'), I(0), I(1)))]), SAS('st', I(0), V('h', 's')), PRINT(S('ms'), V('h', 's')), RETURN(V('h', 's'))]),
           FUNC('show3', [('a', 'i'), ('b', 'i'), ('c', 'i')], [], [PRINT(V('a', 'i'), V('b', 'i'), V('c', 'i'), V('g', 'i'))]),
           FUNC('showm', [('a', 'i'), ('b', 's'), ('c', 'b')], [], [PRINT(V('a', 'i'), V('b', 's'), V('c', 'b'))]),
           FUNC('sum', [('a', 'i'), ('b', 'i')], ['i'], [PRINT(S('sum'), V('a', 'i'), V('b', 'i')), RETURN(BIN('+', V('a', 'i'), V('b', 'i')))])]
    pre += [FUNC('mksl', [('k', 'i')], ['Si'], [INC('g'), PRINT(S('mksl'), V('k', 'i')), RETURN(SL('i', [V('k', 'i'), V('g', 'i'), CALL('mi', [I(1)], ['i'])]))]),
            FUNC('four', [('k', 'i'), ('t', 's')], ['i', 'i', 's', 's'], [RETURN(V('g', 'i'), BIN('+', CALL('mi', [I(2)], ['i']), V('k', 'i')), V('h', 's'), BIN('+', CALL('ms', [V('t', 's')], ['s']), ITOA(V('g', 'i'))))])]
    pair = FUNC('pair', [('a', 'i'), ('b', 'i')], ['i', 'i'], [RETURN(CALL('ti', [I(800), V('a', 'i')], ['i']), BIN('+', CALL('mi', [I(1)], ['i']), V('b', 'i')))])
    out = []
    for i, ch in enumerate(chunks(progs, 12)):
        st = list(pre) + [pair]
        for k, (name, args, f) in enumerate(ch):
            reset = [ASG(['g', 'h', 'w'], [I(rng.randint(1, 3)), S(rng.choice(['ab', 'cd'])), B(rng.random() < .5)])]
            body = [PRINT(S('#' + name))] + f(*args)
            ctx = rng.randrange(4)
            if ctx == 0: body = [IF([(B(True), body)])]
            elif ctx == 1: body = [FUNC('ctx%d' % k, [], [], body), EXPR(CALL('ctx%d' % k, [], []))]
            elif ctx == 2: body = [FOR(VDEF(['rep'], [I(0)]), CMP('<', V('rep', 'i'), I(2)), INC('rep'), body)]
            else: body = [IF([(B(True), body)])] if any(s['k'] in ('vdef',) for s in body) else body
            st += reset + body
        st.append(PRINT(V('g', 'i'), V('h', 's'), V('w', 'b')))
        out.append(P(st, 'order%d' % i, **(dict(probes=True, ckargv=True) if apps else {})))
    return out

def keep_table(rng, full=False, apps=False):
    """A value of every kind, followed in the same statement by an expression of every kind in whose inside a call changes what the
    value was made of: the value is the old one.  All pairs, in some (full: all) contexts."""
    i, s_, b = (lambda n: V(n, 'i')), (lambda n: V(n, 's')), (lambda n: V(n, 'b'))
    mi, ms, mb, msl, mst = CALL('mi', [], ['i']), CALL('ms', [], ['s']), CALL('mb', [], ['b']), CALL('msl', [], ['Si']), CALL('mst', [], ['Ss'])
    g, h, w, sl, st = i('g'), s_('h'), b('w'), V('sl', 'Si'), V('st', 'Ss')
    idx = lambda e: BIN('%', e, I(2))
    kept = [g, h, w, GRP(g), GRP(h), ITOA(g), GRP(ITOA(g)), BIN('+', g, I(1)), BIN('*', I(2), g), BIN('+', h, S('x')), BIN('+', S('x'), h), BIN('+', h, h), LEN(h), LEN(sl), LEN(st), IDX(sl, I(0)), IDX(sl, idx(g)), IDX(st, I(0)), IDX(h, I(0)), SUB(h, None, I(1)), SUB(h, I(1)), SUB(h), SUB(h, idx(g), I(1)),
            NOT(w), NOT(GRP(w)), LOG('&&', w, B(True)), LOG('||', w, B(False)), CMP('==', g, I(2)), CMP('<', g, I(3)), CMP('==', h, S('ab')), CMP('!=', w, B(False)), GRP(BIN('-', g, I(1))), ITOA(BIN('+', g, I(1))), BIN('+', BIN('*', g, g), LEN(h)), BIN('+', ITOA(g), h)]
    calls = [mi, GRP(mi), ITOA(mi), NOT(mb), NOT(GRP(mb)), LEN(ms), LEN(msl), LEN(mst), BIN('+', I(1), mi), BIN('*', mi, I(2)), BIN('+', S('a'), ms), BIN('+', ms, S('a')), CMP('<', mi, I(3)), CMP('==', S('ab'), ms), LOG('&&', B(False), mb), LOG('||', mb, B(True)), LOG('||', B(True), LOG('&&', B(True), mb)),
             IDX(V('fix', 'Si'), idx(mi)), IDX(V('text', 's'), idx(mi)), SUB(V('text', 's'), idx(mi)), SUB(V('text', 's'), None, idx(mi)), SUB(V('text', 's'), I(0), idx(mi)), LEN(SUB(V('text', 's'), idx(mi))), LEN(SL('i', [I(1), mi])), LEN(SL('s', [ms])), COPY('dst', msl, 'Si'), COPY('dst', SL('i', [mi]), 'Si'),
             CALL('id', [mi], ['i']), CALL('id', [CALL('id', [BIN('+', mi, I(1))], ['i'])], ['i']), CALL('ids', [ITOA(mi)], ['s']), ITOA(LEN(BIN('+', ms, ITOA(mi)))), GRP(GRP(LEN(GRP(ms)))), EXISTS(ms), EXISTS(BIN('+', S('no'), ITOA(mi)))]
    if apps: calls += [READ(CALL('path', [], ['s'])), LEN(READ(CALL('path', [], ['s']))), EXISTS(CALL('path', [], ['s'])), NOT(EXISTS(CALL('path', [], ['s']))), INPUT(ms), LEN(INPUT(BIN('+', ms, S('?'))))]
    ctxs = [lambda k, c: [PRINT(k, c)], lambda k, c: [VDEF(['p', 'q'], [k, c]), PRINT(V('p', k['t']), V('q', c['t']))], lambda k, c: [EXPR(CALL('two' + k['t'] + c['t'], [k, c], []))], lambda k, c: [PRINT(CALL('ret' + k['t'] + c['t'], [], [k['t'], c['t']]))],
            lambda k, c: [VDEF(['p'], [SL(k['t'], [k, c] if k['t'] == c['t'] else [k, k])]), PRINT(IDX(V('p', 'S' + k['t']), I(0)), c)] if k['t'] == c['t'] else [PRINT(GRP(k), S('m'), c, k)],
            lambda k, c: [PRINT(BIN('+', k, c))] if k['t'] == c['t'] and k['t'] in 'is' else [PRINT(CMP('==', k, c))] if k['t'] == c['t'] else [PRINT(k, k, c)],
            lambda k, c: [IF([(LOG('||', CMP('==', k, k), CMP('!=', c, c)), [PRINT(S('y'), i('g'), s_('h'))])]), PRINT(k, c)],
            lambda k, c: [IF([(CMP('==', k, {'i': I(2), 's': S('ab'), 'b': B(True)}[k['t']]), [PRINT(S('1'))]), (CMP('==', c, {'i': I(3), 's': S('ab'), 'b': B(True)}[c['t']]), [PRINT(S('2'))])], [PRINT(S('3'))])]]
    pairs = [(k, c) for k in kept for c in calls]
    rng.shuffle(pairs)
    todo = [(k, c, x) for n, (k, c) in enumerate(pairs) for x in (range(len(ctxs)) if full else rng.sample(range(len(ctxs)), 1))]
    chg = [INC('g'), ASG(['h'], [BIN('+', S('z'), h)]), ASG(['w'], [NOT(w)]), SAS('sl', I(0), BIN('*', g, I(10))), SAS('sl', LEN(sl), g), SAS('st', I(0), h), SAS('st', LEN(st), S('n'))]
    pre0 = [VDEF(['g', 'h', 'w', 'sl', 'st'], [I(2), S('ab'), B(True), SL('i', [I(4), I(5)]), SL('s', [S('e')])]), VDEF(['fix', 'dst', 'text'], [SL('i', [I(7), I(8)]), SL('i', [I(0)]), S('klm')]),
            FUNC('chg', [], [], chg), FUNC('reset', [], [], [ASG(['g', 'h', 'w', 'sl', 'st'], [I(2), S('ab'), B(True), SL('i', [I(4), I(5)]), SL('s', [S('e')])])]),
            FUNC('mi', [], ['i'], [EXPR(CALL('chg', [], [])), RETURN(g)]), FUNC('ms', [], ['s'], [EXPR(CALL('chg', [], [])), RETURN(h)]), FUNC('mb', [], ['b'], [EXPR(CALL('chg', [], [])), RETURN(w)]), FUNC('msl', [], ['Si'], [EXPR(CALL('chg', [], [])), RETURN(sl)]), FUNC('mst', [], ['Ss'], [EXPR(CALL('chg', [], [])), RETURN(st)]),
            FUNC('id', [('x', 'i')], ['i'], [RETURN(i('x'))]), FUNC('ids', [('x', 's')], ['s'], [RETURN(s_('x'))])]
    if apps: pre0 += [WRITE(S('kf'), S('content')), FUNC('path', [], ['s'], [EXPR(CALL('chg', [], [])), RETURN(S('kf'))])]
    for a in 'isb':
        for z in 'isb': pre0.append(FUNC('two' + a + z, [('x', a), ('y', z)], [], [PRINT(V('x', a), V('y', z))]))
    out = []
    for n, part in enumerate(chunks(todo, 24)):
        st_, pre = [], list(pre0)
        for m, (k, c, x) in enumerate(part):
            body = ctxs[x](k, c)
            if x == 3:
                pre.append(FUNC('r%d' % m, [], [k['t'], c['t']], [RETURN(k, c)]))
                body = [PRINT(CALL('r%d' % m, [], [k['t'], c['t']]))]
            if m % 3 == 1:
                pre.append(FUNC('f%d' % m, [], [], body))
                body = [EXPR(CALL('f%d' % m, [], []))]
            elif m % 3 == 2 or body[0]['k'] == 'vdef': body = [IF([(CMP('==', LEN(V('text', 's')), I(3)), body)])]
            st_ += [EXPR(CALL('reset', [], []))] + body
        out.append(P(pre + st_, 'keep%d' % n, **(dict(probes=True, stdin=['first', 'second line', '', '4']) if apps else {})))
    return out

def expr_stmts():
    """Expressions as statements.  Whether they are accepted is left open; an accepted one is evaluated, once."""
    i, st_, b = (lambda k: CALL('ti', [I(k)], ['i'])), (lambda k: CALL('ts', [S('t%d' % k)], ['s'])), (lambda k, v=True: CALL('tb', [I(k), B(v)], ['b']))
    sl = CALL('mk', [I(4)], ['Si'])
    es = dict(add=BIN('+', i(1), i(2)), nest=BIN('*', GRP(BIN('-', i(1), i(2))), i(3)), cmp=CMP('<', i(1), i(2)), cmps=CMP('==', st_(1), st_(2)), cat=BIN('+', st_(1), BIN('+', S('x'), st_(2))),
              land=LOG('&&', b(1, False), b(2)), lor=LOG('||', b(1), b(2)), lmix=LOG('||', LOG('&&', b(1, False), b(2)), CMP('>', i(3), i(4))), inv=NOT(GRP(b(1))), grp=GRP(i(1)), slit=SL('i', [i(1), i(2)]), slits=SL('s', [st_(1)]),
              len_=LEN(st_(1)), lensl=LEN(sl), itoa=ITOA(i(1)), exists=EXISTS(st_(1)), copy=COPY('sl', sl, 'Si'), call=i(1), call2=CALL('two', [i(1), i(2)], ['i', 's']), arg=CALL('ti', [BIN('+', i(1), CALL('ti', [i(2)], ['i']))], ['i']),
              sub=CMP('==', SUB(V('gs', 's'), i(0), i(1)), st_(1)), elem=BIN('+', IDX(V('sl', 'Si'), i(1)), i(2)), var=BIN('+', V('g', 'i'), I(1)), lit=I(3), void=CALL('none', [i(1)], []))
    pre = [VDEF(['g', 'gs', 'sl'], [I(0), S('abc'), SL('i', [I(5), I(6)])]),
           FUNC('ti', [('a', 'i')], ['i'], [INC('g'), PRINT(S('ti'), V('a', 'i'), V('g', 'i')), RETURN(V('a', 'i'))]), FUNC('ts', [('a', 's')], ['s'], [INC('g'), PRINT(S('ts'), V('a', 's'), V('g', 'i')), RETURN(V('a', 's'))]),
           FUNC('tb', [('a', 'i'), ('v', 'b')], ['b'], [INC('g'), PRINT(S('tb'), V('a', 'i'), V('g', 'i')), RETURN(V('v', 'b'))]), FUNC('mk', [('a', 'i')], ['Si'], [PRINT(S('mk'), V('a', 'i')), RETURN(SL('i', [V('a', 'i')]))]),
           FUNC('two', [('a', 'i'), ('b', 'i')], ['i', 's'], [PRINT(S('two'), V('a', 'i'), V('b', 'i')), RETURN(V('b', 'i'), S('r'))]), FUNC('none', [('a', 'i')], [], [PRINT(S('none'), V('a', 'i'))])]
    ctx = dict(top=lambda x: x, func=lambda x: [FUNC('fx', [('p', 'i')], ['i'], x + [RETURN(V('p', 'i'))]), PRINT(CALL('fx', [I(7)], ['i'])), EXPR(CALL('fx', [I(8)], ['i']))],
               loop=lambda x: [FOR(VDEF(['q'], [I(0)]), CMP('<', V('q', 'i'), I(2)), INC('q'), x)], branch=lambda x: [IF([(CMP('>', V('g', 'i'), I(90)), [PRINT(S('no'))])], x), IF([(CMP('<', V('g', 'i'), I(90)), x)])],
               case=lambda x: [SWITCH(V('gs', 's'), [(S('abc'), x)], [PRINT(S('d'))]), SWITCH(V('gs', 's'), [(S('abd'), [PRINT(S('d'))])], x)])
    return [P(pre + c([EXPR(e)]) + [PRINT(S('end'), V('g', 'i'), LEN(V('sl', 'Si')), IDX(V('sl', 'Si'), I(0)))], 'stmt-%s-%s' % (n, k), mayreject=True) for n, e in es.items() for k, c in ctx.items()]

def error_table():
    """error is a string type, nil an empty string; the usual ways to pass errors"""
    e, i, s, N = (lambda n: V(n, 'e')), (lambda n: V(n, 'i')), (lambda n: V(n, 's')), NIL
    isnil = lambda x: CMP('==', x, N())
    out = [P([VDEF(['a'], [], 'vart', 'e'), VDEF(['b', 'c'], [N(), S('bad')], 'vart', 'e'), VDEF(['d'], [N()]), PRINT(isnil(e('a')), isnil(e('b')), isnil(e('c')), isnil(e('d')), CMP('!=', N(), e('c')), isnil(N())), PRINT(S('<'), e('a'), e('c'), N(), S('>')), PRINT(LEN(e('b')), LEN(e('c'))),
              ASG(['a'], [e('c')]), ASG(['c'], [N()]), PRINT(e('a'), isnil(e('a')), isnil(e('c'))), ASG(['a', 'c'], [e('c'), e('a')]), PRINT(isnil(e('a')), e('c'), CMP('==', e('a'), e('d')), CMP('==', e('a'), e('c')))], 'err-vars'),
           P([FUNC('div', [('a', 'i'), ('b', 'i')], ['i', 'e'], [IF([(CMP('==', i('b'), I(0)), [RETURN(I(0), S('division by zero'))])]), RETURN(BIN('/', i('a'), i('b')), N())]),
              FUNC('both', [('a', 'i'), ('b', 'i')], ['i', 'e'], [VDEF(['r', 'err'], [CALL('div', [i('a'), i('b')], ['i', 'e'])]), IF([(CMP('!=', e('err'), N()), [RETURN(I(-1), e('err'))])]), ASG(['r', 'err'], [CALL('div', [i('r'), BIN('-', i('a'), I(6))], ['i', 'e'])]), RETURN(i('r'), e('err'))]),
              FUNC('pass', [('x', 'e'), ('y', 'e')], ['e', 'e', 'b'], [RETURN(e('y'), e('x'), CMP('==', e('x'), e('y')))]), FUNC('none', [], ['e'], [RETURN(N())]), FUNC('check', [('x', 'e')], [], [IF([(isnil(e('x')), [PRINT(S('fine'))])], [PRINT(S('error'), e('x'))])])]
             + [x for a, b in ((7, 2), (7, 0), (6, 2), (9, 4)) for x in (VDEF(['r%d%d' % (a, b), 'e%d%d' % (a, b)], [CALL('both', [I(a), I(b)], ['i', 'e'])]), PRINT(i('r%d%d' % (a, b)), isnil(e('e%d%d' % (a, b))), e('e%d%d' % (a, b)), S('.')), EXPR(CALL('check', [e('e%d%d' % (a, b))], [])))]
             + [EXPR(CALL('check', [N()], [])), EXPR(CALL('check', [CALL('none', [], ['e'])], [])), VDEF(['p', 'q', 'z'], [CALL('pass', [N(), e('e70')], ['e', 'e', 'b'])]), PRINT(e('p'), isnil(e('q')), V('z', 'b')), PRINT(CALL('pass', [S('x'), S('x')], ['e', 'e', 'b'])), IF([(isnil(CALL('none', [], ['e'])), [PRINT(S('nil'))])], [PRINT(S('not nil'))]),
                SWITCH(e('p'), [(N(), [PRINT(S('nil'))]), (S('division by zero'), [PRINT(S('zero'))])], [PRINT(S('other'))]), SWITCH(e('q'), [(S('division by zero'), [PRINT(S('zero'))]), (N(), [PRINT(S('nil'))])], [PRINT(S('other'))])], 'err-calls'),
           P([VDEF(['l'], [SL('e', [N(), S('one'), N()])]), SAS('l', I(4), S('four')), VDEF(['n'], [I(0)]), RNG('k', 'v', V('l', 'Se'), [IF([(CMP('!=', e('v'), N()), [PRINT(i('k'), e('v'))])], [INC('n')])]), PRINT(i('n'), LEN(V('l', 'Se')), isnil(IDX(V('l', 'Se'), I(3)))),
              FUNC('first', [('m', 'Se')], ['e'], [RNG('k', 'v', V('m', 'Se'), [IF([(CMP('!=', e('v'), N()), [RETURN(e('v'))])])]), RETURN(N())]), PRINT(CALL('first', [V('l', 'Se')], ['e']), isnil(CALL('first', [SL('e', [])], ['e']))), SAS('l', I(1), N()), PRINT(CALL('first', [V('l', 'Se')], ['e']))], 'err-slices'),
           P([FUNC('fail', [('m', 's')], ['e'], [IF([(CMP('==', s('m'), S('')), [RETURN(N())])]), RETURN(BIN('+', S('failed '), s('m')))]), FOR(VDEF(['k'], [I(0)]), CMP('<', i('k'), I(3)), INC('k'), [VDEF(['m'], [S('')]), IF([(CMP('==', i('k'), I(2)), [ASG(['m'], [S('now')])])]), VDEF(['err'], [CALL('fail', [s('m')], ['e'])]), IF([(CMP('!=', e('err'), N()), [PANIC(e('err'))])]), PRINT(S('passed'), i('k'))]), PRINT(S('unreachable'))], 'err-panic')]
    return out

# ---------------------------------------------------------------- calls
def call_table(rng, full=False):
    out = []
    i, s, b = (lambda n: V(n, 'i')), (lambda n: V(n, 's')), (lambda n: V(n, 'b'))
    # arities 0..14, every parameter printed, in order; returned back reversed for arities up to 6
    st = []
    for n in range(15):
        ps = [('p%d' % k, 'isb'[k % 3]) for k in range(n)]
        st += [FUNC('f%d' % n, ps, ['i'], [PRINT(S('f%d' % n), *[V(a, t) for a, t in ps]), RETURN(I(n))])]
        st += [PRINT(CALL('f%d' % n, [{'i': I(k), 's': S('s%d' % k), 'b': B(k % 2 == 0)}['isb'[k % 3]] for k in range(n)], ['i']))]
    out.append(P(st, 'arity'))
    st = []
    for n in range(1, 8):
        ps = [('p%d' % k, 'is'[k % 2]) for k in range(n)]
        rt = [t for _, t in reversed(ps)]
        st += [FUNC('r%d' % n, ps, rt, [RETURN(*[V(a, t) for a, t in reversed(ps)])])]
        ns = ['x%d_%d' % (n, k) for k in range(n)]
        call = lambda: CALL('r%d' % n, [I(k * 3) if k % 2 == 0 else S('v%d' % k) for k in range(n)], rt)
        st += [VDEF(ns, [call()]), PRINT(*[V(x, t) for x, t in zip(ns, rt)]), ASG(ns, [call()]), PRINT(*[V(x, t) for x, t in zip(ns, rt)])]
        if n > 1: st += [VDEF(ns[:-1] + ['_'] if False else ['y%d_%d' % (n, k) if k != n // 2 else '_' for k in range(n)], [call()]), PRINT(*[V('y%d_%d' % (n, k), rt[k]) for k in range(n) if k != n // 2])]
        st += [PRINT(call())]
    out.append(P(st, 'returns'))
    # simultaneous assignment: every permutation of three variables, scalars and slices, top level and locals
    for t, mk in (('i', lambda k: I(k + 1)), ('s', lambda k: S('s%d' % k)), ('Si', lambda k: SL('i', [I(k), I(k + 10)]))):
        st = [VDEF(['a', 'b', 'c'], [mk(0), mk(1), mk(2)]) if t[0] != 'S' else None]
        st = [x for x in st if x] or [VDEF([x], [mk(k)]) for k, x in enumerate('abc')]
        show = lambda: [PRINT(*[(V(x, t) if t[0] != 'S' else IDX(V(x, t), I(0))) for x in 'abc'])]
        for pm in itertools.permutations('abc'): st += [ASG(['a', 'b', 'c'], [V(x, t) for x in pm])] + show()
        for x, y in itertools.permutations('abc', 2): st += [ASG([x, y], [V(y, t), V(x, t)])] + show()
        if t == 'i':
            st += [ASG(['a', 'b'], [BIN('+', V('b', t), I(1)), BIN('*', V('a', t), I(2))])] + show()
            st += [ASG(['a', 'b', 'c'], [V('b', t), V('b', t), V('a', t)])] + show()
        out.append(P(st, 'simul-' + t))
        out.append(P([FUNC('sw', [('z', 'i')], [], st + [PRINT(i('z'))]), EXPR(CALL('sw', [I(1)], [])), EXPR(CALL('sw', [I(2)], []))], 'simulf-' + t))
    # the same names as parameter, local, loop variable in several functions and later globals, call depth 4
    names = ['a', 'b', 'i', 'x']
    for r in range(12 if not full else 60):
        st, prev = [], None
        g0 = rng.choice(['g', 'h'])
        st.append(VDEF([g0], [I(100)]))
        gv = i(g0)
        for k in range(4):
            p1, p2, l1, l2 = rng.sample(names, 4)
            body = [PRINT(S('in%d' % k), i(p1), s(p2), gv)]
            body += [VDEF([l1], [BIN('+', i(p1), I(rng.randint(1, 9)))]), VDEF([l2], [S('L%d' % k)])]
            body += [rng.choice([INC(g0), OPA(g0, '+', i(l1)), ASG([g0], [BIN('-', gv, I(1))]), ASG([g0, l1], [i(l1), gv])])]
            if prev:
                body += [rng.choice([ASG([l1], [CALL(prev, [i(p1), s(p2)], ['i'])]), ASG([p1], [BIN('+', CALL(prev, [i(l1), s(l2)], ['i']), CALL(prev, [I(0), S('z')], ['i']))]), EXPR(CALL(prev, [i(l1), BIN('+', s(l2), s(p2))], ['i']))])]
                if rng.random() < .5: body += [FOR(VDEF(['q'], [I(0)]), CMP('<', i('q'), I(2)), INC('q'), [ASG([l1], [BIN('+', i(l1), CALL(prev, [i('q'), s(l2)], ['i']))])])]
            body += [OPA(p1, '*', I(2)), OPA(p2, '+', S('!')), PRINT(S('out%d' % k), i(p1), s(p2), i(l1), s(l2), gv), RETURN(BIN('+', i(p1), i(l1)))]
            prev = 'fn%d' % k
            st.append(FUNC(prev, [(p1, 'i'), (p2, 's')], ['i'], body))
        nm = rng.sample(names, 4)
        st += [VDEF([nm[0]], [I(1)]), VDEF([nm[1]], [S('G')]), VDEF([nm[2]], [I(5)]), VDEF([nm[3]], [S('H')])]
        st += [PRINT(CALL(prev, [i(nm[0]), s(nm[1])], ['i'])), PRINT(i(nm[0]), s(nm[1]), i(nm[2]), s(nm[3]), gv)]
        st += [ASG([nm[2]], [CALL('fn1', [CALL('fn2', [i(nm[2]), s(nm[3])], ['i']), s(nm[1])], ['i'])]), PRINT(i(nm[0]), s(nm[1]), i(nm[2]), s(nm[3]), gv)]
        out.append(P(st, 'names%d' % r))
    # slices by reference, scalars by value
    st = [FUNC('chg', [('p', 'Si'), ('n', 'i'), ('t', 's')], ['i'], [SAS('p', I(0), i('n')), OPA('n', '+', I(1)), OPA('t', '+', S('x')), PRINT(i('n'), s('t')), RETURN(i('n'))]),
          FUNC('chg2', [('p', 'Si'), ('n', 'i')], ['Si', 'i'], [VDEF(['m'], [CALL('chg', [V('p', 'Si'), BIN('*', i('n'), I(2)), S('q')], ['i'])]), ASG(['p'], [SL('i', [I(0), I(0)])]), SAS('p', I(1), i('m')), RETURN(V('p', 'Si'), i('n'))]),
          VDEF(['p'], [SL('i', [I(1), I(2)])]), VDEF(['n'], [I(7)]), VDEF(['t'], [S('T')]),
          PRINT(CALL('chg', [V('p', 'Si'), i('n'), s('t')], ['i'])), PRINT(IDX(V('p', 'Si'), I(0)), i('n'), s('t')),
          VDEF(['m', 'k'], [CALL('chg2', [V('p', 'Si'), i('n')], ['Si', 'i'])]), PRINT(IDX(V('p', 'Si'), I(0)), IDX(V('p', 'Si'), I(1)), IDX(V('m', 'Si'), I(0)), IDX(V('m', 'Si'), I(1)), i('k'), i('n'))]
    out.append(P(st, 'byref'))
    # early returns from every construct
    T = CMP('>', i('n'), I(0))
    for nm, body in dict(
            loop=[FOR(VDEF(['k'], [I(0)]), CMP('<', i('k'), I(5)), INC('k'), [PRINT(i('k')), IF([(CMP('==', i('k'), i('n')), [RETURN(BIN('*', i('k'), I(10)))])])]), RETURN(I(-1))],
            rng=[RNG('k', 'c', S('abc'), [IF([(CMP('==', i('k'), i('n')), [RETURN(BIN('+', i('k'), I(50)))])]), PRINT(s('c'))]), RETURN(I(-1))],
            sw=[SWITCH(i('n'), [(I(0), [RETURN(I(5))]), (I(1), [PRINT(S('one'))])], [RETURN(I(6))]), RETURN(I(7))],
            nest=[FOR(None, None, None, [FOR(VDEF(['k'], [I(0)]), CMP('<', i('k'), I(3)), INC('k'), [IF([(T, [RETURN(i('k'))]), (CMP('==', i('k'), I(1)), [RETURN(I(8))])], [CONTINUE()])])]), RETURN(I(9))]).items():
        st = [FUNC('er', [('n', 'i')], ['i'], body)]
        st += [PRINT(S('='), CALL('er', [I(x)], ['i'])) for x in (0, 1, 2, 3)]
        st += [FOR(VDEF(['z'], [I(0)]), CMP('<', i('z'), I(3)), INC('z'), [PRINT(BIN('+', CALL('er', [i('z')], ['i']), CALL('er', [I(1)], ['i'])))])]
        out.append(P(st, 'early-' + nm))
    out += signature_table(rng, full)
    return out

SIGNATURES = [([], []), ([], ['i']), ([], ['i', 's']), (['i'], []), (['i'], ['i']), (['s'], ['s', 'i']), (['i', 's'], []), (['s', 'i'], ['s']), (['Si'], ['Si']), (['b'], ['b'])]
def signature_table(rng, full=False):
    """every pair of signatures for a caller and the function it calls - defined directly before it, or with another
    function between - whose locals and parameters have the same names; the caller reads its own after the call"""
    out, progs = [], []
    def val(t, k):
        return {'i': I(k), 's': S('v%d' % k), 'b': B(k % 2 == 0), 'Si': SL('i', [I(k), I(k + 1)])}[t]
    def show(n, t):
        return [LEN(V(n, t)), IDX(V(n, t), I(0))] if t == 'Si' else [V(n, t)]
    names = ['a', 'b', 'c', 'd']
    for q, ((p1, r1), (p2, r2), gap) in enumerate(itertools.product(SIGNATURES, SIGNATURES, (0, 1))):
        if not full and gap and rng.random() < .6: continue
        def fn(name, ps, rs, base, inner):
            pn = [(names[k], t) for k, t in enumerate(ps)]
            loc = [(n, t) for n, t in zip(names[len(ps):], ['i', 's', 'b', 'Si'])]
            body = [VDEF([n], [val(t, base + k)]) for k, (n, t) in enumerate(loc)]
            if inner: body += inner
            body.append(PRINT(S(name), *[x for n, t in pn + loc for x in show(n, t)]))
            rv = []
            for k, t in enumerate(rs):
                own = [n for n, u in pn + loc if u == t]
                rv.append(V(own[-1], t) if own else val(t, base + 7 + k))
            if rs: body.append(RETURN(*rv))
            return FUNC(name, pn, rs, body)
        callee, mid, caller = 'in%d' % q, 'mid%d' % q, 'out%d' % q
        args = [val(t, 40 + k) for k, t in enumerate(p2)]
        used = dict((n, t) for n, t in list(zip(names, p1)) + list(zip(names[len(p1):], ['i', 's', 'b', 'Si'])))
        for k, t in enumerate(p2):                     # pass own variables where one has the type
            own = [n for n, u in used.items() if u == t]
            if own and rng.random() < .6: args[k] = V(rng.choice(own), t)
        call = CALL(callee, args, r2)
        if not r2 or rng.random() < .3: inner = [EXPR(call)]
        elif len(r2) == 1:
            t = r2[0]
            own = [n for n, u in used.items() if u == t]
            z = rng.randrange(3)
            inner = [VDEF(['r'], [call]), PRINT(*show('r', t))] if z == 0 or not own or t == 'Si' else [ASG([rng.choice(own)], [call])] if z == 1 else [PRINT(*show(own[0], t), call, *show(own[-1], t))]
        else:
            inner = [VDEF(['r', 'u'], [call]), PRINT(*show('r', r2[0]), *show('u', r2[1]))]
        st = [fn(callee, p2, r2, 10, None)]
        if gap: st.append(fn(mid, *rng.choice(SIGNATURES), 20, None))
        st.append(fn(caller, p1, r1, 30, inner))
        c2 = CALL(caller, [val(t, 60 + k) for k, t in enumerate(p1)], r1)
        if not r1: st += [EXPR(c2), EXPR(c2)]
        else:
            rn = ['r%d_%d' % (q, k) for k in range(len(r1))]
            st += [VDEF(rn, [c2]), PRINT(*[x for n, t in zip(rn, r1) for x in show(n, t)]), EXPR(c2)]
        progs.append(st)
    for k, ch in enumerate(chunks(progs, 8)):
        out.append(P([PRINT(S('sig'))] + [x for st in ch for x in st], 'sig%d' % k))
    return out

def heap_histories(seed, n):
    """random histories of aliasing, growth, element assignment and copying over a few handles, observed after every action"""
    out = []
    for q in range(n):
        rng = random.Random('%s/heap/%d' % (seed, q))
        t = rng.choice('isb')
        T = 'S' + t
        val = lambda: {'i': I(rng.randint(-99, 99)), 's': S(rng.choice(['', 'a', 'x y', 'long', '0'])), 'b': B(rng.random() < .5)}[t]
        hs = ['h%d' % k for k in range(rng.randint(2, 4))]
        st = [FUNC('same', [('p', T)], [T], [RETURN(V('p', T))]), FUNC('put', [('p', T), ('at', 'i'), ('v', t)], ['i'], [SAS('p', V('at', 'i'), V('v', t)), RETURN(LEN(V('p', T)))]),
              FUNC('fresh', [('v', t)], [T], [VDEF(['n'], [], 'vart', T), SAS('n', I(1), V('v', t)), RETURN(V('n', T))])]
        heap, env = [], {}
        for h in hs:
            k = rng.choice([0, 1, 2, 9, 10])
            st.append(VDEF([h], [SL(t, [val() for _ in range(k)])]))
            heap.append(k)
            env[h] = len(heap) - 1
        def show(h): return [PRINT(S(h), LEN(V(h, T))), RNG('i', 'x', V(h, T), [PRINT(V('i', 'i'), V('x', t))])]
        for _ in range(rng.randint(6, 14)):
            h, g = rng.sample(hs, 2)
            a = rng.randrange(8)
            L = heap[env[h]]
            if a == 0:
                st.append(ASG([h], [V(g, T)])); env[h] = env[g]
            elif a == 1:
                st.append(ASG([h], [CALL('same', [V(g, T)], [T])])); env[h] = env[g]
            elif a == 2:
                st.append(ASG([h, g], [V(g, T), V(h, T)])); env[h], env[g] = env[g], env[h]
            elif a in (3, 4):
                at = rng.choice([max(0, L - 1), L, L + rng.randint(0, 4), rng.randint(0, 12)])
                at = min(at, 40)
                if a == 3: st.append(SAS(h, I(at), val()))
                else: st.append(PRINT(CALL('put', [V(h, T), I(at), val()], ['i'])))
                heap[env[h]] = max(L, at + 1)
            elif a == 5:
                st.append(ASG([h], [CALL('fresh', [val()], [T])])); heap.append(2); env[h] = len(heap) - 1
            elif a == 6:
                st.append(PRINT(COPY(h, V(g, T), T))); heap[env[h]] = max(L, heap[env[g]])
            else:
                st.append(SAS(h, LEN(V(h, T)), val())); heap[env[h]] += 1
            for x in rng.sample(hs, 2): st += show(x)
        for x in hs: st += show(x)
        out.append(P(st, 'heap-%s-%d' % (seed, q)))
    return out
