"""C07: skeletons with places, definitions and uses put at every pair of places; placements of jumps; endings of functions; modules."""
from tsh import *
import copy, itertools
c = lambda: V('vb', 'b')
SLOT = lambda n: dict(k='slot', n=n)

def skeleton():
    return [VDEF(['vb'], [B(True)]), VDEF(['vn'], [I(2)]), SLOT(0),
        FUNC('g', [('pg', 'i')], ['i'], [SLOT(1), IF([(c(), [SLOT(2)])]), SLOT(3), RETURN(I(1))]),
        SLOT(4),
        FUNC('h', [('ph', 'i')], [], [SLOT(5), FOR(VDEF(['hi'], [I(0)]), CMP('<', V('hi', 'i'), I(2)), INC('hi'), [SLOT(6)]), SLOT(7)]),
        SLOT(8), EXPR(CALL('h', [I(1)], [])),
        IF([(c(), [SLOT(9), IF([(c(), [SLOT(10)])], [SLOT(11)]), SLOT(12)]), (NOT(c()), [SLOT(13)])], [SLOT(14)]),
        SLOT(15),
        FOR(VDEF(['zi'], [I(0)]), CMP('<', V('zi', 'i'), I(2)), INC('zi'), [SLOT(16), SWITCH(V('vn', 'i'), [(I(1), [SLOT(17)]), (I(2), [SLOT(18)])], [SLOT(19)]), SLOT(20)]),
        FOR(None, c(), None, [SLOT(21), RNG('ri', 'rv', SL('i', [I(1)]), [SLOT(22), IF([(c(), [SLOT(23)])])])]),
        SWITCH(None, [(c(), [SLOT(24)])], [SLOT(25), FOR(None, None, None, [SLOT(26)])]),
        SLOT(27)]
NSLOT = 28

def fill(b, at):
    """at: slot -> list of statements"""
    out = []
    for s in b:
        if s['k'] == 'slot':
            out += copy.deepcopy(at.get(s['n'], []))
            continue
        s = dict(s)
        if s.get('body') is not None: s['body'] = fill(s['body'], at)
        if s.get('bodies') is not None: s['bodies'] = [fill(x, at) for x in s['bodies']]
        if s.get('els') is not None: s['els'] = fill(s['els'], at)
        out.append(s)
    return out

def defs(x):
    return dict(short=[VDEF([x], [I(1)])], var=[VDEF([x], [], 'vart', 'i')], vari=[VDEF([x], [I(1)], 'var')], multi=[VDEF([x, 'q1'], [I(1), I(2)])], multi2=[VDEF(['q1', x], [I(1), I(2)])],
                func=[FUNC(x, [], ['i'], [RETURN(I(3))])], strv=[VDEF([x], [S('a')])], slice=[VDEF([x], [SL('i', [I(1)])])])
def uses(x):
    X = V(x, 'i')
    return dict(read=[PRINT(X)], arg=[VDEF(['q5'], [BIN('+', I(1), CALL('g', [X], ['i']))])], assign=[ASG([x], [I(2)])], masg=[ASG(['vn', x], [I(2), I(3)])], op=[OPA(x, '+', I(1))], inc=[INC(x)], sas=[SAS(x, I(0), I(1))], elem=[PRINT(IDX(X, I(0)))],
                short=[VDEF([x], [I(2)])], var=[VDEF([x], [], 'vart', 'i')], multi=[VDEF([x, 'q2'], [I(2), I(3)])], multi2=[VDEF(['q2', x], [I(2), I(3)])], func=[FUNC(x, [], [], [PRINT(I(9))])], call=[PRINT(CALL(x, [], ['i']))],
                param=[FUNC('q3', [(x, 'i')], ['i'], [RETURN(X)])], param2=[FUNC('q3', [('q4', 'i'), (x, 'i')], [], [PRINT(X)])], rangei=[RNG(x, None, S('ab'), [PRINT(X)])], rangev=[RNG('_', x, SL('i', [I(1)]), [PRINT(X)])],
                forinit=[FOR(VDEF([x], [I(0)]), CMP('<', X, I(2)), INC(x), [PRINT(X)])], cond=[IF([(CMP('==', X, I(1)), [])])], tag=[SWITCH(X, [(I(1), [])])], case=[SWITCH(V('vn', 'i'), [(X, [])])], forcond=[FOR(None, CMP('>', X, I(5)), None, [])], rangeo=[RNG('_', 'q6', X, [])],
                nested=[IF([(c(), [FOR(None, None, None, [PRINT(X), BREAK()])])])], self=[VDEF([x], [BIN('+', X, I(1))])], copyd=[EXPR(COPY(x, SL('i', []), 'Si'))])

def pairs():
    for a in range(NSLOT):
        for b in range(NSLOT):
            for dn in defs('x'):
                for un in uses('x'):
                    yield a, b, dn, un, False
            if a == b:
                for dn in ('short', 'func'):
                    for un in uses('x'): yield a, b, dn, un, True

def pair_program(t, x='x'):
    a, b, dn, un, rev = t
    d, u = defs(x)[dn], uses(x)[un]
    at = {a: d, b: u} if a != b else {a: u + d if rev else d + u}
    return dict(stmts=fill(skeleton(), at), note='%s at %d, %s at %d%s' % (dn, a, un, b, ' (use first)' if rev else ''))

def builtin_names():
    """uses of the names the skeleton defines itself, from every place"""
    for s in range(NSLOT):
        for n in ('pg', 'ph', 'hi', 'zi', 'ri', 'rv', 'vb', 'vn', 'g', 'h', 'nope', 'X'):
            for un in ('read', 'assign', 'short', 'call', 'multi', 'param', 'rangev', 'forinit', 'func', 'var'):
                yield dict(stmts=fill(skeleton(), {s: uses(n)[un]}), note='%s of %s at %d' % (un, n, s))

def jumps():
    js = dict(brk=[BREAK()], cont=[CONTINUE()], ret=[RETURN()], ret1=[RETURN(I(1))], rets=[RETURN(S('a'))], ret2=[RETURN(I(1), I(2))], func=[FUNC('q', [], [], [])], func2=[FUNC('q', [], ['i'], [RETURN(I(1))])], imp=[RAW('import lib "lib.tsh"')],
              sw=[SWITCH(V('vn', 'i'), [(I(1), [BREAK()])])], swc=[SWITCH(V('vn', 'i'), [(I(1), [CONTINUE()])])], ifb=[IF([(c(), [BREAK()])])], ifc=[IF([(c(), [PRINT(I(1))])], [CONTINUE()])], loop=[FOR(None, None, None, [BREAK()])], loopc=[RNG('_', 'q7', S('ab'), [CONTINUE()])],
              loopr=[FOR(None, None, None, [RETURN()])], after=[FOR(None, c(), None, []), BREAK()], after2=[RNG('q7', None, S('a'), []), CONTINUE()], lfn=[FOR(None, None, None, [FUNC('q', [], [], [PRINT(I(1))])])])
    for s in range(NSLOT):
        for n, b in js.items():
            if n == 'imp': continue
            yield dict(stmts=fill(skeleton(), {s: b}), note='%s at %d' % (n, s))

def endings():
    """bodies of a function with a result, by their last statement"""
    R, Pn = lambda: RETURN(I(1)), lambda: PRINT(I(1))
    bodies = dict(empty=[], ret=[R()], pr=[Pn()], retpr=[R(), Pn()], ifret=[IF([(c(), [R()])])], ifret2=[IF([(c(), [R()])]), R()], ifelif=[IF([(c(), [R()]), (NOT(c()), [R()])])], forret=[FOR(None, c(), None, [R()])], forret2=[FOR(None, c(), None, [R()]), R()],
                  rng=[RNG('_', 'w', S('ab'), [R()])], forc=[FOR(VDEF(['w'], [I(0)]), CMP('<', V('w', 'i'), I(3)), INC('w'), [R()])], call=[EXPR(CALL('g', [I(1)], ['i']))], asg=[ASG(['vn'], [I(1)])], vd=[VDEF(['w'], [I(1)])], ifnoelse=[IF([(c(), [Pn()])], [R()]), Pn()],
                  deep=[IF([(c(), [FOR(None, c(), None, [SWITCH(V('vn', 'i'), [(I(1), [R()])])])])]), R()], noret=[IF([(c(), [Pn()])]), Pn()], inc=[R(), INC('vn')], write=[WRITE(S('p'), S('d'))])
    # every nesting of branches and endless loops as the last statement
    leaf = dict(R=lambda: [R()], P=lambda: [Pn()], E=lambda: [], PR=lambda: [Pn(), R()])
    brk = dict(B=lambda: [BREAK()], PB=lambda: [Pn(), BREAK()], ifB=lambda: [IF([(c(), [BREAK()])])], ifRB=lambda: [IF([(c(), [R()]), (NOT(c()), [BREAK()])])], elB=lambda: [IF([(c(), [R()])], [BREAK()])], inB=lambda: [FOR(None, None, None, [BREAK()])],
               inB2=lambda: [FOR(None, None, None, [IF([(c(), [BREAK()])])]), Pn()], inB3=lambda: [FOR(None, c(), None, [BREAK()]), IF([(c(), [BREAK()])])], rngB=lambda: [RNG('_', 'w', S('ab'), [BREAK()]), R()], ifR=lambda: [IF([(c(), [R()])])], ifC=lambda: [IF([(c(), [CONTINUE()])]), R()], PBd=lambda: [IF([(c(), [IF([(c(), [Pn()])], [BREAK()])])]), Pn()])
    sw = lambda *bs, d=None: SWITCH(V('vn', 'i'), [(I(k), b) for k, b in enumerate(bs)], d)
    two = {}
    for (an, a), (bn, b) in itertools.product(leaf.items(), leaf.items()):
        two['if%s else%s' % (an, bn)] = lambda a=a, b=b: [IF([(c(), a())], b())]
        two['sw%s default%s' % (an, bn)] = lambda a=a, b=b: [sw(a(), d=b())]
        two['sw%s%s' % (an, bn)] = lambda a=a, b=b: [sw(a(), b())]
        two['if%s elif%s else' % (an, bn)] = lambda a=a, b=b: [IF([(c(), a()), (NOT(c()), b())], [R()])]
    loops = dict(('for ' + n, lambda f=f: [FOR(None, None, None, f())]) for n, f in list(brk.items()) + list(leaf.items()))
    loops.update(dict(('for ;; ' + n, lambda f=f: [FOR(VDEF(['w'], [I(0)]), None, INC('w'), f())]) for n, f in brk.items()))
    loops.update(dict(('for true ' + n, lambda f=f: [FOR(None, B(True), None, f())]) for n, f in list(brk.items())[:6]))
    deep = dict(('if R else ' + n, lambda f=f: [IF([(c(), [R()])], f())]) for n, f in list(loops.items()) + list(two.items()))
    deep.update(dict(('switch ' + n, lambda f=f: [sw(f(), d=[R()])]) for n, f in list(loops.items()) + list(two.items())))
    deep.update(dict(('for in ' + n, lambda f=f: [FOR(None, None, None, f())]) for n, f in two.items()))
    for n, f in list(two.items()) + list(loops.items()) + list(deep.items()): bodies[n] = f()
    for n, b in bodies.items():
        for rets in ([], ['i'], ['i', 's'], ['Si']):
            if len(n) > 8 and rets in ([], ['Si']): continue
            for called in (True, False):
                if len(n) > 8 and called == (rets == ['i']): continue
                bb = copy.deepcopy(b)
                vals = dict(i=lambda: I(1), s=lambda: S('a'), Si=lambda: SL('i', []))
                def fix(q):
                    for s in q:
                        if s['k'] == 'return': s['c'] = [vals[t]() for t in rets]
                        for z in ([s['body']] if s.get('body') is not None else []) + (s.get('bodies') or []) + ([s['els']] if s.get('els') is not None else []): fix(z)
                fix(bb)
                st = [VDEF(['vb'], [B(True)]), VDEF(['vn'], [I(2)]), FUNC('g', [('pg', 'i')], ['i'], [RETURN(V('pg', 'i'))]), FUNC('f', [], rets, bb)]
                yield dict(stmts=st + ([EXPR(CALL('f', [], rets))] if called else []), note='a function with results %s ends with %s' % (rets, n))

def functions():
    f = lambda n, ps=(), r=(), b=None: FUNC(n, list(ps), list(r), b if b is not None else ([RETURN(*[I(1) for _ in r])] if r else [PRINT(I(1))]))
    call = lambda n, *a: EXPR(CALL(n, list(a), []))
    yield 'twice', [f('a'), f('a')]
    yield 'twice with other parameters', [f('a'), f('a', [('p', 'i')])]
    yield 'twice later', [f('a'), call('a'), f('b'), f('a', r=['i'])]
    yield 'three', [f('a'), f('b'), f('c'), call('c'), call('a'), call('b')]
    yield 'equal parameters', [f('a', [('p', 'i'), ('p', 'i')])]
    yield 'equal parameters of other type', [f('a', [('p', 'i'), ('q', 'i'), ('p', 's')])]
    yield 'same parameter of two', [f('a', [('p', 'i')]), f('b', [('p', 's')]), call('a', I(1)), call('b', S('x'))]
    yield 'itself', [f('a', b=[call('a')])]
    yield 'itself with parameter', [f('a', [('p', 'i')], ['i'], [RETURN(CALL('a', [V('p', 'i')], ['i']))])]
    yield 'before', [call('a'), f('a')]
    yield 'later function', [f('a', b=[call('b')]), f('b'), call('a')]
    yield 'earlier function', [f('b'), f('a', b=[call('b')]), call('a')]
    yield 'mutual', [f('a', b=[call('b')]), f('b', b=[call('a')])]
    yield 'local of the caller', [f('a', b=[PRINT(V('l', 'i'))]), f('b', b=[VDEF(['l'], [I(1)]), call('a')])]
    yield 'local of the caller, after', [f('b', b=[VDEF(['l'], [I(1)])]), f('a', b=[PRINT(V('l', 'i'))])]
    yield 'parameter of another', [f('b', [('l', 'i')]), f('a', b=[PRINT(V('l', 'i'))])]
    yield 'same local of two', [f('b', b=[VDEF(['l'], [I(1)])]), f('a', b=[VDEF(['l'], [S('x')]), PRINT(V('l', 's'))]), call('a'), call('b')]
    yield 'later global', [f('a', b=[PRINT(V('z', 'i'))]), VDEF(['z'], [I(1)]), call('a')]
    yield 'later global assigned', [f('a', b=[ASG(['z'], [I(2)])]), VDEF(['z'], [I(1)]), call('a')]
    yield 'later global named like a local', [f('a', b=[VDEF(['z'], [I(5)]), PRINT(V('z', 'i'))]), VDEF(['z'], [I(1)]), call('a'), PRINT(V('z', 'i'))]
    yield 'later global named like a parameter', [f('a', [('z', 'i')], b=[PRINT(V('z', 'i'))]), VDEF(['z'], [I(1)]), call('a', V('z', 'i'))]
    yield 'earlier global', [VDEF(['z'], [I(1)]), f('a', b=[PRINT(V('z', 'i')), INC('z')]), call('a')]
    yield 'global of a block', [IF([(B(True), [VDEF(['z'], [I(1)])])]), f('a', b=[PRINT(V('z', 'i'))])]
    yield 'local like a global', [VDEF(['z'], [I(1)]), f('a', b=[VDEF(['z'], [I(2)])])]
    yield 'local like a global, var', [VDEF(['z'], [I(1)]), f('a', b=[VDEF(['z'], [], 'vart', 's')])]
    yield 'local like a global, deep', [VDEF(['z'], [I(1)]), f('a', b=[IF([(B(True), [FOR(None, None, None, [VDEF(['z'], [I(2)])])])])])]
    yield 'parameter like a global', [VDEF(['z'], [I(1)]), f('a', [('z', 'i')])]
    yield 'parameter redefined', [f('a', [('p', 'i')], b=[VDEF(['p'], [I(1)])])]
    yield 'parameter redefined deep', [f('a', [('p', 'i')], b=[IF([(B(True), [VDEF(['p'], [S('s')])])])])]
    yield 'parameter as loop variable', [f('a', [('p', 'i')], b=[RNG('p', None, S('ab'), [])])]
    yield 'parameter after the function', [f('a', [('p', 'i')]), PRINT(V('p', 'i'))]
    yield 'local after the function', [f('a', b=[VDEF(['l'], [I(1)])]), PRINT(V('l', 'i'))]
    yield 'parameter name reused', [f('a', [('p', 'i')]), VDEF(['p'], [S('x')]), PRINT(V('p', 's'))]
    yield 'undefined call', [call('nope')]
    yield 'undefined variable', [PRINT(V('nope', 'i'))]
    yield 'variable called', [VDEF(['z'], [I(1)]), call('z')]
    yield 'function as variable', [f('a', r=['i']), PRINT(V('a', 'i'))]
    yield 'function assigned', [f('a', r=['i']), ASG(['a'], [I(1)])]
    yield 'repeated name', [VDEF(['z', 'z'], [I(1), I(2)])]
    yield 'repeated var', [VDEF(['z', 'z'], [], 'vart', 'i')]
    yield 'repeated loop variable', [RNG('z', 'z', S('ab'), [])]
    yield 'repeated third', [VDEF(['z', 'y', 'z'], [I(1), I(2), I(3)])]
    yield 'blanks', [VDEF(['z', '_', '_'], [I(1), I(2), I(3)]), PRINT(V('z', 'i'))]
    yield 'blank again and again', [VDEF(['z', '_'], [I(1), S('a')]), VDEF(['_', 'y'], [I(1), I(2)]), ASG(['_'], [SL('i', [])]), IF([(B(True), [VDEF(['_', 'w'], [B(True), I(1)]), ASG(['z', '_'], [I(1), S('b')])])]), VDEF(['_'], [], 'vart', 's'), VDEF(['_'], [I(4)], 'var')]
    yield 'blank never defined', [ASG(['_'], [I(1)])]
    yield 'blank parameters', [f('a', [('_', 'i'), ('p', 's'), ('_', 'b')]), call('a', I(1), S('x'), B(True))]
    yield 'blank parameter after a blank variable', [VDEF(['_'], [I(1)], 'var'), f('a', [('_', 's')]), call('a', S('x'))]
    yield 'blank read', [VDEF(['_', 'z'], [I(1), I(2)]), PRINT(V('_', 'i'))]
    yield 'blank loop variables', [RNG('_', '_', S('ab'), [RNG('_', '_', S('ab'), [])])]
    yield 'unknown alias', [EXPR(CALL('F', [], [], 'nope'))]

def modules():
    """import boundaries: private and public functions, globals, equal names, aliases, transitive imports"""
    lib = [VDEF(['G'], [I(1)]), VDEF(['g'], [I(2)]), FUNC('priv', [], ['i'], [RETURN(V('g', 'i'))]), FUNC('Pub', [('p', 'i')], ['i'], [RETURN(BIN('+', V('p', 'i'), CALL('priv', [], ['i'])))]), FUNC('Str', [], ['s'], [RETURN(S('a'))])]
    L = dict(name='lib.tsh', stmts=lib, imports=[], imp={}, order=[])
    K = dict(name='k.tsh', stmts=[FUNC('Via', [], ['i'], [RETURN(CALL('Pub', [I(1)], ['i'], 'l'))])], imports=[('l', 'lib.tsh')], imp=dict(l=1), order=[1])
    r = lambda n, a='': CALL(n, [I(1)] if n in ('Pub', 'pub') else [], ['i'], a)
    def two(note, st, imp=(('l', 1),)):
        ims = [(a, ['lib.tsh', 'k.tsh'][m - 1]) for a, m in imp]
        ms = [L] + ([K] if any(m == 2 for _, m in imp) else [])
        return dict(mods=ms + [dict(name='m.tsh', stmts=st, imports=ims, imp=dict(imp), order=[m for _, m in imp])], note='import: ' + note)
    yield two('public', [PRINT(r('Pub', 'l'))])
    yield two('private', [PRINT(r('priv', 'l'))])
    yield two('undefined', [PRINT(r('Nope', 'l'))])
    yield two('wrong case', [PRINT(r('pub', 'l'))])
    yield two('without alias', [PRINT(r('Pub'))])
    yield two('private without alias', [PRINT(r('priv'))])
    yield two('other alias', [PRINT(r('Pub', 'k'))])
    yield two('global', [PRINT(V('g', 'i'))])
    yield two('upper case global', [PRINT(V('G', 'i'))])
    yield two('global assigned', [ASG(['g'], [I(1)])])
    yield two('same global', [VDEF(['g'], [S('x')]), PRINT(V('g', 's')), PRINT(r('Pub', 'l'))])
    yield two('same function', [FUNC('priv', [], ['s'], [RETURN(S('x'))]), PRINT(CALL('priv', [], ['s']), r('Pub', 'l'))])
    yield two('same public function', [FUNC('Pub', [], ['s'], [RETURN(S('x'))]), PRINT(CALL('Pub', [], ['s']), r('Pub', 'l'))])
    yield two('arguments', [PRINT(CALL('Pub', [], ['i'], 'l'))])
    yield two('argument type', [PRINT(CALL('Pub', [S('a')], ['i'], 'l'))])
    yield two('result type', [VDEF(['z'], [CALL('Str', [], ['i'], 'l')], 'vart', 'i')])
    yield two('two aliases', [PRINT(r('Pub', 'l'), r('Pub', 'o'))], (('l', 1), ('o', 1)))
    yield two('through another', [PRINT(r('Via', 'k'))], (('k', 2),))
    yield two('not transitively', [PRINT(r('Pub', 'k'))], (('k', 2),))
    yield two('alias of the imported file', [PRINT(r('Pub', 'l'))], (('k', 2),))
    yield two('both', [PRINT(r('Pub', 'l'), r('Via', 'k'))], (('l', 1), ('k', 2)))
    yield two('both reversed', [PRINT(r('Pub', 'l'), r('Via', 'k'))], (('k', 2), ('l', 1)))
    yield two('in a function', [FUNC('f', [], ['i'], [RETURN(r('Pub', 'l'))]), PRINT(CALL('f', [], ['i']))])
    yield two('private in a function', [FUNC('f', [], ['i'], [RETURN(r('priv', 'l'))])])
    yield two('importer\'s function from the module', [FUNC('Cb', [], ['i'], [RETURN(I(1))]), PRINT(r('Cb', 'l'))])
    for note, st in (('jump', [BREAK()]), ('return', [RETURN()]), ('undefined', [PRINT(V('q', 'i'))]), ('importer global', [PRINT(V('mg', 'i'))]), ('importer function', [PRINT(CALL('mf', [], ['i']))]), ('fine', [VDEF(['mg'], [I(1)]), PRINT(V('mg', 'i'))]), ('redefined', [VDEF(['g'], [I(1)])]),
                     ('in unused function', [FUNC('u', [], [], [PRINT(V('mg', 'i'))])])):
        m = dict(L, stmts=lib + st)
        yield dict(mods=[m, dict(name='m.tsh', stmts=[VDEF(['mg'], [I(1)]), FUNC('mf', [], ['i'], [RETURN(I(1))]), PRINT(r('Pub', 'l'))], imports=[('l', 'lib.tsh')], imp=dict(l=1), order=[1])], note='imported file: ' + note)

# ---------------------------------------------------------------- depth and number
def deep(rng, full=False):
    """definitions and uses at chosen depths of nested blocks and after them; jumps at depth; many names and functions of which two coincide"""
    X, N = lambda n: V(n, 'i'), (1, 2, 3, 5, 8, 9, 10, 12, 17)
    kinds = dict(If=lambda b: [IF([(c(), b)])], Else=lambda b: [IF([(c(), [])], b)], For=lambda b: [FOR(None, c(), None, b + [BREAK()])], Rng=lambda b: [RNG('_', 'ch', S('ab'), b)], Sw=lambda b: [SWITCH(None, [(c(), b)])], Def=lambda b: [SWITCH(V('vn', 'i'), [(I(7), [])], b)])
    loops = ('For', 'Rng')
    pre = [VDEF(['vb'], [B(True)]), VDEF(['vn'], [I(2)])]
    def nest(ks, at):
        """blocks of the given kinds inside each other; at: depth -> (statements before the inner block, after it)"""
        body = []
        for d in reversed(range(len(ks) + 1)):
            b, a = at.get(d, ([], []))
            body = b + body + a
            if d: body = kinds[ks[d - 1]](body)
        return body
    def ctx(st, note):
        z = rng.randrange(3)
        if z == 1: st = [FUNC('around', [('pa', 'i')], [], st), EXPR(CALL('around', [I(1)], []))]
        if z == 2: st = [FUNC('first', [], ['i'], [RETURN(I(1))])] + st
        return dict(stmts=pre + st, note=note)
    for n in N:
        for _ in range(12 if full else 4):
            ks = [rng.choice(list(kinds)) for _ in range(n)]
            d, u = rng.randint(0, n), rng.randint(0, n)
            use = [PRINT(X('x'))] if rng.random() < .6 else [ASG(['x'], [I(3)])]
            yield ctx(nest(ks, {d: ([VDEF(['x'], [I(1)])], []), **({u: ([], use)} if u != d else {d: ([VDEF(['x'], [I(1)])], use)})}), 'deep: defined at %d, used after the blocks at %d of %d' % (d, u, n))
            yield ctx(nest(ks, {d: ([], [VDEF(['x'], [I(1)])]), u: (use, [])} if u != d else {d: (use, [VDEF(['x'], [I(1)])])}), 'deep: used at %d of %d before its definition at %d' % (u, n, d))
            yield ctx(nest(ks, {d: ([VDEF(['x'], [I(1)])], []), n: ([VDEF(['x'], [I(2)])], [])} if d != n else {d: ([VDEF(['x'], [I(1)]), VDEF(['x'], [I(1)])], [])}), 'deep: two definitions at %d and %d' % (d, n))
            yield ctx(nest(ks, {d: ([VDEF(['y%d' % d], [I(1)])], [PRINT(X('y%d' % d))]) for d in range(n + 1)}), 'deep: one variable per block of %d' % n)
            j = rng.randint(1, n)
            ks2 = ['If' if k in loops else k for k in ks]
            yield ctx(nest(ks2, {n: ([CONTINUE()], [])}), 'deep: continue inside %d blocks, none a loop' % n)
            ks3 = list(ks2)
            ks3[j - 1] = rng.choice(loops)
            yield ctx(nest(ks3, {n: ([CONTINUE()], [])}), 'deep: continue inside %d blocks, the %d-th a loop' % (n, j))
            ks3 = [k if k not in ('Sw', 'Def') else 'If' for k in ks2]
            yield ctx(nest(ks3, {n: ([BREAK()], [])}), 'deep: break inside %d blocks, none a loop' % n)
            ks3[j - 1] = rng.choice(loops)
            yield ctx(nest(ks3, {n: ([BREAK()], [])}), 'deep: break inside %d blocks, the %d-th a loop' % (n, j))
            yield ctx(nest(ks3, {j - 1: ([], [IF([(c(), [BREAK()])])]), n: ([BREAK()], [])}), 'deep: break after the loop')
            yield dict(stmts=pre + nest(ks, {n: ([FUNC('inner', [], [], [PRINT(I(1))])], [])}), note='deep: function inside %d blocks' % n)
            yield dict(stmts=pre + nest(ks, {n: ([RETURN(I(1))], [])}), note='deep: return outside of a function')
            yield dict(stmts=pre + [FUNC('f', [], ['i'], nest(ks, {n: ([RETURN(I(1))], [])}) + [RETURN(I(2))]), PRINT(CALL('f', [], ['i']))], note='deep: return inside %d blocks' % n)
            ks4 = list(ks2)
            yield dict(stmts=pre + [kinds['For']([CONTINUE()])[0], FUNC('f', [], [], nest(ks4, {n: ([CONTINUE()], [])}))] + [FOR(None, c(), None, [EXPR(CALL('f', [], [])), BREAK()])], note='deep: continue in a function which a loop calls')
        a, b = rng.randrange(n), rng.randrange(n)
        names = ['n%d' % k for k in range(n)]
        vs = [VDEF([x], [I(1)]) for x in names]
        yield dict(stmts=vs + [VDEF([names[a]], [I(2)])], note='many: %d-th of %d defined again' % (a, n))
        yield dict(stmts=vs + [PRINT(*map(X, names))], note='many: %d variables' % n)
        yield dict(stmts=vs[:a] + vs[a + 1:] + [PRINT(*map(X, names))], note='many: %d-th of %d not defined' % (a, n))
        yield dict(stmts=[VDEF(names, [I(k) for k in range(n)]), PRINT(*map(X, names))], note='many: together')
        yield dict(stmts=[VDEF(names + [names[a]], [I(k) for k in range(n + 1)])], note='many: together, %d-th of %d twice' % (a, n))
        yield dict(stmts=[FUNC('f', [(x, 'i') for x in names], [], [PRINT(*map(X, names))]), EXPR(CALL('f', [I(1)] * n, []))], note='many: parameters')
        yield dict(stmts=[FUNC('f', [(x, 'i') for x in names + [names[a]]], [], [PRINT(X(names[a]))])], note='many: %d-th parameter of %d twice' % (a, n))
        yield dict(stmts=[FUNC('f', [(x, 'i') for x in names], [], [VDEF([names[a]], [I(1)])])], note='many: %d-th parameter of %d redefined' % (a, n))
        yield dict(stmts=[FUNC('f', [(x, 'i') for x in names], [], [PRINT(I(1))]), PRINT(X(names[a]))], note='many: %d-th parameter of %d used outside' % (a, n))
        fs = [FUNC('f%d' % k, [], ['i'], [RETURN(I(k))]) for k in range(n)]
        yield dict(stmts=fs + [PRINT(CALL('f%d' % k, [], ['i'])) for k in range(n)], note='many: %d functions' % n)
        yield dict(stmts=fs + [FUNC('f%d' % a, [('p', 's')], [], [PRINT(I(1))])], note='many: %d-th function of %d defined again' % (a, n))
        yield dict(stmts=fs[:a] + [FUNC('g', [], ['i'], [RETURN(CALL('f%d' % b, [], ['i']))])] + fs[a:], note='many: the function before the %d-th of %d calls the %d-th' % (a, n, b))
        yield dict(stmts=fs[:a] + [PRINT(CALL('f%d' % b, [], ['i']))] + fs[a:], note='many: the %d-th of %d called before the %d-th' % (b, n, a))
        sib = [IF([(c(), [VDEF(['s%d' % k], [I(1)]), PRINT(X('s%d' % k))])]) if k % 2 else FOR(VDEF(['s%d' % k], [I(0)]), CMP('<', X('s%d' % k), I(1)), INC('s%d' % k), [PRINT(X('s%d' % k))]) for k in range(n)]
        yield dict(stmts=pre + sib + [PRINT(I(0))], note='many: %d blocks' % n)
        yield dict(stmts=pre + sib + [PRINT(X('s%d' % a))], note='many: variable of the %d-th of %d blocks used after them' % (a, n))
        same = [FOR(VDEF(['i'], [I(0)]), CMP('<', X('i'), I(1)), INC('i'), [VDEF(['y'], [X('i')]), PRINT(X('y'))]) for k in range(n)]
        yield dict(stmts=pre + same, note='many: the same names in %d loops' % n)
        yield dict(stmts=pre + same + [INC('y')], note='many: the same names in %d loops, used after them' % n)
