"""C09: multi-file programs.  Import graphs come from Modules.tla; contents are generated here."""
from tsh import *
from gen import Gen, neutral
import typing_tab as tt, posixpath, copy
i_, s_ = (lambda n: V(n, 'i')), (lambda n: V(n, 's'))

# the functions of std/strings that are used, as the machine sees them
STD = dict(name='strings', std=True, imports=[], imp={}, order=[], stmts=[
    FUNC('HasPrefix', [('s', 's'), ('p', 's')], ['b'], [IF([(CMP('<', LEN(s_('s')), LEN(s_('p'))), [RETURN(B(False))])]), RETURN(CMP('==', SUB(s_('s'), I(0), LEN(s_('p'))), s_('p')))]),
    FUNC('HasSuffix', [('s', 's'), ('p', 's')], ['b'], [IF([(CMP('<', LEN(s_('s')), LEN(s_('p'))), [RETURN(B(False))])]), RETURN(CMP('==', SUB(s_('s'), BIN('-', LEN(s_('s')), LEN(s_('p')))), s_('p')))]),
    FUNC('Repeat', [('s', 's'), ('n', 'i')], ['s'], [VDEF(['r'], [S('')]), FOR(VDEF(['i'], [I(0)]), CMP('<', i_('i'), i_('n')), INC('i'), [OPA('r', '+', s_('s'))]), RETURN(s_('r'))]),
    FUNC('Index', [('s', 's'), ('p', 's')], ['i'], [FOR(VDEF(['i'], [I(0)]), CMP('<=', BIN('+', i_('i'), LEN(s_('p'))), LEN(s_('s'))), INC('i'), [IF([(CMP('==', SUB(s_('s'), i_('i'), BIN('+', i_('i'), LEN(s_('p')))), s_('p')), [RETURN(i_('i'))])])]), RETURN(I(-1))])])

DIRS = ['', '', 'sub/', 'sub/deep/', 'oth er/', 'x.y/']
def path(rng, frm, to):
    """a relative path from the directory of frm to the file to, spelled in some way"""
    d = posixpath.dirname(frm)
    p = posixpath.relpath(to, d or '.')
    r = rng.random()
    if r < .2 and not p.startswith('.'): p = './' + p
    elif r < .3 and d: p = '../' + posixpath.basename(d) + '/' + p
    elif r < .35: p = './/' + p if not p.startswith('.') else p
    return p

def layout(rng, n):
    base = rng.choice([['f%d' % k for k in range(n)], ['lib'] * n, (['m', 'strings', 'util', 'a', 'b', 'c'] + ['g%d' % k for k in range(n)])[:n]])
    out = []
    for k in range(n):
        for _ in range(50):
            f = rng.choice(DIRS) + base[k] + '.tsh'
            if f not in out: break
        else: f = '%sf%d.tsh' % (rng.choice(DIRS), k)
        out.append(f)
    return out

ALIASES = ['lb', 'lib', 'mod', 'L', 'util', 'strings2', 'q_1', 'abc', 'str', 'e1', 'aa', 'u1', '_m', 'zz9', 'LIB']
def program(imp, seed, kind=None, twins=False):
    """imp: import lists (1-based numbers, main last)"""
    rng = random.Random('%s/modules' % seed)
    # only what main reaches
    live, todo = set(), [len(imp)]
    while todo:
        k = todo.pop()
        if k not in live:
            live.add(k)
            todo += imp[k - 1]
    num = {k: i + 1 for i, k in enumerate(sorted(live))}
    imp = [[num[d] for d in imp[k - 1]] for k in sorted(live)]
    n = len(imp)
    kind = kind or rng.choice(['hand', 'hand', 'gen'])
    twin = rng.random() < .15 or twins          # all leaf files have the same content
    names = layout(rng, n)
    use_std = rng.random() < .35
    links, mods = {}, []
    if use_std: mods.append(STD)
    off = len(mods)
    fns = {}
    for k in range(1, n + 1):
        al = rng.sample(ALIASES, len(imp[k - 1]))
        deps = list(zip(al, imp[k - 1]))
        imports = []
        for a, d in deps:
            p = path(rng, names[k - 1], names[d - 1])
            if rng.random() < .08:
                l = posixpath.join(posixpath.dirname(names[d - 1]), 'ln%d%d.tsh' % (k, len(links)))      # a second name of the file
                links[l] = posixpath.basename(names[d - 1])
                p = path(rng, names[k - 1], l)
            imports.append((a, p))
        im, order = {a: d + off for a, d in deps}, [d + off for _, d in deps]
        std = ''
        if use_std and rng.random() < .7:
            std = rng.choice(['strings', 'st'])
            im[std] = 1
            at = rng.randint(0, len(order))
            order.insert(at, 1)
            imports.insert(at, ('st', 'strings') if std == 'st' else ('', 'strings'))
        tag = 'twin' if twin and not deps and k < n else 'f%d' % k
        mrng = random.Random('%s/%s' % (seed, tag)) if twin and not deps and k < n else rng
        if kind == 'gen': st, pub = gen_module(mrng, [(a, f) for a, d in deps for f in fns[d]], k == n)
        else: st, pub = hand_module(mrng, tag, deps, k == n, std)
        fns[k] = pub
        mods.append(dict(name=names[k - 1], stmts=st, imports=imports, imp=im, order=order, tail='' if twin else '// %d\n' % rng.randrange(10 ** 6) if rng.random() < .7 else ''))
    return dict(mods=mods, links=links, key='modules-%s' % seed, note='%s %s' % (kind, imp))

def hand_module(rng, tag, deps, main, std):
    """the same names in every file; every function leaves a trace"""
    g1, g2 = rng.sample(['hidden', 'total', 'n', 'x', 'Count', 'i'], 2)
    pv = rng.choice(['help', 'inner', 'get'])
    v1, v2 = I(rng.randint(1, 9) * 100), S(tag)
    form = rng.randrange(5)
    if form == 0: st = [VDEF([g1, g2], [v1, v2])]
    elif form == 1: st = [FUNC('init0', [('p', 'i')], ['i', 's'], [RETURN(i_('p'), v2)]), VDEF([g1, g2], [CALL('init0', [v1], ['i', 's'])], rng.choice([':=', 'var']))]
    elif form == 2: st = [VDEF([g1, 'other'], [v1, I(1)], 'vart', 'i'), VDEF([g2], [v2]), OPA('other', '+', i_(g1)), PRINT(i_('other'))]
    elif form == 3: st = [VDEF(['other', g1], [], 'vart', 'i'), VDEF([g2], [], 'vart', 's'), ASG([g2, g1], [v2, v1]), PRINT(i_('other'))]
    else: st = [VDEF([g1], [v1]), VDEF([g2], [v2])]
    al = [a for a, _ in deps]
    def cg(x): return [CALL('Get', [x], ['i'], a) for a in al]
    def sum_(es):
        r = es[0]
        for e in es[1:]: r = BIN('+', r, e)
        return r
    st.append(FUNC(pv, [('p', 'i')], ['i'], [OPA(g1, '+', i_('p')), PRINT(S(tag), S(pv), i_('p'), s_(g2)), RETURN(i_(g1))]))
    if rng.random() < .5: st.append(FUNC('Dead', [('p', 'i')], ['i'], [RETURN(sum_([CALL(pv, [i_('p')], ['i'])] + cg(I(50))))]))
    if rng.random() < .5: st.append(FUNC('late', [], ['s'], [RETURN(BIN('+', s_(g2), S('-late')))]))
    late = st[-1]['name'] == 'late'
    loc = rng.choice(['v', 'p', 'k'])
    body = [VDEF(['loc'], [CALL(pv, [i_('p')], ['i'])])]
    for a in al:
        if rng.random() < .6: body.append(rng.choice([OPA('loc', '+', CALL('Get', [I(2)], ['i'], a)), IF([(CMP('>', CALL('Get', [I(1)], ['i'], a), I(0)), [INC('loc')])]), EXPR(CALL('Set', [BIN('+', s_(g2), S('>'))], [], a)), VDEF(['w%s' % a], [CALL('Name', [], ['s'], a)]), PRINT(CALL('Name', [], ['s'], a))]))
    if std: body.append(IF([(CALL('HasPrefix', [s_(g2), S('f')], ['b'], std), [PRINT(CALL('Repeat', [S('ab'), I(2)], ['s'], std))])]))
    body.append(RETURN(BIN('+', i_('loc'), I(1))))
    st.append(FUNC('Get', [('p', 'i')], ['i'], body))
    st.append(FUNC('Set', [('s', 's')], [], [ASG([g2], [BIN('+', s_('s'), S(tag[-1]))]), PRINT(S(tag), S('set'), s_(g2))] + ([PRINT(CALL('late', [], ['s']))] if late else [])))
    st.append(FUNC('Name', [], ['s'], [RETURN(BIN('+', s_(g2), S('.' + tag)))]))
    if rng.random() < .4: st.append(FUNC('Slice', [], ['Si'], [RETURN(SL('i', [i_(g1), I(2)]))]))
    # top-level code, executed when the file is loaded
    for _ in range(rng.randint(1, 3)):
        st.append(rng.choice([PRINT(S('top'), S(tag), i_(g1), s_(g2)), OPA(g1, '+', I(1)), ASG([g1], [CALL(pv, [I(3)], ['i'])]), FOR(VDEF(['i2'], [I(0)]), CMP('<', i_('i2'), I(2)), INC('i2'), [PRINT(S(tag), i_('i2')), VDEF(['blk'], [i_('i2')]), OPA(g1, '+', i_('blk'))]),
                              IF([(CMP('>', i_(g1), I(300)), [EXPR(CALL('Set', [S('top')], []))])], [VDEF(['in'], [I(4)]), PRINT(i_('in'))])]))
    for a in al:
        st.append(rng.choice([PRINT(CALL('Get', [I(5)], ['i'], a)), EXPR(CALL('Set', [S(tag)], [], a)), PRINT(CALL('Name', [], ['s'], a), CALL('Get', [I(1)], ['i'], a)), OPA(g1, '-', CALL('Get', [CALL('Get', [I(7)], ['i'], a)], ['i'], a)), SWITCH(CALL('Name', [], ['s'], a), [(S('nope'), [])], [PRINT(CALL('Name', [], ['s'], a))])]))
    if std: st.append(PRINT(CALL('Index', [S('abcabc'), S('ca')], ['i'], std), CALL('HasSuffix', [s_(g2), S(tag)], ['b'], std)))
    if main:
        for a in al: st.append(PRINT(S('end'), CALL('Name', [], ['s'], a), CALL('Get', [I(0)], ['i'], a)))
        st.append(PRINT(i_(g1), s_(g2), CALL('Get', [I(1)], ['i'])))
    return st, []

class Anon: pass
def gen_module(rng, ext, main):
    seed = rng.randrange(10 ** 9)
    g = Gen(random.Random(seed), stmts=8 if main else 5, funcs=2 if main else 3, size=40 if main else 25, panics=0, slices=rng.random() < .5, fnames=['f', 'g', 'help', 'F', 'Get', 'Calc', 'Mk', 'Put'], dump=1, depth=2, maxcost=300)
    g.ext = [(a, f) for a, f in ext]
    st = g.program()
    if main:
        for a, f in g.ext[:6]:
            if g.cost < 500: st.append(EXPR(g.call((a, f))) if len(f.rets) != 1 or f.rets[0][0][0] == 'S' else PRINT(g.call((a, f))))
    return st, [f for f in g.fns if f.name[0].isupper()]

# ---------------------------------------------------------------- unused-function removal
def chains():
    """the only call of a function stands in one position of the grammar; the function reaches others through a chain"""
    out = []
    CH = [FUNC('deep3', [], [], [PRINT(S('deep3'))]), FUNC('unused1', [], [], [PRINT(S('u'))]), FUNC('deep2', [('n2', 'i')], ['i'], [EXPR(CALL('deep3', [], [])), RETURN(i_('n2'))]), FUNC('unused2', [], [], [EXPR(CALL('unused1', [], []))]),
          FUNC('deep1', [], [], [IF([(CMP('==', CALL('deep2', [I(7)], ['i']), I(7)), [PRINT(S('deep1'))])])])]
    for pn, pf in tt.positions():
        for on, t, of in tt.offers():
            if on not in ('call', 'multi', 'void', 'err'): continue
            if pn.split()[0] in ('read', 'input', 'write', 'exists', 'panic', 'pipe', 'app') and on != 'call': continue
            for ctx in ('top', 'fn', 'deep'):
                st = tt.program(pf, of(), ctx)
                if st is None: continue
                # the callee of the table goes down the chain
                for s in st:
                    if s['k'] == 'func' and (s['name'][1:] in tt.T6 or s['name'] in ('fv', 'fii', 'fis', 'fe')): s['body'] = [EXPR(CALL('deep1', [], []))] + s['body']
                out.append(dict(stmts=copy.deepcopy(CH) + st + [PRINT(S('end'))], key='chain', note='%s: %s %s in %s' % (pn, on, t, ctx), ctx=ctx))
    return out

def exported(p):
    """the same with the functions of the prelude in an imported file"""
    st = copy.deepcopy(p['stmts'])
    lib = [s for s in st if s['k'] == 'func' and s['name'] != 'ctx']
    rest = [s for s in st if not (s['k'] == 'func' and s['name'] != 'ctx')]
    new = {s['name']: s['name'][0].upper() + s['name'][1:] for s in lib}
    def ex(e, a):
        if e['k'] == 'call' and e['f'] in new: e['f'], e['a'] = new[e['f']], a
        for x in e.get('c', []): ex(x, a)
    def go(s, a):
        for x in s.get('c', []): ex(x, a)
        if s['k'] == 'sw' and s['tag']: s['tag'] = s['c'][0]
        if s['k'] == 'for':
            for w in ('init', 'upd'):
                if s[w]: go(s[w], a)
            if s['cond']: ex(s['cond'], a)
        for b in ([s['body']] if s.get('body') is not None else []) + (s.get('bodies') or []) + ([s['els']] if s.get('els') is not None else []):
            for x in b: go(x, a)
    for s in lib:
        s['name'] = new[s['name']]
        go(s, '')
    for s in rest: go(s, 'l')
    return dict(key='chain', note='imported, ' + p['note'], ctx=p['ctx'], mods=[dict(name='lib.tsh', stmts=lib, imports=[], imp={}, order=[]), dict(name='m.tsh', stmts=rest, imports=[('l', 'lib.tsh')], imp=dict(l=1), order=[1])])
