"""C08/C17/C18: string contents and the paths they take."""
from tsh import *
import itertools
PRINTABLE = [chr(c) for c in range(32, 127)]
ALL = PRINTABLE + ['\n', '\t']

SPECIAL = ['', '$(touch canary)', '`touch canary`', '${x}', '$HOME', '$1', '$@', '$*', '$#', '$?', '$$', '$!', '-n', '-e', '-E', '-ne x', '-', '--', '--help', '-n\n', '-x',
           '\\n', '\\t', '\\\\', '\\', 'x\\', '\\x', '\\"', '\\$x', '\\0101', '\\c', '\\u0041', '*', '?', '[a-z]*', '/*', '~', '~root', '!!', '!x', 'a  b', ' lead', 'trail ', '  ', ' ', '\t', '\t\t', 'a\tb', 'a\nb', '\n', '\nx', 'x\n',
           'x\n\n', '\n\n', 'a\n\nb', '%s', '%d%%', '%n', '%%', '%', "'", '"', "a'b\"c", '""', "''", "$'x'", '$"x"', '<(ls)', '; touch canary', '| touch canary', '&& touch canary', '> canary', '>canary', '< m', '2>&1', '& touch canary',
           '#x', 'x #y', '=', 'a=b', 'PATH=x', '{a,b}', '{1..3}', '"; touch canary; "', "'; touch canary; '", '$((1+1))', '$[1]', '^', '0', '00', '07', '1', '-1', '1e5', '_', 'a[0]', 'a[$(touch canary)]', 'x}', '${', '$((', '))', 'EOF', '(', ')', '()', '[', ']', '[ a ]', 'x]',
           'true', 'false', 'if', 'then', 'fi', 'done', ';', ';;', '&', '|', '||', '<<EOF', '@', '@x', '+', 'a+b', ',', '.', '..', './m', '/', ':', '!', '! x', '-eq', 'a -o b', '-z', '= x', '!=', '<', '>', '$', '$ ', '$x y', 'x$', '"$x"', '`', '``', '\\`', 'a\\', '\\ ', ' \\', '  a  b  ', ' * ', 'a*b', '$(', '`x', '"x', "'x"]

def around(c): return [c, c + 'x', 'x' + c, 'x' + c + 'y', c + c]
def systematic(): return list(dict.fromkeys([s for c in ALL for s in around(c)] + SPECIAL))
def rand(rng, m=8, alpha=ALL):
    r = rng.random()
    if r < .2: return rng.choice(SPECIAL)
    if r < .4: return rng.choice(SPECIAL) + rng.choice(SPECIAL)
    return ''.join(rng.choice(alpha) for _ in range(rng.randint(0, m)))
def wide(rng): return rand(rng, 6)

def lit(s, rng=None): return S(s, raw=rng is not None and rng.random() < .3)
s_ = lambda n: V(n, 's')
i_ = lambda n: V(n, 'i')

PRE = [FUNC('id', [('p', 's')], ['s'], [RETURN(s_('p'))]),
       FUNC('two', [('p', 's'), ('q', 's')], ['s', 's'], [RETURN(s_('q'), s_('p'))]),
       FUNC('local', [('p', 's')], ['s'], [VDEF(['l'], [s_('p')]), VDEF(['m'], [BIN('+', s_('l'), S(''))]), IF([(CMP('==', s_('l'), s_('p')), [RETURN(s_('m'))])]), RETURN(S('differs'))]),
       FUNC('put', [('e', 'Ss'), ('p', 's')], [], [SAS('e', LEN(V('e', 'Ss')), s_('p'))])]
GLOB = [VDEF(['gl'], [S('')]), FUNC('setgl', [('p', 's')], [], [ASG(['gl'], [s_('p')])]), FUNC('catgl', [('p', 's')], [], [OPA('gl', '+', s_('p'))]), FUNC('getgl', [], ['s'], [RETURN(s_('gl'))])]

def paths(x, s, k, rng):
    """statements that send the value of variable x (content s) along every path; k makes names unique"""
    X = s_(x)
    n = lambda a: a + str(k)
    L = lambda t=s: lit(t, rng)
    h = len(s) // 2
    out = dict(
        print_=[PRINT(X), PRINT(X, X), PRINT(S('<'), X, S('>'))],
        assign=[VDEF([n('y')], [X]), PRINT(s_(n('y'))), VDEF([n('z')], [S('')], 'var'), ASG([n('z')], [s_(n('y'))]), PRINT(s_(n('z')))],
        concat=[PRINT(BIN('+', X, S('|'))), PRINT(BIN('+', BIN('+', S('|'), X), X)), VDEF([n('c')], [X]), OPA(n('c'), '+', X), PRINT(s_(n('c')), LEN(s_(n('c'))))],
        compare=[PRINT(CMP('==', X, L()), CMP('!=', X, L()), CMP('==', L(), X), CMP('==', X, L(s + 'q')), CMP('!=', L('q' + s), X), CMP('==', X, S('')), CMP('==', X, X)), IF([(CMP('==', X, L()), [PRINT(S('eq'))])], [PRINT(S('ne'))])],
        pass_=[PRINT(CALL('id', [X], ['s'])), PRINT(CALL('id', [L()], ['s'])), PRINT(CALL('local', [X], ['s']))],
        ret=[VDEF([n('r'), n('q')], [CALL('two', [X, L('-' + s)], ['s', 's'])]), PRINT(s_(n('r')), s_(n('q'))), ASG([n('r'), n('q')], [s_(n('q')), s_(n('r'))]), PRINT(s_(n('r'))), PRINT(CALL('two', [X, X], ['s', 's']))],
        slice_=[VDEF([n('e')], [SL('s', [X, S(''), X])]), SAS(n('e'), I(4), X), EXPR(CALL('put', [V(n('e'), 'Ss'), X], [])), RNG('i', 'v', V(n('e'), 'Ss'), [PRINT(i_('i'), s_('v'))]), PRINT(IDX(V(n('e'), 'Ss'), I(0)), CMP('==', IDX(V(n('e'), 'Ss'), I(4)), X)), VDEF([n('f')], [SL('s', [])]), PRINT(COPY(n('f'), V(n('e'), 'Ss'), 'Ss')), PRINT(IDX(V(n('f'), 'Ss'), I(5)))],
        range_=[RNG('i', 'v', X, [PRINT(i_('i'), s_('v'), CMP('==', s_('v'), IDX(X, i_('i'))))]), VDEF([n('w')], [S('')]), RNG('_', 'v', X, [OPA(n('w'), '+', s_('v'))]), PRINT(CMP('==', s_(n('w')), X))],
        sub=[PRINT(SUB(X, I(h))), PRINT(SUB(X, None, I(h))), PRINT(SUB(X, I(0), LEN(X))), PRINT(BIN('+', SUB(X, None, I(h)), SUB(X, I(h))))] + ([PRINT(IDX(X, I(0)), IDX(X, BIN('-', LEN(X), I(1))))] if s else []) + ([VDEF([n('u')], [SUB(X, I(1), BIN('-', LEN(X), I(1)))]), PRINT(s_(n('u')))] if len(s) > 1 else []),
        len_=[PRINT(LEN(X), LEN(BIN('+', X, X)))],
        file=[WRITE(S(n('out')), X), PRINT(READ(S(n('out')))), WRITE(S(n('out')), X, B(True)), PRINT(READ(S(n('out'))), CMP('==', READ(S(n('out'))), BIN('+', BIN('+', X, S('\n')), X)))],
        switch=[SWITCH(X, [(L(s + '.'), [PRINT(S('no'))]), (L(), [PRINT(S('yes'))])], [PRINT(S('default'))])],
        glob=[EXPR(CALL('setgl', [X], [])), PRINT(s_('gl')), EXPR(CALL('catgl', [X], [])), PRINT(CALL('getgl', [], ['s']), CMP('==', s_('gl'), BIN('+', X, X)))],
        app=[EXPR(APP([('pshow', [X, L()], 'pshow')])), VDEF([n('o'), n('er'), n('cd')], [APP([('pecho', [X], 'pecho')], True)]), PRINT(s_(n('o')), i_(n('cd'))), VDEF([n('o2'), n('e2'), n('c2')], [APP([('pecho', [X], 'pecho'), ('pfilt', [X], 'pfilt')], True)]), PRINT(s_(n('o2')))],
    )
    return out

ORIGINS = ['literal', 'raw', 'file', 'stdin', 'command', 'concat']
def origin(o, s, k, p):
    """expression with value s; may add files / stdin to p.  None if the origin cannot produce s"""
    if o == 'literal': return S(s)
    if o == 'raw': return S(s, True) if '`' not in s else None
    if o == 'file':
        p['files']['in%d' % k] = s + '\n'
        return READ(S('in%d' % k))
    if o == 'stdin':
        if '\n' in s: return None
        p['stdin'].append(s)
        return INPUT()
    if o == 'command':
        if s.endswith('\n'): return None
        return 'cmd'
    return BIN('+', S(s[:len(s) // 2]), S(s[len(s) // 2:]))

def data_program(strings, o, rng, key, pick=None):
    p = dict(files={}, stdin=[], ckfs=True, probes=True, key=key)
    st = list(GLOB) + list(PRE)
    body = []
    k = 0
    for s in strings:
        k += 1
        e = origin(o, s, k, p)
        if e is None: e = S(s)
        x = 'x%d' % k
        if e == 'cmd': st.append(VDEF([x, 'xe%d' % k, 'xc%d' % k], [APP([('pecho', [S(s)], 'pecho')], True)]))
        else: st.append(VDEF([x], [e]))
        ps = paths(x, s, k, rng)
        names = list(ps)
        if pick and pick < len(names): names = rng.sample(names, pick)
        for nme in names: body += ps[nme]
    # probes drain standard input, so all input() calls come first
    st += body
    if rng.random() < .3: st.append(PANIC(s_('x1')))
    p['stmts'] = st
    return p
