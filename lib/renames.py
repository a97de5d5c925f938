"""C10: scenarios whose identifiers are roles, injective renamings of them, and the pool of dangerous names."""
from tsh import *
import copy, re, subprocess, itertools
i_, s_, b_ = (lambda n: V(n, 'i')), (lambda n: V(n, 's')), (lambda n: V(n, 'b'))
SI = lambda n: V(n, 'Si')
SS = lambda n: V(n, 'Ss')

# words of the language that are no identifiers
LANG = {'import', 'var', 'func', 'return', 'if', 'else', 'switch', 'case', 'default', 'for', 'range', 'break', 'continue', 'nil', 'len', 'print', 'input',
        'copy', 'itoa', 'exists', 'read', 'write', 'panic', 'bool', 'int', 'string', 'error', 'true', 'false', '_'}
LEGAL = re.compile(r'[A-Za-z_][A-Za-z0-9_]*\Z')

# ---------------------------------------------------------------- renaming of a tree
def rename(x, m):
    """every identifier of the tree through m (names without an entry stay)"""
    if isinstance(x, list): return [rename(y, m) for y in x]
    if isinstance(x, tuple): return tuple(rename(y, m) for y in x)
    if not isinstance(x, dict): return x
    k = x.get('k')
    r = {}
    for f, v in x.items():
        if f in ('c', 'bodies', 'els', 'body', 'init', 'cond', 'upd', 'tag'): r[f] = rename(v, m)
        else: r[f] = v
    if k in ('var', 'copy', 'op', 'inc', 'sas'): r['n'] = m.get(x['n'], x['n'])
    if k == 'call' and not x['a']: r['f'] = m.get(x['f'], x['f'])
    if k in ('vdef', 'asg'): r['ns'] = [m.get(n, n) for n in x['ns']]
    if k == 'rng':
        r['iv'] = m.get(x['iv'], x['iv'])
        r['vv'] = m.get(x['vv'], x['vv']) if x['vv'] else x['vv']
    if k == 'func':
        r['name'] = m.get(x['name'], x['name'])
        r['params'] = [(m.get(n, n), t) for n, t in x['params']]
    if k == 'sw' and x['tag'] is not None: r['tag'] = r['c'][0]
    return r

def ids(x, out=None):
    """the identifiers of a tree in order of appearance"""
    out = {} if out is None else out
    if isinstance(x, (list, tuple)):
        for y in x: ids(y, out)
    elif isinstance(x, dict):
        k = x.get('k')
        if k == 'func':
            out[x['name']] = 1
            for n, _ in x['params']: out[n] = 1
        if k in ('var', 'copy', 'op', 'inc', 'sas'): out[x['n']] = 1
        if k in ('vdef', 'asg'):
            for n in x['ns']: out[n] = 1
        if k == 'rng':
            for n in (x['iv'], x['vv']):
                if n: out[n] = 1
        for f in ('c', 'bodies', 'els', 'body', 'init', 'cond', 'upd'):
            if x.get(f) is not None: ids(x[f], out)
    return [n for n in out if n not in ('_',)]

def rename_prog(p, m):
    q = {k: v for k, v in p.items() if k != 'obs'}
    if 'mods' in p: q['mods'] = [dict(d, stmts=rename(d['stmts'], mm)) for d, mm in zip(p['mods'], m)]
    else: q['stmts'] = rename(p['stmts'], m)
    return q

# ---------------------------------------------------------------- scenarios
def scalars():
    f = FUNC('calc', [('par', 'i'), ('qar', 's')], ['i', 's'], [VDEF(['loc'], [BIN('*', i_('par'), I(2))]), VDEF(['tmp'], [BIN('+', s_('qar'), S('x'))]),
        OPA('glob', '+', i_('loc')), IF([(CMP('>', i_('loc'), I(6)), [ASG(['tmp'], [BIN('+', s_('tmp'), S('big'))])])]), RETURN(BIN('+', i_('loc'), I(1)), s_('tmp'))])
    g = FUNC('wrap', [('par', 'i')], ['i'], [VDEF(['loc'], [I(100)]), VDEF(['u1', 'u2'], [CALL('calc', [i_('par'), S('w')], ['i', 's'])]), PRINT(i_('u1'), s_('u2'), i_('loc')), RETURN(BIN('+', i_('u1'), i_('loc')))])
    v = FUNC('note', [('msg', 's')], [], [PRINT(S('note'), s_('msg'), i_('glob'))])
    c = FUNC('chk', [('msg', 's'), ('flag', 'b')], ['b'], [EXPR(CALL('note', [s_('msg')], [])), RETURN(NOT(b_('flag')))])
    return [VDEF(['glob'], [I(5)], 'var'), VDEF(['name'], [S('str')]), VDEF(['cond'], [B(True)]), f, g, v, c,
        VDEF(['r1', 'r2'], [CALL('calc', [i_('glob'), s_('name')], ['i', 's'])]), PRINT(i_('r1'), s_('r2'), i_('glob')),
        FOR(VDEF(['cnt'], [I(0)]), CMP('<', i_('cnt'), I(3)), INC('cnt'), [VDEF(['sub'], [CALL('wrap', [i_('cnt')], ['i'])]), IF([(CMP('==', i_('cnt'), I(1)), [CONTINUE()])]),
            FOR(VDEF(['inn'], [I(5)]), CMP('>', i_('inn'), I(0)), INC('inn', '-'), [IF([(CMP('==', i_('inn'), I(3)), [BREAK()])], [PRINT(i_('inn'), i_('cnt'), i_('sub'))])])]),
        IF([(LOG('&&', CALL('chk', [S('a'), b_('cond')], ['b']), CALL('chk', [S('b'), B(False)], ['b'])), [PRINT(S('no'))]), (LOG('||', CALL('chk', [S('c'), B(False)], ['b']), b_('cond')), [PRINT(S('yes'))])]),
        SWITCH(i_('glob'), [(I(1), [PRINT(S('one'))]), (BIN('+', i_('r1'), I(12)), [PRINT(S('match'))])], [PRINT(S('other'))]),
        ASG(['r1', 'glob'], [i_('glob'), i_('r1')]), INC('r1'), OPA('glob', '*', I(3)), OPA('name', '+', s_('r2')),
        PRINT(i_('r1'), i_('glob'), s_('name'), b_('cond'), ITOA(i_('glob')), CMP('==', s_('name'), S('strstrx')))]

def slices():
    f = FUNC('fill', [('dst', 'Si'), ('num', 'i')], ['i'], [FOR(VDEF(['pos'], [I(0)]), CMP('<', i_('pos'), i_('num')), INC('pos'), [SAS('dst', i_('pos'), BIN('*', i_('pos'), i_('num')))]), RETURN(LEN(SI('dst')))])
    g = FUNC('join', [('lst', 'Ss'), ('sep', 's')], ['s'], [VDEF(['acc'], [S('')]), RNG('ix', 'el', SS('lst'), [IF([(CMP('>', i_('ix'), I(0)), [OPA('acc', '+', s_('sep'))])]), OPA('acc', '+', s_('el'))]), RETURN(s_('acc'))])
    h = FUNC('make', [('len0', 'i')], ['Si', 's'], [VDEF(['fresh'], [SL('i', [I(7)])]), SAS('fresh', i_('len0'), I(9)), VDEF(['base'], [S('abcdef')]), RETURN(SI('fresh'), SUB(s_('base'), I(1), i_('len0')))])
    return [VDEF(['nums'], [SL('i', [I(1), I(2)])]), VDEF(['words'], [SL('s', [S('p'), S('q'), S('r')])]), VDEF(['back'], [], 'vart', 'Si'), f, g, h,
        PRINT(CALL('fill', [SI('nums'), I(4)], ['i']), LEN(SI('nums')), IDX(SI('nums'), I(3))), VDEF(['alias'], [SI('nums')]), SAS('alias', I(0), I(50)),
        VDEF(['n1'], [COPY('back', SI('nums'), 'Si')]), SAS('back', I(1), I(-1)), PRINT(i_('n1'), IDX(SI('nums'), I(0)), IDX(SI('nums'), I(1)), IDX(SI('back'), I(1)), LEN(SI('back'))),
        PRINT(CALL('join', [SS('words'), S('-')], ['s'])), VDEF(['res', 'txt'], [CALL('make', [I(4)], ['Si', 's'])]), PRINT(LEN(SI('res')), IDX(SI('res'), I(4)), IDX(SI('res'), I(2)), s_('txt')),
        RNG('k1', 'v1', SI('nums'), [RNG('k2', 'v2', SS('words'), [IF([(CMP('==', i_('k2'), I(1)), [CONTINUE()])]), PRINT(i_('k1'), i_('v1'), i_('k2'), s_('v2'))]), IF([(CMP('>', i_('k1'), I(1)), [BREAK()])])]),
        RNG('k1', 'v1', s_('txt'), [PRINT(i_('k1'), s_('v1'))]), SAS('words', LEN(SS('words')), IDX(s_('txt'), I(1))), PRINT(CALL('join', [SS('words'), S('.')], ['s']), SUB(s_('txt'), I(1)), SUB(s_('txt'), None, I(2)), LEN(s_('txt')))]

def files():
    f = FUNC('save', [('path', 's'), ('data', 's')], ['s'], [WRITE(s_('path'), s_('data')), WRITE(s_('path'), S('more'), B(True)), VDEF(['got'], [READ(s_('path'))]), RETURN(s_('got'))])
    g = FUNC('ask', [('prm', 's')], ['s'], [VDEF(['line'], [INPUT(s_('prm'))]), RETURN(BIN('+', s_('line'), S('.')))])
    d = FUNC('fail', [('why', 's')], [], [IF([(CMP('!=', s_('why'), S('')), [PANIC(BIN('+', S('bad'), s_('why')))])])])
    return [VDEF(['file'], [S('out.txt')]), f, g, d, VDEF(['text'], [CALL('save', [s_('file'), S('one')], ['s'])]), PRINT(s_('text'), LEN(s_('text')), EXISTS(s_('file')), EXISTS(S('none'))),
        VDEF(['in1'], [CALL('ask', [S('q1')], ['s'])]), VDEF(['in2'], [INPUT()]), PRINT(s_('in1'), s_('in2')), EXPR(CALL('fail', [S('')], [])), PRINT(READ(s_('file'))), EXPR(CALL('fail', [S('X')], [])), PRINT(S('never'))]

def apps():
    f = FUNC('call', [('arg', 's')], ['s', 'i'], [VDEF(['out', 'err', 'code'], [APP([('pecho', [s_('arg'), S('fixed')], 'pecho')], True)]), RETURN(s_('out'), i_('code'))])
    g = FUNC('pfilt', [('arg', 's')], ['s'], [RETURN(BIN('+', s_('arg'), S('fn')))])
    return [VDEF(['word'], [S('w w')]), f, g, VDEF(['o1', 'c1'], [CALL('call', [s_('word')], ['s', 'i'])]), PRINT(s_('o1'), i_('c1')), EXPR(APP([('pshow', [s_('word'), CALL('pfilt', [S('z')], ['s'])], 'pshow')])),
        VDEF(['o2', 'e2', 'c2'], [APP([('pecho', [S('k'), s_('word')], 'pecho'), ('pfilt', [S('T')], 'pfilt'), ('pcat', [], 'pcat')], True)]), PRINT(s_('o2'), s_('e2'), i_('c2')),
        VDEF(['o3', 'e3', 'c3'], [APP([('pfail', [S('3')], 'pfail')], True)]), PRINT(s_('o3'), s_('e3'), i_('c3'))]

def modules():
    """two files with the same names of their own"""
    def lib(t, pub):
        return [VDEF(['state'], [S(t)]), FUNC('helper', [('arg', 's')], ['s'], [VDEF(['mid'], [BIN('+', s_('arg'), s_('state'))]), OPA('state', '+', S('+')), RETURN(s_('mid'))]),
                FUNC(pub, [('arg', 's')], ['s'], [VDEF(['mid'], [CALL('helper', [s_('arg')], ['s'])]), PRINT(S(t), s_('mid'), s_('state')), RETURN(s_('mid'))]), PRINT(S('load'), s_('state'))]
    main = [VDEF(['state'], [S('m')]), FUNC('helper', [('arg', 's')], ['s'], [VDEF(['mid'], [CALL('Pub1', [s_('arg')], ['s'], 'aa')]), RETURN(BIN('+', s_('mid'), CALL('Pub2', [s_('state')], ['s'], 'bb')))]),
            PRINT(CALL('helper', [S('x')], ['s']), CALL('Pub1', [CALL('helper', [S('y')], ['s'])], ['s'], 'aa'), s_('state'))]
    return dict(mods=[dict(name='l1.tsh', stmts=lib('1', 'Pub1'), imports=[], imp={}, order=[]), dict(name='l2.tsh', stmts=lib('2', 'Pub2'), imports=[], imp={}, order=[]),
                      dict(name='m.tsh', stmts=main, imports=[('aa', 'l1.tsh'), ('bb', 'l2.tsh')], imp={'aa': 1, 'bb': 2}, order=[1, 2])])

def scenarios():
    """(name, program, also executed as Batch)"""
    return [('scalars', dict(stmts=scalars()), True), ('slices', dict(stmts=slices()), True), ('modules', modules(), True),
            ('files', dict(stmts=files(), stdin=['li ne', 'two'], ckfs=True), False), ('apps', dict(stmts=apps(), probes=True, ckargv=True), False)]

# ---------------------------------------------------------------- dangerous names
CMD = '''errorlevel ERRORLEVEL cd CD date DATE time TIME random RANDOM path PATH pathext PATHEXT prompt comspec cmdcmdline cmdextversion os temp tmp eof EOF
echo set setlocal endlocal call goto exit rem if not exist defined else for do in nul con prn aux errorlevel a b i A I windir systemroot username userprofile
equ neq lss leq gtr geq exist cmd type start title pause shift'''.split()
SH = '''IFS PATH HOME PWD OLDPWD REPLY UID EUID PPID RANDOM SECONDS LINENO BASHPID FUNCNAME DIRSTACK GROUPS BASH_ARGV BASH_VERSINFO BASHOPTS SHELLOPTS OPTIND OPTARG PS1 PS4 ENV
BASH_ENV LC_ALL LANG TERM HISTCMD COLUMNS LINES TMPDIR CDPATH GLOBIGNORE POSIXLY_CORRECT _ echo printf eval local declare typeset test read cat head tail grep sed awk tr cut
set unset shift source trap exec exit return true false time function select until while do done then fi elif esac in case coproc let export readonly alias bg cd wait kill jobs
pshow pecho pfilt pcat pfail sh bash tsh'''.split()
SHAPES = '''_h0 _h1 _h2 _h3 _h10 _rv0 _rv1 _rv2 _fa0 _fa1 _fv0 _fv1 _fv2 _dv0 _dv1 _dv2 _dvc _dvl _ret _i _len _l _n _v _x _s _t0 _t1 _t2 f0_a f1_x f2_x f1_loc _sah _slh _sch _slgh _ech _ach
_fch _fw0 _fl0 _il0 _e0 _b0 _r0 v_a v_loc v__a v_f1_loc m_a h h0 rv rv0 fa fa0 dv dv0 fv0 dvc ret tmp len0 arg args argc argv sl str val idx index start end length status code out err result stdout stderr
main init helper func_ f f0 f1 l0 l1 a_ a__ __ ___ _a _A aA Aa AA a_b aB a__b a1 a_1 _1 _0 x X'''.split()

def shell_names():
    r = subprocess.run(['/bin/bash', '--norc', '-c', 'compgen -abkv'], capture_output=True, text=True, env=dict(PATH='/usr/bin:/bin', HOME='/tmp', LC_ALL='C.UTF-8'))
    return [n for n in r.stdout.split() if LEGAL.match(n)]

IDENT = re.compile(r'[A-Za-z_][A-Za-z0-9_]*')
def solve(target, pats):
    """names whose image under one of the observed ways of naming could be this target name"""
    out = set()
    for pre, post in pats:
        if target.startswith(pre) and target.endswith(post) and len(target) > len(pre) + len(post):
            x = target[len(pre):len(target) - len(post)]
            y = re.sub('__', '_', x)
            out |= {x, y, re.sub('_([A-Z])', r'\1', x), re.sub('_([A-Z])', r'\1', y), x.lower(), x.upper()}
    return {x for x in out if LEGAL.match(x)}
