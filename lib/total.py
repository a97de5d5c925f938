"""C13: inputs of every kind - bytes, token sequences, edited programs, deep and long programs."""
import re, itertools
import lex, corpus

TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|`[^`]*`|[A-Za-z_]\w*|\d+(?:\.\d+)?|==|!=|<=|>=|&&|\|\||[-+*/%:]=|\+\+|--|\n|[ \t\r]+|.''', re.S)
def split(text): return [t for t in TOK.findall(text) if not t.isspace() or t == '\n']
def join(toks): return ' '.join(toks).replace(' \n ', '\n').replace('\n ', '\n')

KINDS = lex.KW + lex.PU + ['\n', 'a', '"s"', '1', '-1', '`r`', '_', 'zv', 'zi']
BROKEN = ['"', '`', '/*', '//', '"\\', '#', '$', '\\', "'", '1.5', '99999999999999999999', '"\\q"', '\x00', '\r', 'é', '~', '?', '^']
PRE = 'zi := 1\nzs := "s"\nzl := []int{1}\nzt := []string{"x"}\nzb := true\nfunc zv() {\n\tprint(1)\n}\nfunc zm() (int, string) {\n\treturn 1, "m"\n}\nfunc zf(p int) int {\n\treturn p\n}\n'
PHRASES = ['zv()', 'zm()', 'zf(zv())', 'zf(zm())', 'zf()', 'zf(1, 2)', 'zl', 'zl[0]', 'zl[zv()]', 'zl[0:1]', 'zs[0]', 'zs[0:zv()]', 'zs[:]', 'nil', '[]int{}', '[]string{zv()}', '[]bool{1}', '@x()', '@x(zv())', '@x() | @y()',
           '@`x`', '!zi', '!zb', '-zi', '(zv())', '()', '(zi', 'zi)', 'zi + zv()', 'zm() + 1', 'zb && zv()', 'len(zv())', 'len()', 'itoa(zm())', 'copy(zl, zv())', 'copy(zl)', 'copy(zs, zl)', 'read(zv())', 'input(zm())', 'exists(zv())',
           'write("a", zv())', 'q.x()', 'q.x', 'zi.x()', 'zv', 'zf', '[]', '[]int', '[]int{', 'int', 'int(1)', 'func() {}', 'zi zi', '1 1', 'zi := 1', 'zi = 1', 'zi++', ':=', 'zi == zi == zi', 'zi < zs < zb', '[][]int{}', '{}', '...', 'range zl', 'range zv()']

def soups(rng, n):
    """token sequences, in programs and as programs"""
    out = []
    heads = ['', 'x := ', 'x = ', 'var ', 'var x ', 'var x int = ', 'func ', 'func f', 'func f(', 'func f(a ', 'func f() (', 'func f() {\n', 'return ', 'if ', 'if true {\n', 'if true {\n} else ', 'for ', 'for i := 0; ', 'for i := 0; true; ', 'for _, v := range ', 'for i, v ',
             'switch ', 'switch 1 {\n', 'switch 1 {\ncase ', 'switch {\ncase true:\n', 'import ', 'import (\n', 'print(', 'len(', 'copy(', 'read(', 'write(', 'input(', 'itoa(', 'panic(', 'exists(', '@', '@x(', '@x() | ', 'a[', 'a[1', 'a[1:', 'zl[', '[]', '[]int{', '(', '!', '-', 'a.', 'a + ', 'a, ', 'a, b := ', 'a, b = ', 'a +', 'break ', 'continue ', 'zs[', 'zm(', 'zf(']
    for h in heads:
        for a in KINDS + BROKEN:
            out.append((PRE if 'z' in h or rng.random() < .5 else '') + h + a)
    for _ in range(n):
        k = rng.choice([1, 2, 3, 4, 6, 8, 12, 20, 40])
        ts = []
        for _ in range(k):
            r = rng.random()
            ts.append(rng.choice(KINDS) if r < .75 else rng.choice(PHRASES) if r < .93 else lex.lexeme(rng, True) if r < .98 else rng.choice(BROKEN))
        out.append((PRE if rng.random() < .5 else '') + rng.choice(heads) + join(ts) + rng.choice(['', '\n', '\n}\n', ')\n', ' {\n}\n']))
    return out

def pairs():
    k = KINDS + BROKEN
    return [a + ' ' + b for a in k for b in k] + k + ['']

def phrases(rng, n=None):
    """every phrase in every kind of hole"""
    holes = ['%s\n', 'x := %s\n', 'var x = %s\n', 'var x int = %s\n', 'var x []int = %s\n', 'zi = %s\n', 'zi += %s\n', 'zs += %s\n', 'zl[0] = %s\n', 'zl[%s] = 1\n', 'print(%s)\n', 'print(1, %s)\n', 'panic(%s)\n', 'if %s {\n}\n', 'if true {\n} else if %s {\n}\n', 'for %s {\nbreak\n}\n', 'for i := 0; %s; i++ {\n}\n', 'for i := %s; i < 2; i++ {\n}\n',
             'for i := 0; i < 2; %s {\n}\n', 'for %s; true; {\nbreak\n}\n', 'for i, v := range %s {\nprint(i, v)\n}\n', 'switch %s {\ncase 1:\n}\n', 'switch 1 {\ncase %s:\n}\n', 'switch {\ncase %s:\n}\n', 'switch true {\n%s\n}\n', 'func q() int {\nreturn %s\n}\nq()\n', 'func q() (int, string) {\nreturn %s\n}\nq()\n', 'func q() {\nreturn %s\n}\nq()\n', 'func q() {\n%s\n}\nq()\n', 'func q(%s) {\n}\nq(1)\n',
             'func q() %s {\n}\nq()\n', 'zf(%s)\n', 'x := zf(%s)\n', 'a, b := %s\n', 'a, b := %s, 1\n', 'a, b := 1, %s\n', 'zi, zs = %s\n', 'x := []int{%s}\n', 'x := []string{"a", %s}\n', 'x := zl[%s]\n', 'x := zs[%s]\n', 'x := zs[%s:1]\n', 'x := zs[0:%s]\n', 'x := %s + 1\n', 'x := 1 + %s\n', 'x := %s == 1\n', 'x := "a" + %s\n', 'x := zb && %s\n', 'x := !%s\n', 'x := (%s)\n', 'len(%s)\n', 'x := len(%s)\n', 'x := itoa(%s)\n', 'x := copy(zl, %s)\n', 'x := copy(%s, zl)\n',
             'x := read(%s)\n', 'x := input(%s)\n', 'x := exists(%s)\n', 'write(%s, "a")\n', 'write("a", %s)\n', 'write("a", "b", %s)\n', '@x(%s)\n', 'x := @x(%s)\n', 'a, b, c := @x(%s) | @y()\n', '@x() | %s\n', '@%s()\n', '%s | @x()\n', 'import %s\n', 'import a %s\n', 'import (\n%s\n)\n', '%s.f()\n', '%s[0]\n', '%s()\n', '%s++\n', '%s = 1\n', '%s := 1\n', 'zi == %s\n', '{\n%s\n}\n', 'var %s\n', 'var %s int\n', 'func %s() {\n}\n', 'break %s\n', 'return %s\n', 'x := nil == %s\n', 'x := %s[0]\n', 'x := %s[0:1]\n', 'x := %s.f()\n']
    ps = [PRE + h.replace('%s', p) for h in holes for p in PHRASES + ['', '1', '"s"', 'true', 'zi', 'zs', 'zt', 'zb']]
    return ps if n is None else rng.sample(ps, min(n, len(ps)))

def edits(rng, text, per, double=0, wide=False):
    """single (and double) edits of the tokens of a program"""
    ts = split(text)
    out = []
    def one(ts, i, rep):
        o = rng.randrange(7)
        if o == 0: return ts[:i] + ts[i + 1:]
        if o == 1: return ts[:i] + [ts[i]] + ts[i:]
        if o == 2 and i + 1 < len(ts): return ts[:i] + [ts[i + 1], ts[i]] + ts[i + 2:]
        if o == 3: return ts[:i]
        if o == 4: return ts[:i] + [rep] + ts[i:]
        return ts[:i] + [rep] + ts[i + 1:]
    if wide:
        for i in range(len(ts)):
            out.append(ts[:i] + ts[i + 1:])
            out.append(ts[:i] + [ts[i]] + ts[i:])
            out.append(ts[:i] + ts[i + 1:i + 2] + [ts[i]] + ts[i + 2:])
            out.append(ts[:i])
            for r in KINDS:
                out.append(ts[:i] + [r] + ts[i + 1:])
                out.append(ts[:i] + [r] + ts[i:])
    else:
        for i in range(len(ts)):
            out.append(ts[:i])
            out.append(ts[:i] + ts[i + 1:])
            for r in rng.sample(KINDS, min(per, len(KINDS))): out.append(one(ts, i, r))
            if rng.random() < .3: out.append(ts[:i] + [rng.choice(PHRASES)] + ts[i + 1:])
    for _ in range(double):
        x = ts
        for _ in range(2):
            if not x: break
            x = one(x, rng.randrange(len(x)), rng.choice(KINDS if rng.random() < .7 else PHRASES))
        out.append(x)
    return [join(t) + rng.choice(['', '\n']) for t in out]

def bytes_(rng, n):
    out = []
    pool = list(range(256))
    printable = [10, 13, 9, 32] + list(range(33, 127))
    for _ in range(n):
        k = rng.choice([1, 2, 3, 5, 8, 20, 60, 300])
        src = rng.choice([pool, printable, [0, 255, 254, 0xef, 0xbb, 0xbf, 10, 34, 96], [ord(c) for c in '"`/*\\\n-0a(){}[]@|.,;:=!<>&+% ']])
        out.append(''.join(chr(rng.choice(src)) for _ in range(k)))
    out += ['', '\n', '\r\n', '\r', '\x00', '\xef\xbb\xbf', '\xef\xbb\xbfprint(1)\n', '\xff\xfe', 'print(1)', 'print("\xff")\n', 'print("\xc3\xa9")', '"', '`', '/*', '//', '/', '/**', '-', '.', '\\', '"\\', 'a"', 'print("a', 'a := `x', '1', '1.', '1.5', '.5', '-1', '- 1', '0x1', '1e5', '99999999999999999999999', 'print(99999999999999999999999)',
            'a := 99999999999999999999999\n', 'a := 1.5\nprint(a)\n', 'print("' + 'x' * 70000 + '")\n', '\n' * 5000, ' ' * 5000, '//' + 'x' * 5000, 'a' * 70000, 'a' * 70000 + ' := 1\n', '"' * 1001, '`' * 1001, '(' * 3000, ')' * 3000, '{' * 3000, '[' * 3000, '@' * 3000, '|' * 3000, '-' * 3000, '!' * 3000, '\x00' * 3000]
    return out

def mutated_bytes(rng, n):
    """a byte of a program removed, changed or inserted"""
    out = []
    ts = list(corpus.OK.values())
    for _ in range(n):
        b = list(rng.choice(ts))
        for _ in range(rng.choice([1, 1, 2, 5])):
            i = rng.randrange(len(b) or 1)
            o = rng.randrange(4)
            if o == 0 and b: del b[i]
            elif o == 1: b.insert(i, chr(rng.randrange(256)))
            elif o == 2 and b: b[i] = rng.choice('"`/*\\\n(){}[],;:=-+|&!<> 0a.@')
            elif b: b = b[:i]
        out.append(''.join(c if ord(c) < 256 else '?' for c in b))
    return out

def scaled(n):
    """programs that grow in one direction"""
    J = lambda f, s='': s.join(f(i) for i in range(n))
    d = {
        'groups': 'a := ' + '(' * n + '1' + ')' * n + '\nprint(a)\n', 'sums': 'a := ' + J(lambda i: '1', ' + ') + '\nprint(a)\n', 'right sums': 'a := ' + J(lambda i: '1 + (') + '1' + ')' * n + '\nprint(a)\n',
        'mixed operators': 'a := 1' + J(lambda i: ' %s %d' % ('+-*/%'[i % 5], i % 7 + 1)) + '\nprint(a)\n', 'logical': 'a := true' + J(lambda i: ' && true') + '\nprint(a)\n', 'logical groups': 'a := ' + J(lambda i: '(true || ') + 'true' + ')' * n + '\nprint(a)\n',
        'comparisons': 'a := true' + J(lambda i: ' == true') + '\nprint(a)\n', 'nots': 'a := ' + '!' * n + 'true\nprint(a)\n', 'concatenation': 'a := "x"' + J(lambda i: ' + "x"') + '\nprint(a)\n', 'minus': 'a := 1' + J(lambda i: ' - -1') + '\nprint(a)\n',
        'calls': 'func f(a int) int {\n\treturn a\n}\nprint(' + 'f(' * n + '1' + ')' * n + ')\n', 'lens': 's := "x"\nprint(' + 'len(itoa(' * n + '1' + '))' * n + ')\n', 'indices': 's := []int{0}\nprint(' + 's[' * n + '0' + ']' * n + ')\n', 'subscripts': 's := "abc"\nprint(' + 's[len(' * n + 's' + ') - 1]' * n + ')\n',
        'ifs': J(lambda i: 'if true {\n') + 'print(1)\n' + '}\n' * n, 'else ifs': 'if false {\n' + J(lambda i: '} else if false {\n') + '}\nprint(1)\n', 'elses': J(lambda i: 'if false {\n} else {\n') + 'print(1)\n' + '}\n' * n, 'fors': J(lambda i: 'for i%d := 0; i%d < 1; i%d++ {\n' % (i, i, i)) + 'print(1)\n' + '}\n' * n, 'whiles': J(lambda i: 'for {\n') + 'break\n' + '}\n' * n,
        'ranges': 's := []int{1}\n' + J(lambda i: 'for i%d, v%d := range s {\n' % (i, i)) + 'print(1)\n' + '}\n' * n, 'switches': J(lambda i: 'switch 1 {\ncase 1:\n') + 'print(1)\n' + '}\n' * n, 'cases': 'switch 1 {\n' + J(lambda i: 'case %d:\n' % i) + '}\nprint(1)\n', 'bool switches': J(lambda i: 'switch {\ncase true:\n') + 'print(1)\n' + '}\n' * n,
        'statements': J(lambda i: 'print(%d)\n' % i), 'variables': J(lambda i: 'a%d := %d\n' % (i, i)), 'functions': J(lambda i: 'func f%d() int {\n\treturn %d\n}\n' % (i, i)) + J(lambda i: 'print(f%d())\n' % i), 'call chain': 'func f0() int {\n\treturn 1\n}\n' + ''.join('func f%d() int {\n\treturn f%d() + f%d()\n}\n' % (i, i - 1, i - 1) for i in range(1, n)) + 'print(f%d())\n' % (n - 1),
        'unused chain': 'func f0() int {\n\treturn 1\n}\n' + ''.join('func f%d() int {\n\treturn f%d() + f%d()\n}\n' % (i, i - 1, i - 1) for i in range(1, n)) + 'print(1)\n', 'parameters': 'func f(' + J(lambda i: 'a%d int' % i, ', ') + ') {\n}\nf(' + J(lambda i: '1', ', ') + ')\n', 'results': 'func f() (' + J(lambda i: 'int', ', ') + ') {\n\treturn ' + J(lambda i: '1', ', ') + '\n}\n' + J(lambda i: 'a%d' % i, ', ') + ' := f()\n',
        'definitions': J(lambda i: 'a%d' % i, ', ') + ' := ' + J(lambda i: '1', ', ') + '\n', 'print arguments': 'print(' + J(lambda i: '1', ', ') + ')\n', 'slice elements': 'a := []int{' + J(lambda i: '1', ', ') + '}\n', 'pipes': '@a()' + J(lambda i: ' | @a()') + '\n', 'app arguments': '@a(' + J(lambda i: '"x"', ', ') + ')\n', 'nested apps': 'x, y, z := ' + '@a(' * 1 + J(lambda i: '"x"', ', ') + ')\n',
        'blanks': ' ' * n + 'print(1)' + ' ' * n + '\n', 'line breaks': '\n' * n + 'print(1)\n', 'comments': '// c\n' * n + 'print(1)\n', 'block comments': '/* c */' * n + 'print(1)\n', 'open groups': '(' * n, 'open calls': 'print(' * n, 'open ifs': 'if true {\n' * n, 'open indices': 'a := a[' * n, 'closing': '}' * n, 'open slices': '[]int{' * n, 'nots open': '!' * n, 'comma': ',' * n, 'types': '[]' * n + 'int', 'dots': 'a.' * n, 'ats': '@' * n,
        'funcs in funcs': 'func f() {\n' * n + '}\n' * n, 'imports': 'import (\n' + J(lambda i: 'a%d "lib.tsh"\n' % i) + ')\na0.Show("x")\n', 'long name': 'a' * n + ' := 1\nprint(' + 'a' * n + ')\n', 'long string': 'print("' + 'ab\\n' * n + '")\n', 'long raw': 'print(`' + 'a"b\n' * n + '`)\n', 'compound': 'a := 1\n' + J(lambda i: 'a += a\n') + 'print(a)\n', 'string compound': 'a := "x"\n' + J(lambda i: 'a = a + a\n') + 'print(1)\n',
    }
    return list(d.items())
