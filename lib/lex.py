"""Texts for the token grammar (C11) and its edge cases."""
import itertools

KW = 'import var func return if else switch case default for range break continue nil true false len print input copy itoa exists read write panic bool int string error'.split()
PU = '== != <= >= < > && || += -= *= /= %= = := ++ -- ! + - * / % , : ; . @ | ( ) [ ] { }'.split()
# one symbol per class of the grammar, and per state its automaton can be in
SYM = ['/', '*', '\n', '\r\n', '"', '`', '\\', 'a', 'x', '0', '7', '-', '.', '=', '+', '<', '&', '|', '!', ':', ' ', '\t', '_', 'true', 'nil', 'é', '#', '%', '(', '}']

def short(n): return [''.join(t) for k in range(n + 1) for t in itertools.product(SYM, repeat=k)]

HEX = '0123456789abcdefABCDEF'
def escape(rng):
    k = rng.randrange(8)
    if k == 0: return '\\' + rng.choice('abfnrtv\\"')
    if k == 1: return '\\' + ''.join(rng.choice('01234567') for _ in range(3))
    if k == 2: return '\\x' + ''.join(rng.choice(HEX) for _ in range(2))
    if k == 3: return '\\u' + ''.join(rng.choice(HEX) for _ in range(4))
    if k == 4: return '\\U' + rng.choice(['0001', '0000', '0010', '0011', '1000', '000F']) + ''.join(rng.choice(HEX) for _ in range(4))
    if k == 5: return '\\' + chr(rng.randint(32, 126))
    if k == 6: return '\\' + rng.choice(["'", '`', '8', '1', '18', '180', 'x', 'x1', 'xg1', 'u12', 'U1234', 'é'])
    return rng.choice(['é', '世', '😀', 'ÿ', '\u0080', '\u07ff', '\u0800', '\uffff', '\U00010000', '\U0010ffff'])

def string(rng, bad=False):
    raw = rng.random() < .3
    out = ''
    for _ in range(rng.randint(0, 8)):
        r = rng.random()
        if raw: out += rng.choice(['a', ' ', '"', '\\', '\n', '\r\n', '\r', 'é', '//', '/*', '*/', '\\n', '\\"', '$', chr(rng.randint(32, 95)), chr(rng.randint(97, 126)), '世'])
        elif r < .5 and bad: out += escape(rng)
        elif r < .5: out += rng.choice(['\\n', '\\t', '\\\\', '\\"', '\\r', '\\a', '\\b', '\\f', '\\v', '\\x41', '\\101', '\\u00e9', '\\U0001F600', 'é', '世'])
        else:
            c = chr(rng.randint(32, 126))
            out += '.' if c in '"\\' else c
    return '`' + out + '`' if raw else '"' + out + '"'

def ident(rng):
    r = rng.random()
    k = rng.choice(KW)
    if r < .3: return k + rng.choice(['x', '_', '0', 's', 'X', 'ish', '_1', k])
    if r < .5: return rng.choice(['x', '_', 'X', 'a1', '_0']) + k
    if r < .6: return k.upper() if rng.random() < .5 else k.capitalize()
    return rng.choice(['a', 'b', 'x', '_', 'A', 'Z', 'abc', 'a_b', 'x1', '_x', 'i', 'e1', 'format', 'nilx', 'trueish', 'int8', 'ifx', 'x0x', 'f1_x', 'zz9', 'O', 'l'])

def number(rng): return rng.choice(['0', '1', '9', '10', '42', '007', '1234567890', '9223372036854775807', '9223372036854775808', '1.5', '0.0', '12.34', '-1', '-0', '-9223372036854775808', '-12', '-3.25', '65535'])

def lexeme(rng, bad=False):
    r = rng.random()
    if r < .2: return rng.choice(KW)
    if r < .35: return ident(rng)
    if r < .45: return number(rng)
    if r < .6: return string(rng, bad)
    return rng.choice(PU)

COMMENT = ['//', '// x', '//x // y', '// /* x', '// */', '//"', '//`', '/**/', '/* x */', '/***/', '/* * / */', '/*\n*/', '/* a\n\n b */', '/*\r\n x */', '/* // */', '/* " */', '/* ` */', '/*/*/', '/*/ */', '/* é */', '// é', '/* 世界\n é */', '/****/', '// \\', '/* \\ */', '/* a *//* b */', '//\t']
def sep(rng, must=False):
    out = ''
    for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 3]) or (1 if must else 0)):
        r = rng.random()
        if r < .55: out += rng.choice([' ', '  ', '\t', ' \t'])
        elif r < .75: out += rng.choice(['\n', '\r\n', '\n\n', '\n \n'])
        else:
            c = rng.choice(COMMENT)
            out += c + ('\n' if c.startswith('//') and rng.random() < .97 else '')
    return out

def seq(rng, bad=False):
    return sep(rng) + ''.join(lexeme(rng, bad) + sep(rng, rng.random() < .6) for _ in range(rng.randint(1, 14)))

def large(rng, deep):
    out = []
    for n in [15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400] + ([1023, 1024, 1025, 4096] if deep else []):
        a = ''.join(rng.choice('abxyzABXYZ_019') for _ in range(n - 1))
        out += ['a' + a, 'b ' + '_' * n + ' c', 'return' + a, 'x' * (n - 4) + 'true', '1' * n, '-' + '9' * n + '.' + '0' * n + 'z', '"' + 'q' * n + '"w', '`' + 'q' * n + '`w', '"' + '\\n' * n + '" e',
                '`' + '\n' * n + '` e', '"' + '\\\\' * n + '"', '"' + 'é' * n + '"', '//' + 'c' * n + '\nx', '/*' + '*' * n + '*/x', '/*' + '\n' * n + '*/ x y', ' ' * n + 'x', '\t' * n + 'x', '\n' * n + 'x y',
                '(' * n + ')', '!' * n + 'x', '=' * n, '+' * n + '1', '-' * n + '1', '<' * n, '&' * n, '-1' * n, 'a.' * n + 'b', '1.' * n, '"a"' * n, '/**/' * n + 'x', 'x//y\n' * (n // 4) + 'z', '/' * n, '"' + 'u' * n, '/*' + 'u' * n, '`' + 'u' * n]
    for _ in range(60 if deep else 12): out.append(''.join(seq(rng) + rng.choice([' ', '\n', '\n', '\r\n']) for _ in range(rng.choice([20, 60]))))
    return out

def families(rng, deep):
    f = []
    S = short(3)
    f.append(('all texts of up to 3 symbols', S))
    four = [''.join(rng.choice(SYM) for _ in range(rng.choice([4, 4, 5, 6]))) for _ in range(400000 if deep else 20000)]
    f.append(('texts of 4 to 6 symbols', four))
    adj = [a + b for a in PU + ['a', '1', '"s"', '`r`', 'true', 'nil', '-1', '//c', '/*c*/', 'if', '\n'] for b in PU + ['a', '1', '"s"', '`r`', 'true', 'nil', '-1', '//c', '/*c*/', 'if', '\n']]
    f.append(('all pairs of lexemes without separator', adj))
    f.append(('all pairs with a separator', [a + s + b for a in ['a', '1', ')', '=', '"s"', '+', 'return'] for s in COMMENT + [' ', '\t', '\n', '\r\n', '\n\t', ' \r\n '] for b in ['b', '-1', '"t"', '/', '*', '`\n`z', '=', '\n x']]))
    kw = [a + k + b for k in KW for a in ['', 'x', '_', '1', '-', '.', '"', 'X'] for b in ['', 'x', '_', '0', '(', '.', '"', 'X', ' ', '\n', k, '-1', 'é']]
    f.append(('keywords with every neighbour', kw))
    esc = ['"' + x + '"' for c in range(32, 127) for x in ['\\' + chr(c), 'a\\' + chr(c) + 'b', chr(c), chr(c) + chr(c)]] + ['`' + x + '`' for c in range(32, 127) for x in ['\\' + chr(c), chr(c), chr(c) + 'x']]
    esc += ['"\\%03o"' % c for c in range(0, 512)] + ['"\\x%02x"' % c for c in range(256)] + ['"\\x%02Xa" b' % c for c in range(0, 256, 5)]
    esc += ['"\\u%04x"' % c for c in list(range(0, 0x1000, 97)) + [0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdfff, 0xe000, 0xfffd, 0xffff]] + ['"\\U%08x"' % c for c in [0, 0x41, 0xffff, 0x10000, 0x10ffff, 0x110000, 0xd800, 0xffffffff, 0x7fffffff, 0x1f600]]
    esc += ['"x' + s for s in ['', '\\', '\\"', '\\x4', '\\u123', 'abc\n', '/*', "'"]] + ['`x' + s for s in ['', '\n', '"', '\\']]
    f.append(('every escape and unterminated strings', esc))
    f.append(('string contents', [string(rng, rng.random() < .6) + rng.choice(['', 'x', ' + y', '\nz', '"s"']) for _ in range(40000 if deep else 3000)]))
    f.append(('random lexeme sequences', [seq(rng, rng.random() < .15) for _ in range(40000 if deep else 3000)]))
    pos = []
    for a in ['', '\n', '\t', '/* c */', '/*\n\n*/', '`\n\n`', '`a\r\nb`', '"é"', '// c\n', '/* é\n é */ ', '\r\n\r\n', '"\\n"', '`x`\n']:
        for b in ['', ' ', '\n  ', '/* x\ny */', '//z\r\n\t']:
            for c in ['a b', '"s" x', '`\n` y', '1 2', '== !', '/**/ q', '\n\n r', '#', '"open', '/* open']: pos.append(a + b + c)
    f.append(('positions behind multi-line lexemes', pos))
    bad = [a + chr(c) + b for c in list(range(1, 32)) + list(range(127, 256)) + [0x4e16] for a in ['', 'a', ' ', '"s"', '/* c */', '// c'] for b in ['', 'b', ' ', '\n', '\nb']]
    bad += [a + c + b for c in ['#', '$', '&', '?', '\\', "'", '~', '^', '\r'] for a in ['', 'a ', '1', '"s" ', '\n'] for b in ['', 'b', ' ', '=', '&', '\n']]
    f.append(('characters outside the grammar', bad))
    f.append(('long lexemes, lines and texts', large(rng, deep)))
    return [(n, [t.encode('utf-8') for t in ts]) for n, ts in f]
