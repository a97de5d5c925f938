"""C16: programs with marked statements for Script.tla, and the words of Bash scripts."""
import random, re, itertools, subprocess

KEY = None
def shell_words():
    global KEY
    if KEY is None: KEY = set(subprocess.run(['bash', '-c', 'compgen -bk'], capture_output=True, text=True).stdout.split()) | {'cat', ''}
    return KEY

class G:
    """One program: text lines and, for Script.tla, the table T of marked statements."""
    def __init__(g, rng, forms=None):
        g.r, g.T, g.n, g.m = rng, [], 0, 0
        g.out, g.ind, g.fs, g.order = [], 0, [], []
        g.forms = forms
        g.calls = []            # functions that can be called: (name, marker, nret)
        g.infn = None
        g.budget = 60
    def w(g, s): g.out.append('\t' * g.ind + s)
    def t(g, **k):
        g.T.append(dict(dict(m=0, b=[], e=False), **k))
        return len(g.T)
    def name(g, p='v'):
        g.n += 1
        return '%s%d' % (p, g.n)
    def mark(g):
        g.m += 1
        return g.m, 'zq%dz' % g.m
    FORMS = ['print', 'print', 'print2', 'write', 'append', 'app', 'appq', 'cap', 'capp', 'pipe', 'read', 'exists', 'input', 'str', 'cat', 'len', 'sub', 'sl', 'sas', 'copy', 'asg', 'cmp', 'itoa', 'nop']
    def stmt(g, form=None):
        """a marked statement"""
        k, q = g.mark()
        f = form or g.r.choice(g.forms or g.FORMS)
        v = g.name()
        w = g.w
        if f == 'print': w('print("%s")' % q)
        elif f == 'print2': w('print("a", "%s", gn, gb)' % q)
        elif f == 'write': w('write("%s", "t")' % q)
        elif f == 'append': w('write("f", "%s", gb)' % q)
        elif f == 'app': w('@%s("a b", gs)' % q)
        elif f == 'appq': w('@"my p"("%s")' % q)
        elif f == 'cap': w('%s, _, %sc := @ls("%s")\nprint(%s, %sc)'.replace('\n', '\n' + '\t' * g.ind) % (v, v, q, v, v))
        elif f == 'capp': w('%s, %se, %sc := @ls() | @%s("x") | @wc("-l")\nprint(%s + %se, %sc)'.replace('\n', '\n' + '\t' * g.ind) % (v, v, v, q, v, v, v))
        elif f == 'pipe': w('@ls() | @%s(gs, "q") | @wc()' % q)
        elif f == 'read': w('%s := read("%s")\n%sprint(%s)' % (v, q, '\t' * g.ind, v))
        elif f == 'exists': w('%s := exists("%s")\n%sprint(%s)' % (v, q, '\t' * g.ind, v))
        elif f == 'input': w('%s := input("%s")\n%sprint(%s)' % (v, q, '\t' * g.ind, v))
        elif f == 'str': w('%s := "%s"\n%sprint(%s)' % (v, q, '\t' * g.ind, v))
        elif f == 'cat': w('%s := "%s" + gs\n%sprint(%s)' % (v, q, '\t' * g.ind, v))
        elif f == 'len': w('%s := len("%s")\n%sprint(%s)' % (v, q, '\t' * g.ind, v))
        elif f == 'sub': w('gs = "%s"\n%s%s := gs[gn:2]' % (q, '\t' * g.ind, v))
        elif f == 'sl': w('%s := []string{"%s"}\n%sprint(len(%s))' % (v, q, '\t' * g.ind, v))
        elif f == 'sas': w('gl[gn] = "%s"' % q)
        elif f == 'copy': w('%s := []string{"%s", "b"}\n%sprint(copy(gl, %s))' % (v, q, '\t' * g.ind, v))
        elif f == 'asg': w('gs = "%s"' % q)
        elif f == 'cmp': w('gb = gs == "%s"' % q)
        elif f == 'itoa': w('gs += itoa(gn) + "%s"' % q)
        elif f == 'nop': w('gs = "%s"' % q)
        g.last = k
        return [g.t(k='m', m=k)]
    def filler(g):
        """unmarked statements"""
        v = g.name('u')
        return g.r.choice(['gn++', 'gb = !gb && gn < 3 || gb', 'gn = gn * 2 - 1 % 3', '%s := []int{1, gn}' % v, 'gs += "x"', 'gl[len(gl)] = gs', '%s := gl[0] == gs[0]' % v, 'gs = gs[1:]', 'print()', 'print(len(gl), len(gs))',
                           'write("f", gs)', '@ls()', '%s := input()' % v, 'gb = exists(gs)', 'gs = read("f")', 'copy(gl, []string{"a"})'.replace('copy', 'gn = copy')] + g.VALUES)
    # values and calls as statements of their own
    VALUES = ['gs', '(1)', '"a"', 'itoa(gn)', 'len(gs)', 'len(gl)', 'copy(gl, gl)', 'copy(gl, []string{"b", "c"})', '_ := 3', 'var _ int', 'gn + 1', 'gs + "b"', '!gb && gn < 3', 'gs[1:]', '[]int{1}', 'input()', 'read("f")', 'exists("f")', 'gs == "a"', '(gb)', 'true', '-1', 'nil']
    def cond(g):
        return g.r.choice(['gn > 3', 'gb', '!gb', 'gs == "x"', 'gn != 2 && gb', 'gb || gn <= 4', 'exists("f")', 'len(gs) > 2', '(gn + 1) * 2 >= 4', 'gs[0] != "a"', 'gl[0] == gs', 'read("f") == "q"'])
    def block(g, d, loop, nmin=0, pre=None):
        """statements between braces; loop: 0 none, 1 break and continue allowed, 2 only continue (inside a switch)"""
        b = []
        g.ind += 1
        if pre: b += pre()
        n = g.r.choice([0, 1, 1, 2, 2, 3]) if not nmin else g.r.randint(nmin, nmin + 2)
        for _ in range(n): b += g.one(d, loop)
        if d < g.depth0 and g.r.random() < .3:
            b += g.jump(loop)
            if g.r.random() < .15: b += g.one(d, loop)
        g.ind -= 1
        return b
    def jump(g, loop):
        c = ['panic']
        if loop: c += ['continue'] * 3
        if loop == 1: c += ['break'] * 3
        if g.infn is not None and g.infn[1]: c += ['return'] * 3
        k = g.r.choice(c)
        if k == 'panic':
            m, q = g.mark()
            g.w('panic("%s")' % q)
            return [g.t(k='m', m=m), g.t(k='panic')]
        if k == 'return':
            g.w('return ' + g.infn[1])
            return [g.t(k='ret')]
        g.w(k)
        return [g.t(k='brk' if k == 'break' else 'cont')]
    def one(g, d, loop):
        r = g.r.random()
        g.budget -= 1
        if g.budget < 0 or d <= 0 or r < .4: return g.stmt()
        if r < .47:
            g.w(g.filler())
            return []
        if r < .57 and g.calls: return g.call()
        return g.compound(d, loop, g.r.choice(['if', 'if', 'for', 'for', 'sw']))
    def call(g, f=None):
        n, m, ret = f or g.r.choice(g.calls)
        g.used.add(n)
        if ret and g.r.random() < .7: g.w('%s := %s(1)' % (g.name(), n) if g.r.random() < .5 else 'print(%s(gn))' % n)
        else: g.w('%s(gn)' % n)
        return [g.t(k='call', m=m)]
    def compound(g, d, loop, kind, shape=None):
        r = g.r
        if kind == 'if':
            ne, els = shape or (r.choice([0, 0, 0, 1, 2, 3]), r.random() < .5)
            bs = []
            g.w('if %s {' % g.cond())
            bs.append(g.block(d - 1, loop))
            for _ in range(ne):
                g.w('} else if %s {' % g.cond())
                bs.append(g.block(d - 1, loop))
            if els:
                g.w('} else {')
                bs.append(g.block(d - 1, loop))
            g.w('}')
            return [g.t(k='if', b=bs, e=els)]
        if kind == 'sw':
            nc, dft = shape or (r.choice([0, 1, 2, 3]), r.random() < .6)
            tag = r.choice(['gn', 'gs', 'gb', '', '', 'len(gs)'])
            g.w('switch %s{' % (tag + ' ' if tag else ''))
            bs = []
            arms = ['c'] * nc
            if dft: arms.insert(r.randint(0, nc), 'd')
            db = None
            for a in arms:
                if a == 'd': g.w('default:')
                else: g.w('case %s:' % {'gn': 'gn + 1', 'gs': '"x"', 'gb': 'gn > 1', '': g.cond(), 'len(gs)': '3'}[tag])
                b = g.block(d - 1, 2 if loop else 0)
                if a == 'd': db = b
                else: bs.append(b)
            g.w('}')
            return [g.t(k='if' if nc or not dft else 'one', b=bs + ([db] if db is not None else []), e=dft)]
        f = shape or r.choice(['3', '3', 'cond', 'inf', 'noupd', 'noinit', 'nocond', 'rs', 'rss', 'ri'])
        i, v = g.name('i'), g.name('x')
        h = {'3': 'for %s := 0; %s < 3; %s++ {' % (i, i, i), 'cond': 'for %s {' % g.cond(), 'inf': 'for {', 'noupd': 'for %s := 0; %s < gn; {' % (i, i), 'noinit': 'for ; gn < 3; gn += 1 {', 'nocond': 'for %s := 0; ; %s++ {' % (i, i),
             'rs': 'for %s, %s := range gl {' % (i, v), 'rss': 'for %s, %s := range gs + "a" {' % (i, v), 'ri': 'for %s := range []int{1, 2} {' % i}[f]
        g.w(h)
        b = g.block(d - 1, 1)
        g.w('}')
        return [g.t(k='loop', b=[b], e=f in ('inf', 'nocond'))]
    def func(g, d):
        n = g.name('fn')
        ret = g.r.choice([None, None, 'int', '(string, int)'])
        rv = {None: '', 'int': 'gn', '(string, int)': 'gs, 1'}[ret]
        g.w('func %s(%s int)%s {' % (n, g.name('p'), ' ' + ret if ret else ''))
        g.infn = (n, rv)
        first = []
        def pre():
            first.extend(g.stmt('print'))
            return list(first)
        b = g.block(d, 0, pre=pre)
        if ret:
            g.ind += 1
            g.w('return ' + rv)
            g.ind -= 1
            b.append(g.t(k='ret'))
        g.w('}')
        m = g.T[first[0] - 1]['m']
        g.fs.append(dict(m=m, b=b))
        g.calls.append((n, m, ret == 'int'))
        g.infn = None
    def head(g):
        g.out += ['gn := 2', 'gs := "abc"', 'gb := true', 'gl := []string{"x"}']
    def program(g, depth, nf, size=60):
        g.depth0, g.used, g.budget = depth, set(), size
        g.head()
        b = []
        for _ in range(nf):
            g.func(g.r.randint(1, depth))
            b += g.call(g.calls[-1])
            if g.r.random() < .4: b += g.stmt()
        for _ in range(g.r.randint(1, 4)): b += g.one(depth, 0)
        b += g.stmt('print')
        return g.done(b)
    def done(g, b):
        return dict(text='\n'.join(g.out) + '\n', T=g.T, b=b, fs=g.fs)

def programs(seed, n, depth=3, nf=3, size=60):
    out = []
    for i in range(n):
        r = random.Random('%s/struct/%d' % (seed, i))
        out.append(dict(G(r).program(r.randint(1, depth), r.randint(0, nf), r.choice([10, 25, size])), key='rnd-%d' % i))
    return out

# ---------------------------------------------------------------- exhaustive small control structures
def skeletons(depth):
    """every control structure of the given depth: if with 0..2 else-if and else, loops, switch; one statement per block or none"""
    if depth == 0: return [None]
    return [None] + [(k, s) for s in skeletons(depth - 1) for k in
                     [('if', (0, False)), ('if', (0, True)), ('if', (1, False)), ('if', (2, True)), ('for', '3'), ('for', 'cond'), ('for', 'inf'), ('for', 'rs'), ('sw', (0, True)), ('sw', (2, False)), ('sw', (2, True)), ('sw', (0, False))]]

class X(G):
    """all places of one nesting filled systematically"""
    def __init__(g, rng, skel, pos, tail):
        G.__init__(g, rng)
        g.skel, g.pos, g.tail = skel, pos, tail
    def block(g, d, loop, nmin=0, pre=None):
        g.ind += 1
        b = pre() if pre else []
        s = g.cur
        if s is not None:
            (kind, shape), inner = s
            if 'b' in g.pos: b += g.stmt('print')
            g.cur = inner
            b += g.compound(d, loop, kind, shape)
            g.cur = s
            if 'a' in g.pos: b += g.stmt('print')
        elif 'i' in g.pos: b += g.stmt('print')
        if s is None and g.tail:
            if g.tail in ('break', 'continue') and (loop == 1 or loop and g.tail == 'continue'):
                g.w(g.tail)
                b.append(g.t(k='brk' if g.tail == 'break' else 'cont'))
            elif g.tail == 'return' and g.infn: 
                g.w('return 1')
                b.append(g.t(k='ret'))
            elif g.tail == 'panic': b += G.jump(g, 0) if not g.infn else []
        g.ind -= 1
        return b
    def make(g, infn):
        g.depth0, g.used = 3, set()
        g.head()
        g.cur = g.skel
        if infn:
            g.infn = ('f', '1')
            g.w('func f(p int) int {')
            first = []
            def pre():
                first.extend(g.stmt('print'))
                return list(first)
            b = G.block and X.block(g, 3, 0, pre=pre)
            g.ind += 1
            g.w('return 2')
            g.ind -= 1
            b.append(g.t(k='ret'))
            g.w('}')
            g.infn = None
            g.fs.append(dict(m=g.T[first[0] - 1]['m'], b=b))
            g.calls.append(('f', g.fs[0]['m'], True))
            g.ind = 0
            mb = g.call()
            mb += g.stmt('print')
            return g.done(mb)
        g.ind = -1
        b = g.block(3, 0)
        g.ind = 0
        b += g.stmt('print')
        return g.done(b)

def exhaustive(rng, deep):
    out = []
    for s in skeletons(3 if deep else 2):
        if s is None: continue
        for tail in ('', 'break', 'continue', 'return', 'panic'):
            for pos in ('bai', '', 'i', 'a') if deep or s[1] is None else (rng.choice(['bai', 'bai', '', 'i', 'a']),):
                for infn in ((False, True) if deep else (rng.random() < .5 or tail == 'return',)):
                    if tail == 'return' and not infn: continue
                    out.append(dict(X(rng, s, pos, tail).make(infn), key='skel-%s-%s-%s-%s' % (s, tail, pos, infn)))
    return out

# ---------------------------------------------------------------- every builtin alone, in pairs and all together, in every place
PIECES = {'print': 'print("a")', 'write': 'write("f", "t")', 'writea': 'write("f", gs, true)', 'app': '@ls("-l")', 'pipe': '@ls() | @wc("-l")', 'cap': 'o, e, c := @ls()', 'read': 'r := read("f")', 'exists': 'x := exists("f")', 'input': 'i := input()', 'inputp': 'j := input("p")',
          'len': 'l := len(gs)', 'slen': 'k := len(gl)', 'sub': 't := gs[1:2]', 'idx': 'q := gs[0]', 'sidx': 'w := gl[0]', 'sas': 'gl[1] = "z"', 'copy': 'n := copy(gl, gm)', 'sl': 'm := []int{1}', 'empty': 'z := []bool{}', 'rng': 'for a, b := range gl {\n}', 'rngs': 'for a, b := range gs {\n}', 'itoa': 'y := itoa(gn)',
          'panic': 'panic("p")', 'arith': 'ar := gn * 2 % 3', 'cmp': 'cm := gs == "a"', 'log': 'lo := gb && !gb', 'if': 'if gb {\n}', 'sw': 'switch gn {\ncase 1:\n}', 'for': 'for ii := 0; ii < 2; ii++ {\n}', 'none': '',
          # values and calls as statements of their own
          'v-var': 'gs', 'v-paren': '(1)', 'v-str': '"a"', 'v-itoa': 'itoa(gn)', 'v-len': 'len(gs)', 'v-slen': 'len(gl)', 'v-copy': 'copy(gl, gm)', 'v-cat': 'gs + "x"', 'v-add': 'gn + 1', 'v-cmp': 'gn < 3', 'v-scmp': 'gs == "a"', 'v-log': '!gb || gn > 2',
          'v-sub': 'gs[1:]', 'v-sl': '[]int{1, 2}', 'v-empty': '[]int{}', 'v-input': 'input()', 'v-read': 'read("f")', 'v-exists': 'exists("f")', 'v-pipe': '@a() | @b() | @c()', 'blank': '_ := 3', 'blankv': 'var _ int', 'blankc': '_, _, _ := @ls()', 'blankd': '_, dd := 1, 2', 'inc': 'gn++', 'sapp': 'gl[len(gl)] = "y"'}
USE = '\nprint(%s)'
WHERE = {'main': '%s', 'if': 'if gb {\n%s\n} else if gn > 3 {\n%s\n} else {\n%s\n}', 'for': 'for gb {\n%s\n}', 'func': 'func f() {\n%s\n}\nf()', 'ffor': 'func f(aa int) int {\nfor kk := 0; kk < 2; kk++ {\n%s\n}\nreturn 1\n}\nvv := f(1)', 'sw': 'switch gn {\ncase 1:\n%s\ndefault:\n%s\n}', 'mod': None}

def builtin_programs(deep, rng):
    names = list(PIECES)
    combos = [(a,) for a in names] + (list(itertools.combinations(names, 2)) if deep else rng.sample(list(itertools.combinations(names, 2)), 150)) + [tuple(names)]
    head = 'gn := 2\ngs := "abc"\ngb := true\n'
    out = []
    for c in combos:
        body = '\n'.join(PIECES[n] for n in c)
        h = head
        if set(c) & {'slen', 'sidx', 'sas', 'copy', 'rng', 'v-slen', 'v-copy', 'sapp'}: h += 'var gl []string\n'
        if {'copy', 'v-copy'} & set(c): h += 'gm := []string{"x"}\n' if len(c) > 1 else 'var gm []string\n'
        for w, t in WHERE.items():
            if len(c) > 1 and not deep and rng.random() < .6: continue
            if w == 'mod':
                files = {'l.tsh': h + 'func F() {\n%s\n}\n' % body, 'm.tsh': 'import l "l.tsh"\nl.F()\n'}
            else: files = {'m.tsh': h + t.replace('%s', body) + '\n'}
            out.append(dict(files=files, key='builtin-%s-%s' % ('+'.join(c) if len(c) < 3 else 'all', w)))
    return out

# ---------------------------------------------------------------- words of a Bash script
DEF = re.compile(r'^\s*(?:function\s+([A-Za-z_]\w*)\s*(?:\(\))?|([A-Za-z_]\w*)\s*\(\))\s*\{?')
def bash_words(script):
    """functions defined, command words used (only for scripts without line breaks inside of words)"""
    defs, uses = [], set()
    for l in script.split('\n'):
        if l.startswith('#'): continue
        m = DEF.match(l)
        if m:
            defs.append(m.group(1) or m.group(2))
            l = l[m.end():]
        for part in re.split(r'\$\(\(|\$\(|\(\(|;|\|\||&&|\||\bthen\b|\belse\b|\bdo\b|\bif\b|\bwhile\b|\belif\b|`|!', l):
            part = part.strip()
            w = part.split(None, 1)[0] if part else ''
            if re.fullmatch(r'[A-Za-z_]\w*', w): uses.add(w)
    return defs, uses
