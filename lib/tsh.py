"""TypeShell syntax trees: builders, rendering to source text, export to the TLA+ node table."""
import random

# ---------------------------------------------------------------- values
B30 = 1 << 30

def limbs(n, bits=64):
    if -B30 <= n < B30:
        return [n]
    u = n & ((1 << 64) - 1)
    return [(u >> (8 * i)) & 255 for i in range(8)]

# ---------------------------------------------------------------- expression builders (k, t = static type)
def I(n): return dict(k='lit', t='i', val=n)
def B(b): return dict(k='lit', t='b', val=bool(b))
def S(s, raw=False): return dict(k='lit', t='s', val=s, raw=raw)
def NIL(): return dict(k='lit', t='s', val='', nil=True)
def V(n, t): return dict(k='var', n=n, t=t)
def BIN(o, l, r): return dict(k='bin', o=o, c=[l, r], t=l['t'])
def CMP(o, l, r): return dict(k='cmp', o=o, c=[l, r], t='b')
def LOG(o, l, r): return dict(k='log', o=o, c=[l, r], t='b')
def NOT(e): return dict(k='not', c=[e], t='b')
def GRP(e): return dict(k='grp', c=[e], t=e['t'])
def CALL(f, args, rets, alias=''): return dict(k='call', a=alias, f=f, c=args, rets=rets, t=rets[0] if len(rets) == 1 else ('v' if not rets else 'm'))
def SL(t, elems): return dict(k='sl', et=t, c=elems, t='S' + t)
def IDX(e, i): return dict(k='idx', c=[e, i], t=e['t'][1] if e['t'][0] == 'S' else 's')
def SUB(e, a=None, b=None):
    o = ('a' if a is not None else '') + ('b' if b is not None else '')
    return dict(k='sub', o=o, c=[e] + [x for x in (a, b) if x is not None], t='s')
def LEN(e): return dict(k='len', c=[e], t='i')
def ITOA(e): return dict(k='itoa', c=[e], t='s')
def EXISTS(e): return dict(k='exists', c=[e], t='b')
def READ(e): return dict(k='read', c=[e], t='s')
def COPY(dst, src, dt): return dict(k='copy', n=dst, dt=dt, c=[src], t='i')
def INPUT(p=None): return dict(k='input', c=[p] if p else [], t='s')
def APP(stages, used=False):
    """stages: [(prog, [args], spelled)]"""
    return dict(k='app', st=[(p, len(a), sp) for p, a, sp in stages], c=[x for _, a, _ in stages for x in a], used=used, t='m')

# ---------------------------------------------------------------- statement builders
def VDEF(ns, vals, form=':=', t=None):
    """form: ':=' | 'var' (var a = v) | 'vart' (var a T [= v])"""
    return dict(k='vdef', ns=ns, c=vals, form=form, t=t)
def ASG(ns, vals): return dict(k='asg', ns=ns, c=vals)
def OPA(n, o, e): return dict(k='op', n=n, o=o, c=[e])
def INC(n, o='+'): return dict(k='inc', n=n, o=o, c=[])
def SAS(n, i, v): return dict(k='sas', n=n, c=[i, v])
def PRINT(*a): return dict(k='print', c=list(a))
def PANIC(e): return dict(k='panic', c=[e])
def EXPR(e): return dict(k='expr', c=[e])
def WRITE(p, d, a=None): return dict(k='write', c=[p, d] + ([a] if a is not None else []))
def IF(branches, els=None): return dict(k='if', c=[c for c, _ in branches], bodies=[b for _, b in branches], els=els)
def SWITCH(tag, cases, default=None, dpos=None):
    return dict(k='sw', tag=tag, c=([tag] if tag else []) + [c for c, _ in cases], bodies=[b for _, b in cases], els=default, dpos=dpos)
def FOR(init, cond, upd, body): return dict(k='for', init=init, cond=cond, upd=upd, body=body, c=[])
def RNG(iv, vv, e, body): return dict(k='rng', iv=iv, vv=vv, c=[e], body=body)
def BREAK(): return dict(k='break', c=[])
def CONTINUE(): return dict(k='continue', c=[])
def RETURN(*a): return dict(k='return', c=list(a))
def FUNC(name, params, rets, body): return dict(k='func', name=name, params=params, rets=rets, body=body)
def RAW(text): return dict(k='raw', text=text, c=[])

# ---------------------------------------------------------------- rendering
TY = {'i': 'int', 'b': 'bool', 's': 'string', 'Si': '[]int', 'Sb': '[]bool', 'Ss': '[]string', 'e': 'error', 'Se': '[]error'}
PREC = {'||': 1, '&&': 2, '==': 3, '!=': 3, '<': 3, '<=': 3, '>': 3, '>=': 3, '+': 4, '-': 4, '*': 5, '/': 5, '%': 5}

def quote(s, raw=False):
    if raw and '`' not in s and '\r' not in s:
        return '`' + s + '`'
    m = {'\\': '\\\\', '"': '\\"', '\n': '\\n', '\t': '\\t', '\r': '\\r', '\a': '\\a', '\b': '\\b', '\f': '\\f', '\v': '\\v'}
    return '"' + ''.join(m.get(c, c) for c in s) + '"'

def prec(e):
    if e['k'] in ('bin', 'cmp', 'log'):
        return PREC[e['o']]
    if e['k'] == 'not':
        return 6
    return 7

def ex(e):
    k = e['k']
    if k == 'lit':
        if e.get('nil'): return 'nil'
        if e['t'] == 'i': return str(e['val'])
        if e['t'] == 'b': return 'true' if e['val'] else 'false'
        return quote(e['val'], e.get('raw'))
    if k == 'var': return e['n']
    if k in ('bin', 'cmp', 'log'):
        p = PREC[e['o']]
        l, r = e['c']
        ls = ex(l) if prec(l) >= p else '(' + ex(l) + ')'
        rs = ex(r) if prec(r) > p else '(' + ex(r) + ')'
        return f"{ls} {e['o']} {rs}"
    if k == 'not':
        x = e['c'][0]
        return '!' + (ex(x) if prec(x) >= 7 else '(' + ex(x) + ')')
    if k == 'grp': return '(' + ex(e['c'][0]) + ')'
    if k == 'call': return (e['a'] + '.' if e['a'] else '') + e['f'] + '(' + ', '.join(map(ex, e['c'])) + ')'
    if k == 'sl': return TY['S' + e['et']] + '{' + ', '.join(map(ex, e['c'])) + '}'
    if k == 'idx': return ex(e['c'][0]) + '[' + ex(e['c'][1]) + ']'
    if k == 'sub':
        r = [ex(x) for x in e['c']]
        o = e['o']
        a = r[1] if 'a' in o else ''
        b = r[-1] if 'b' in o else ''
        return f"{r[0]}[{a}:{b}]"
    if k in ('len', 'itoa', 'exists', 'read', 'input'): return k + '(' + ', '.join(map(ex, e['c'])) + ')'
    if k == 'copy': return f"copy({e['n']}, {ex(e['c'][0])})"
    if k == 'app':
        parts, i = [], 0
        for p, n, sp in e['st']:
            parts.append('@' + sp + '(' + ', '.join(map(ex, e['c'][i:i + n])) + ')')
            i += n
        return ' | '.join(parts)
    if k == 'raw': return e['text']
    raise ValueError(k)

def st1(s):
    """simple statement on one line"""
    k = s['k']
    if k == 'vdef':
        ns = ', '.join(s['ns'])
        vs = ', '.join(map(ex, s['c']))
        if s['form'] == ':=': return f"{ns} := {vs}"
        if s['form'] == 'var': return f"var {ns} = {vs}"
        return f"var {ns} {TY[s['t']]}" + (f" = {vs}" if s['c'] else '')
    if k == 'asg': return ', '.join(s['ns']) + ' = ' + ', '.join(map(ex, s['c']))
    if k == 'op': return f"{s['n']} {s['o']}= {ex(s['c'][0])}"
    if k == 'inc': return s['n'] + s['o'] * 2
    if k == 'sas': return f"{s['n']}[{ex(s['c'][0])}] = {ex(s['c'][1])}"
    if k in ('print', 'panic', 'write'): return k + '(' + ', '.join(map(ex, s['c'])) + ')'
    if k == 'expr': return ex(s['c'][0])
    if k in ('break', 'continue'): return k
    if k == 'return': return 'return' + (' ' + ', '.join(map(ex, s['c'])) if s['c'] else '')
    if k == 'raw': return s['text']
    raise ValueError(k)

def st(s, ind=0):
    t = '\t' * ind
    k = s['k']
    if k == 'if':
        out = []
        for i, (c, b) in enumerate(zip(s['c'], s['bodies'])):
            head = f"{t}if {ex(c)} {{" if i == 0 else f"{t}}} else if {ex(c)} {{"
            out += [head] + blk(b, ind + 1)
        if s['els'] is not None:
            out += [t + '} else {'] + blk(s['els'], ind + 1)
        return out + [t + '}']
    if k == 'sw':
        tag = s['tag']
        out = [t + ('switch ' + ex(tag) + ' {' if tag else 'switch {')]
        cs = s['c'][1:] if tag else s['c']
        arms = [([t + 'case ' + ex(c) + ':'] + blk(b, ind + 1)) for c, b in zip(cs, s['bodies'])]
        if s['els'] is not None:
            d = s.get('dpos')
            arms.insert(len(arms) if d is None else d, [t + 'default:'] + blk(s['els'], ind + 1))
        for a in arms: out += a
        return out + [t + '}']
    if k == 'for':
        i, c, u = s['init'], s['cond'], s['upd']
        if i is None and u is None and not s.get('semi'):
            head = 'for {' if c is None else f"for {ex(c)} {{"
        else:
            head = f"for {st1(i) if i else ''}; {ex(c) if c else ''}; {st1(u) + ' ' if u else ''}{{"
        return [t + head] + blk(s['body'], ind + 1) + [t + '}']
    if k == 'rng':
        vs = s['iv'] + (', ' + s['vv'] if s['vv'] else '')
        return [f"{t}for {vs} := range {ex(s['c'][0])} {{"] + blk(s['body'], ind + 1) + [t + '}']
    if k == 'func':
        ps = ', '.join(f"{n} {TY[ty]}" for n, ty in s['params'])
        r = s['rets']
        rs = '' if not r else (' ' + TY[r[0]] if len(r) == 1 else ' (' + ', '.join(TY[x] for x in r) + ')')
        return [f"{t}func {s['name']}({ps}){rs} {{"] + blk(s['body'], ind + 1) + [t + '}']
    return [t + st1(s)]

def blk(b, ind): return [l for s in b for l in st(s, ind)]

def render(stmts, imports=()):
    out = []
    imports = list(imports)
    if len(imports) == 1:
        out.append('import ' + imp1(imports[0]))
        out.append('')
    elif imports:
        out.append('import (')
        out += ['\t' + imp1(x) for x in imports]
        out += [')', '']
    return '\n'.join(out + blk(stmts, 0)) + '\n'

def imp1(x):
    alias, path = x
    return (alias + ' ' if alias else '') + '"' + path + '"'

# ---------------------------------------------------------------- export to the TLA+ node table
EFFECT = {'call', 'sl', 'copy', 'input', 'app'}

class Table:
    def __init__(self): self.N = []
    def add(self, r):
        self.N.append(r)
        return len(self.N)
    def expr(self, e):
        k = e['k']
        cs = [self.expr(x) for x in ([V(e['n'], e['dt'])] if k == 'copy' else []) + e.get('c', [])]
        p = k not in EFFECT and all(self.N[i - 1]['p'] for i in cs)
        r = dict(k=k, c=cs, p=p)
        if k == 'lit':
            r['v'] = [e['t'], limbs(e['val']) if e['t'] == 'i' else e['val']]
        elif k == 'var': r['n'] = e['n']
        elif k in ('bin', 'cmp', 'log', 'sub'): r['o'] = e['o']
        elif k == 'call': r.update(a=e['a'], f=e['f'])
        elif k == 'sl': r['t'] = e['et'].replace('e', 's')
        elif k == 'app': r.update(st=[dict(p=p_, n=n) for p_, n, _ in e['st']], u=e['used'])
        return self.add(r)
    def block(self, b):
        ids = [self.stmt(s) for s in b if s['k'] != 'func']
        return self.add(dict(k='blk', c=ids))
    def stmt(self, s):
        k = s['k']
        r = dict(k=k)
        if k == 'for':
            r.update(c=[], i=self.stmt(s['init']) if s['init'] else 0, d=self.expr(s['cond']) if s['cond'] else 0,
                     u=self.stmt(s['upd']) if s['upd'] else 0, b=self.block(s['body']))
            return self.add(r)
        if k == 'op':      # x op= e is x = x op e
            x = V(s['n'], s['c'][0]['t'])
            r.update(k='asg', ns=[s['n']], c=[self.expr(BIN(s['o'], x, s['c'][0]))])
            return self.add(r)
        if k == 'sas':     # the slice handle is read first
            r['c'] = [self.expr(V(s['n'], 'S?'))] + [self.expr(x) for x in s['c']]
            return self.add(r)
        r['c'] = [self.expr(x) for x in s['c']]
        if k == 'vdef': r.update(ns=s['ns'], t='' if s['c'] else s['t'].replace('e', 's'))
        elif k == 'asg': r['ns'] = s['ns']
        elif k == 'inc': r.update(n=s['n'], o=s['o'])
        elif k in ('if', 'sw'):
            r.update(b=[self.block(b) for b in s['bodies']], e=self.block(s['els']) if s['els'] is not None else 0)
            if k == 'sw': r['g'] = s['tag'] is not None
        elif k == 'rng': r.update(iv='' if s['iv'] == '_' else s['iv'], vv=s['vv'] or '', b=self.block(s['body']))
        return self.add(r)
    def func(self, f):
        return self.add(dict(k='func', ps=[n for n, _ in f['params']], b=self.block(f['body'])))

def export(mods, main=1, bits=64, **kw):
    """mods: list of (stmts, {alias: module index (1-based)}, [import order])"""
    t = Table()
    ms = []
    for stmts, imp, order in mods:
        fn = {f['name']: t.func(f) for f in stmts if f['k'] == 'func'}
        ms.append(dict(blk=t.block(stmts), imp=imp, ims=order, fn=fn))
    r = dict(N=t.N, mods=ms, main=main, bits=bits, files={}, dirs=[], stdin=[], ckfs=False, ckargv=False, fsout={}, argv=[])
    r.update(kw)
    return r
