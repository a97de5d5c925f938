"""Single-place mutations of syntax trees.  The specification decides what the result is worth."""
import copy
from static import expr_places, stmts_of, nested, fix_tags
from tsh import *
T6 = ['i', 'b', 's', 'Si', 'Sb', 'Ss']
LITS = dict(i=lambda: I(4), b=lambda: B(True), s=lambda: S('q'), Si=lambda: SL('i', [I(1)]), Sb=lambda: SL('b', [B(True)]), Ss=lambda: SL('s', []))
CLS = dict(bin='+-*/%', cmp=['==', '!=', '<', '<=', '>', '>='], log=['&&', '||'])

def funcs(b): return [s for s in b if s['k'] == 'func']
def names(b):
    ns = set()
    for _, s in stmts_of(b):
        if s['k'] in ('vdef', 'asg'): ns.update(s['ns'])
        if s['k'] == 'rng': ns.update(x for x in (s['iv'], s['vv']) if x)
        if s['k'] == 'func': ns.update(n for n, _ in s['params'])
        if s['k'] == 'for' and s['init'] and 'ns' in s['init']: ns.update(s['init']['ns'])
    ns.discard('_')
    return sorted(ns)

def any_expr(rng, b):
    """some expression, most likely of another type than the one it replaces"""
    r = rng.random()
    ns, fs = names(b), funcs(b)
    if r < .35: return LITS[rng.choice(T6)]()
    if r < .6 and ns: return V(rng.choice(ns), '?')
    if r < .8 and fs:
        f = rng.choice(fs)
        return CALL(f['name'], [LITS.get(t, LITS['s'])() for _, t in f['params']], f['rets'])
    return rng.choice([lambda: ITOA(I(3)), lambda: NOT(B(True)), lambda: CMP('<', I(1), I(2)), lambda: BIN('+', S('a'), S('b')), lambda: EXISTS(S('x')), lambda: APP([('pshow', [], 'pshow')], True), lambda: NIL()])()

def types(rng, stmts):
    """one change of a type, an operator, an arity or an operand; (statements, what) or None"""
    b = copy.deepcopy(stmts)
    for _ in range(30):
        k = rng.randrange(12)
        pl = expr_places(b)
        if not pl: return None
        if k <= 3:
            cs, i = rng.choice(pl)
            cs[i] = any_expr(rng, b)
            fix_tags(b)
            return b, 'an operand replaced'
        if k == 4:
            xs = [c[i] for c, i in pl if c[i]['k'] in CLS]
            if not xs: continue
            e = rng.choice(xs)
            nk = rng.choice(list(CLS))
            e['k'], e['o'] = nk, rng.choice(CLS[nk])
            return b, 'an operator replaced'
        if k == 5:
            xs = [c[i] for c, i in pl if c[i]['k'] in ('call', 'len', 'itoa', 'exists', 'sl')]
            if not xs: continue
            e = rng.choice(xs)
            if e['c'] and rng.random() < .5: e['c'].pop(rng.randrange(len(e['c'])))
            else: e['c'].insert(rng.randint(0, len(e['c'])), any_expr(rng, b))
            return b, 'an argument added or removed'
        if k == 6:
            fs = funcs(b)
            if not fs: continue
            f = rng.choice(fs)
            j = rng.randrange(3)
            if j == 0 and f['rets']: f['rets'] = list(f['rets']); f['rets'][rng.randrange(len(f['rets']))] = rng.choice(T6)
            elif j == 1: f['rets'] = list(f['rets']) + [rng.choice(T6)]
            elif f['rets']: f['rets'] = list(f['rets'])[:-1]
            else: continue
            return b, 'a result type changed'
        if k == 7:
            fs = [f for f in funcs(b) if f['params']]
            if not fs: continue
            f = rng.choice(fs)
            i = rng.randrange(len(f['params']))
            f['params'] = list(f['params'])
            f['params'][i] = (f['params'][i][0], rng.choice(T6))
            return b, 'a parameter type changed'
        if k == 8:
            xs = [s for _, s in stmts_of(b) if s['k'] == 'vdef' and s['form'] == 'vart']
            if not xs: continue
            rng.choice(xs)['t'] = rng.choice(T6)
            return b, 'a declared type changed'
        if k == 9:
            xs = [s for _, s in stmts_of(b) if s['k'] in ('asg', 'op', 'inc', 'sas')]
            ns = names(b)
            if not xs or not ns: continue
            s = rng.choice(xs)
            if s['k'] == 'asg': s['ns'] = list(s['ns']); s['ns'][rng.randrange(len(s['ns']))] = rng.choice(ns)
            else: s['n'] = rng.choice(ns)
            return b, 'an assigned variable replaced'
        if k == 10:
            xs = [s for _, s in stmts_of(b) if s['k'] in ('vdef', 'asg', 'return') and s['c']]
            if not xs: continue
            s = rng.choice(xs)
            if rng.random() < .4 and len(s['c']) > 1: s['c'].pop(rng.randrange(len(s['c'])))
            else: s['c'].insert(rng.randint(0, len(s['c'])), any_expr(rng, b))
            return b, 'a value added or removed'
        if k == 11:
            xs = [c[i] for c, i in pl if c[i]['k'] == 'sl']
            if not xs: continue
            rng.choice(xs)['et'] = rng.choice('ibs')
            return b, 'an element type changed'
    return None

# ---------------------------------------------------------------- names and places
def blocks_of(b):
    out = [b]
    for _, s in stmts_of(b): out += nested(s)
    return out

def renamings(b):
    """closures that each change one occurrence of a name"""
    ns = names(b) + ['undef', '_']
    out = []
    for c, i in expr_places(b):
        e = c[i]
        if e['k'] == 'var': out.append(lambda rng, e=e: e.update(n=rng.choice(ns)))
        if e['k'] == 'call': out.append(lambda rng, e=e: e.update(f=rng.choice([f['name'] for f in funcs(b)] + ['undef'])))
        if e['k'] == 'copy': out.append(lambda rng, e=e: e.update(n=rng.choice(ns)))
    for _, s in stmts_of(b):
        k = s['k']
        if k in ('op', 'inc', 'sas'): out.append(lambda rng, s=s: s.update(n=rng.choice(ns)))
        if k in ('vdef', 'asg'): out += [lambda rng, s=s, j=j: s.update(ns=s['ns'][:j] + [rng.choice(ns)] + s['ns'][j + 1:]) for j in range(len(s['ns']))]
        if k == 'rng': out += [lambda rng, s=s, w=w: s.update({w: rng.choice(ns)}) for w in ('iv', 'vv') if s[w]]
        if k == 'func':
            out.append(lambda rng, s=s: s.update(name=rng.choice([f['name'] for f in funcs(b)] + ['fresh'])))
            out += [lambda rng, s=s, j=j: s.update(params=s['params'][:j] + [(rng.choice(ns), s['params'][j][1])] + s['params'][j + 1:]) for j in range(len(s['params']))]
        if k == 'for' and s['init'] and 'ns' in s['init']: out.append(lambda rng, s=s['init']: s.update(ns=[rng.choice(ns)] + s['ns'][1:]))
    return out

def places(rng, stmts):
    """one occurrence of a name changed, or one statement moved, copied, removed or inserted"""
    b = copy.deepcopy(stmts)
    for _ in range(30):
        k = rng.randrange(8)
        if k <= 2:
            rs = renamings(b)
            if not rs: continue
            rng.choice(rs)(rng)
            if b == stmts: continue
            return b, 'a name changed'
        bl = blocks_of(b)
        full = [x for x in bl if x]
        if not full: continue
        src = rng.choice(full)
        i = rng.randrange(len(src))
        if k == 3:
            src.pop(i)
            return b, 'a statement removed'
        if k == 4:
            s = src.pop(i)
            dst = rng.choice([x for x in blocks_of(b)])
            dst.insert(rng.randint(0, len(dst)), s)
            return b, 'a statement moved'
        if k == 5:
            s = copy.deepcopy(src[i])
            dst = rng.choice(bl)
            dst.insert(rng.randint(0, len(dst)), s)
            return b, 'a statement copied'
        if k == 6:
            dst = rng.choice(bl)
            s = rng.choice([BREAK(), CONTINUE(), RETURN(), RETURN(I(1)), FUNC('nf', [], [], [PRINT(I(1))]), IF([(B(True), [BREAK()])]), FOR(None, None, None, [RETURN(S('x'))])])
            dst.insert(rng.randint(0, len(dst)), copy.deepcopy(s))
            return b, 'a statement inserted'
        if k == 7:      # the nested block of a statement takes its place
            s = src[i]
            n = nested(s)
            if not n: continue
            src[i:i + 1] = rng.choice(n)
            return b, 'a block opened'
    return None
