"""Random well-typed, terminating TypeShell programs (syntax trees of tsh.py), from a seeded random source."""
from tsh import *

NAMES = ['a', 'b', 'c', 'x', 'y', 'n', 'i', 'j', 's', 't', 'k', 'v', 'w', 'p', 'q', 'ab', 'res', 'tmp', 'cnt', 'val']
FNAMES = ['f', 'g', 'h', 'add', 'calc', 'step', 'mk', 'run', 'next', 'pick', 'F', 'Get']
INTS64 = [0, 1, -1, 2, -2, 3, 5, 7, 9, 10, 12, 99, -10, 100, 255, 256, 1000, 2147483647, -2147483648, 2147483648, 4294967296,
          9223372036854775807, -9223372036854775807, 4611686018427387904, -4611686018427387905, 1073741823, 1073741824]
INTS32 = [0, 1, -1, 2, -2, 3, 5, 7, 9, 10, 12, 99, -10, 100, 255, 1000, 65535, 65536, 2147483647, -2147483647, 1073741824, 46341]
WORDS = ['', 'a', 'b', 'ab', 'abc', 'Hello', 'x1', '0', '1', '7', '07', '10', '9', 'true', 'a b', 'one two', 'A', 'z.z', 'up-to', 'k_v', 'foo', 'foo.bar']
NEUTRAL = 'abcdefgXYZ0123456789_.-'

def neutral(rng):
    if rng.random() < .6: return rng.choice(WORDS)
    n = rng.randint(1, 6)
    w = ''.join(rng.choice(NEUTRAL) for _ in range(n))
    return w if w[0] not in '-.' else 'm' + w

class Var:
    def __init__(s, n, t, ml=0, ro=False, up=None): s.n, s.t, s.ml, s.ro, s.up = n, t, ml, ro, up
class Fn:
    def __init__(s, name, params, rets, cost): s.name, s.params, s.rets, s.cost = name, params, rets, cost

class Gen:
    def __init__(g, rng, bits=64, strings=neutral, types=('i', 'b', 's'), slices=True, strops=True, funcs=3, effects=.0, panics=.04,
                 stmts=8, depth=3, edepth=3, maxcost=400, names=NAMES, fnames=FNAMES, loops=True, branches=True, multi=True, size=60,
                 growth=6, marks=0.0, dump=.85, manyparams=.03, copies=1, sdefs=2, io=()):
        g.r, g.bits, g.strs = rng, bits, strings
        g.types = [t for t in types]
        g.slices, g.strops, g.nf, g.eff, g.panics = slices, strops, funcs, effects, panics
        g.ns, g.dep, g.ed, g.maxcost = stmts, depth, edepth, maxcost
        g.names, g.fnames, g.loops, g.branches, g.multi = names, fnames, loops, branches, multi
        g.size, g.growth, g.marks, g.dumpp, g.manyparams, g.copies, g.sdefs = size, growth, marks, dump, manyparams, copies, sdefs
        g.io = list(io)       # paths of files that exist throughout the program; commands are used as well
        g.scopes = [{}]
        g.fns, g.out = [], []
        g.infn = None
        g.mult = 1
        g.cost = 0            # cost of the current top level / function body
        g.inloop = 0
        g.inswitch = 0
        g.uid = 0
        g.tracers = {}
        g.allnames = set()
        g.budget = size
        g.ext = []            # functions of imported modules: (alias, Fn)

    # ---- helpers
    def ch(g, *a): return g.r.choice(a)
    def p(g, x): return g.r.random() < x
    def look(g, n):
        for s in reversed(g.scopes):
            if n in s: return s[n]
        return None
    def vars(g, t, need=0, write=False):
        seen, out = set(), []
        for s in reversed(g.scopes):
            for n, v in s.items():
                if n in seen: continue
                seen.add(n)
                if v.t == t and v.ml >= need and not (write and v.ro): out.append(v)
        return out
    def fresh(g, avoid=()):
        fs = g.fnset()
        for k in range(12):
            n = g.r.choice(g.names)
            if g.look(n) is None and n not in fs and n not in avoid: return n
        while True:
            n = g.r.choice(g.names) + str(g.r.randint(1, 3 + k // 4))
            k += 1
            if g.look(n) is None and n not in fs and n not in avoid: return n
    def fnset(g): return {f.name for f in g.fns}
    def define(g, n, t, ml=0, ro=False, up=None):
        v = Var(n, t, ml, ro, up)
        g.scopes[-1][n] = v
        return v
    def anyt(g, slices=None):
        ts = list(g.types)
        if (g.slices if slices is None else slices) and g.p(.3): return 'S' + g.r.choice(ts)
        return g.r.choice(ts)
    def spend(g, n=1):
        g.cost += n * g.mult
        return g.cost

    # ---- expressions.  Every string/slice expression carries 'ml', a static lower bound of its length.
    def lit(g, t, need=0):
        if t == 'i':
            if g.p(.75): return I(g.r.choice([0, 1, 2, 3, 4, 5, 7, 10, -1, -3, 12]))
            return I(g.r.choice(INTS64 if g.bits == 64 else INTS32))
        if t == 'b': return B(g.p(.5))
        if t == 's':
            s = g.strs(g.r)
            while len(s) < need: s += g.r.choice('abcxyz019')
            e = S(s, raw=g.p(.1))
            e['ml'] = len(s)
            return e
        n = max(need, g.r.choice([0, 1, 2, 3, 3, 4]))
        e = SL(t[1], [g.e(t[1], 1) for _ in range(n)])
        e['ml'] = n
        return e
    def v(g, var):
        e = V(var.n, var.t)
        e['ml'] = var.ml
        return e
    def index(g, n, base=None):
        """an int expression with a value in 0..n-1 (n >= 1)"""
        r = g.r.random()
        ctr = [x for x in g.vars('i') if x.up is not None and x.up < n]
        if ctr and r < .45: return V(g.r.choice(ctr).n, 'i')
        if r < .75 or n == 1 and r < .9: return I(g.r.randrange(n))
        if base is not None and r < .85: return BIN('-', LEN(base), I(g.r.randint(1, n)))
        x = g.e('i', 1)
        if g.eff and g.p(g.eff): return g.trace(I(g.r.randrange(n)))
        return BIN('%', BIN('+', BIN('%', x, I(n)), I(n)), I(n))
    def small(g):
        """a short string"""
        if g.p(.6): return g.lit('s')
        return ITOA(g.e('i', 1))
    def trace(g, e):
        """the value of e through a function that leaves a trace"""
        t = e['t']
        if t not in g.tracers: return e
        g.uid += 1
        g.spend(6)
        c = CALL(g.tracers[t], [I(g.uid), e], [t])
        c['ml'] = e.get('ml', 0)
        return c
    def e(g, t, d, need=0):
        g.spend()
        x = g.e0(t, d, need)
        if g.eff and t[0] != 'S' and x['k'] != 'call' and g.p(g.eff): x = g.trace(x)
        return x
    def calls(g, rets, need=0):
        out = []
        for f in g.fns:
            if [t for t, _ in f.rets] == rets and all(m >= need for _, m in f.rets) and f.cost * g.mult + g.cost <= g.maxcost: out.append(('', f))
        for a, f in g.ext:
            if [t for t, _ in f.rets] == rets and all(m >= need for _, m in f.rets) and f.cost * g.mult + g.cost <= g.maxcost: out.append((a, f))
        return out
    def call(g, af, d=1):
        a, f = af
        g.spend(f.cost + 2)
        pt = [t for _, t, _ in f.params]
        spread = [x for x in g.calls(pt) if len(pt) > 1 and all(m >= pm for (_, m), (_, _, pm) in zip(x[1].rets, f.params))]
        if spread and g.p(.25): args = [g.call(g.r.choice(spread), 0)]
        else: args = [g.e(t, d, m) for _, t, m in f.params]
        c = CALL(f.name, args, [t for t, _ in f.rets], a)
        c['ml'] = f.rets[0][1] if f.rets else 0
        return c
    def e0(g, t, d, need=0):
        r = g.r.random()
        vs = g.vars(t, need)
        if d <= 0 or r < .3:
            if vs and g.p(.65): return g.v(g.r.choice(vs))
            return g.lit(t, need)
        cs = g.calls([t], need)
        if cs and g.p(.18): return g.call(g.r.choice(cs), d - 1)
        if t[0] == 'S':
            if vs and g.p(.5): return g.v(g.r.choice(vs))
            return g.lit(t, need)
        if g.p(.07):
            x = g.e(t, d - 1, need)
            y = GRP(x)
            y['ml'] = x.get('ml', 0)
            return y
        sl = [x for x in g.vars('S' + t) if x.ml > 0]
        if sl and need == 0 and g.p(.2):
            x = g.r.choice(sl)
            return IDX(V(x.n, x.t), g.index(x.ml, V(x.n, x.t)))
        return getattr(g, 'e_' + t)(d, need)
    def e_i(g, d, need):
        r = g.r.random()
        if r < .14 and (g.strops or g.slices):
            c = (g.vars('s') if g.strops and 's' in g.types else []) + ([x for t in g.types for x in g.vars('S' + t)] if g.slices else [])
            if c: return LEN(g.v(g.r.choice(c)))
        o = g.r.choice('+++---***/%')
        l = g.e('i', d - 1)
        if o in '/%':
            if g.p(.7): rr = I(g.r.choice([1, 2, 3, 7, 10, -1, -2, -3, 1000]))
            else: rr = BIN('+', BIN('%', g.e('i', d - 1), I(5)), I(7))
        else: rr = g.e('i', d - 1)
        return BIN(o, l, rr)
    # ---- files and commands
    def path(g, other=()):
        e = S(g.r.choice(g.io + list(other)))
        e['ml'] = 0
        return g.trace(e) if g.eff and g.p(g.eff / 2) else e
    def content(g):
        """a text whose length does not depend on what has been read"""
        e = g.lit('s') if g.p(.4) else ITOA(g.e('i', 1)) if g.p(.6) else BIN('+', g.lit('s'), ITOA(g.e('i', 1)))
        return g.trace(e) if g.eff and g.p(g.eff) else e
    def s_write(g): return WRITE(g.path(), g.content(), g.e('b', 1) if g.p(.6) else None)
    def stages(g):
        a = [(('pecho', [g.content()], 'pecho') if g.p(.7) else ('pfail', [S(str(g.ch(0, 0, 1, 3, 42, 255))), g.content()], 'pfail'))]
        for _ in range(g.ch(0, 0, 1, 2)): a.append(('pcat', [], 'pcat') if g.p(.4) else ('pfilt', [g.content()], 'pfilt'))
        return a
    def s_app(g):
        g.spend(8)
        if g.p(.5): return EXPR(APP([('pshow', [g.content() if g.p(.7) else g.e('s', 1) for _ in range(g.ch(0, 1, 2, 3))], 'pshow')] if g.p(.5) else g.stages() + [('pfilt', [S('end')], 'pfilt')]))
        n = [g.fresh()]
        n.append(g.fresh(n))
        st = g.stages()
        g.define(n[0], 's')
        g.define(n[1], 'i')
        return VDEF([n[0], '_', n[1]], [APP(st, True)])
    def e_b(g, d, need):
        if g.io and g.p(.12): return EXISTS(g.path(['none', 'n o n e']))
        r = g.r.random()
        if r < .12: return NOT(g.e('b', d - 1))
        if r < .45: return LOG(g.ch('&&', '||'), g.e('b', d - 1), g.e('b', d - 1))
        t = g.r.choice([x for x in ('i', 'i', 'i', 's', 'b') if x in g.types])
        o = g.ch('==', '!=', '<', '<=', '>', '>=') if t == 'i' else g.ch('==', '!=')
        l, r = g.e(t, d - 1), g.e(t, d - 1)
        if t == 'b' and g.p(.7): l, r = LOG(g.ch('&&', '||'), g.e('b', d - 1), g.e('b', d - 1)), g.e('b', d - 1)
        if t == 'i' and g.p(.25): r = l if l['k'] in ('lit', 'var') else r
        return CMP(o, l, r)
    def e_s(g, d, need):
        if g.io and need == 0 and g.p(.2): return READ(g.path())
        r = g.r.random()
        if r < .2 and need <= 1: 
            x = ITOA(g.e('i', d - 1))
            x['ml'] = 1
            return x
        if g.strops and r < .5:
            vs = g.vars('s', max(1, need))
            if vs:
                x = g.r.choice(vs)
                b = g.v(x)
                if g.p(.5) and need <= 1:
                    y = IDX(b, g.index(x.ml, b))
                    y['ml'] = 1
                    return y
                lo = g.r.randint(0, x.ml - need)
                hi = g.r.randint(lo + need, x.ml)
                k = g.r.randrange(5)
                if k == 0: y, m = SUB(b, I(lo), I(hi)), hi - lo
                elif k == 1: y, m = SUB(b, None, I(hi)), hi
                elif k == 2 and need <= x.ml - lo: y, m = SUB(b, I(lo)), x.ml - lo
                elif k == 3: y, m = SUB(b), x.ml
                else:
                    ctr = [c for c in g.vars('i') if c.up is not None and c.up <= x.ml]
                    if ctr and need == 0:
                        c = V(g.r.choice(ctr).n, 'i')
                        y, m = g.ch((SUB(b, c), 0), (SUB(b, None, c), 0), (SUB(b, c, LEN(b)), 0))
                    else: y, m = SUB(b, I(lo), I(hi)), hi - lo
                y['ml'] = m
                return y
        straight = g.mult == 1 and g.infn is None
        l = g.e('s', d - 1, need)
        rr = g.e('s', d - 1) if straight and g.p(.5) else g.small()
        if g.p(.4): l, rr = rr, l
        x = BIN('+', l, rr)
        x['ml'] = l.get('ml', 0) + rr.get('ml', 0)
        return x

    # ---- statements
    def block(g, n, pre=()):
        """a nested block: list of statements in a fresh scope"""
        g.scopes.append({})
        for p_ in pre: g.define(*p_)
        out = []
        g.depth_left -= 1
        for _ in range(n):
            if g.budget < 0 and out: break
            out += g.mark() + g.stmt()
            if out and out[-1]['k'] in ('break', 'continue', 'return', 'panic'): break
        else: out += g.mark()
        g.depth_left += 1
        g.scopes.pop()
        return out
    def mark(g):
        """a line that shows that control passed here"""
        if not g.p(g.marks) or g.budget < 0: return []
        g.uid += 1
        g.spend(2)
        vs = [v for v in g.vars('i') if v.up is not None]
        return [PRINT(I(g.uid), *[V(v.n, 'i') for v in vs[:2]])]
    def nblk(g): return g.r.choice([0, 1, 1, 2, 2, 3])
    def stmt(g):
        g.budget -= 1
        g.spend()
        if g.budget < 0 or g.cost > g.maxcost: return [g.s_print()]
        c = ['def'] * 4 + ['asg'] * 4 + ['op'] * 2 + ['inc'] * 2 + ['print'] * 3
        if g.multi: c += ['mdef', 'masg', 'swap']
        if g.slices: c += ['sas'] * 3 + ['copy'] * g.copies + ['sdef'] * g.sdefs + ['salias']
        if g.depth_left > 0:
            if g.branches: c += ['if'] * 4 + ['sw'] * 2
            if g.loops: c += ['for'] * 4 + (['rng'] * 2 if g.slices or g.strops else [])
        if g.fns or g.ext: c += ['call'] * 2
        if g.inloop and not g.inswitch: c += ['break']
        if g.inloop: c += ['continue']
        if g.infn and g.scopes_deep(): c += ['return']
        if g.p(g.panics): c += ['panic'] * 6
        if g.io: c += ['write'] * 3 + ['app']
        for _ in range(20):
            k = g.r.choice(c)
            s = getattr(g, 's_' + k)()
            if s is None: continue
            return s if isinstance(s, list) else [s]
        return [g.s_print()]
    def scopes_deep(g): return len(g.scopes) > g.fbase + 1
    def s_print(g):
        if g.multi and g.p(.06):
            fs = [x for x in g.fns if len(x.rets) > 1 and all(t[0] != 'S' for t, _ in x.rets) and x.cost * g.mult + g.cost <= g.maxcost]
            if fs: return PRINT(g.call(('', g.r.choice(fs))))
        return PRINT(*[g.e(g.anyt(False), g.ed) for _ in range(g.r.choice([1, 1, 1, 2, 2, 3]))])
    def s_def(g):
        t = g.anyt(False)
        r = g.r.random()
        n = g.fresh()
        if r < .15:
            s = VDEF([n], [], 'vart', t)
            g.define(n, t)
            return s
        need = g.ch(0, 0, 1, 3) if t == 's' and g.strops else 0
        e = g.e(t, g.ed, need)
        form = ':=' if r < .7 else 'var' if r < .85 else 'vart'
        g.define(n, t, need)
        return VDEF([n], [e], form, t if form == 'vart' else None)
    def s_sdef(g):
        t = 'S' + g.r.choice(g.types)
        n = g.fresh()
        if g.p(.15):
            g.define(n, t)
            return VDEF([n], [], 'vart', t)
        need = g.ch(0, 1, 2, 3)
        e = g.lit(t, need)
        g.define(n, t, need)
        return VDEF([n], [e], g.ch(':=', 'var'))
    def s_salias(g):
        t = 'S' + g.r.choice(g.types)
        vs = g.vars(t)
        if not vs: return None
        x = g.r.choice(vs)
        n = g.fresh()
        g.define(n, t, x.ml)
        return VDEF([n], [V(x.n, t)])
    def s_asg(g):
        t = g.anyt()
        vs = g.vars(t, 0, True)
        if not vs: return None
        x = g.r.choice(vs)
        return ASG([x.n], [g.e(t, g.ed, x.ml)])
    def s_op(g):
        if g.p(.25):
            vs = g.vars('s', 0, True)
            if not vs: return None
            return OPA(g.r.choice(vs).n, '+', g.small())
        vs = g.vars('i', 0, True)
        if not vs: return None
        x = g.r.choice(vs)
        o = g.r.choice('+-*/%')
        if o in '/%': return OPA(x.n, o, I(g.r.choice([1, 2, 3, 7, -2, 10])))
        return OPA(x.n, o, g.e('i', g.ed))
    def s_inc(g):
        vs = g.vars('i', 0, True)
        return INC(g.r.choice(vs).n, g.ch('+', '-')) if vs else None
    def s_mdef(g):
        fs = [x for k in (2, 3) for x in g.mfuncs(k)]
        if fs and g.p(.6):
            a, f = g.r.choice(fs)
            ns, keep = [], []
            for t, m in f.rets:
                if g.p(.15): ns.append('_')
                else:
                    n = g.fresh(ns)
                    ns.append(n)
                    keep.append((n, t, m))
            if not keep: return None
            # an existing variable of the same scope and type may be reused when another name is new
            if len(keep) > 1 and g.p(.3):
                i = g.r.randrange(len(ns))
                t, m = f.rets[i]
                ex = [v for v in g.scopes[-1].values() if v.t == t and not v.ro and v.ml <= m]
                if ex and ns[i] != '_':
                    keep = [k for k in keep if k[0] != ns[i]]
                    ns[i] = g.r.choice(ex).n
            c = g.call((a, f))
            for k in keep: g.define(*k)
            return VDEF(ns, [c], g.ch(':=', ':=', 'var') if len(keep) == len([n for n in ns if n != '_']) else ':=')
        ns, es, ds = [], [], []
        for _ in range(g.ch(2, 2, 3)):
            t = g.anyt(False)
            n = g.fresh(ns)
            ns.append(n)
            es.append(g.e(t, 2))
            ds.append((n, t))
        for d in ds: g.define(*d)
        return VDEF(ns, es, g.ch(':=', 'var'))
    def mfuncs(g, k):
        return [(a, f) for a, f in [('', f) for f in g.fns] + g.ext if len(f.rets) == k and f.cost * g.mult + g.cost <= g.maxcost]
    def s_masg(g):
        fs = [x for k in (2, 3) for x in g.mfuncs(k)]
        if fs and g.p(.6):
            a, f = g.r.choice(fs)
            ns = []
            for t, m in f.rets:
                vs = [v for v in g.vars(t, 0, True) if v.ml <= m and v.n not in ns]
                if not vs: return None
                ns.append(g.r.choice(vs).n)
            return ASG(ns, [g.call((a, f))])
        return g.s_swap(True)
    def s_swap(g, free=False):
        t = g.anyt()
        vs = g.vars(t, 0, True)
        if len(vs) < 2: return None
        ml = min(v.ml for v in vs)
        vs = [v for v in vs if v.ml == ml]
        if len(vs) < 2: return None
        xs = g.r.sample(vs, min(len(vs), g.ch(2, 2, 3)))
        if free and t[0] != 'S': return ASG([x.n for x in xs], [g.e(t, 2, ml) for x in xs])
        ys = xs[1:] + xs[:1]
        return ASG([x.n for x in xs], [g.v(y) for y in ys])
    def s_sas(g):
        t = g.r.choice(g.types)
        vs = g.vars('S' + t)
        if not vs: return None
        x = g.r.choice(vs)
        r = g.r.random()
        if r < .5 and x.ml > 0: i = g.index(x.ml, V(x.n, x.t))
        elif g.ranging: return None
        elif r < .75: i = LEN(V(x.n, x.t))
        elif r < .9: i = I(g.r.randint(0, x.ml + g.growth))
        else: i = BIN('+', LEN(V(x.n, x.t)), I(g.r.randint(0, 2)))
        return SAS(x.n, i, g.e(t, 2))
    def s_copy(g):
        t = 'S' + g.r.choice(g.types)
        vs = g.vars(t)
        if len(vs) < 2 or g.ranging: return None
        a, b = g.r.sample(vs, 2)
        # the destination is a new slice, often of another length than the source
        n = g.fresh()
        k = g.r.randint(0, b.ml + 2)
        g.define(n, t, max(k, b.ml))
        out = [VDEF([n], [SL(t[1], [g.e(t[1], 0) for _ in range(k)])])]
        c = COPY(n, g.v(b), t)
        if g.p(.2):
            x = BIN(g.ch('+', '*', '-'), g.e('i', 1), c)
            return out + [VDEF([g.define(g.fresh(), 'i').n], [x])]
        if g.p(.5): return out + [EXPR(c)]
        return out + [PRINT(c)]
    def s_call(g):
        fs = [x for x in [('', f) for f in g.fns] + g.ext if x[1].cost * g.mult + g.cost <= g.maxcost]
        if not fs: return None
        return EXPR(g.call(g.r.choice(fs)))
    def s_break(g): return IF([(g.e('b', 2), [BREAK()])]) if g.p(.8) else (BREAK() if g.depth_left < g.loopdepth else None)
    def s_continue(g):
        return IF([(g.e('b', 2), g.block(1) + [CONTINUE()] if g.p(.3) and g.depth_left > 0 else [CONTINUE()])]) if g.p(.8) else (CONTINUE() if g.depth_left < g.loopdepth else None)
    def s_return(g): return g.ret() if g.infn.rets and g.p(.5) else None
    def s_panic(g):
        if g.depth_left == g.dep and g.infn is None: return IF([(g.e('b', 2), [PANIC(g.e('s', 1))])])
        return PANIC(g.e('s', 1))
    def s_if(g):
        bs = []
        for _ in range(g.ch(1, 1, 2, 2, 3)):
            c = g.e('b', g.ed)
            bs.append((c, g.block(g.nblk())))
        els = g.block(g.nblk()) if g.p(.5) else None
        if els is not None and all(b and b[-1]['k'] in ('return', 'panic') for _, b in bs): els = [x for x in els if x['k'] != 'return'] or [PRINT(I(0))]
        return IF(bs, els)
    def s_sw(g):
        tag = None
        if g.p(.75):
            t = g.r.choice(g.types)
            eff, g.eff = g.eff, 0
            vs = g.vars(t)
            tag = g.v(g.r.choice(vs)) if vs and g.p(.7) else g.pure(t, 2)
            g.eff = eff
        cs, seen = [], set()
        g.inswitch += 1
        for _ in range(g.ch(0, 1, 2, 2, 3, 4)):
            c = g.e(tag['t'] if tag else 'b', 1 if tag else 2)
            key = ex(c)
            if c['k'] == 'lit' and key in seen: continue
            seen.add(key)
            cs.append((c, g.block(g.nblk())))
        els = g.block(g.nblk()) if not cs or g.p(.5) else None
        g.inswitch -= 1
        dpos = g.r.randint(0, len(cs)) if els is not None and g.p(.3) else None
        return SWITCH(tag, cs, els, dpos)
    def pure(g, t, d):
        fns, ext, tr = g.fns, g.ext, g.tracers
        g.fns, g.ext, g.tracers = [], [], {}
        x = g.e(t, d)
        g.fns, g.ext, g.tracers = fns, ext, tr
        return x
    def loop(g, iters, body, pre=()):
        """generate a loop body that runs at most iters times"""
        m, sw, ld = g.mult, g.inswitch, g.loopdepth
        g.mult *= max(1, iters)
        g.inloop += 1
        g.inswitch = 0
        g.loopdepth = g.depth_left
        b = body()
        g.inloop -= 1
        g.mult, g.inswitch, g.loopdepth = m, sw, ld
        return b
    def s_for(g):
        k = g.ch(0, 1, 2, 3, 3, 4) if g.mult < 12 else g.ch(0, 1, 2)
        form = g.r.randrange(8)
        n = g.fresh()
        if form <= 2:
            up = form != 2
            if up:
                step = g.ch(1, 1, 1, 2)
                lo = g.ch(0, 0, 0, 1)
                hi = lo + k * step
                o, b = g.ch(('<', hi), ('<=', hi - 1), ('!=', hi)) if step == 1 else ('<', hi)
                upd = INC(n) if step == 1 and g.p(.7) else OPA(n, '+', g.trace(I(step)) if g.eff and g.p(.4) else I(step)) if g.p(.6) else ASG([n], [BIN('+', V(n, 'i'), I(step))])
                init = VDEF([n], [I(lo)])
                bound = g.boundexpr(b)
                mx = max(lo, hi - 1)
            else:
                init, o, bound, mx = VDEF([n], [I(k)]), '>', I(0), k
                upd = INC(n, '-') if g.p(.7) else OPA(n, '-', I(1))
            cond = CMP(o, V(n, 'i'), bound)
            if g.eff and g.p(g.eff): cond = g.trace(cond)
            body = g.loop(k, lambda: g.block(g.nblk() + 1, [(n, 'i', 0, True, mx)]))
            return FOR(init, cond, upd, body)
        if form == 3 and (g.vars('s') or any(g.vars('S' + t) for t in g.types)) and (g.strops or g.slices) and not g.infn:
            c = (g.vars('s', 1) if g.strops else []) + [x for t in g.types for x in g.vars('S' + t, 1)]
            if c:
                x = g.r.choice(c)
                ro, x.ro = x.ro, True
                # the loop runs over a prefix that is certainly there
                body = g.loop(x.ml, lambda: g.block(g.nblk() + 1, [(n, 'i', 0, True, x.ml - 1)]))
                x.ro = ro
                return FOR(VDEF([n], [I(0)]), LOG('&&', CMP('<', V(n, 'i'), LEN(g.v(x))), CMP('<', V(n, 'i'), I(x.ml))), INC(n), body)
        # a counter defined in front of the loop
        v = g.define(n, 'i', 0, True)
        pre = VDEF([n], [I(k)])
        dec = g.ch(INC(n, '-'), OPA(n, '-', I(1)), ASG([n], [BIN('-', V(n, 'i'), I(1))]))
        if form == 4:
            s = FOR(None, CMP('>', V(n, 'i'), I(0)), None, g.loop(k, lambda: [dec] + g.block(g.nblk() + 1)))
            if g.p(.3): s['semi'] = True
            return [pre, s]
        if form == 5:
            return [pre, FOR(None, None, None, g.loop(k + 1, lambda: [IF([(CMP('<=', V(n, 'i'), I(0)), [BREAK()])]), dec] + g.block(g.nblk() + 1)))]
        if form == 6:
            return [pre, FOR(None, CMP('>', V(n, 'i'), I(0)), dec, g.loop(k, lambda: g.block(g.nblk() + 1)))]
        return [VDEF([n], [I(99)]), FOR(ASG([n], [I(0)]), CMP('<', V(n, 'i'), I(k)), INC(n), g.loop(k, lambda: g.block(g.nblk() + 1)))]
    def boundexpr(g, b):
        if g.p(.8): return I(b)
        return BIN('+', I(b - 1), I(1))
    def s_rng(g):
        kinds = (['s'] if g.strops and 's' in g.types else []) + (['S'] if g.slices else [])
        if not kinds: return None
        if g.r.choice(kinds) == 's':
            vs = g.vars('s')
            e = g.v(g.r.choice(vs)) if vs and g.p(.6) and g.mult == 1 and not g.infn else g.lit('s')
            et, it = 's', 6
        else:
            t = g.r.choice(g.types)
            vs = g.vars('S' + t)
            e = g.v(g.r.choice(vs)) if vs and g.p(.8) else g.lit('S' + t)
            et, it = t, 5
        if g.mult * it * 6 + g.cost > g.maxcost: return None
        i = g.fresh()
        v = g.fresh([i])
        pre = [(i, 'i', 0, True)]
        vv = v
        r = g.r.random()
        if r < .15: vv = None
        else: pre.append((v, et, 1 if e['t'] == 's' else 0))
        iv = i
        if vv and g.p(.2):
            iv = '_'
            pre = pre[1:]
        g.ranging += 1
        body = g.loop(it, lambda: g.block(g.nblk() + 1, pre))
        g.ranging -= 1
        return RNG(iv, vv, e, body)

    # ---- functions
    def ret(g):
        rets = g.infn.rets
        if len(rets) > 1:
            fs = [x for x in g.calls([t for t, _ in rets]) if all(m >= n for (_, m), (_, n) in zip(x[1].rets, rets))]
            if fs and g.p(.3): return RETURN(g.call(g.r.choice(fs)))
        return RETURN(*[g.e(t, 2, m) for t, m in rets])
    def func(g, name=None):
        saved = (g.scopes, g.mult, g.cost, g.inloop, g.inswitch, g.loopdepth, g.depth_left, g.infn, g.maxcost, g.budget, g.ranging)
        g.scopes = [dict(g.scopes[0])]
        g.fbase = 1
        g.mult, g.cost, g.inloop, g.inswitch, g.loopdepth, g.ranging = 1, 0, 0, 0, 99, 0
        g.depth_left = max(1, g.dep - 1)
        g.maxcost = g.maxcost // 6
        g.budget = max(6, g.size // 4)
        params = []
        g.scopes.append({})
        for _ in range(g.ch(9, 10, 11, 12) if g.p(g.manyparams) else g.ch(0, 1, 1, 2, 2, 3)):
            t = g.anyt()
            n = g.fresh()
            m = g.ch(0, 0, 1, 2) if t == 's' or t[0] == 'S' else 0
            g.define(n, t, m)
            params.append((n, t, m))
        rets = []
        for _ in range(g.ch(0, 1, 1, 1, 2, 2, 3) if g.multi else g.ch(0, 1, 1)):
            t = g.anyt()
            rets.append((t, g.ch(0, 0, 1) if t == 's' or t[0] == 'S' else 0))
        if name is None:
            for _ in range(30):
                name = g.r.choice(g.fnames)
                if name not in g.fnset() and g.look(name) is None: break
            else:
                g.uid += 1
                name = 'fn%d' % g.uid
        f = Fn(name, params, rets, 0)
        g.infn = f
        body = []
        for _ in range(g.r.randint(1, max(2, g.ns // 2))): 
            if g.budget < 0: break
            body += g.stmt()
            if body[-1]['k'] in ('return', 'panic'): body.pop()
        if rets: body.append(g.ret())
        elif not body: body.append(PRINT(S('nop')))
        f.cost = g.cost + 4
        (g.scopes, g.mult, g.cost, g.inloop, g.inswitch, g.loopdepth, g.depth_left, g.infn, g.maxcost, g.budget, g.ranging) = saved
        g.fns.append(f)
        return FUNC(name, [(n, t) for n, t, _ in params], [t for t, _ in rets], body)
    def tracer(g, t):
        n = {'i': 'ti', 'b': 'tb', 's': 'ts'}[t]
        g.tracers[t] = n
        return FUNC(n, [('id', 'i'), ('v', t)], [t], [PRINT(S('t'), V('id', 'i'), V('v', t))] + ([INC('tcount')] if g.tcount else []) + [RETURN(V('v', t))])
    def dump(g):
        """print every variable visible at top level"""
        out = []
        for n, v in list(g.scopes[0].items()):
            if v.t[0] == 'S':
                i, x = 'zi%d' % len(out), 'zv%d' % len(out)
                out.append(RNG(i, x, V(n, v.t), [PRINT(S(n), V(i, 'i'), V(x, v.t[1]))]))
            else: out.append(PRINT(S(n), V(n, v.t)))
        return out
    def program(g):
        g.ranging, g.loopdepth, g.depth_left, g.fbase = 0, 99, g.dep, 0
        out = [WRITE(S(q), S('m' + str(k))) for k, q in enumerate(g.io)]
        g.tcount = False
        if g.eff:
            if g.p(.7):
                g.tcount = True
                g.define('tcount', 'i', 0, True)
                out.append(VDEF(['tcount'], [I(0)]))
            for t in g.types: out.append(g.tracer(t))
        nf = g.r.randint(min(1, g.nf), g.nf)
        n = g.r.randint(max(2, g.ns // 2), g.ns)
        slots = sorted(g.r.sample(range(n + nf), nf)) if nf else []
        for i in range(n + nf):
            if i in slots: out.append(g.func())
            elif g.budget < 0 or g.cost > g.maxcost: continue
            else: out += g.mark() + g.stmt()
            if out[-1]['k'] == 'panic': break
        return out + (g.dump() if g.p(g.dumpp) else [])

def program(seed, **kw):
    """(tree, rendered text) of a random program"""
    return Gen(random.Random(seed), **kw).program()
