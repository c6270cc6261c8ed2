"""Sessions on derived quantities and grids (C17): helpers called directly, analysis of
synthetic data, and analysis of computed correlations."""
import random
from fractions import Fraction as Fr
import numpy
import pool
import s_dyn
import worlds
from s_four import Reject
from worlds import enc, encs, guarded

TWOVAR = ('fskt', 'fkt')


# ---- execution ---------------------------------------------------------------------

def as_list(x, how):
    return numpy.array(x) if how == 'array' else tuple(x) if how == 'tuple' else list(x)


def call(e):
    from atooms.postprocessing import helpers
    fn = e['fn']
    fl = lambda r: r[0] / r[1]

    def go():
        r = {'ok': True, 'exc': ''}
        if fn == 'linear_grid':
            g = helpers.linear_grid(fl(e['a']), fl(e['b']), e['num'] if e['by'] == 'n' else fl(e['d']))
            r['g'] = encs(g)
        elif fn == 'logx_grid':
            x1 = fl(e['x1'])
            x2 = (x1 if x1 > 0 else 1.0) * fl(e['r']) ** e['num']
            r['g'] = encs(helpers.logx_grid(x1, x2, e['num']))
        else:
            s = fl(e['xs'])
            x = as_list([i * s for i in e['X']], e['how'])
            y = as_list([fl(v) for v in e['yr']], e['how'])
            if fn == 'ifabsmm':
                mn, mx = helpers.ifabsmm(x, y)
                r.update(tmin=enc(mn[0]), hmin=enc(mn[1]), tmax=enc(mx[0]), hmax=enc(mx[1]))
            elif fn == 'linear_fit':
                a, b, sa, sb = helpers.linear_fit(x, y)
                r.update(a=enc(a), b=enc(b), sa2=enc(sa ** 2), sb2=enc(sb ** 2))
            else:
                t, i = helpers.feqc(x, y, fl(e['fr']))
                r.update(t=[] if t is None else enc(t))
        return r
    out = {k: v for k, v in e.items() if k not in ('how', 'yr', 'fr')}
    out.update(ev='help', res=guarded(go))
    if 'yr' in e:
        out['y'] = [enc(p / q) for p, q in e['yr']]
    if 'fr' in e:
        out['f'] = enc(e['fr'][0] / e['fr'][1])
    return out


def analysis_of(cf, kind):
    if kind in TWOVAR:
        t = cf.analysis['relaxation times tau']
        tau = [[enc(k)] + ([] if v is None else [enc(v)]) for k, v in t.items()]
        return {'ok': True, 'exc': '', 'an': [], 'tau': tau}
    return {'ok': True, 'exc': '', 'an': [[k, enc(v)] for k, v in cf.analysis.items() if v is not None], 'tau': []}


def derive(cf, kind, nd, xs, sig):
    """The analysis of what the object contains"""
    e = {'ev': 'derive', 'kind': kind, 'nd': nd, 'xs': xs, 'sig2': [sig[0] ** 2, sig[1] ** 2], 'X': [], 'g': [], 'y': [], 'ks': [], 'ys': []}
    g = cf.grid[1] if kind in TWOVAR else cf.grid
    e['g'] = encs(g)
    e['X'] = [int(round(t / (xs[0] / xs[1]))) for t in g]
    if kind in TWOVAR:
        e['ks'], e['ys'] = encs(cf.grid[0]), [encs(x) for x in cf.value]
    else:
        e['y'] = encs(cf.value)

    def go():
        cf.analyze()
        return analysis_of(cf, kind)
    e['res'] = guarded(go)
    e['res'].setdefault('an', [])
    e['res'].setdefault('tau', [])
    return e


def execute(s):
    evs = [{'ev': 'begin'}]
    if s['t'] == 'help':
        return evs + [call(e) for e in s['calls']]
    tr = s['tr']
    th = worlds.realise(tr)
    for o in s['objs']:
        c = o['c']
        cls, kw = pool.klass(th, tr, c)
        if c['kind'] == 'msd':
            kw['sigma'] = o['sig'][0] / o['sig'][1]
        if s['t'] == 'made':
            cf = cls(th, **kw)
            t = as_list([x * o['xs'][0] / o['xs'][1] for x in o['X']], o['how'])
            if c['kind'] in TWOVAR:
                cf.grid = [[p / q for p, q in o['ks']], t]
                cf.value = [as_list([p / q for p, q in row], o['how']) for row in o['ys']]
            else:
                cf.grid, cf.value = t, as_list([p / q for p, q in o['y']], o['how'])
            evs.append(derive(cf, c['kind'], tr['nd'], o['xs'], o['sig']))
            if o['again']:
                evs.append(derive(cf, c['kind'], tr['nd'], o['xs'], o['sig']))
        else:
            o2 = dict(o)
            if c['kind'] == 'msd':
                cf = cls(th, **kw)
                if o['parts'][0]['k'] == 'filter':
                    import atooms.postprocessing as pp
                    cf = pp.Filter(cf, o['parts'][0]['expr'])
                todo = [cf]
                cf.compute()
            else:
                cf = pool.build(th, tr, o2)
                cf.compute()
                todo = [m for m, _ in pool.members(cf, o2)]
            for m in todo:
                dt = Fr(tr['tn'], tr['td'])
                evs.append(derive(m, c['kind'], tr['nd'], [dt.numerator, dt.denominator], o['sig']))
    return evs


# ---- generation --------------------------------------------------------------------

def dyadic(rng, hi=40, den=(1, 1, 2, 4, 8), lo=None):
    q = rng.choice(den)
    return [rng.randint(-hi * q if lo is None else lo * q, hi * q), q]


def ordinates(rng, n, pos=False):
    """Sequences of dyadic numbers of several shapes"""
    kind = rng.choice(['any', 'any', 'few', 'decay', 'grow', 'peak', 'const', 'flat-top'])
    q = rng.choice([1, 2, 4, 8])
    if kind == 'any':
        y = [rng.randint(-20 * q, 20 * q) for _ in range(n)]
    elif kind == 'few':
        v = [rng.randint(-5, 5) for _ in range(3)]
        y = [rng.choice(v) for _ in range(n)]
    elif kind == 'const':
        y = [rng.randint(-9, 9)] * n
    elif kind in ('decay', 'grow'):
        y = [rng.randint(0, 30)]
        for _ in range(n - 1):
            y.append(y[-1] + rng.choice([0, 1, 1, 2, 5]) * (1 if kind == 'grow' else -1))
    else:
        k = rng.randrange(n)
        y = [-abs(i - k) * rng.randint(1, 3) for i in range(n)]
        if kind == 'flat-top' and k + 1 < n:
            y[k + 1] = y[k]
    if rng.random() < 0.3 and kind != 'const':
        y = [-v for v in y]
    if pos:
        y = [abs(v) for v in y]
    return [[v, q] for v in y]


def abscissae(rng, n, top=60):
    if rng.random() < 0.4:
        d, x0 = rng.randint(1, 5), rng.choice([0, 0, 1, rng.randint(-5, 10)])
        return [x0 + i * d for i in range(n)]
    x = sorted(rng.sample(range(0, top), n))
    if rng.random() < 0.5:
        x = [i - x[0] for i in x]
    return x


def scale(rng):
    return rng.choice([[1, 1], [1, 1], [1, 2], [1, 4], [3, 1], [3, 4], [10, 1], [1, 8]])


def fit_fits(X, y):
    """No overflow in the specification"""
    n = len(X)
    S = sum(X)
    W = [n * x - S for x in X]
    D = sum(w * x for w, x in zip(W, X))
    yy = [Fr(*v) for v in y]
    return 0 < D < 10 ** 8 and sum(abs(w) * (abs(v) + 1) for w, v in zip(W, yy)) < 10 ** 8 and sum((2 * abs(v) + 2) ** 2 for v in yy) * n < 10 ** 8


def one_call(rng):
    fn = rng.choice(['linear_grid', 'logx_grid', 'ifabsmm', 'ifabsmm', 'linear_fit', 'linear_fit', 'feqc', 'feqc'])
    if fn == 'linear_grid':
        a, b = dyadic(rng), dyadic(rng)
        if Fr(*a) > Fr(*b):
            a, b = b, a
        if rng.random() < 0.5:
            n = rng.choice([1, 2, 3, 4, 5, 9, 10, 30])
            return {'fn': fn, 'by': 'n', 'a': a, 'b': b, 'num': n, 'd': [1, 1]}
        d = rng.choice([[1, 1], [1, 2], [1, 4], [3, 4], [3, 2], [2, 1], [5, 1], [7, 4]])
        if (Fr(*b) - Fr(*a)) / Fr(*d) > 120:
            d = [8, 1]
        return {'fn': fn, 'by': 'd', 'a': a, 'b': b, 'num': 0, 'd': d}
    if fn == 'logx_grid':
        r = rng.choice([[2, 1], [3, 1], [3, 2], [5, 4], [3, 1], [5, 2], [1, 2], [3, 4], [9, 8]])
        top = {(2, 1): 14, (3, 1): 9, (3, 2): 12, (5, 4): 9, (5, 2): 8, (1, 2): 12, (3, 4): 9, (9, 8): 6}[tuple(r)]
        n = rng.randint(1, top)
        x1 = rng.choice([[1, 1], [1, 2], [2, 1], [1, 8], [5, 1], [3, 4], [0, 1], [0, 1], [0, 1]])
        return {'fn': fn, 'x1': x1, 'r': r, 'num': n}
    e = {'fn': fn, 'how': rng.choice(['list', 'array', 'tuple']), 'xs': scale(rng)}
    n = rng.choice([1, 2, 3, 3, 4, 5, 6, 8, 12])
    if fn == 'linear_fit':
        e['how'] = 'array'
        n = max(2, n)
        while True:
            X = abscissae(rng, n)
            if rng.random() < 0.4:
                a, b, q = rng.randint(-4, 4), rng.randint(-9, 9), rng.choice([1, 2, 4])
                y = [[a * x + b, q] for x in X]
            else:
                y = ordinates(rng, n)
            if fit_fits(X, y):
                break
    else:
        X, y = abscissae(rng, n), ordinates(rng, n)
    e.update(X=X, yr=y)
    if fn == 'feqc':
        v = [Fr(*z) for z in y]
        f = rng.choice([Fr(*rng.choice(y)), min(v), max(v), Fr(*dyadic(rng, 20)), (v[0] + v[-1]) / 2])
        e['fr'] = [f.numerator, f.denominator]
    return e


def small_world(rng):
    return pool.world(rng, npart=(2, 4), nmax=4)


def made_session(rng):
    """Synthetic data"""
    while True:
        tr = small_world(rng)
        objs = []
        for _ in range(rng.randint(2, 4)):
            kind = rng.choice(['msd', 'msd', 'msd', 'qst', 'alpha2', 'chi4', 'fskt', 'fkt', 'vacf', 'qt'])
            try:
                o = pool.describe(rng, tr, kind, flt=0.0)
            except Reject:
                continue
            n = rng.choice([2, 3, 4, 6, 10])
            o.update(xs=scale(rng), X=abscissae(rng, n), sig=rng.choice([[1, 1], [1, 2], [3, 2], [2, 1], [1, 4]]), y=[], ks=[], ys=[],
                     how=rng.choice(['list', 'list', 'array']), again=rng.random() < 0.2)
            if kind in TWOVAR:
                o['how'] = 'list'
                o['X'] = [x - o['X'][0] for x in o['X']]
                m = rng.randint(1, 4)
                ks = sorted(rng.sample(range(1, 60), m))
                o['ks'] = [[k, 4] for k in ks]
                o['ys'] = [decay(rng, n) for _ in range(m)]
            elif kind == 'msd':
                while True:
                    y, v = [], 0
                    q = rng.choice([1, 2, 4, 8])
                    shape = rng.random()
                    for i in range(n):
                        y.append([v if shape < 0.7 else rng.randint(0, 8 * q), q])
                        v += rng.randint(0, 3 * q)
                    if fit_fits(o['X'], y) and all(fit_fits(o['X'][i:j], y[i:j]) for i in range(n) for j in range(i + 2, n + 1)):
                        break
                o['y'] = y
            elif kind == 'qst':
                o['y'] = decay(rng, n)
            else:
                o['y'] = ordinates(rng, n, kind == 'chi4')
            objs.append(o)
        if objs:
            return {'t': 'made', 'tr': tr, 'objs': objs}


def decay(rng, n):
    """A relaxing function from one, in units of 1/64"""
    kind = rng.choice(['down', 'down', 'noise', 'slow', 'step', 'raw'])
    v, y = 64, []
    for i in range(n):
        y.append(v)
        if kind == 'down':
            v -= rng.randint(0, 30)
        elif kind == 'noise':
            v = rng.randint(-20, 64)
        elif kind == 'slow':
            v -= rng.randint(0, 6)
        elif kind == 'raw':
            v -= rng.randint(0, 40)
        else:
            v = rng.choice([64, 40, 24, 10, 0])
    m = rng.choice([1, 2, 5]) if kind == 'raw' else 1
    return [[m * x, 64] for x in y]


def real_session(rng):
    """Computed correlations"""
    while True:
        tr = pool.world(rng, npart=(2, 5), nmax=5)
        two = len(set(tr['fr'][0]['s'])) > 1
        objs = []
        for _ in range(rng.randint(2, 4)):
            kind = rng.choice(['msd', 'msd', 'qst', 'alpha2', 'chi4', 'fskt', 'fkt'])
            try:
                o = pool.describe(rng, tr, kind, flt=0.3, partial=two and kind != 'msd' and rng.random() < 0.4, cost=1500)
            except Reject:
                continue
            o['sig'] = rng.choice([[1, 1], [1, 2], [3, 2], [2, 1]])
            # all the lags available make the analysis more interesting
            if kind not in TWOVAR and rng.random() < 0.6:
                st = tr['steps']
                tg = [[x, 1] for x in sorted({b - a for i, a in enumerate(st) for b in st[i:]})]
                c2 = dict(o['c'], tg=tg)
                if all(pool.valid(tr, c2, p['flt']) for p in o['parts']):
                    o['c'] = c2
            objs.append(o)
        X = tr['steps']
        if objs and len(X) * len(X) * (X[-1] - X[0]) ** 2 < 10 ** 8:
            return {'t': 'real', 'tr': tr, 'objs': objs}


def sessions(prop, rng, tier, scale=1.0):
    big = 3 if tier == 'thorough' else 1
    m = lambda n: max(1, int(n * scale * big))
    for _ in range(m(120)):
        yield {'t': 'help', 'calls': [one_call(rng) for _ in range(12)]}
    for _ in range(m(200)):
        yield made_session(rng)
    for _ in range(m(200)):
        yield real_session(rng)
