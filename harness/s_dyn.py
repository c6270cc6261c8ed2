"""Sessions on time correlation functions (C01, C02, C03, C04, C11, C12)."""
import copy
import json
import random
import numpy
import worlds
from worlds import enc, encs, guarded, result


# ---- execution ------------------------------------------------------------------

def origins_value(o):
    return o['raw']


def make(th, tr, c):
    """The correlation object described by c"""
    import atooms.postprocessing as pp
    dt = tr['tn'] / tr['td']
    h = tr['hn'] / tr['hd']
    tg = None if c['tgk'] != 'given' else [p / q * dt for p, q in c['tg']]
    if tg is not None and c.get('np'):
        tg = numpy.array(tg)
    no = c['o']['raw']
    kw = dict(c.get('kw', {}))
    if c['kind'] == 'msd':
        if c['fixcm']:
            kw['fix_cm'] = True
        if c['nooff']:
            kw['no_offset'] = True
        return pp.MeanSquareDisplacement(th, tg, norigins=no, **kw)
    if c['kind'] == 'vacf':
        return pp.VelocityAutocorrelation(th, tg, norigins=no, **kw)
    if c['kind'] == 'alpha2':
        return pp.NonGaussianParameter(th, tg, norigins=no, **kw)
    a = c['a'][0] / c['a'][1] * h
    if c['kind'] == 'qst':
        return pp.SelfOverlap(th, tg, norigins=no, a=a, **kw)
    if c['kind'] == 'qt':
        return pp.CollectiveOverlap(th, tg, norigins=no, a=a, **kw)
    if c['kind'] == 'chi4':
        cls = pp.Chi4SelfOverlapOptimized if c.get('fast') else pp.Chi4SelfOverlap
        return cls(th, tg, norigins=no, a=a, **kw)
    if c['kind'] == 'susc':
        cls = {'qst': pp.SelfOverlap, 'msd': pp.MeanSquareDisplacement, 'qt': pp.CollectiveOverlap,
               'vacf': pp.VelocityAutocorrelation}[c['sub']]
        if c['sub'] in ('qst', 'qt'):
            kw['a'] = a
        return pp.Susceptibility(cls, th, norigins=no, tgrid=tg, **kw)
    raise ValueError(c['kind'])


def apply_filter(cf, f):
    """Returns the events"""
    import atooms.postprocessing as pp
    if f['via'] == 'Filter':
        cf = pp.Filter(cf, worlds.cond_str(f['cond']))
    elif f['via'] == 'cbk':
        cf.add_filter(worlds.callback, f['cond'])
    elif f['via'] == 'cbkkw':
        cf.add_filter(worlds.callback, cond=f['cond'])
    elif f['via'] == 'species':
        from atooms.postprocessing.helpers import filter_species
        cf.add_filter(filter_species, f['cond']['x'])
    return cf


def compute(cf, how):
    if how == 'do':
        cf.do()
    elif how == 'call':
        cf()
    else:
        cf.compute()
    res = result(cf)
    return res


def run_obj(th, tr, c, filters, name='c', how='compute'):
    """Create, filter and compute one correlation"""
    evs = []
    def go():
        cf = make(th, tr, c)
        for f in filters:
            cf = apply_filter(cf, f)
        if c['kind'] == 'susc':
            cf.compute()
            r = result(cf)
        else:
            r = compute(cf, how)
        r['av'], r['va'] = [], []
        if c['kind'] == 'chi4':
            r['av'], r['va'] = encs(cf.average.value), encs(cf.variance.value)
        return r
    cc = dict(c)
    cc['flt'] = []
    cc['o'] = {k: v for k, v in c['o'].items() if k != 'raw'}
    evs.append({'ev': 'new', 'o': name, 'c': cc})
    for f in filters:
        evs.append({'ev': 'filter', 'o': name, 'cond': f['cond']})
    evs.append({'ev': 'compute', 'o': name, 'res': guarded(go)})
    return evs


def frames_event(th, tr):
    h = tr['hn'] / tr['hd']
    def go():
        return {'ok': True, 'n': len(th),
                'p': [[encs(p.position / h) for p in th[f].particle] for f in range(len(th))]}
    r = guarded(go)
    r.setdefault('p', [])
    r.setdefault('n', -1)
    return {'ev': 'frames', 'res': r}


def open_traj(s):
    tr = s['tr']
    th = worlds.realise(tr)
    if s.get('cache'):
        th.cache = True
    return th


def execute(s):
    evs = [{'ev': 'begin'}]
    if s['t'] == 'corr':
        th = open_traj(s)
        evs.append({'ev': 'traj', 'tr': s['tr']})
        for k, o in enumerate(s['objs']):
            evs += run_obj(th, s['tr'], o['c'], o['filters'], 'c%d' % k, o.get('how', 'compute'))
        if s.get('frames'):
            evs.append(frames_event(th, s['tr']))
    elif s['t'] == 'gcf':
        evs += run_gcf(s)
    elif s['t'] == 'variants':
        for v in s['vars']:
            th = worlds.realise(v)
            evs.append({'ev': 'traj', 'tr': v})
            for k, o in enumerate(s['objs']):
                evs += run_obj(th, v, o['c'], o['filters'], 'c%d' % k, 'compute')
            evs.append(frames_event(th, v))
    elif s['t'] == 'partial':
        evs += run_partial(s)
    else:
        raise ValueError(s['t'])
    return evs


def run_gcf(s):
    """The generic correlators on user data: scalars x, steps t"""
    import atooms.postprocessing as pp
    x = [float(v) for v in s['x']]
    if s.get('arr'):
        x = numpy.array(x)
    def f(a, b):
        return a * b + 2 * a
    def go():
        if s['fn'] == 'gcf':
            g, v, n = pp.gcf(f, s['lags'], s['skip'], s['steps'], x)
            return {'ok': True, 'exc': '', 'g': encs(g), 'v': encs(v), 'cnt': [int(_) for _ in n]}
        if s['fn'] == 'acf':
            g, v, n = pp.acf(s['lags'], s['skip'], s['steps'], x)
            return {'ok': True, 'exc': '', 'g': encs(g), 'v': encs(v), 'cnt': [int(n[_]) for _ in g]}
        g, v = pp.gcf_offset(f, [tuple(z) for z in s['disc']], s['skip'], s['steps'], x)
        return {'ok': True, 'exc': '', 'g': encs(g), 'v': encs(v), 'cnt': []}
    r = guarded(go)
    r.setdefault('cnt', [])
    return [{'ev': 'gcf', 'fn': s['fn'], 'x': s['x'], 'steps': s['steps'], 'skip': s['skip'],
             'lags': s['lags'], 'disc': s['disc'], 'res': r}]


def run_partial(s):
    """Partial correlations of one-body functions"""
    import atooms.postprocessing as pp
    tr = s['tr']
    evs = []
    th = open_traj(s)
    evs.append({'ev': 'traj', 'tr': tr})
    c = s['c']
    dt = tr['tn'] / tr['td']
    h = tr['hn'] / tr['hd']
    tg = [p / q * dt for p, q in c['tg']]
    kw = {'norigins': c['o']['raw']}
    if c['kind'] in ('qst', 'qt', 'chi4'):
        kw['a'] = c['a'][0] / c['a'][1] * h
    if c['kind'] == 'msd' and c['fixcm']:
        kw['fix_cm'] = True
    if c['kind'] == 'msd' and c['nooff']:
        kw['no_offset'] = True
    cls = {'msd': pp.MeanSquareDisplacement, 'vacf': pp.VelocityAutocorrelation,
           'alpha2': pp.NonGaussianParameter, 'qst': pp.SelfOverlap, 'qt': pp.CollectiveOverlap,
           'chi4': pp.Chi4SelfOverlapOptimized if c.get('fast') else pp.Chi4SelfOverlap}[c['kind']]
    species = sorted(set(tr['fr'][0]['s']))
    cc = dict(c)
    cc['flt'] = []
    cc['o'] = {k: v for k, v in c['o'].items() if k != 'raw'}
    out = {}

    def all_():
        p = pp.Partial(cls, list(species), th, tg, **kw)
        if s.get('how') == 'do':
            p.do()
        else:
            p.compute()
        for k, cf in p.partial.items():
            r = result(cf)
            r['av'], r['va'] = [], []
            if c['kind'] == 'chi4':
                r['av'], r['va'] = encs(cf.average.value), encs(cf.variance.value)
            out[k] = (r, cf.tag)
        return {'ok': True}
    r = guarded(all_)
    if not r['ok']:
        out = {}
    evs.append({'ev': 'keys', 'ok': sorted(map(str, out)) == species and
                all(out[k][1] == str(k) for k in out) if r['ok'] else False,
                'what': 'partials' if r['ok'] else 'raised-' + r['exc']})
    for k in sorted(out):
        evs.append({'ev': 'new', 'o': str(k), 'c': cc})
        evs.append({'ev': 'filter', 'o': str(k), 'cond': {'op': 'eq', 'f': 'species', 'x': str(k)}})
        evs.append({'ev': 'compute', 'o': str(k), 'res': out[k][0]})
    # The total, afterwards, must combine the partials
    evs += run_obj(th, tr, c, [], 'total')
    if c['kind'] in ('msd', 'vacf', 'qst') and out:
        evs.append({'ev': 'sumrule', 'parts': sorted(out), 'n': 0,
                    'np': [tr['fr'][0]['s'].count(k) for k in sorted(out)],
                    'vals': [out[k][0]['v'] for k in sorted(out)],
                    'total': evs[-1]['res'].get('v', [])})
    return evs


# ---- generation -----------------------------------------------------------------

# Also one name being part of another one
SPECIES = [('A', 'B'), ('A', 'B', 'C'), ('1', '2'), ('Si', 'O'), ('A', 'AB'), ('BA', 'A', 'B'), ('1', '11')]
KINDS = ['msd', 'vacf', 'alpha2', 'qst', 'qt']


def cfg(rng, tr, kind=None, o=None, tg=None, **kw):
    kind = kind or rng.choice(KINDS)
    c = {'kind': kind, 'o': o or worlds.origins(rng), 'tgk': 'given', 'tg': tg or worlds.tgrid(rng, tr),
         'nooff': False, 'fixcm': False, 'a': rng.choice([[1, 1], [2, 1], [3, 1], [3, 2], [5, 2], [17, 10], [4, 1]])}
    if kind == 'msd':
        c['nooff'] = rng.random() < 0.25
        c['fixcm'] = rng.random() < 0.25
    if rng.random() < 0.2:
        c['np'] = True
    c.update(kw)
    return c


def unwrapped(tr):
    return [fr['u'] for fr in tr['fr']]


def alpha2_fits(tr, cond=worlds.COND_TRUE):
    """All pairs of frames displaced and within the range of 32-bit arithmetic"""
    idx = [worlds.frame_match(cond, fr) for fr in tr['fr']]
    n = len(tr['fr'])
    for a in range(n):
        for b in range(a + 1, n):
            d = [sum((x - y) ** 2 for x, y in zip(tr['fr'][a]['u'][i], tr['fr'][b]['u'][j]))
                 for i, j in zip(idx[a], idx[b])]
            if sum(d) == 0 or sum(d) ** 2 * (tr['nd'] + 2) >= 180000000:
                return False
            if sum(x * x for x in d) * tr['nd'] * len(d) >= 2000000000:
                return False
    return True


def fits(tr, c, cond=worlds.COND_TRUE):
    """Guard: numbers in the trace stay within 32-bit arithmetic"""
    n = len(tr['fr'])
    M = sum(tr['fr'][0]['m']) if c.get('fixcm') else 1
    if c['kind'] == 'alpha2':
        return alpha2_fits(tr, cond)
    span = max([abs(x) for fr in tr['fr'] for p in fr['u'] for x in p] + [1]) * 2
    N = len(tr['fr'][0]['p'])
    num = (span * M) ** 2 * tr['nd'] * N * n * tr['hn'] ** 2
    den = n * N * tr['hd'] ** 2 * M * M
    if c['kind'] in ('msd',) and (num >= 2000000000 or den >= 190000000):
        return False
    return True


def corr_session(rng, kind=None, nobj=1, filt=0.25, wkw=None, **ckw):
    while True:
        w = {'npart': (1, 6)}
        k = kind or rng.choice(KINDS)
        if k == 'alpha2':
            w.update(move=2, minmove=1, npart=(1, 5))
        if ckw.get('fixcm'):
            w.update(npart=(2, 5))
        w.update(wkw or {})
        tr = worlds.world(rng, **w)
        tr['pu'] = rng.random() < 0.2
        objs = []
        ok = True
        for _ in range(nobj):
            c = cfg(rng, tr, k, **ckw)
            fl = []
            if rng.random() < filt:
                cond = worlds.condition(rng, tr, 2)
                vias = ['Filter', 'cbk', 'cbkkw'] + (['species'] if cond['op'] == 'eq' and cond['f'] == 'species' else [])
                fl = [{'via': rng.choice(vias), 'cond': cond}]
            ok = ok and fits(tr, c, fl[0]['cond'] if fl else worlds.COND_TRUE)
            objs.append({'c': c, 'filters': fl, 'how': rng.choice(['compute', 'do', 'call', 'compute'])})
        if ok:
            return {'t': 'corr', 'tr': tr, 'objs': objs, 'cache': rng.random() < 0.3}


def gcf_session(rng):
    n = rng.randint(2, 12)
    st, blk = worlds.steps(rng, 2, 12)
    n = len(st)
    x = [rng.randint(-9, 9) for _ in range(n)]
    lags = sorted(rng.sample(range(n), rng.randint(1, n)))
    disc = sorted({(rng.randrange(0, max(1, n // 2)), rng.randrange(0, n)) for _ in range(rng.randint(1, 5))})
    skip = rng.randint(1, n)
    # at least one pair
    if not any(range(0, n - i, skip) for i in lags) or not any(range(o, n - i, skip) for o, i in disc):
        return gcf_session(rng)
    # offsets equivalent modulo skip would count the same pair twice: not a valid grid
    if len({(o % skip, i) for o, i in disc}) < len(disc):
        return gcf_session(rng)
    return {'t': 'gcf', 'fn': rng.choice(['gcf', 'acf', 'gcf_offset']), 'x': x, 'steps': st, 'skip': skip,
            'lags': lags, 'disc': [list(z) for z in disc], 'arr': rng.random() < 0.5}


def multi(rng, n, f):
    for _ in range(n):
        yield f(rng)


def sessions(prop, rng, tier, scale=1.0):
    big = 3 if tier == 'thorough' else 1
    m = lambda n: max(1, int(n * scale * big))
    return {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C11': c11, 'C12': c12}[prop](rng, m)


def c01(rng, m):
    for k in KINDS:
        for _ in range(m(200)):
            yield corr_session(rng, k)
    # several particles, higher dimensions
    for nd in (1, 4):
        for k in KINDS:
            for _ in range(m(12)):
                yield corr_session(rng, k, wkw={'nd': nd, 'npart': (2, 5) if nd == 1 else (1, 6), 'cubic': True})
    for _ in range(m(300)):
        yield gcf_session(rng)


def one(rng, tr, c, **kw):
    s = {'t': 'corr', 'tr': tr, 'objs': [{'c': c, 'filters': [], 'how': 'compute'}]}
    s.update(kw)
    return s


def c02(rng, m):
    """Origins: all frames distinguishable, few particles"""
    # Exhaustive over small sizes and all the requests
    for raw, k, p, q in worlds.ORIGINS:
        for n in (1, 2, 3, 4, 5, 7, 8, 10, 12, 16):
            if m(100) < 100 and rng.random() > m(100) / 100.:
                continue
            yield origin_session(rng, worlds.steps_uniform(rng, n), {'k': k, 'p': p, 'q': q, 'raw': raw})
        for blk in (2, 3, 4):
            for nblk in (1, 2, 3, 5, 7):
                yield origin_session(rng, worlds.steps_block(rng, nblk, blk, rng.choice([0, 0, 1])),
                                     {'k': k, 'p': p, 'q': q, 'raw': raw})
    # Arbitrary numbers of origins and fractions
    for _ in range(m(300)):
        st = worlds.steps(rng, 2, 40)
        if rng.random() < 0.5:
            v = rng.randint(2, 45)
            o = {'k': 'num', 'p': v, 'q': 1, 'raw': rng.choice([v, str(v), float(v), str(float(v))])}
        else:
            q = rng.choice([4, 8, 16, 32, 5, 10, 20, 25, 50, 100, 1000])
            p = rng.randint(1, q - 1)
            o = {'k': 'frac', 'p': p, 'q': q, 'raw': rng.choice([p / q, str(p / q)])}
            # 1/f must be safely rounded down
            if q % p == 0 and int(1 / (p / q)) != q // p:
                continue
        yield origin_session(rng, st, o)
    for _ in range(m(120)):
        yield corr_session(rng, rng.choice(['msd', 'qst', 'qt', 'vacf', 'chi4']), filt=0.0)
    # Heuristics
    for nx, n in [(20000, 4), (10001, 8), (13335, 9), (5000, 17), (9999, 4)]:
        tr = worlds.world(rng, nd=2, n=n, npart=(1, 1))
        tr['nx'] = nx
        c = cfg(rng, tr, 'vacf', o={'k': 'none', 'p': 0, 'q': 1, 'raw': None}, tg=[[0, 1], [1, 1], [tr['steps'][-1], 1]])
        yield {'t': 'corr', 'tr': tr, 'objs': [{'c': c, 'filters': [{'via': 'Filter', 'cond': {'op': 'ne', 'f': 'species', 'x': 'Z'}}],
                                                'how': 'compute'}]}


def origin_session(rng, stp, o):
    for _ in range(60):
        kind = rng.choice(['vacf', 'vacf', 'msd', 'qt', 'qst', 'chi4', 'alpha2'])
        tr = worlds.world(rng, nd=rng.choice([2, 3]), stp=stp, npart=(1, 1) if kind != 'alpha2' else (1, 3), vel=60,
                          minmove=1 if kind == 'alpha2' else 0)
        st = tr['steps']
        lags = sorted({b - a for i, a in enumerate(st) for b in st[i:]})
        tg = [[x, 1] for x in (lags if len(lags) < 12 else [0] + sorted(rng.sample(lags, 10)))]
        c = cfg(rng, tr, kind, o=o, tg=tg, fixcm=False)
        if fits(tr, c):
            break
    return one(rng, tr, c)


def c03(rng, m):
    for _ in range(m(700)):
        kind = rng.choice(['vacf', 'vacf', 'msd', 'qst', 'qt', 'chi4', 'alpha2'])
        ts = rng.choice([(1, 1), (1, 2), (1, 8), (5, 1), (3, 4), (1, 10), (1, 500), (3, 1000), (7, 100), (1, 3)])
        tr = worlds.world(rng, lo=1, hi=14, npart=(1, 1), vel=30, timestep=ts,
                          kinds=('u', 'i', 'b', 'b', 'B'))
        tg = grid_request(rng, tr, dyadic=ts[1] in (1, 2, 4, 8))
        c = cfg(rng, tr, kind, tg=tg, fixcm=False)
        if not fits(tr, c):
            continue
        yield one(rng, tr, c)
    # Default grids
    for _ in range(m(250)):
        kind = rng.choice(['msd', 'msd', 'vacf', 'alpha2', 'qst', 'qt', 'chi4'])
        tr = worlds.world(rng, lo=2, hi=25, npart=(1, 1), timestep=rng.choice([(1, 1), (1, 8), (1, 500)]),
                          kinds=('u', 'i', 'b') if kind in ('msd', 'vacf', 'alpha2') else ('u', 'b'),
                         move=1, minmove=1 if kind == 'alpha2' else 0)
        c = cfg(rng, tr, kind, tg=[], fixcm=False)
        c['tg'] = []
        T = tr['steps'][-1] - tr['steps'][0]
        if kind in ('msd', 'vacf', 'alpha2'):
            num, den, npt = {'msd': (1, 1, 30), 'vacf': (1, 10, 12), 'alpha2': (3, 4, 20)}[kind]
            npt = rng.choice([npt, 2, 5, 30])
            c['kw'] = {'nsamples' if kind == 'alpha2' else 'tsamples': npt}
            c['tgk'], c['lin'] = 'lin', [num, den, npt]
            if kind == 'msd' and rng.random() < 0.5:
                # up to the time to reach a given displacement
                p, q = rng.choice([(1, 2), (1, 1), (3, 2), (2, 1), (3, 1), (5, 2), (1, 4)])
                i, j = tr['fr'][0]['u'], tr['fr'][-1]['u']
                x = sum((a - b) ** 2 for u, v in zip(i, j) for a, b in zip(u, v)) * q * q
                y = p * p * len(i)
                num, den = (1, 1) if y >= x else (y, x)
                c['tgk'], c['lin'] = 'rmsd', [p, q, npt]
                c['kw']['rmax'] = p / q * tr['hn'] / tr['hd']
            # no exact ties
            if any((2 * k * T * num) % (den * (npt - 1)) == 0 and (2 * k * T * num) // (den * (npt - 1)) % 2 == 1
                   for k in range(npt)):
                continue
        else:
            c['tgk'] = 'log'
        if not fits(tr, c):
            continue
        yield one(rng, tr, c)


def grid_request(rng, tr, dyadic):
    st = tr['steps']
    T = st[-1] - st[0]
    lags = sorted({b - a for i, a in enumerate(st) for b in st[i:]})
    kind = rng.choice(['lags', 'any', 'frac', 'half', 'around', 'out', 'one'])
    if kind == 'lags':
        g = [[x, 1] for x in rng.sample(lags, rng.randint(1, min(rng.choice([8, 8, 80]), len(lags))))]
    elif kind == 'any':
        g = [[rng.randint(0, T + 3), 1] for _ in range(rng.randint(1, 8))]
    elif kind == 'frac':
        g = [[rng.randint(0, 10 * T + 3), 10] for _ in range(rng.randint(1, 8))]
        g = [[p + (p % 10 == 5), q] for p, q in g]
    elif kind == 'half' and dyadic:
        g = [[2 * rng.randint(0, T + 1) + 1, 2] for _ in range(rng.randint(1, 6))]
    elif kind == 'out':
        g = [[T + rng.randint(0, 100), 1], [rng.choice(lags), 1], [2 * T + 5, 1]]
    elif kind == 'one':
        g = [[rng.choice(lags), 1]]
    else:
        g = [[max(0, x + rng.choice([-1, 1])), 1] for x in rng.sample(lags, rng.randint(1, min(6, len(lags))))]
        g += rng.sample(g, 1)
    if rng.random() < 0.5:
        g.sort(key=lambda z: z[0] / z[1])
    return g


def c04(rng, m):
    for _ in range(m(500)):
        while True:
            k = rng.choice(KINDS + ['chi4'])
            w = dict(npart=(4, 9), hi=7, fields=True, species=rng.choice(SPECIES))
            if k == 'alpha2':
                w.update(move=1, minmove=1, npart=(4, 7))
            tr = worlds.world(rng, **w)
            tr['pu'] = rng.random() < 0.2
            c = cfg(rng, tr, k)
            cond = worlds.condition(rng, tr, 2, fields=('species', 'mass', 'radius', 'w', 'w'))
            if fits(tr, c, cond):
                break
        vias = ['Filter', 'Filter', 'cbk', 'cbkkw'] + (['species'] if cond['op'] == 'eq' and cond['f'] == 'species' else [])
        yield {'t': 'corr', 'tr': tr, 'cache': rng.random() < 0.3,
               'objs': [{'c': c, 'filters': [{'via': rng.choice(vias), 'cond': cond}], 'how': rng.choice(['compute', 'do'])}]}
    for _ in range(m(250)):
        while True:
            k = rng.choice(KINDS + ['chi4'])
            w = dict(npart=(4, 9), hi=7, species=rng.choice(SPECIES))
            if k == 'alpha2':
                w.update(move=1, minmove=1, npart=(4, 7))
            tr = worlds.world(rng, **w)
            c = cfg(rng, tr, k)
            c['fast'] = rng.random() < 0.5
            if all(fits(tr, c, {'op': 'eq', 'f': 'species', 'x': x}) for x in set(tr['fr'][0]['s'])) and fits(tr, c):
                break
        yield {'t': 'partial', 'tr': tr, 'c': c, 'how': rng.choice(['do', 'compute']), 'cache': rng.random() < 0.3}


def c11(rng, m):
    for _ in range(m(160)):
        while True:
            k = rng.choice(['msd', 'msd', 'alpha2', 'qst', 'chi4'])
            w = dict(npart=(2, 5), hi=7, Lrange=rng.choice([(4, 8), (5, 12), (8, 20)]), even=rng.random() < 0.5, move=rng.choice([1, 2, 3, 5]))
            if k == 'alpha2':
                w.update(move=1, minmove=1)
            tr = worlds.world(rng, **w)
            objs = []
            good = True
            for _ in range(rng.randint(1, 2)):
                c = cfg(rng, tr, k)
                if k == 'msd':
                    c['fixcm'] = rng.random() < 0.5
                cond = worlds.condition(rng, tr, 1) if rng.random() < 0.4 else worlds.COND_TRUE
                fl = [] if cond['op'] == 'true' else [{'via': rng.choice(['Filter', 'cbk']), 'cond': cond}]
                good = good and fits(tr, c, cond)
                objs.append({'c': c, 'filters': fl})
            if good:
                break
        vs = [tr] + rng.sample([raw_variant(tr), recut(rng, tr), stored(tr), translated(rng, tr)], 2)
        fix = [o for o in objs if o['c']['fixcm']]
        yield {'t': 'variants', 'vars': vs, 'objs': objs}
        if fix:
            d = drifted(rng, tr)
            if d is not None and all(fits(d, o['c']) for o in fix):
                yield {'t': 'variants', 'vars': [d], 'objs': fix}


def raw_variant(tr):
    """Stored positions are not folded"""
    v = copy.deepcopy(tr)
    for fr in v['fr']:
        fr['p'] = [list(x) for x in fr['u']]
    return v


def shift(v, s):
    for fr in v['fr']:
        L = fr['L']
        fr['u'] = [[x[d] + s[d] for d in range(len(s))] for x in fr['u']]
        fr['p'] = [[worlds.wrap(x[d], L[d]) for d in range(len(s))] for x in fr['u']]
    return v


def translated(rng, tr):
    return shift(copy.deepcopy(tr), [rng.randint(-6, 6) for _ in range(tr['nd'])])


def recut(rng, tr):
    """Positions in [0, L) instead of [-L/2, L/2)"""
    v = copy.deepcopy(tr)
    for fr in v['fr']:
        fr['p'] = [[x[d] % fr['L'][d] for d in range(tr['nd'])] for x in fr['u']]
        fr['u'] = [list(x) for x in fr['u']]
    return v


def stored(tr):
    v = copy.deepcopy(tr)
    v['pu'] = True
    return v


def drifted(rng, tr):
    """Add a common drift, keeping displacements below half a box"""
    v = copy.deepcopy(tr)
    nd = tr['nd']
    tot = [0] * nd
    for f in range(1, len(v['fr'])):
        a, b = tr['fr'][f - 1]['u'], tr['fr'][f]['u']
        for d in range(nd):
            L = v['fr'][f]['L'][d]
            lo = max(-(L - 1) // 2 - min(y[d] - x[d] for x, y in zip(a, b)), -4)
            hi = min((L - 1) // 2 - max(y[d] - x[d] for x, y in zip(a, b)), 4)
            lo = max(lo, -((L - 1) // 2) - min(y[d] - x[d] for x, y in zip(a, b)))
            if lo > hi:
                return None
            tot[d] += rng.randint(lo, hi)
        fr = v['fr'][f]
        fr['u'] = [[x[d] + tot[d] for d in range(nd)] for x in fr['u']]
        fr['p'] = [[worlds.wrap(x[d], fr['L'][d]) for d in range(nd)] for x in fr['u']]
    return v


def c12(rng, m):
    for _ in range(m(500)):
        tr = worlds.world(rng, npart=(1, 8), hi=14, kinds=('u', 'i', 'b'), fields=True)
        tr['pu'] = rng.random() < 0.1
        objs = []
        for _ in range(rng.randint(1, 2)):
            c = cfg(rng, tr, 'chi4')
            c['fast'] = rng.random() < 0.5
            fl = []
            if rng.random() < 0.3:
                cond = worlds.condition(rng, tr, 1, fields=('species', 'mass', 'w'))
                fl = [{'via': rng.choice(['Filter', 'cbk']), 'cond': cond}]
            objs.append({'c': c, 'filters': fl, 'how': rng.choice(['compute', 'do'])})
        yield {'t': 'corr', 'tr': tr, 'objs': objs, 'cache': rng.random() < 0.3}
    for _ in range(m(150)):
        tr = worlds.world(rng, npart=(1, 6), hi=12, kinds=('u', 'i'), move=1, timestep=rng.choice([(1, 1), (1, 2), (1, 8), (3, 4)]))
        st = tr['steps']
        T = st[-1] - st[0]
        sub = rng.choice(['qst', 'msd', 'qt', 'vacf'])
        lags = sorted({b - a for i, a in enumerate(st) for b in st[i:]})
        tg = sorted(rng.sample(lags, rng.randint(1, min(6, len(lags)))))
        if (len(st) * tg[-1]) % T == 0 and int(len(st) * (tg[-1] * tr['tn'] / tr['td'] / (T * tr['tn'] / tr['td']))) != len(st) * tg[-1] // T:
            continue
        c = cfg(rng, tr, 'susc', tg=[[x, 1] for x in tg])
        c['sub'] = sub
        if not susc_fits(tr, c):
            continue
        yield one(rng, tr, c)


def susc_fits(tr, c):
    n = len(tr['fr'])
    N = len(tr['fr'][0]['p'])
    if c['sub'] == 'msd':
        span = max([abs(x - y) for fr in tr['fr'] for p, p0 in zip(fr['u'], tr['fr'][0]['u']) for x, y in zip(p, p0)] + [1])
        y = span ** 2 * 4 * tr['nd'] * N
    elif c['sub'] == 'vacf':
        y = 25 * tr['nd'] * N
    else:
        y = N * N
    if n * n * y * y >= 2000000000 or n * n * N * tr['hd'] ** 4 >= 190000000:
        return False
    return n * n * y * y * tr['hn'] ** 4 < 2000000000
