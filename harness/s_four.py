"""Sessions on correlations in Fourier space (C07, C08, C09, C10; C02, C04, C11 in part)."""
import math
import os
from fractions import Fraction
import numpy
import worlds
from worlds import enc, encs, guarded

PERIODS = [12, 16, 20, 24, 30, 32, 36, 40, 48, 60, 72, 80, 96, 120, 144]


# ---- worlds --------------------------------------------------------------------

def divisors(T, lo, hi):
    return [x for x in range(lo, hi + 1) if T % x == 0]


def four_world(rng, nd=None, frames=None, npart=(1, 7), T=None, species=('A', 'B'), vary=False, flucL=False, dynamic=False,
               fixcm=False, images=False, kinds=('u', 'i', 'b'), Lrange=(3, 16), nmax=6, h=None, stp=None):
    """Particles on a lattice, in cells whose sides divide T. Static worlds are made of
    independent frames, possibly with a varying number of particles and cells"""
    nd = nd or rng.choice([2, 3, 3])
    T = T or rng.choice(PERIODS)
    masses = (1, 1, 2, 3)
    while True:
        N = rng.choice([x for x in range(npart[0], npart[1] + 1) if x != nd])
        ms = [rng.choice(masses) for _ in range(N)]
        M = sum(ms) if fixcm else 1
        if T % M == 0 and divisors(T // M, *Lrange):
            break
        T = rng.choice(PERIODS)
    div = divisors(T // M, *Lrange)

    def side():
        L = [rng.choice(div) for _ in range(nd)]
        return [L[0]] * nd if rng.random() < 0.3 else L
    L = side()
    if stp is None:
        if frames:
            stp = worlds.steps_uniform(rng, frames)
        else:
            stp = worlds.steps(rng, 2, nmax, kinds)
    st, blk = stp

    def spec(N):
        while True:
            ns = rng.randint(1, min(N, len(species)))
            sp = [species[k] for k in range(ns)] + [rng.choice(species[:ns]) for _ in range(N - ns)]
            if all(sp.count(x) != nd for x in species):
                rng.shuffle(sp)
                return sp
    sp = spec(N)

    def pos(L):
        return [rng.randrange(-(l // 2), l - l // 2) for l in L]
    hn, hd = h or rng.choice([(1, 1), (1, 2), (1, 4), (3, 2), (3, 8)])
    tn, td = rng.choice([(1, 1), (1, 1), (1, 2), (1, 8), (5, 1), (3, 4)])
    fr = []
    odd = rng.randrange(1, len(st)) if len(st) > 1 else 0
    x = [pos(L) for _ in range(N)]
    for f in range(len(st)):
        if f > 0:
            if dynamic:
                mv = [(l - 1) // 2 for l in L]
                mv = [min(m, rng.choice([1, 2, 3])) for m in mv]
                for i in range(N):
                    for d in range(nd):
                        x[i][d] += rng.randint(-mv[d], mv[d])
            else:
                if flucL is not True and flucL:
                    # a single frame has another cell
                    L = side() if f == odd else fr[0]['L']
                elif flucL:
                    L = side()
                if vary:
                    N = rng.choice([y for y in range(npart[0], npart[1] + 1) if y != nd])
                    sp = spec(N)
                    ms = [rng.choice(masses) for _ in range(N)]
                x = [pos(L) for _ in range(N)]
        s = list(sp)
        if not dynamic:
            rng.shuffle(s)
        fr.append({'p': [[worlds.wrap(x[i][d], L[d]) + (rng.choice([0, 0, 1, -1]) * L[d] if images else 0)
                          for d in range(nd)] for i in range(N)],
                   'u': [list(y) for y in x], 'v': [[0] * nd for _ in range(N)], 's': s, 'm': list(ms),
                   'r': [rng.choice([1, 2, 3]) for _ in range(N)], 'w': rng.sample(range(N), N), 'L': list(L)})
    return {'nd': nd, 'steps': st, 'blk': blk, 'tn': tn, 'td': td, 'hn': hn, 'hd': hd, 'fr': fr, 'pu': False, 'nx': 0,
            'T': T}


# ---- shells, as in PPFourier.tla, to keep clear of ties and overflows ------------

class Reject(Exception):
    pass


def qsq(n, L, T):
    return sum((x * (T // l)) ** 2 for x, l in zip(n, L))


def request(c, L, T):
    if c['kreq'] == 'given':
        g = sorted(Fraction(p, q) for p, q in c['g'])
        if g[0] < 0:
            g[0] = Fraction(T // max(L))
            g.sort()
        return g
    lo, hi, n = c['lin']
    lo = T // max(L) if lo < 0 else lo
    return [Fraction(lo)] if n == 1 else [lo + k * Fraction(hi - lo, n - 1) for k in range(n)]


def shells(c, L, T, limit=400):
    """List of lists of vectors; raises Reject"""
    import itertools
    gs = request(c, L, T)
    # denominators used by the specification
    den0 = 1 if c['kreq'] == 'given' else (1 if c['lin'][2] == 1 else c['lin'][2] - 1)
    ds = [Fraction(*c['dk'])] * len(gs)
    for _ in range(5):
        kmax = gs[-1] + ds[-1]
        if kmax <= 0:
            raise Reject
        r = [int(kmax * l / T) + 1 for l in L]
        if math.prod(2 * x + 1 for x in r) > 3000:
            raise Reject
        if math.prod(2 * (int(kmax * max(L) / T) + 2) + 1 for x in r) > 20000:
            raise Reject
        sh = [[] for _ in gs]
        where = {}
        for n in itertools.product(*[range(-x, x + 1) for x in r]):
            Q = qsq(n, L, T)
            if Q * kmax.denominator ** 2 > 1.9e9:
                raise Reject
            if Q > kmax * kmax:
                continue
            if Q not in where:
                where[Q] = None
                for i, (g, d) in enumerate(zip(gs, ds)):
                    den = (g.denominator if c['kreq'] == 'given' else den0) * d.denominator
                    if (g + d) ** 2 * den * den > 1.9e9 or Q * den * den > 1.9e9:
                        raise Reject
                    if (g - d) ** 2 == Q or (g + d) ** 2 == Q:
                        raise Reject
                for i, (g, d) in enumerate(zip(gs, ds)):
                    if (g - d < 0 or (g - d) ** 2 < Q) and Q < (g + d) ** 2:
                        where[Q] = i
                        break
            if where[Q] is not None:
                sh[where[Q]].append(n)
        if kmax.numerator ** 2 > 1.9e9:
            raise Reject
        if all(sh):
            if sum(len(x) for x in sh) > limit:
                raise Reject
            return sh
        ds = [d if s else d * Fraction(6, 5) for d, s in zip(ds, sh)]
    raise Reject


def k_cfg(rng, tr, nonzero=False, allvec=False, vec=0.15, limit=200, full=400):
    """The request of wave-vectors; limit: vectors actually used per frame"""
    L, T = tr['fr'][0]['L'], tr['T']
    var = any(fr['L'] != L for fr in tr['fr'])
    k0 = T // max(L)
    for _ in range(200):
        c = {'g': [], 'lin': [0, 0, 1], 'vec': [], 'dk': [1, 1], 'nk': 1000}
        r = rng.random()
        if r < vec:
            c['kreq'] = 'vec'
            nv = []
            for _ in range(rng.randint(1, 3)):
                vs = []
                for _ in range(rng.randint(1, 4)):
                    v = [rng.randint(-3, 3) for _ in L]
                    if v not in vs and any(v):
                        vs.append(v)
                if vs:
                    nv.append(vs)
            if not nv:
                continue
            c['vec'] = nv
            return c
        norm = lambda: math.sqrt(qsq([rng.randint(0, 2) for _ in L], L, T))
        q = rng.choice([1, 1, 2, 4])
        c['dk'] = [rng.randint(1, 4), rng.choice([1, 2, 4])]
        if rng.random() < 0.4:
            c['dk'] = [max(1, k0 // rng.choice([1, 2, 3])), 1]
        if r < vec + 0.3:
            c['kreq'] = 'lin'
            c['lin'] = [rng.choice([-1, -1, rng.randint(1, 2 * k0)]), k0 * rng.randint(1, 3) + rng.randint(0, 3), rng.choice([1, 2, 3, 5])]
        else:
            c['kreq'] = 'given'
            g = [Fraction(round(norm() * q) + rng.choice([0, 0, 1, -1]), q) for _ in range(rng.randint(1, 4))]
            if rng.random() < 0.25:
                # away from the norms, such that the interval has to be enlarged
                c['dk'] = [1, rng.choice([2, 4])]
                g = [abs(x + rng.choice([1, -1]) * Fraction(rng.randint(2, 9), 4) * Fraction(*c['dk'])) for x in g]
            if rng.random() < 0.2:
                g[rng.randrange(len(g))] = Fraction(-1)
            if any(x < -1 or x == 0 and nonzero for x in g) or sum(x < 0 for x in g) > 1:
                continue
            if rng.random() < 0.6:
                g.sort()
            c['g'] = [[x.numerator, x.denominator] for x in g]
        c['nk'] = 1000 if var or allvec else rng.choice([1, 2, 3, 5, 8, 20, 1000, 1000])
        try:
            for fr in (tr['fr'] if var else tr['fr'][:1]):
                s = shells(c, fr['L'], T, full)
                if sum(min(len(x), c['nk']) for x in s) > limit:
                    raise Reject
                if nonzero and any(not any(v) for x in s for v in x):
                    raise Reject
        except Reject:
            continue
        return c
    raise Reject


# ---- execution ------------------------------------------------------------------

def make(th, tr, c, **extra):
    import atooms.postprocessing as pp
    h = tr['hn'] / tr['hd']
    u = 2 * math.pi / (tr['T'] * h)
    kw = {'norigins': c['o']['raw'], 'nk': c['nk'], 'dk': c['dk'][0] / c['dk'][1] * u}
    if c['kreq'] == 'given':
        kw['kgrid'] = [p / q * (u if p > 0 else 1) for p, q in c['g']]
        if c.get('np'):
            kw['kgrid'] = numpy.array(kw['kgrid'])
    elif c['kreq'] == 'lin':
        kw['kmin'] = c['lin'][0] * (u if c['lin'][0] > 0 else 1)
        kw['kmax'] = c['lin'][1] * u
        kw['ksamples'] = c['lin'][2]
    if c['kind'] in ('fskt', 'fkt'):
        kw['tgrid'] = None if c['tgk'] != 'given' else [p / q * tr['tn'] / tr['td'] for p, q in c['tg']]
        kw['fix_cm'] = c['fixcm']
        kw['normalize'] = c['norm']
    if c['kind'] == 'fskt' and c.get('mb') and c['fast']:
        kw['lookup_mb'] = c['mb']
    kw.update(extra)
    cls = cls_of(c)
    if c.get('partial'):
        return cls, kw
    return cls(th, **kw)


def cls_of(c):
    import atooms.postprocessing as pp
    return {'sk': pp.StructureFactorFast if c['fast'] else pp.StructureFactorLegacy,
            'fskt': pp.SelfIntermediateScatteringFast if c['fast'] else pp.SelfIntermediateScatteringLegacy,
            'fkt': pp.IntermediateScattering, 'ik': pp.SpectralDensity}[c['kind']]


def set_vectors(cf, tr, c):
    if c['kreq'] == 'vec':
        h = tr['hn'] / tr['hd']
        L = tr['fr'][0]['L']
        kv = [[[2 * math.pi * x / (l * h) for x, l in zip(v, L)] for v in vs] for vs in c['vec']]
        if c.get('arrv') == 2:
            # as printed, e.g. by report()
            kv = [[[float('%g' % x) for x in v] for v in vs] for vs in kv]
        elif c.get('arrv'):
            kv = [[numpy.array(v) for v in vs] for vs in kv]
        cf.kvectors = kv


def kv_result(cf, tr, L):
    """Vectors of integers"""
    h = tr['hn'] / tr['hd']
    ok, out = True, []
    for vs in cf.kvectors:
        out.append([])
        for v in vs:
            x = [a * l * h / (2 * math.pi) for a, l in zip(v, L)]
            ok = ok and len(v) == len(L) and all(abs(a - round(a)) < 1e-7 for a in x)
            out[-1].append([int(round(a)) for a in x])
    return ok, out


def four_result(cf, tr, c, sel, kcf=None):
    h = tr['hn'] / tr['hd']
    var = any(fr['L'] != tr['fr'][0]['L'] for fr in tr['fr'])
    L = tr['fr'][sel if var else 0]['L']
    ok, kv = kv_result(kcf or cf, tr, L)
    u = tr['T'] * h / (2 * math.pi)
    s = 1 / h ** 3 if c['kind'] == 'ik' else 1
    r = {'ok': True, 'exc': '', 'kv': kv, 'kvok': ok, 't': [], 'vn': []}
    if c['kind'] in ('fskt', 'fkt'):
        r['g'] = encs([x * u for x in cf.grid[0]])
        r['t'] = encs(cf.grid[1])
        r['v'] = [encs(x) for x in cf.value]
    else:
        r['g'] = encs([x * u for x in cf.grid])
        r['v'] = encs([x * s for x in cf.value])
        # I(k) is divided by the volume: value_nonorm has units of volume squared
        r['vn'] = encs([x * s * s for x in (cf if hasattr(cf, 'value_nonorm') else kcf).value_nonorm])
    return r


def report_result(cf, tr, c):
    """The report on the wave-vectors: rows of the two tables"""
    h = tr['hn'] / tr['hd']
    var = any(fr['L'] != tr['fr'][0]['L'] for fr in tr['fr'])
    L = tr['fr'][lastsel(tr, c) if var else 0]['L']
    u = tr['T'] * h / (2 * math.pi)
    short = [x.split() for x in cf.report().split('\n') if x.strip() and not x.startswith('#')]
    long = [x.split() for x in cf.report(verbose=True).split('\n') if x.strip() and not x.startswith('#')]
    rows = [{'k': enc(float(x[0]) * u), 'm': enc(float(x[1]) * u), 's': enc(float(x[2]) * u), 'n': int(x[3]), 'w': len(x)} for x in short]
    vecs = []
    for x in long[len(short):]:
        a = [float(y) * l * h / (2 * math.pi) for y, l in zip(x[1:], L)]
        vecs.append({'k': enc(float(x[0]) * u), 'v': [int(round(y)) for y in a], 'ok': len(x) == 1 + len(L) and all(abs(y - round(y)) < 1e-4 for y in a)})
    return {'same': long[:len(short)] == short, 'rows': rows, 'vecs': vecs, 'L': L, 'T': tr['T'], 'tol': int(600 * u) + 5000}


def event_cfg(c):
    cc = {k: v for k, v in c.items() if k not in ('mb', 'np', 'arrv', 'partial', 'fast', 'wtraj', 'sl', 'rfile')}
    cc['flt'] = []
    cc['o'] = {k: v for k, v in c['o'].items() if k != 'raw'}
    return cc


def lastsel(tr, c):
    """Last frame used by a static average; see PPTime.tla"""
    n, b, o = len(tr['steps']), tr['blk'], c['o']
    raw = {'none': lambda: (n * len(tr['fr'][0]['p'])) // 40000 if b == 1 else b, 'all': lambda: b, 'one': lambda: n,
           'num': lambda: max(1, ((n // b) * o['q']) // o['p']) * b, 'frac': lambda: (o['q'] // o['p']) * b}[o['k']]()
    skip = min(n, max(1, raw))
    return (n - 1) // skip * skip


def weigh(cf, tr, c, th2=None):
    if c['wt'] != 'none':
        kw = {'field': c['wt'], 'fluctuations': c['fluct']}
        if th2 is not None:
            kw['trajectory'] = th2
        cf.add_weight(**kw)


def weight_trajs(tr, c):
    """The trajectory and the one of the weights, if another one"""
    if not c.get('wtraj'):
        return worlds.realise(tr), None
    t2 = dict(tr, fr=[dict(fr, p=[[0] * tr['nd'] for _ in fr['p']]) for fr in tr['fr']])
    key = {'w': 'w', 'mass': 'm', 'radius': 'r'}[c['wt']]
    t1 = dict(tr, fr=[dict(fr, **{key: [7] * len(fr['p'])}) for fr in tr['fr']])
    return worlds.realise(t1), worlds.realise(t2)


def apply(cf, fl):
    import atooms.postprocessing as pp
    if fl is None:
        return cf
    if fl['via'] == 'Filter':
        return pp.Filter(cf, ','.join(worlds.cond_str(x) for x in fl['conds']))
    for x in fl['conds']:
        if fl['via'] == 'cbkkw':
            cf.add_filter(worlds.callback, cond=x)
        else:
            cf.add_filter(worlds.callback, x)
    return cf


def execute(s):
    tr = s['tr']
    evs = [{'ev': 'begin'}]
    if s['t'] == 'ik':
        return evs + run_ik(s)
    evs.append({'ev': 'traj', 'tr': tr})
    if s['t'] == 'partial':
        return evs + run_partial(s)
    th = None
    for k, o in enumerate(s['objs']):
        c, fl = o['c'], o['fl']
        name = 'f%d' % k

        def go():
            nonlocal th
            if c.get('wtraj'):
                th1, th2 = weight_trajs(tr, c)
            else:
                if th is None:
                    th = worlds.realise(tr)
                    th.cache = s.get('cache', False)
                th1, th2 = th, None
            cf = make(th1, tr, c)
            set_vectors(cf, tr, c)
            weigh(cf, tr, c, th2)
            cf = apply(cf, fl)
            for _ in range(o.get('times', 1)):
                if o.get('how') == 'do':
                    cf.do()
                else:
                    cf.compute()
            cfs.append(cf)
            return four_result(cf, tr, c, lastsel(tr, c))
        evs.append({'ev': 'new', 'o': name, 'c': event_cfg(c)})
        for x in (fl['conds'] if fl else []):
            evs.append({'ev': 'filter', 'o': name, 'cond': x})
        cfs = []
        r = guarded(go)
        evs.append({'ev': 'compute', 'o': name, 'res': r})
        if s.get('rep') and r['ok']:
            rep = guarded(lambda: dict(report_result(cfs[0], tr, c), ok=True))
            evs.append({'ev': 'krep', 'kv': r['kv'], 'g': r['g'], 'rep': rep})
    return evs


def run_partial(s):
    import atooms.postprocessing as pp
    tr, c = s['tr'], dict(s['c'], partial=True)
    species = sorted(set(tr['fr'][0]['s']))
    th, th2 = weight_trajs(tr, c)
    out, tags = {}, {}
    two = c['kind'] != 'fskt'

    def go():
        cls, kw = make(th, tr, c)
        p = pp.Partial(cls, list(species), th, **kw)
        for x in p.partial.values():
            set_vectors(x, tr, c)
        if c['wt'] != 'none':
            p.add_weight(field=c['wt'], fluctuations=c['fluct'], trajectory=th2)
        p.compute()
        for k, cf in p.partial.items():
            src = cf
            if two and k[0] > k[1]:
                src = p.partial[(k[1], k[0])]
            out[k] = four_result(cf, tr, c, lastsel(tr, c), src if two and k[0] > k[1] else None)
            tags[k] = cf.tag
        return {'ok': True}
    r = guarded(go)
    evs = []
    keys = sorted((a, b) for a in species for b in species) if two else list(species)
    evs.append({'ev': 'keys', 'ok': r['ok'] and sorted(out) == sorted(keys), 'what': 'partials' if r['ok'] else 'raised-' + r['exc']})
    if not (r['ok'] and sorted(out) == sorted(keys)):
        return evs
    for k in sorted(out):
        # only one of the two symmetric partials is computed
        a, b = (min(k), max(k)) if two else (k, k)
        name = ''.join(k)
        evs.append({'ev': 'new', 'o': name, 'c': event_cfg(c)})
        evs.append({'ev': 'filter', 'o': name, 'cond': {'op': 'eq', 'f': 'species', 'x': a}})
        if a != b:
            evs.append({'ev': 'filter', 'o': name, 'cond': {'op': 'eq', 'f': 'species', 'x': b}})
        evs.append({'ev': 'compute', 'o': name, 'res': out[k]})
    c = s['c']

    def total():
        cf = make(th, tr, c)
        set_vectors(cf, tr, c)
        weigh(cf, tr, c, th2)
        cf.compute()
        return four_result(cf, tr, c, lastsel(tr, c))
    r = guarded(total)
    evs.append({'ev': 'new', 'o': 'total', 'c': event_cfg(c)})
    evs.append({'ev': 'compute', 'o': 'total', 'res': r})
    if r['ok']:
        evs.append({'ev': 'samekv', 'kvs': [r['kv']] + [out[k]['kv'] for k in sorted(out)]})
    return evs


def run_ik(s):
    """The radii are in another file; the trajectory may be a slice"""
    from atooms.trajectory import TrajectoryXYZ, Trajectory
    from atooms.trajectory.decorators import Sliced
    tr, c = s['tr'], s['c']
    h = tr['hn'] / tr['hd']
    tr['rscale'] = c['rs'][0] / c['rs'][1] * h
    base = 'ik%d' % os.getpid()
    path, rpath = base + '.xyz', base + '.rad.xyz'
    evs = []
    sl = c.get('sl') or [0, None, 1]
    sub = dict(tr, steps=tr['steps'][sl[0]:sl[1]:sl[2]], fr=tr['fr'][sl[0]:sl[1]:sl[2]])
    for p in (path, rpath):
        if p == path and c['rfile'] == 'ram':
            continue
        with TrajectoryXYZ(p, 'w', fields=['species', 'position'] + (['radius'] if p == rpath or c['rfile'] == 'same' else [])) as th:
            for f, fr in enumerate(tr['fr']):
                # the trajectory of the radii need not have the right positions
                if p == rpath:
                    fr = dict(fr, p=[[0] * tr['nd'] for _ in fr['p']])
                th.write(worlds.realise_frame(tr, fr), tr['steps'][f])
    sub['tn'], sub['td'] = 1, 1

    def go():
        if c['rfile'] == 'ram':
            th = worlds.realise(tr)
        else:
            th = Trajectory(path)
            th.block_size = tr['blk']
        if c.get('sl'):
            th = Sliced(th, slice(*sl))
        cf = make(th, tr, c, trajectory_radius=path if c['rfile'] == 'same' else rpath)
        set_vectors(cf, sub, c)
        cf = apply(cf, s.get('fl'))
        for _ in range(c.get('times', 1)):
            cf.compute()
        return four_result(cf, sub, c, lastsel(sub, c))
    evs.append({'ev': 'traj', 'tr': sub})
    evs.append({'ev': 'new', 'o': 'i', 'c': event_cfg(c)})
    for x in (s['fl']['conds'] if s.get('fl') else []):
        evs.append({'ev': 'filter', 'o': 'i', 'cond': x})
    evs.append({'ev': 'compute', 'o': 'i', 'res': guarded(go)})
    for p in (path, rpath):
        if os.path.exists(p):
            os.remove(p)
    return evs


# ---- generation ------------------------------------------------------------------

def base_cfg(rng, tr, kind, **kw):
    c = {'kind': kind, 'o': worlds.origins(rng), 'nooff': False, 'fixcm': False, 'tg': [], 'tgk': 'given', 'a': [1, 1],
         'norm': True, 'wt': 'none', 'fluct': False, 'rs': [1, 1], 'fast': rng.random() < 0.6}
    c.update(kw)
    return c


def two_filter(rng, tr, fields, const):
    """None, one or two conditions"""
    k = rng.choice(['none', 'one', 'two', 'two', 'Filter1', 'Filter2'])
    if k == 'none':
        return None
    a = worlds.condition(rng, tr, 2, fields=fields, const=const)
    b = worlds.condition(rng, tr, 2, fields=fields, const=const)
    via = rng.choice(['cbk', 'cbkkw'])
    if k == 'one' or a['op'] == 'true':
        return {'via': via, 'conds': [a]}
    if k == 'two':
        return {'via': via, 'conds': [a, b]}
    if k == 'Filter1' or b['op'] == 'true':
        # a single condition in a two-body correlation: the other group is the whole system
        return {'via': 'Filter', 'conds': [a, worlds.COND_TRUE]}
    return {'via': 'Filter', 'conds': [a, b]}


def sk_session(rng, wkw=None, flt=True, weights=0.45, twice=0.15, limit=90, **ckw):
    while True:
        w = dict(vary=rng.random() < 0.4, flucL=rng.choice([False, False, False, True, 'one']), images=rng.random() < 0.3, nmax=5)
        w.update(wkw or {})
        tr = four_world(rng, **w)
        try:
            kc = k_cfg(rng, tr, limit=limit)
        except Reject:
            continue
        c = base_cfg(rng, tr, 'sk', **kc)
        if rng.random() < weights:
            c['wt'] = rng.choice(['w', 'w', 'mass', 'radius'])
            c['fluct'] = rng.random() < 0.6
            c['wtraj'] = rng.random() < 0.3
        c['np'] = rng.random() < 0.3
        c['arrv'] = rng.choice([0, 1, 0, 1, 2])
        c.update(ckw)
        fl = two_filter(rng, tr, ('species', 'mass', 'radius', 'w') if not c.get('wtraj') else ('species',), False) if flt else None
        # means of weights with small denominators
        if c['fluct'] and not small_mean(tr, c, fl):
            continue
        objs = [{'c': c, 'fl': fl}]
        if rng.random() < 0.4:
            objs.append({'c': dict(c, fast=not c['fast']), 'fl': fl})
        if rng.random() < twice:
            objs[0]['times'] = 2
        if rng.random() < 0.2:
            objs[0]['how'] = 'do'
        return {'t': 'four', 'tr': tr, 'objs': objs, 'cache': rng.random() < 0.2}


def small_mean(tr, c, fl):
    key = {'w': 'w', 'mass': 'm', 'radius': 'r'}[c['wt']]
    for cond in (fl['conds'] if fl else [worlds.COND_TRUE]):
        m = Fraction(0)
        for fr in tr['fr']:
            g = worlds.frame_match(cond, fr)
            m += Fraction(sum(fr[key][i] for i in g), len(g))
        m /= len(tr['fr'])
        if m.denominator > 24:
            return False
    return True


def partial_session(rng, kind):
    while True:
        dyn = kind != 'sk'
        tr = four_world(rng, npart=(4, 7), species=rng.choice([('A', 'B'), ('B', 'A', 'C'), ('1', '2'), ('A', 'AB'), ('BA', 'A')]),
                        dynamic=dyn, flucL=not dyn and rng.random() < 0.3, nmax=4)
        if any(set(fr['s']) != set(tr['fr'][0]['s']) for fr in tr['fr']):
            continue
        try:
            kc = k_cfg(rng, tr, limit=12, full=150)
        except Reject:
            continue
        c = base_cfg(rng, tr, kind, **kc)
        if dyn:
            c['tg'] = worlds.tgrid(rng, tr)
            c['norm'] = rng.random() < 0.7
        elif rng.random() < 0.4:
            c['wt'] = 'w'
            c['fluct'] = rng.random() < 0.6
            if c['fluct'] and not all(small_mean(tr, c, {'conds': [{'op': 'eq', 'f': 'species', 'x': x}]}) for x in set(tr['fr'][0]['s'])):
                continue
            if c['fluct'] and not small_mean(tr, c, None):
                continue
        return {'t': 'partial', 'tr': tr, 'c': c}


def ft_session(rng, kind=None, wkw=None, flt=0.4, cost=30000, tgrid=None, **ckw):
    while True:
        kind_ = kind or rng.choice(['fskt', 'fkt'])
        fixcm = ckw.get('fixcm', rng.random() < 0.25)
        w = dict(dynamic=True, fixcm=fixcm, images=rng.random() < 0.3, npart=(1, 6))
        w.update(wkw or {})
        tr = four_world(rng, **w)
        try:
            kc = k_cfg(rng, tr, limit=40, full=400)
        except Reject:
            continue
        c = base_cfg(rng, tr, kind_, fixcm=fixcm, norm=rng.random() < 0.6, **kc)
        c['mb'] = rng.choice([None, 64.0, 10 ** rng.uniform(-5, -1.5), 10 ** rng.uniform(-5, -1.5)])
        c['tg'] = (tgrid or worlds.tgrid)(rng, tr)
        # times of pairs of frames at the same distance
        st = tr['steps']
        if rng.random() < 0.12 and (tr['blk'] > 1 or len({b - a for a, b in zip(st, st[1:])}) < 2):
            c['tgk'], c['tg'] = 'log', []
        c.update(ckw)
        nvec = sum(len(v) for v in c['vec']) if c['kreq'] == 'vec' else sum(min(len(v), c['nk']) for v in shells(c, tr['fr'][0]['L'], tr['T'], 400))
        n, N = len(tr['steps']), len(tr['fr'][0]['p'])
        if nvec * n * n / 2 * (N if kind_ == 'fskt' else 1) > cost:
            continue
        fl = None
        if rng.random() < flt:
            if kind_ == 'fskt':
                fl = {'via': rng.choice(['cbk', 'cbkkw', 'Filter']), 'conds': [worlds.condition(rng, tr, 2)]}
            else:
                fl = two_filter(rng, tr, ('species', 'mass'), True)
        objs = [{'c': c, 'fl': fl}]
        if kind_ == 'fskt' and rng.random() < 0.4:
            objs.append({'c': dict(c, fast=not c['fast']), 'fl': fl})
        if rng.random() < 0.1:
            objs[0]['times'] = 2
        if rng.random() < 0.2 and (c['norm'] or c['tgk'] == 'log'):
            objs[0]['how'] = 'do'
        return {'t': 'four', 'tr': tr, 'objs': objs, 'cache': rng.random() < 0.2}


def ik_session(rng, flt=0.3, **ckw):
    while True:
        tr = four_world(rng, nd=3, npart=(1, 6), vary=rng.random() < 0.4, flucL=rng.choice([False, False, False, True, 'one']),
                        images=rng.random() < 0.2, kinds=('u', 'i'), nmax=5, h=rng.choice([(1, 1), (1, 2), (1, 4)]), T=rng.choice([12, 16, 20, 24, 30]))
        sl = None
        sub = tr
        if rng.random() < 0.4:
            n = len(tr['steps'])
            sl = [rng.randint(0, n - 1), None, rng.choice([1, 2])]
            sub = dict(tr, steps=tr['steps'][sl[0]:sl[1]:sl[2]], fr=tr['fr'][sl[0]:sl[1]:sl[2]])
        try:
            kc = k_cfg(rng, sub, nonzero=True, limit=60)
        except Reject:
            continue
        c = base_cfg(rng, sub, 'ik', **kc)
        c.update(sl=sl, rs=[rng.randint(1, 6), 4], rfile=rng.choice(['same', 'other', 'other', 'ram']), times=1 + (rng.random() < 0.1))
        c.update(ckw)
        fl = None
        if rng.random() < flt:
            x = worlds.condition(rng, sub, 2, fields=('species', 'mass', 'w') if c['rfile'] == 'ram' else ('species',), const=rng.random() < 0.3)
            if x['op'] != 'true':
                fl = {'via': rng.choice(['cbk', 'cbkkw', 'Filter']), 'conds': [x]}
        return {'t': 'ik', 'tr': tr, 'c': c, 'fl': fl}


def sessions(prop, rng, tier, scale=1.0):
    big = 3 if tier == 'thorough' else 1
    m = lambda n: max(1, int(n * scale * big))
    return {'C02': c02, 'C03': c03, 'C04': c04, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10, 'C11': c11}[prop](rng, m)


def c07(rng, m):
    rep = lambda s: dict(s, rep=rng.random() < 0.3)
    for _ in range(m(150)):
        yield rep(sk_session(rng, wkw=dict(frames=1, npart=(1, 2)), flt=False, weights=0, twice=0.3, limit=rng.choice([90, 400])))
    for _ in range(m(60)):
        yield rep(sk_session(rng, wkw=dict(frames=rng.randint(1, 3), npart=(1, 2), flucL=True), flt=False, weights=0, twice=0.5))
    for _ in range(m(60)):
        yield rep(ft_session(rng, wkw=dict(frames=2, npart=(1, 2)), flt=0, cost=4000))
    for _ in range(m(20)):
        yield ik_session(rng)
    for _ in range(m(30)):
        yield partial_session(rng, rng.choice(['sk', 'fskt', 'fkt']))


def c08(rng, m):
    for _ in range(m(250)):
        yield sk_session(rng)
    for _ in range(m(30)):
        yield partial_session(rng, 'sk')


def c09(rng, m):
    for _ in range(m(130)):
        yield ft_session(rng, 'fskt')
    for _ in range(m(130)):
        yield ft_session(rng, 'fkt')
    # Several blocks of particles, many frames
    for _ in range(m(30)):
        yield ft_session(rng, 'fskt', wkw=dict(npart=(21, 45), T=rng.choice([12, 16, 20, 24]), fixcm=False, stp=worlds.steps_uniform(rng, 2)), cost=1500, fixcm=False, norm=rng.random() < 0.3)
    for _ in range(m(25)):
        yield ft_session(rng, rng.choice(['fskt', 'fkt', 'fkt']), wkw=dict(npart=(1, 2), stp=worlds.steps(rng, 12, 18, ('u', 'i'))), cost=4000)
    for _ in range(m(15)):
        yield partial_session(rng, 'fskt')
    for _ in range(m(15)):
        yield partial_session(rng, 'fkt')


def c10(rng, m):
    for _ in range(m(200)):
        yield ik_session(rng)


def c02(rng, m):
    for raw, k, p, q in worlds.ORIGINS:
        for _ in range(m(2)):
            o = {'k': k, 'p': p, 'q': q, 'raw': raw}
            yield sk_session(rng, wkw=dict(npart=(1, 4), vary=False, flucL=False, nmax=9), flt=False, weights=0, o=o)
            yield ft_session(rng, wkw=dict(npart=(1, 2), nmax=9), flt=0, o=o)
        yield ik_session(rng, o=o)


def c03(rng, m):
    for _ in range(m(80)):
        yield ft_session(rng, wkw=dict(npart=(1, 2), nmax=10, kinds=('u', 'i', 'b', 'b', 'B')), flt=0, tgrid=any_grid)


def any_grid(rng, tr):
    """Times requested at will, as of the other time correlations"""
    import s_dyn
    return s_dyn.grid_request(rng, tr, dyadic=tr['td'] in (1, 2, 4, 8))


def c04(rng, m):
    for _ in range(m(30)):
        yield partial_session(rng, rng.choice(['sk', 'fskt', 'fkt']))
    for _ in range(m(50)):
        yield sk_session(rng)
    for _ in range(m(40)):
        yield ft_session(rng, flt=1)
    for _ in range(m(20)):
        yield ik_session(rng, flt=1)


def c11(rng, m):
    for _ in range(m(60)):
        yield ft_session(rng, fixcm=True, wkw=dict(images=True))
