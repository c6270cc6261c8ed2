"""Sessions on static real-space correlations (C05, C06, C13; C02, C04 in part)."""
import math
import numpy
import worlds
from worlds import enc, encs, guarded, result


# ---- worlds --------------------------------------------------------------------

def static_world(rng, nd=None, n=None, npart=(4, 9), vary=False, flucL=False, Lrange=(8, 20), species=('A', 'B'),
                 h=None, distinct=False, stp=None, outside=0, even=True):
    """Independent random frames, possibly with a varying number of particles"""
    nd = nd or rng.choice([2, 3, 3])
    if stp is None:
        stp = worlds.steps_uniform(rng, n or rng.randint(1, 5)) if n or rng.random() < 0.7 \
            else worlds.steps_block(rng, rng.randint(1, 3), 2, rng.choice([0, 1]))
    st, blk = stp
    hn, hd = h or rng.choice(worlds.H)
    def side():
        L = [rng.randint(*Lrange) for _ in range(nd)]
        if rng.random() < 0.3:
            L = [L[0]] * nd
        # odd sides: no components of half a side
        return [x | 1 for x in L] if even is None else [x + x % 2 for x in L] if even else L
    L = side()
    N = rng.choice([x for x in range(npart[0], npart[1] + 1) if x != nd])
    fr = []
    sp0 = None
    for f in range(len(st)):
        if vary and f > 0:
            N = rng.choice([x for x in range(npart[0], npart[1] + 1) if x != nd])
            sp0 = None
        if flucL and f > 0:
            L = side()
        while sp0 is None:
            ns = rng.randint(1, min(N, len(species)))
            sp0 = [species[k] for k in range(ns)]
            sp0 += [rng.choice(species[:ns]) for _ in range(N - len(sp0))]
            if any(sp0.count(x) == nd for x in species):
                sp0 = None
        sp = list(sp0)
        rng.shuffle(sp)
        p = []
        while len(p) < N:
            x = [rng.randrange(-(L[d] // 2) - outside, L[d] - L[d] // 2 + outside) for d in range(nd)]
            if not distinct or tuple(x) not in {tuple(worlds.wrap(y[d], L[d]) for d in range(nd)) for y in p}:
                p.append(x)
        fr.append({'p': p, 'u': [list(x) for x in p], 'v': [[0] * nd for _ in range(N)], 's': sp,
                   'm': [rng.choice([1, 2]) for _ in range(N)], 'r': [rng.choice([1, 2, 3]) for _ in range(N)],
                   'w': rng.sample(range(N), N), 'L': list(L)})
    return {'nd': nd, 'steps': st, 'blk': blk, 'tn': 1, 'td': 1, 'hn': hn, 'hd': hd, 'fr': fr, 'pu': False, 'nx': 0}


def group_condition(rng, tr, fields=('species', 'species', 'mass', 'radius', 'w'), empty=False):
    """A condition with a valid number of particles in each frame"""
    c = worlds.condition(rng, tr, 2, fields=fields, const=False, empty=empty)
    return c


# ---- g(r) ------------------------------------------------------------------------

def gr_cfg(rng, tr, **kw):
    dr = rng.choice([[1, 1], [1, 2], [3, 4], [2, 1], [5, 4], [3, 2]])
    mn = min(min(fr['L']) for fr in tr['fr'])
    mx = max(tr['fr'][0]['L'])
    rmax = [0, 1]
    if rng.random() < 0.6:
        q = rng.choice([1, 2, 4])
        rmax = [rng.randint(2 * q, max(2 * q, mn * q // 2)), q]
        if rng.random() < 0.6:
            # linked cells are used
            rmax = [rng.randint(q, max(q, mn * q // 4)), q]
    # in the user's grid, the spacing is the bin width; at least two points
    nb = 0
    if rng.random() < 0.2:
        nb = rng.randint(2, 15)
    per = True
    c = {'kind': 'gr', 'o': worlds.origins(rng), 'dr': dr, 'rmax': rmax, 'nb': nb, 'per': per,
         'fast': rng.random() < 0.7, 'nooff': False, 'fixcm': False, 'tg': [], 'tgk': 'given', 'a': [1, 1]}
    c.update(kw)
    return c


def gr_fits(tr, c, flts):
    """Bounds on the arithmetic, no distance on the edge of the last bin of a user's grid"""
    dn, dd = c['dr']
    nd = tr['nd']
    L = tr['fr'][-1]['L']
    mx = max(max(fr['L']) for fr in tr['fr'])
    n = len(tr['fr'])
    N = max(len(fr['p']) for fr in tr['fr'])
    jm = int(mx * dd / dn) + 2
    shell = dn ** nd * nd * jm ** (nd - 1)
    V = max(worlds_prod(fr['L']) for fr in tr['fr'])
    if (N * n) ** 2 * shell >= 190000000:
        return False
    if N * N * n * 2 * n * V * dd ** nd >= 2000000000:
        return False
    if c['nb']:
        edge = c['nb'] * dn
        for fr in tr['fr']:
            for i in range(len(fr['p'])):
                for j in range(i):
                    d2 = dist2(fr['p'][i], fr['p'][j], fr['L'])
                    if d2 * dd * dd == edge * edge:
                        return False
    # at least one reported bin, the default grid must extend beyond the cropping distance
    crop = c['rmax'][0] / c['rmax'][1] if c['rmax'][0] else min(min(fr['L']) for fr in tr['fr']) / 2
    far = crop if c['rmax'][0] else max(min(fr['L']) for fr in tr['fr']) / 2
    if crop < dn / dd or far > max(tr['fr'][0]['L']):
        return False
    return dn / dd <= max(tr['fr'][0]['L']) / 4


def dist2(a, b, L):
    s = 0
    for x, y, l in zip(a, b, L):
        d = (x - y) % l
        d = min(d, l - d)
        s += d * d
    return s


def worlds_prod(L):
    v = 1
    for x in L:
        v *= x
    return v


def make_gr(th, tr, c):
    import atooms.postprocessing as pp
    h = tr['hn'] / tr['hd']
    dr = c['dr'][0] / c['dr'][1] * h
    cls = pp.RadialDistributionFunctionFast if c['fast'] else pp.RadialDistributionFunctionLegacy
    kw = {'norigins': c['o']['raw'], 'dr': dr}
    if c['rmax'][0]:
        kw['rmax'] = c['rmax'][0] / c['rmax'][1] * h
    if c['nb']:
        kw['rgrid'] = [dr * (j + 0.5) for j in range(c['nb'])]
        if c.get('nodr'):
            kw.pop('dr')
    return cls(th, **kw)


def strip_gr(tr, cf):
    f = {1: 2, 2: math.pi, 3: 4 * math.pi / 3, 4: math.pi ** 2 / 2}[tr['nd']]
    return result(cf, f)


def event_cfg(c):
    cc = {k: v for k, v in c.items() if k not in ('raw',)}
    cc['flt'] = []
    cc['o'] = {k: v for k, v in c['o'].items() if k != 'raw'}
    return cc


def apply(cf, fl):
    """fl: {'via', 'conds'}; returns the correlation"""
    import atooms.postprocessing as pp
    if fl is None:
        return cf
    if fl['via'] == 'Filter':
        return pp.Filter(cf, ','.join(worlds.cond_str(x) for x in fl['conds'] if x['op'] != 'true' or len(fl['conds']) == 1))
    for x in fl['conds']:
        if fl['via'] == 'cbkkw':
            cf.add_filter(worlds.callback, cond=x)
        else:
            cf.add_filter(worlds.callback, x)
    return cf


def filter_of(rng, tr, empty=False):
    """Filters of a two-body correlation, with the conditions they stand for"""
    k = rng.choice(['none', 'one', 'two', 'two', 'Filter1', 'Filter2'])
    if k == 'none':
        return None
    a, b = group_condition(rng, tr, empty=empty), group_condition(rng, tr, empty=empty)
    if k == 'one':
        return {'via': rng.choice(['cbk', 'cbkkw']), 'conds': [a]}
    if k == 'two':
        return {'via': rng.choice(['cbk', 'cbkkw']), 'conds': [a, b]}
    if k == 'Filter1':
        return {'via': 'Filter', 'conds': [a, worlds.COND_TRUE]}
    if b['op'] == 'true':
        return None
    return {'via': 'Filter', 'conds': [a, b]}


def disjoint_filter(rng, tr):
    a = group_condition(rng, tr, fields=('species',))
    if a['op'] == 'true':
        return None
    b = dict(a, op='ne' if a['op'] == 'eq' else 'eq') if a['op'] in ('eq', 'ne') else None
    if b is None or any(len(worlds.frame_match(b, fr)) in (0, tr['nd']) for fr in tr['fr']):
        return None
    return {'via': rng.choice(['Filter', 'cbk']), 'conds': [a, b]}


def obj_events(th, tr, c, fl, name, periodic=None):
    import atooms.postprocessing as pp
    evs = [{'ev': 'new', 'o': name, 'c': event_cfg(c)}]
    for x in (fl['conds'] if fl else []):
        evs.append({'ev': 'filter', 'o': name, 'cond': x})
    def go():
        if c['kind'] == 'gr':
            cf = apply(make_gr(th, tr, c), fl)
            for _ in range(c.get('times', 1)):
                cf.compute()
            return strip_gr(tr, cf)
        cf = apply(make_ba(th, tr, c), fl)
        cf.compute()
        return result(cf)
    evs.append({'ev': 'compute', 'o': name, 'res': guarded(go)})
    return evs


def execute(s):
    evs = [{'ev': 'begin'}]
    if s['t'] in ('gr', 'ba'):
        tr = s['tr']
        per = None if s.get('per', True) else [False] * tr['nd']
        th = worlds.realise(tr, periodic=per)
        if s.get('cache'):
            th.cache = True
        evs.append({'ev': 'traj', 'tr': tr})
        for k, o in enumerate(s['objs']):
            evs += obj_events(th, tr, o['c'], o['fl'], 'g%d' % k)
    elif s['t'] == 'partial2':
        evs += run_partial2(s)
    elif s['t'] == 'cells':
        evs += run_cells(s)
    else:
        raise ValueError(s['t'])
    return evs


def run_partial2(s):
    import atooms.postprocessing as pp
    tr, c = s['tr'], s['c']
    h = tr['hn'] / tr['hd']
    evs = [{'ev': 'traj', 'tr': tr}]
    th = worlds.realise(tr)
    species = sorted(set(tr['fr'][0]['s']))
    out = {}
    if c['kind'] == 'gr':
        cls = pp.RadialDistributionFunctionFast if c['fast'] else pp.RadialDistributionFunctionLegacy
        kw = {'norigins': c['o']['raw'], 'dr': c['dr'][0] / c['dr'][1] * h}
        if c['rmax'][0]:
            kw['rmax'] = c['rmax'][0] / c['rmax'][1] * h
    else:
        cls = pp.BondAngleDistribution
        kw = {'norigins': c['o']['raw'], 'dtheta': dtheta(c), 'rcut': ba_rcut(tr, c)}
    def go():
        p = pp.Partial(cls, list(species), th, **kw)
        if s.get('how') == 'do':
            p.do()
        else:
            p.compute()
        for k, cf in p.partial.items():
            out[k] = (strip_gr(tr, cf) if c['kind'] == 'gr' else result(cf), cf.tag)
        return {'ok': True}
    r = guarded(go)
    if not r['ok']:
        out = {}
    keys = sorted((a, b) for a in species for b in species)
    evs.append({'ev': 'keys', 'ok': r['ok'] and sorted(out) == keys and all(out[k][1] == '%s-%s' % k for k in out),
                'what': 'partials' if r['ok'] else 'raised-' + r['exc']})
    for a, b in sorted(out):
        name = a + b
        evs.append({'ev': 'new', 'o': name, 'c': event_cfg(c)})
        evs.append({'ev': 'filter', 'o': name, 'cond': {'op': 'eq', 'f': 'species', 'x': a}})
        if a != b:
            evs.append({'ev': 'filter', 'o': name, 'cond': {'op': 'eq', 'f': 'species', 'x': b}})
        evs.append({'ev': 'compute', 'o': name, 'res': out[(a, b)][0]})
    evs += obj_events(th, tr, c, None, 'total')
    return evs


# ---- linked cells ----------------------------------------------------------------

def cells_session(rng):
    nd = rng.choice([2, 3])
    hn, hd = rng.choice([(1, 1), (1, 2), (1, 4), (1, 8)])
    calls = []
    q = rng.choice([1, 2, 4])
    # cells much larger than the spacing of positions, at times
    rc = [rng.randint(q, rng.choice([3, 3, 14]) * q), q]
    box = None
    for k in range(rng.randint(1, 4)):
        if box is None or rng.random() < 0.5:
            m = rng.choice([3, 3, 4, 5])
            lo = -(-m * rc[0] // rc[1])
            box = [rng.randint(lo, lo + rng.choice([0, 2, 6])) for _ in range(nd)]
        box = list(box)
        out = rng.choice([0, 0, 1, 2])
        def pos(n):
            xs = []
            for _ in range(n):
                if rng.random() < 0.3:
                    # on the border
                    xs.append([rng.choice([-box[d], box[d], 0]) if box[d] % 2 == 0 else rng.randint(-box[d], box[d]) for d in range(nd)])
                else:
                    xs.append([rng.randint(-box[d] - 2 * out, box[d] + 2 * out) for d in range(nd)])
            return xs
        # positions in half lattice units
        n = rng.choice([1, 2, 5, 12, 25, 40])
        per = rng.choice([None, None, [True] * nd, [rng.random() < 0.5 for _ in range(nd)], [False] * nd])
        two = rng.random() < 0.4
        calls.append({'box': box, 'pos': pos(n), 'oth': pos(rng.choice([1, 3, 10, 20])) if two else [], 'two': two,
                      'newton': rng.random() < 0.7, 'per': per, 'arr': rng.random() < 0.5})
    return {'t': 'cells', 'hn': hn, 'hd': hd, 'rc': rc, 'calls': calls}


def run_cells(s):
    from atooms.postprocessing.linkedcells import LinkedCells
    h = s['hn'] / s['hd']
    lc = LinkedCells(rcut=s['rc'][0] / s['rc'][1] * h)
    evs = []
    for c in s['calls']:
        nd = len(c['box'])
        def go():
            kw = {}
            if c['two']:
                kw['other'] = numpy.array(c['oth'], dtype=float).reshape(-1, nd) * h / 2
            if c['per'] is not None:
                kw['periodic'] = numpy.array(c['per'])
            if not c['newton']:
                kw['newton'] = False
            r = lc.compute(numpy.array(c['box'], dtype=float) * h, numpy.array(c['pos'], dtype=float) * h / 2,
                           as_array=c['arr'], **kw)
            if c['arr']:
                r = [list(r[0][i, :r[1][i]]) for i in range(len(r[1]))]
            return {'ok': True, 'exc': '', 'lists': [[int(x) for x in l] for l in r]}
        r = guarded(go)
        r.setdefault('lists', [])
        # in half lattice units
        evs.append({'ev': 'cells', 'box': [2 * x for x in c['box']], 'pos': c['pos'], 'oth': c['oth'], 'two': c['two'],
                    'newton': c['newton'], 'rc': [2 * s['rc'][0], s['rc'][1]], 'per': c['per'] or [True] * nd, 'res': r})
    return evs


# ---- bond angles -------------------------------------------------------------------

def ba_rcut(tr, c):
    h = tr['hn'] / tr['hd']
    return [[x[0] / x[1] * h for x in row] for row in c['rc']]


def dtheta(c):
    return c['dth'] / c.get('dthq', 1)


def make_ba(th, tr, c):
    import atooms.postprocessing as pp
    return pp.BondAngleDistribution(th, norigins=c['o']['raw'], dtheta=dtheta(c), rcut=ba_rcut(tr, c))


RATIONAL_COS2 = {(1, 1): (0, 180), (3, 4): (30, 150), (1, 2): (45, 135), (1, 4): (60, 120)}


def mivec(a, b, L):
    v = []
    for x, y, l in zip(a, b, L):
        d = (x - y) % l
        v.append(d - l if 2 * d > l else d)
    return v


def ba_ok(tr, c, conds, need=True):
    """No angle on the edge of a bin (but right angles), no cutoff ties, some angle"""
    some = False
    for fr in tr['fr']:
        g0 = worlds.frame_match(conds[0], fr) if conds else range(len(fr['p']))
        g1 = worlds.frame_match(conds[-1], fr) if conds else range(len(fr['p']))
        if len(g0) in (0, tr['nd']) or len(g1) in (0, tr['nd']):
            return False
        for i in g0:
            vs = []
            for j in g1:
                if j == i:
                    continue
                v = mivec(fr['p'][i], fr['p'][j], fr['L'])
                # half-box components have an ambiguous sign
                if any(2 * abs(x) == l for x, l in zip(v, fr['L'])):
                    return False
                rc = c['rc'][c['sp'].index(fr['s'][i])][c['sp'].index(fr['s'][j])]
                d2 = sum(x * x for x in v)
                if d2 == 0:
                    return False
                if d2 * rc[1] ** 2 == rc[0] ** 2:
                    return False
                if d2 * rc[1] ** 2 < rc[0] ** 2:
                    vs.append(v)
            for a in range(len(vs)):
                for b in range(a):
                    dot = sum(x * y for x, y in zip(vs[a], vs[b]))
                    den = sum(x * x for x in vs[a]) * sum(x * x for x in vs[b])
                    if den >= 190000000:
                        return False
                    for (p, q), angles in RATIONAL_COS2.items():
                        if dot * dot * q == p * den:
                            e = angles[0] if dot > 0 else angles[1]
                            if e * c.get('dthq', 1) % c['dth'] == 0 and e != 0 or e == 180:
                                return False
                    th = math.degrees(math.acos(max(-1, min(1, dot / math.sqrt(den)))))
                    x = th / dtheta(c)
                    if 'dthq' in c and abs(x - round(x)) < 1e-3 and round(x) > 0 and dot:
                        return False
                    if th < 180 // dtheta(c) * dtheta(c):
                        some = True
    return some or not need


def ba_session(rng, wkw=None, flt=0.6, o=None):
    while True:
        w = dict(npart=(4, 8), vary=rng.random() < 0.3, n=rng.randint(1, 3), species=rng.choice([('A',), ('A', 'B'), ('B', 'A', 'C')]))
        w.update(wkw or {})
        tr = static_world(rng, distinct=True, Lrange=rng.choice([(9, 15), (20, 40)]), even=None, flucL=rng.random() < 0.3, **w)
        sp = sorted(set(tr['fr'][0]['s']))
        if any(not set(fr['s']) <= set(sp) for fr in tr['fr']):
            continue
        rmax = min(min(fr['L']) for fr in tr['fr'])
        c = {'kind': 'ba', 'o': o or worlds.origins(rng), 'dth': rng.choice([4, 4, 7, 11, 13, 20, 25, 50, 100]), 'sp': sp,
             'rc': [[[2 * rng.randint(1, rmax) + 1, 2] for _ in sp] for _ in sp], 'per': True, 'rmax': [0, 1],
             'nooff': False, 'fixcm': False, 'tg': [], 'tgk': 'given', 'a': [1, 1]}
        if rng.random() < 0.3:
            c['dth'], c['dthq'] = rng.choice([(5, 2), (15, 2), (21, 4), (9, 2), (27, 2), (35, 4), (3, 2)])
        fl = filter_of(rng, tr) if rng.random() < flt else None
        # origins are any: the condition must hold in all frames
        if not ba_ok(tr, c, fl['conds'] if fl else []):
            continue
        if some_in_first(tr, c, fl):
            return {'t': 'ba', 'tr': tr, 'objs': [{'c': c, 'fl': fl}]}


def some_in_first(tr, c, fl):
    """There is some angle in the first frame (always an origin)"""
    t = dict(tr, fr=tr['fr'][:1])
    return ba_ok(t, c, fl['conds'] if fl else [])


# ---- generation ------------------------------------------------------------------

def sessions(prop, rng, tier, scale=1.0):
    big = 3 if tier == 'thorough' else 1
    m = lambda n: max(1, int(n * scale * big))
    return {'C05': c05, 'C06': c06, 'C13': c13, 'C02': c02, 'C04': c04}[prop](rng, m)


def gr_session(rng, wkw=None, flt=True, **ckw):
    while True:
        w = dict(npart=(4, 9), vary=rng.random() < 0.4, flucL=rng.random() < 0.2, outside=rng.choice([0, 0, 1]),
                 even=rng.random() < 0.6)
        w.update(wkw or {})
        tr = static_world(rng, **w)
        objs = []
        good = True
        fl = filter_of(rng, tr, empty=rng.random() < 0.3) if flt and rng.random() < 0.6 else None
        c = gr_cfg(rng, tr, **ckw)
        cs = [c, dict(c, fast=not c['fast'])] if rng.random() < 0.4 else [c]
        for c in cs:
            good = good and gr_fits(tr, c, fl)
            objs.append({'c': c, 'fl': fl})
        if good:
            return {'t': 'gr', 'tr': tr, 'objs': objs, 'cache': rng.random() < 0.2}


def open_session(rng):
    """Open boundaries with a maximum distance"""
    while True:
        tr = static_world(rng, npart=(6, 12), n=rng.randint(1, 3), Lrange=(10, 20))
        c = gr_cfg(rng, tr, per=False, fast=True, nb=0)
        mn = min(min(fr['L']) for fr in tr['fr'])
        q = rng.choice([1, 2])
        c['rmax'] = [rng.randint(2 * q, max(2 * q, mn * q // 3)), q]
        if not gr_fits(tr, c, None):
            continue
        p, q = c['rmax']
        bulk = [[all(2 * abs(x) * q <= l * q - 2 * p for x, l in zip(y, fr['L'])) for y in fr['p']] for fr in tr['fr']]
        if any(sum(b) == 0 for b in bulk):
            continue
        if p / q * c['dr'][1] / c['dr'][0] < 2:
            continue
        return {'t': 'gr', 'tr': tr, 'objs': [{'c': c, 'fl': None}], 'per': False}


def edge_session(rng):
    """Pairs just beyond rmax, within the last bin, as many cells as rmax allows"""
    while True:
        nd = rng.choice([2, 2, 3])
        side = rng.randint(4, 8)
        L = [side * rng.choice([4, 4, 5])] * nd if rng.random() < 0.5 else [side * rng.choice([4, 5, 6]) for _ in range(nd)]
        dr, j = rng.choice([(d, k) for d in range(2, 9) for k in range(1, 4)])
        # rmax lies between the centre and the end of the last bin
        if not (2 * j - 1) * dr <= 2 * side < 2 * j * dr - 2:
            continue
        tr = static_world(rng, nd=nd, n=rng.randint(1, 2), npart=(12, 18), Lrange=(8, 8))
        for fr in tr['fr']:
            fr['L'] = list(L)
            for k in range(0, len(fr['p']), 2):
                fr['p'][k] = [rng.randrange(-(l // 2), l - l // 2) for l in L]
                if k + 1 < len(fr['p']):
                    x = list(fr['p'][k])
                    a = rng.randrange(nd)
                    x[a] = worlds.wrap(x[a] + rng.randint(side + 1, j * dr - 1), L[a])
                    fr['p'][k + 1] = x
            fr['u'] = [list(x) for x in fr['p']]
        c = gr_cfg(rng, tr, nb=0, fast=True, dr=[dr, 1], rmax=rng.choice([[side, 1], [2 * side, 2], [4 * side - 1, 4]]))
        fl = filter_of(rng, tr) if rng.random() < 0.5 else None
        if gr_fits(tr, c, fl):
            return {'t': 'gr', 'tr': tr, 'objs': [{'c': c, 'fl': fl}]}


def crowd_session(rng):
    """More particles than the python version treats at once"""
    while True:
        tr = static_world(rng, nd=2, n=1, npart=(rng.randint(318, 330), 330), Lrange=(8, 14), h=(1, 1))
        c = gr_cfg(rng, tr, nb=0, fast=False, dr=[2, 1], rmax=[0, 1])
        if gr_fits(tr, c, None):
            return {'t': 'gr', 'tr': tr, 'objs': [{'c': c, 'fl': None}]}


def c05(rng, m):
    for _ in range(m(500)):
        yield gr_session(rng)
    for _ in range(m(60)):
        yield edge_session(rng)
    # lines, and hyperspace
    for _ in range(m(40)):
        nd = rng.choice([1, 1, 4])
        yield gr_session(rng, wkw=dict(nd=nd, npart=(2, 5), n=rng.randint(1, 3), Lrange=(4, 8) if nd == 4 else (6, 40)))
    for _ in range(m(2)):
        yield crowd_session(rng)
    # many particles with linked cells
    for _ in range(m(120)):
        yield gr_session(rng, wkw=dict(npart=(10, 24), n=rng.randint(1, 2), Lrange=(8, 12), nd=rng.choice([2, 3])))
    for _ in range(m(80)):
        yield open_session(rng)
    for _ in range(m(60)):
        yield partial2_session(rng)


def partial2_session(rng):
    while True:
        tr = static_world(rng, npart=(5, 9), species=rng.choice([('A', 'B'), ('B', 'A', 'C'), ('1', '2'), ('A', 'AB'), ('BA', 'A')]), n=rng.randint(1, 3))
        c = gr_cfg(rng, tr, nb=0)
        if gr_fits(tr, c, None):
            return {'t': 'partial2', 'tr': tr, 'c': c, 'how': rng.choice(['do', 'compute'])}


def c06(rng, m):
    for _ in range(m(900)):
        yield cells_session(rng)


def c13(rng, m):
    for _ in range(m(400)):
        yield ba_session(rng)
    for _ in range(m(60)):
        s = ba_partial(rng)
        if s:
            yield s


def ba_partial(rng):
    for _ in range(200):
        s = ba_session(rng)
        tr, c = s['tr'], s['objs'][0]['c']
        sp = c['sp']
        conds = [[{'op': 'eq', 'f': 'species', 'x': a}, {'op': 'eq', 'f': 'species', 'x': b}] for a in sp for b in sp]
        if all(ba_ok(tr, c, x) and some_in_first(tr, c, {'conds': x}) for x in conds) and ba_ok(tr, c, []):
            return {'t': 'partial2', 'tr': tr, 'c': c, 'how': 'compute'}
    return None


def c02(rng, m):
    for raw, k, p, q in worlds.ORIGINS:
        o = {'k': k, 'p': p, 'q': q, 'raw': raw}
        for _ in range(m(5)):
            yield gr_session(rng, wkw=dict(npart=(4, 5), vary=False, stp=worlds.steps(rng, 2, 12)), flt=False, o=o)
        for _ in range(m(2)):
            yield ba_session(rng, wkw=dict(npart=(4, 4), n=None, vary=False, stp=worlds.steps(rng, 2, 9)), flt=0, o=o)


def c04(rng, m):
    for _ in range(m(120)):
        yield partial2_session(rng)
    for _ in range(m(200)):
        while True:
            s = gr_session(rng)
            if any(o['fl'] for o in s['objs']):
                break
        yield s
    for _ in range(m(60)):
        while True:
            s = ba_session(rng)
            if s['objs'][0]['fl']:
                break
        yield s
    for _ in range(m(40)):
        s = ba_partial(rng)
        if s:
            yield s
