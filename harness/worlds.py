"""Random worlds: trajectories as plain JSON records of integers (see PPTime.tla,
PPSpace.tla) and their realisation as atooms trajectories."""
import numpy


def wrap(x, L):
    """Fold an integer coordinate in [-L/2, L/2)"""
    return (x + L // 2) % L - L // 2


def steps_uniform(rng, n):
    d = rng.choice([1, 1, 2, 5, 10, 100])
    s0 = rng.choice([0, 0, 0, 3, 50])
    return [s0 + d * i for i in range(n)], 1


def steps_irregular(rng, n):
    s = [rng.choice([0, 0, 2])]
    for _ in range(n - 1):
        s.append(s[-1] + rng.choice([1, 1, 2, 3, 7]))
    return s, 1


def steps_block(rng, nblk, blk, extra, gaps=(1, 1, 2, 3, 4)):
    """nblk periodic blocks of blk frames plus extra trailing frames"""
    inner = [0]
    for _ in range(blk - 1):
        inner.append(inner[-1] + rng.choice(gaps))
    period = inner[-1] + rng.choice([1, 2, 3, 4, 5])
    s = []
    for b in range(nblk + 1):
        for k in range(blk):
            s.append(b * period + inner[k])
    return s[:nblk * blk + extra], blk


def steps(rng, lo=2, hi=9, kinds=('u', 'i', 'b')):
    k = rng.choice(kinds)
    if k == 'u':
        return steps_uniform(rng, rng.randint(lo, hi))
    if k == 'i':
        return steps_irregular(rng, rng.randint(lo, hi))
    if k == 'B':
        # longer blocks
        blk = rng.choice([5, 6, 8, 9, 10, 12])
        gaps = rng.choice([(1, 1, 2, 3, 4), tuple(range(1, 40))])
        return steps_block(rng, rng.randint(1, 2 if blk > 6 else 3), blk, rng.choice([0, 0, 1]), gaps)
    blk = rng.randint(2, 4)
    nblk = rng.randint(1, max(1, hi // blk))
    return steps_block(rng, nblk, blk, rng.choice([0, 0, 1]))


H = [(1, 1), (1, 2), (1, 4), (1, 8), (3, 8)]


def world(rng, nd=None, n=None, lo=2, hi=9, npart=(1, 6), kinds=('u', 'i', 'b'), move=None,
          species=('A', 'B'), masses=(1, 2, 3), Lrange=(8, 20), even=True, stp=None, cubic=None,
          wrapped=True, minmove=0, timestep=None, vel=5, h=None, drift=None, fields=False):
    nd = nd or rng.choice([2, 3, 3])
    if stp is not None:
        st, blk = stp
    elif n is not None:
        st, blk = steps_uniform(rng, n)
    else:
        st, blk = steps(rng, lo, hi, kinds)
    nf = len(st)
    # atooms cannot dump arrays of as many particles as dimensions (also in subsets)
    N = rng.choice([x for x in range(npart[0], npart[1] + 1) if x != nd])
    cubic = rng.random() < 0.4 if cubic is None else cubic
    L = [rng.randint(*Lrange) for _ in range(nd)]
    if cubic:
        L = [L[0]] * nd
    if even:
        L = [x + x % 2 for x in L]
    hn, hd = h or rng.choice(H)
    tn, td = timestep or rng.choice([(1, 1), (1, 1), (1, 2), (1, 8), (5, 1), (3, 4)])
    while True:
        nsp = rng.randint(1, min(len(species), N))
        sp = [species[i] for i in range(nsp)] + [rng.choice(species[:nsp]) for _ in range(N - nsp)]
        if all(sp.count(x) != nd for x in species):
            break
    rng.shuffle(sp)
    ms = [rng.choice(masses) for _ in range(N)]
    mv = move if move is not None else rng.choice([1, 2, 3])
    mv = min(mv, (min(L) - 1) // 2)
    x = [[rng.randrange(-(L[d] // 2), L[d] - L[d] // 2) for d in range(nd)] for _ in range(N)]
    fr = []
    rad = [rng.choice([1, 2, 3]) for _ in range(N)] if fields else [1] * N
    for f in range(nf):
        if f > 0:
            for i in range(N):
                while True:
                    dx = [rng.randint(-mv, mv) for _ in range(nd)]
                    if drift:
                        dx = [min(mv, max(-mv, dx[d] + drift[d])) for d in range(nd)]
                    if sum(abs(_) for _ in dx) >= minmove:
                        break
                for d in range(nd):
                    x[i][d] += dx[d]
        fr.append({'p': [[wrap(x[i][d], L[d]) if wrapped else x[i][d] for d in range(nd)] for i in range(N)],
                   'u': [list(x[i]) for i in range(N)],
                   # a frame at rest, at times
                   'v': [[0] * nd for _ in range(N)] if rng.random() < 0.03 else
                   [[rng.randint(-vel, vel) for _ in range(nd)] for _ in range(N)],
                   's': list(sp), 'm': list(ms), 'r': list(rad),
                   'w': rng.sample(range(N), N) if fields else [0] * N, 'L': list(L)})
    return {'nd': nd, 'steps': st, 'blk': blk, 'tn': tn, 'td': td, 'hn': hn, 'hd': hd,
            'fr': fr, 'pu': False, 'nx': 0}


def realise_frame(tr, fr, periodic=None, cell=True, sph=None):
    from atooms.system import System, Particle, Cell
    h = tr['hn'] / tr['hd']
    ps = []
    for i in range(len(fr['p'])):
        p = Particle(position=numpy.array(fr['p'][i], dtype=float) * h,
                     velocity=numpy.array(fr['v'][i], dtype=float) * h,
                     species=fr['s'][i], mass=float(fr['m'][i]), radius=float(fr['r'][i]) * tr.get('rscale', 1.0))
        if tr.get('pu'):
            p.position_unfolded = numpy.array(fr['u'][i], dtype=float) * h
        if 'w' in fr:
            # an integer field, at times
            p.w = int(fr['w'][i]) if tr['fr'][0]['w'][0] % 2 else float(fr['w'][i])
        ps.append(p)
    ps += [Particle(position=numpy.zeros(tr['nd']), velocity=numpy.zeros(tr['nd']), species='Z') for _ in range(tr.get('nx', 0))]
    c = None
    if cell:
        c = Cell(numpy.array(fr['L'], dtype=float) * h)
        if periodic is not None:
            c.periodic = numpy.array(periodic)
    return System(particle=ps, cell=c)


def realise(tr, **kw):
    """In-memory trajectory"""
    from atooms.trajectory import TrajectoryRam
    th = TrajectoryRam()
    for f, fr in enumerate(tr['fr']):
        th.write(realise_frame(tr, fr, **kw), tr['steps'][f])
    th.timestep = tr['tn'] / tr['td']
    th.block_size = tr['blk']
    return th


# ---- requests -----------------------------------------------------------------

ORIGINS = [
    (None, 'none', 0, 1), (-1, 'all', 0, 1), ('-1', 'all', 0, 1), (-1.0, 'all', 0, 1), ('1.0', 'all', 0, 1),
    (1, 'one', 0, 1), ('1', 'one', 0, 1),
    (2, 'num', 2, 1), ('2', 'num', 2, 1), (3, 'num', 3, 1), (2.0, 'num', 2, 1), ('3.0', 'num', 3, 1),
    (4, 'num', 4, 1), (5, 'num', 5, 1), ('7', 'num', 7, 1), (20, 'num', 20, 1), (1000, 'num', 1000, 1),
    (2.5, 'num', 5, 2),
    (0.5, 'frac', 1, 2), ('0.5', 'frac', 1, 2), (0.25, 'frac', 1, 4), ('0.2', 'frac', 1, 5), (0.3, 'frac', 3, 10),
    (0.75, 'frac', 3, 4), (0.9, 'frac', 9, 10), (0.1, 'frac', 1, 10), ('.4', 'frac', 2, 5), (0.01, 'frac', 1, 100),
    (0.34, 'frac', 17, 50),
]


def origins(rng, avoid=()):
    while True:
        raw, k, p, q = rng.choice(ORIGINS)
        if k not in avoid:
            return {'k': k, 'p': p, 'q': q, 'raw': raw}


def tgrid(rng, tr, off=True):
    """Requested times in units of the timestep, as fractions; never half-integers
    away from available lags (rounding is tested separately)"""
    st = tr['steps']
    tmax = st[-1] - st[0]
    kind = rng.choice(['lags', 'lags', 'any', 'frac', 'all', 'dup'])
    lags = sorted({b - a for i, a in enumerate(st) for b in st[i:]})
    if kind == 'all':
        g = [(x, 1) for x in lags]
    elif kind == 'lags':
        g = [(x, 1) for x in rng.sample(lags, rng.randint(1, min(6, len(lags))))]
    elif kind == 'any':
        g = [(rng.randint(0, tmax + 2), 1) for _ in range(rng.randint(1, 6))]
    elif kind == 'frac':
        g = [(rng.randint(0, 4 * tmax + 1), 4) for _ in range(rng.randint(1, 6))]
        g = [(p, q) if p % 4 != 2 else (p + 1, q) for p, q in g]
    else:
        x = rng.choice(lags)
        g = [(x, 1), (x, 1), (rng.choice(lags), 1)]
    if rng.random() < 0.7:
        g.sort(key=lambda z: z[0] / z[1])
    if rng.random() < 0.5 and kind != 'all':
        g = [(0, 1)] + g
    return [list(z) for z in g]


COND_TRUE = {'op': 'true'}


def cond_str(c):
    """The condition as an expression for pp.Filter"""
    if c['op'] == 'true':
        return 'True'
    if c['op'] in ('and', 'or'):
        return '%s %s %s' % (cond_str(c['a']), c['op'], cond_str(c['b']))
    op = {'eq': '==', 'ne': '!=', 'lt': '<', 'gt': '>'}[c['op']]
    v = '"%s"' % c['x'] if isinstance(c['x'], str) else repr(c['x'])
    return '%s%s%s' % (c['f'], op, v)


def cond_eval(c, p):
    if c['op'] == 'true':
        return True
    if c['op'] == 'and':
        return cond_eval(c['a'], p) and cond_eval(c['b'], p)
    if c['op'] == 'or':
        return cond_eval(c['a'], p) or cond_eval(c['b'], p)
    x = getattr(p, c['f'])
    return {'eq': x == c['x'], 'ne': x != c['x'], 'lt': not isinstance(x, str) and x < c['x'],
            'gt': not isinstance(x, str) and x > c['x']}[c['op']]


def frame_match(c, fr):
    key = {'species': 's', 'mass': 'm', 'radius': 'r', 'w': 'w'}

    def ev(c, i):
        if c['op'] == 'true':
            return True
        if c['op'] == 'and':
            return ev(c['a'], i) and ev(c['b'], i)
        if c['op'] == 'or':
            return ev(c['a'], i) or ev(c['b'], i)
        x = fr[key[c['f']]][i]
        return {'eq': lambda: x == c['x'], 'ne': lambda: x != c['x'],
                'lt': lambda: x < c['x'], 'gt': lambda: x > c['x']}[c['op']]()
    return [i for i in range(len(fr['p'])) if ev(c, i)]


def condition(rng, tr, depth=1, fields=('species', 'mass'), frames=None, const=True, empty=False):
    """A condition matching at least one particle in every frame (only in the first one
    if empty) and the same number of particles in all frames if const"""
    frs = frames or tr['fr']
    key = {'species': 's', 'mass': 'm', 'radius': 'r', 'w': 'w'}

    def atom():
        f = rng.choice(fields)
        vals = sorted({x for fr in frs for x in fr[key[f]]})
        x = rng.choice(vals)
        if f == 'species':
            return {'op': rng.choice(['eq', 'eq', 'ne']), 'f': f, 'x': x}
        return {'op': rng.choice(['eq', 'ne', 'lt', 'gt']), 'f': f, 'x': x}
    for _ in range(50):
        c = atom()
        if depth > 1 and rng.random() < 0.4:
            c = {'op': rng.choice(['and', 'or']), 'a': c, 'b': atom()}
        ns = [len(frame_match(c, fr)) for fr in frs]
        if min(ns[:1] if empty else ns) > 0 and tr['nd'] not in ns and (not const or max(ns) == min(ns)):
            return c
    return COND_TRUE


def callback(system, cond):
    """A user callback filtering particles"""
    import copy
    s = copy.copy(system)
    s.particle = [p for p in system.particle if cond_eval(cond, p)]
    return s


# ---- recording ------------------------------------------------------------------

def enc(v):
    """Encode a number for the trace, see PPRat.tla"""
    import math
    try:
        v = float(v)
    except Exception:
        return ['x']
    if v != v:
        return ['nan']
    if math.isinf(v):
        return ['inf']
    i = math.floor(v)
    if abs(i) > 2000000000:
        return ['big']
    f = int(round((v - i) * 1e9))
    if f >= 1000000000:
        i, f = i + 1, 0
    return [int(i), f]


def encs(x):
    try:
        return [enc(v) for v in x]
    except TypeError:
        return [['x']]


def result(cf, scale=1.0):
    return {'ok': True, 'exc': '', 'g': encs(cf.grid), 'v': encs([v * scale for v in cf.value])}


def guarded(f, *args, **kw):
    try:
        return f(*args, **kw)
    except Exception as e:
        return {'ok': False, 'exc': type(e).__name__, 'g': [], 'v': [], 'msg': str(e)[:200]}
