"""Sessions on purity and repeatability (C16): several correlations share a trajectory,
grids and cells, and are computed again in the orders generated by TLC from MC_Pure."""
import copy
import json
import os
import random
import shutil
import tempfile
import numpy
import pool
import s_dyn
import s_four
import s_life
import s_real
import worlds
from s_four import Reject
from pool import sci
from worlds import encs, guarded


# ---- execution ----------------------------------------------------------------------

def handle(s, root):
    from atooms.trajectory import Trajectory
    from atooms.trajectory.decorators import Sliced
    tr, how = s['tr'], s['open']
    if how.startswith('ram'):
        th = worlds.realise(tr)
    else:
        path = os.path.join(root, 'x.xyz')
        s_life.write_xyz(path, tr)
        th = Trajectory(path)
        th.block_size = tr['blk']
    if how.endswith('sliced'):
        th = Sliced(th, slice(0, None, 1))
    if how.endswith('cached'):
        th.cache = True
    return th


def frames(th, tr, attr):
    """The particles as they are in the trajectory"""
    h = tr['hn'] / tr['hd']
    rs = tr.get('rscale', 1.0)

    def go():
        r = {'ok': True, 'exc': '', 'n': len(th), 'p': [], 'v': [], 's': [], 'm': [], 'r': [], 'L': [], 'u': [], 'x': []}
        extra = set()
        for f in range(len(th)):
            sy = th[f]
            r['p'].append([encs(p.position / h) for p in sy.particle])
            r['v'].append([encs(p.velocity / h) for p in sy.particle])
            r['s'].append([str(p.species) for p in sy.particle])
            r['m'].append(encs([p.mass for p in sy.particle]))
            r['r'].append(encs([p.radius / rs for p in sy.particle]))
            r['L'].append(encs(sy.cell.side / h))
            r['u'].append([encs(p.position_unfolded / h) for p in sy.particle] if tr['pu'] else [])
            for p in sy.particle:
                extra |= set(p.__dict__) - attr
        r['x'] = sorted(extra)
        return r
    r = guarded(go)
    for k in ('p', 'v', 's', 'm', 'r', 'L', 'u', 'x'):
        r.setdefault(k, [])
    r.setdefault('n', -1)
    return {'ev': 'pframes', 'res': r}


def lists(x):
    return [lists(y) for y in x] if isinstance(x, (list, tuple)) else sci(x)


def disturb(th, tr, k, rng):
    """Other calculations, whose results are not looked at"""
    import atooms.postprocessing as pp
    k0 = float(2 * numpy.pi / min(th[0].cell.side))
    species = sorted(set(tr['fr'][0]['s']))
    todo = [
        lambda: pp.MeanSquareDisplacement(th, fix_cm=True).compute(),
        lambda: pp.Partial(pp.StructureFactorLegacy, species, th, kmin=k0, kmax=1.5 * k0, ksamples=2).compute(),
        lambda: pp.Filter(pp.VelocityAutocorrelation(th), 'species == "%s"' % species[0]).compute(),
        lambda: pp.BondAngleDistribution(th).compute(),
        lambda: pp.IntermediateScattering(th, kgrid=[k0], nk=1, fix_cm=True).compute(),
        lambda: pp.SelfIntermediateScatteringFast(th, kgrid=[k0], nk=2, fix_cm=True).compute(),
        lambda: pp.Chi4SelfOverlap(th).compute(),
        lambda: pp.RadialDistributionFunctionFast(th).compute(),
        lambda: pp.Susceptibility(pp.SelfOverlap, th, tgrid=[0.0, th.total_time / 2]).compute(),
        lambda: [s.dump('pos') for s in th],
        lambda: [s.fold_particles() if hasattr(s, 'fold_particles') else None for s in [copy.deepcopy(th[0])]],
        lambda: pp.SpectralDensity(th, None, kgrid=[k0], nk=1).compute(),
        lambda: pp.Partial(pp.SelfOverlap, species, th).compute(),
    ]
    try:
        todo[rng.randrange(len(todo))]()
    except Exception:
        pass


def execute(s):
    import random as _random
    evs = [{'ev': 'begin'}]
    old = os.getcwd()
    root = tempfile.mkdtemp(dir=old)
    os.chdir(root)
    tr = s['tr']
    rng = _random.Random(s['seed'])
    try:
        th = handle(s, root)
        evs.append({'ev': 'traj', 'tr': tr})
        other = handle(s, root)
        attr = {k for f in range(len(other)) for p in other[f].particle for k in p.__dict__}
        share = {}
        objs = {}
        for n, op in enumerate(s['ops']):
            k = op[0]
            if k == 'new':
                o = s['objs'][op[1]]
                try:
                    objs[op[1]] = pool.build(th, tr, o, share)
                except Exception as e:
                    return evs + [{'ev': 'crash', 'what': 'new-' + type(e).__name__}]
                for i, p in enumerate(o['parts']):
                    cc = pool.event_cfg(o['c'])
                    cc['flt'] = p['flt']
                    evs.append({'ev': 'new', 'o': 'p%d.%d' % (op[1], i), 'c': cc})
            elif k == 'forget':
                objs.pop(op[1], None)
            elif k == 'read':
                sy = th[op[1] % len(th)]
                sy.dump('pos')
            elif k == 'disturb':
                disturb(th, tr, op[1], rng)
            elif k == 'check':
                evs.append(frames(th, tr, attr))
                evs.append({'ev': 'grids', 'was': [lists(eval(key[1])) for key in sorted(share)],
                            'now': [lists(share[key]) for key in sorted(share)]})
            else:
                o, cf = s['objs'][op[1]], objs.get(op[1])
                if cf is None:
                    continue

                def go():
                    if k == 'compute':
                        if op[2] == 'do':
                            cf.do()
                        else:
                            cf.compute()
                    elif k == 'analyze':
                        for m, _ in pool.members(cf, o):
                            m.analyze()
                    return {'ok': True, 'exc': ''}
                r = guarded(go)
                for i, (m, src) in enumerate(pool.members(cf, o)):
                    res = dict(r)
                    if r['ok']:
                        res = guarded(lambda: trim(pool.observe(m, src, tr, o, True)))
                    res.setdefault('av', [])
                    res.setdefault('va', [])
                    evs.append({'ev': 'again', 'o': 'p%d.%d' % (op[1], i), 'res': res})
        return evs
    finally:
        os.chdir(old)
        shutil.rmtree(root, ignore_errors=True)


def trim(r):
    return {k: v for k, v in r.items() if k not in ('st', 'sav', 'sva', 'tau', 'an', 'sg', 'sv')}


# ---- generation -----------------------------------------------------------------------

def schedule(rng, log, nobj):
    """A behaviour of MC_Pure; objects are created before they are needed"""
    ops, alive = [], set()
    for op in log:
        k = op[0]
        if k in ('new', 'compute', 'analyze', 'forget'):
            o = (op[1] - 1) % nobj
            if k == 'new':
                if o in alive:
                    continue
                alive.add(o)
                ops.append(['new', o])
            elif o in alive:
                if k == 'compute':
                    ops.append(['compute', o, rng.choice(['compute', 'compute', 'do'])])
                elif k == 'forget':
                    alive.discard(o)
                    ops.append(['forget', o])
                elif any(x[:2] == ['compute', o] for x in ops[last_new(ops, o):]):
                    ops.append(['analyze', o])
        elif k == 'read':
            ops.append(['read', op[1] - 1])
        else:
            ops.append(list(op))
    # everything is computed once more, at last
    for o in sorted(alive):
        if rng.random() < 0.5:
            ops.append(['compute', o, 'compute'])
    ops.append(['check'])
    return ops


def last_new(ops, o):
    return max(i for i, x in enumerate(ops) if x[:2] == ['new', o])


def describe_some(rng, tr, kinds, n, fixcm):
    objs = []
    two = len(set(tr['fr'][0]['s'])) > 1
    for j in range(n):
        for _ in range(40):
            kind = rng.choice(kinds)
            try:
                kw = {}
                if kind in ('msd', 'fskt', 'fkt') and fixcm and rng.random() < 0.7:
                    kw['fixcm'] = True
                if kind == 'sk' and rng.random() < 0.5:
                    kw['wt'], kw['fluct'] = rng.choice(['mass', 'radius']), True
                o = pool.describe(rng, tr, kind, partial=two and rng.random() < 0.3, cost=1200, **kw)
                # objects often share their grids
                if objs and rng.random() < 0.6:
                    a = rng.choice(objs)['c']
                    if kind in s_dyn.KINDS + ['chi4'] and a['kind'] in s_dyn.KINDS + ['chi4', 'fskt', 'fkt'] and a.get('tg'):
                        c2 = dict(o['c'], tg=a['tg'])
                        if all(pool.valid(tr, c2, p['flt']) for p in o['parts']):
                            o['c'] = c2
                    elif kind in ('sk', 'fskt', 'fkt') and a['kind'] in ('sk', 'fskt', 'fkt'):
                        c2 = dict(o['c'], **{k: a[k] for k in ('g', 'lin', 'vec', 'dk', 'nk', 'kreq')})
                        o['c'] = c2
                        if kind != 'sk' and a['kind'] != 'sk' and rng.random() < 0.5:
                            c2['tg'] = a['tg']
                objs.append(o)
                break
            except Reject:
                continue
    # Twins have the same request
    if objs and rng.random() < 0.4:
        objs.append(copy.deepcopy(rng.choice(objs)))
    if len(objs) < 2:
        raise Reject
    return objs


def session(rng, log, static=False):
    while True:
        fixcm = rng.random() < 0.4
        try:
            if static:
                # particles out of the cell only concern the structure factor
                images = rng.random() < 0.3
                tr = s_four.four_world(rng, npart=(2, 6), flucL=rng.random() < 0.7, vary=rng.random() < 0.5, images=images, nmax=4,
                                       Lrange=(4, 12), T=rng.choice([24, 48, 60, 72, 120]))
                objs = describe_some(rng, tr, ['sk'] if images else ['sk', 'sk', 'gr'], rng.choice([2, 3]), False)
                how = rng.choice(['ram', 'ramcached', 'ramsliced'])
            else:
                how = rng.choice(['ram', 'ramcached', 'ramcached', 'ramsliced', 'xyz', 'xyzcached', 'xyzcached'])
                file = 'x' if how.startswith('xyz') else ''
                if file:
                    fixcm = False
                if fixcm:
                    tr = pool.world(rng, npart=(2, 5), nmax=4, fixcm=True, T=rng.choice([60, 72, 96, 120, 144]))
                else:
                    tr = s_life.world(rng, file=file)
                tr['pu'] = how.startswith('ram') and rng.random() < (0.5 if fixcm else 0.15)
                if tr['blk'] > 1 and how.startswith('xyz'):
                    continue
                if tr['blk'] > 1 and how.endswith('sliced'):
                    how = 'ram'
                objs = describe_some(rng, tr, list(pool.ALL) + ['fkt', 'fskt', 'msd'], rng.choice([2, 3, 4]), fixcm)
        except Reject:
            continue
        return {'t': 'pure', 'tr': tr, 'open': how, 'objs': objs, 'ops': schedule(rng, log, len(objs)), 'seed': rng.randrange(10 ** 6)}


def sessions(prop, rng, tier, scale=1.0):
    big = 3 if tier == 'thorough' else 1
    m = lambda n: max(1, int(n * scale * big))
    with open(os.environ['VERIF_TABLES']) as fh:
        logs = json.load(fh)['MC_Pure']
    for log in logs[:m(200)]:
        yield session(rng, log)
    for log in logs[m(200):m(300)]:
        yield session(rng, log, static=True)
