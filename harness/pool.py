"""Correlation objects of all kinds on one trajectory (sessions on output files, purity
and the command line)."""
import math
import random
import numpy
import worlds
import s_dyn
import s_real
import s_four
from s_four import Reject
from worlds import enc, encs, guarded, result

DYN = ('msd', 'vacf', 'alpha2', 'qst', 'qt', 'chi4')
TWO = ('gr', 'ba', 'sk', 'fkt')
ALL = DYN + ('gr', 'ba', 'sk', 'fskt', 'fkt')


def module(kind):
    return s_dyn if kind in DYN + ('susc',) else s_real if kind in ('gr', 'ba') else s_four


# ---- worlds ----------------------------------------------------------------------

def world(rng, **kw):
    """A dynamic world in which all kinds of correlations can be calculated"""
    w = dict(dynamic=True, npart=(2, 6), nmax=5, Lrange=(5, 16), T=rng.choice([48, 60, 72, 80, 96, 120, 144]), kinds=('u', 'u', 'i', 'b'))
    w.update(kw)
    tr = s_four.four_world(rng, **w)
    sp = list(tr['fr'][0]['s'])
    mv = rng.random() < 0.5
    for fr in tr['fr']:
        fr['s'] = list(sp)
        fr['v'] = [[rng.randint(-5, 5) for _ in range(tr['nd'])] for _ in fr['p']]
        if mv:
            fr['r'] = list(tr['fr'][0]['r'])
    return tr


def redo(rng, tr):
    """The same system with other positions"""
    nd, L = tr['nd'], tr['fr'][0]['L']
    mv = [min((l - 1) // 2, 3) for l in L]
    x = [[rng.randrange(-(l // 2), l - l // 2) for l in L] for _ in tr['fr'][0]['p']]
    fr = []
    for f in tr['fr']:
        if fr:
            x = [[y + rng.randint(-m, m) for y, m in zip(z, mv)] for z in x]
        fr.append(dict(f, p=[[worlds.wrap(y, l) for y, l in zip(z, L)] for z in x], u=[list(z) for z in x],
                       v=[[rng.randint(-5, 5) for _ in z] for z in x]))
    return dict(tr, fr=fr)


# ---- descriptions ----------------------------------------------------------------

def describe(rng, tr, kind, trs=None, flt=0.4, partial=False, cost=3000, **kw):
    """An object: {'c', 'parts': [{'k', 'flt', ...}]}; trs: all versions of the trajectory"""
    trs = trs or [tr]
    species = sorted(set(tr['fr'][0]['s']))
    if partial and len(species) < 2:
        raise Reject
    mod = module(kind)
    if mod is s_dyn:
        c = s_dyn.cfg(rng, tr, kind, nooff=False, fixcm=False)
        c.pop('np', None)
        c['wt'], c['fluct'] = 'none', False
        if kind == 'chi4':
            c['fast'] = rng.random() < 0.5
    elif kind == 'gr':
        c = s_real.gr_cfg(rng, tr, nb=0)
        c.update(wt='none', fluct=False)
    elif kind == 'ba':
        c = {'kind': 'ba', 'o': worlds.origins(rng), 'dth': rng.choice([4, 7, 11, 13, 20, 25]), 'sp': species,
             'rc': [[[2 * rng.randint(2, 12) + 1, 2] for _ in species] for _ in species], 'per': True, 'rmax': [0, 1],
             'nooff': False, 'fixcm': False, 'tg': [], 'tgk': 'given', 'a': [1, 1], 'wt': 'none', 'fluct': False}
    else:
        kc = s_four.k_cfg(rng, tr, limit=12, full=150)
        if kc['kreq'] == 'vec':
            raise Reject
        c = s_four.base_cfg(rng, tr, kind, **kc)
        if kind == 'sk':
            if rng.random() < 0.4:
                c['wt'], c['fluct'] = rng.choice(['mass', 'radius']), rng.random() < 0.5
        else:
            c['tg'] = worlds.tgrid(rng, tr)
            c['norm'] = True
            nvec = sum(min(len(v), c['nk']) for v in s_four.shells(c, tr['fr'][0]['L'], tr['T'], 400))
            n, N = len(tr['steps']), len(tr['fr'][0]['p'])
            if nvec * n * n / 2 * (N if kind == 'fskt' else 1) > cost:
                raise Reject
    c.update(kw)
    parts = []
    if partial:
        cond = lambda x: {'op': 'eq', 'f': 'species', 'x': x}
        if kind in TWO:
            for a in species:
                for b in species:
                    # a single filter acts on both groups
                    x, y = (a, b) if kind == 'ba' else (min(a, b), max(a, b))
                    parts.append({'k': 'two', 'pair': [a, b], 'flt': [cond(x)] if x == y else [cond(x), cond(y)]})
        else:
            parts = [{'k': 'one', 'flt': [cond(x)]} for x in species]
    elif rng.random() < flt:
        a = worlds.condition(rng, tr, 2)
        b = worlds.condition(rng, tr, 2) if rng.random() < 0.5 else worlds.COND_TRUE
        conds = [a, b] if kind in TWO else [a]
        if a['op'] == 'true':
            conds = [worlds.COND_TRUE]
            parts = [{'k': 'total', 'flt': [], 'tag': ''}]
        else:
            expr = ','.join(worlds.cond_str(x) for x in conds if x['op'] != 'true')
            parts = [{'k': 'filter', 'flt': conds, 'expr': expr}]
    else:
        parts = [{'k': 'total', 'flt': [], 'tag': rng.choice(['', '', '', 'mytag', 'run_1'])}]
    for t in trs:
        for p in parts:
            if not valid(t, c, p['flt']):
                raise Reject
    return {'c': c, 'parts': parts, 'partial': partial}


def valid(tr, c, flt, need=True):
    """Can the specification evaluate this correlation?"""
    cond = flt[0] if flt else worlds.COND_TRUE
    for x in flt:
        for fr in tr['fr']:
            if len(worlds.frame_match(x, fr)) in (0, tr['nd']):
                return False
        if c['kind'] not in ('gr', 'ba', 'sk', 'ik') and len({tuple(worlds.frame_match(x, fr)) for fr in tr['fr']}) > 1:
            return False
    if c['kind'] in DYN:
        return s_dyn.fits(tr, c, cond)
    if c['kind'] == 'gr':
        return s_real.gr_fits(tr, c, None)
    if c['kind'] == 'ba':
        return s_real.ba_ok(tr, c, flt, need) and s_real.ba_ok(dict(tr, fr=tr['fr'][:1]), c, flt, need)
    if c['kind'] == 'sk' and c['fluct']:
        return s_four.small_mean(tr, c, {'conds': flt} if flt else None)
    return True


# ---- real objects -------------------------------------------------------------------

def klass(th, tr, c):
    """Class, positional arguments and keywords"""
    import atooms.postprocessing as pp
    dt, h = tr['tn'] / tr['td'], tr['hn'] / tr['hd']
    tg = [p / q * dt for p, q in c['tg']]
    no = c['o']['raw']
    k = c['kind']
    if k in DYN:
        cls = {'msd': pp.MeanSquareDisplacement, 'vacf': pp.VelocityAutocorrelation, 'alpha2': pp.NonGaussianParameter,
               'qst': pp.SelfOverlap, 'qt': pp.CollectiveOverlap,
               'chi4': pp.Chi4SelfOverlapOptimized if c.get('fast') else pp.Chi4SelfOverlap}[k]
        kw = {'tgrid': tg, 'norigins': no}
        if k == 'msd' and c['fixcm']:
            kw['fix_cm'] = True
        if k in ('qst', 'qt', 'chi4'):
            kw['a'] = c['a'][0] / c['a'][1] * h
        return cls, kw
    if k == 'gr':
        cls = pp.RadialDistributionFunctionFast if c['fast'] else pp.RadialDistributionFunctionLegacy
        kw = {'norigins': no, 'dr': c['dr'][0] / c['dr'][1] * h}
        if c['rmax'][0]:
            kw['rmax'] = c['rmax'][0] / c['rmax'][1] * h
        return cls, kw
    if k == 'ba':
        return pp.BondAngleDistribution, {'norigins': no, 'dtheta': float(c['dth']), 'rcut': s_real.ba_rcut(tr, c)}
    return s_four.make(th, tr, dict(c, partial=True))


def build(th, tr, o, share=None):
    """The correlation or partial object. `share`: lists passed by the user to several objects"""
    import atooms.postprocessing as pp
    c = o['c']
    cls, kw = klass(th, tr, c)
    if share is not None:
        for key in ('tgrid', 'kgrid', 'rcut'):
            if isinstance(kw.get(key), list):
                kw[key] = share.setdefault((key, repr(kw[key])), kw[key])
    if o['partial']:
        p = pp.Partial(cls, sorted(set(tr['fr'][0]['s'])), th, **kw)
        if c['wt'] != 'none':
            p.add_weight(field=c['wt'], fluctuations=c['fluct'])
        return p
    cf = cls(th, **kw)
    part = o['parts'][0]
    if part['k'] == 'filter':
        cf = pp.Filter(cf, part['expr'])
    elif part.get('tag'):
        cf.tag = part['tag']
    if c['wt'] != 'none':
        cf.add_weight(field=c['wt'], fluctuations=c['fluct'])
    return cf


def members(cf, o):
    """The correlation objects of the parts, and those which hold their derived data"""
    if not o['partial']:
        return [(cf, cf)]
    out = []
    for p in o['parts']:
        if p['k'] == 'one':
            key = p['flt'][0]['x']
            out.append((cf.partial[key], cf.partial[key]))
        else:
            a, b = p['pair']
            src = (p['flt'][0]['x'], p['flt'][-1]['x'])
            out.append((cf.partial[(a, b)], cf.partial[src]))
    return out


def sci(v):
    """Nine significant digits, see PPLife.tla"""
    try:
        v = float(v)
    except Exception:
        return ['x']
    if v != v:
        return ['nan']
    if math.isinf(v):
        return ['inf' if v > 0 else '-inf']
    if v == 0:
        return [0, 0]
    m, e = ('%.8e' % v).split('e')
    return [int(m.replace('.', '')), int(e)]


def scis(x):
    try:
        return [sci(v) for v in x]
    except TypeError:
        return [['x']]


def raw(cf, c):
    """Grid and values as they are, as well as the results of the analysis"""
    r = {'st': [], 'sav': [], 'sva': [], 'tau': [], 'an': []}
    if c['kind'] in ('fskt', 'fkt'):
        r['sg'], r['st'] = scis(cf.grid[0]), scis(cf.grid[1])
        r['sv'] = [scis(x) for x in cf.value]
        tau = cf.analysis.get('relaxation times tau', {})
        r['tau'] = [scis([k] if v is None else [k, v]) for k, v in tau.items()]
    else:
        r['sg'], r['sv'] = scis(cf.grid), scis(cf.value)
        r['an'] = [[k, sci(v)] for k, v in cf.analysis.items() if v is not None]
    if c['kind'] == 'chi4':
        r['sav'], r['sva'] = scis(cf.average.value), scis(cf.variance.value)
    return r


def observe(cf, src, tr, o, full=True):
    """Result of a member; only grid and values if it has been read from a file"""
    c = o['c']
    r = raw(cf, c)
    r.update(ok=True, exc='', g=[], v=[], av=[], va=[], t=[], vn=[], kv=[], kvok=False)
    if not full:
        return r
    if c['kind'] in DYN:
        r.update(result(cf))
        if c['kind'] == 'chi4':
            r['av'], r['va'] = encs(src.average.value), encs(src.variance.value)
    elif c['kind'] == 'gr':
        r.update(s_real.strip_gr(tr, cf))
    elif c['kind'] == 'ba':
        r.update(result(cf))
    else:
        r.update(s_four.four_result(cf, tr, c, s_four.lastsel(tr, c), src))
    return r


def event_cfg(c):
    drop = ('mb', 'np', 'arrv', 'partial', 'fast', 'wtraj', 'sl', 'rfile', 'raw', 'kw')
    cc = {k: v for k, v in c.items() if k not in drop}
    cc['flt'] = []
    cc['o'] = {k: v for k, v in c['o'].items() if k != 'raw'}
    return cc
