"""Sessions on the commands of the api and of the command line (C18)."""
import contextlib
import inspect
import io
import json
import logging
import math
import os
import runpy
import shutil
import sys
import tempfile
from fractions import Fraction
import numpy
import pool
import s_four
import s_life
import worlds
from s_four import Reject
from worlds import enc, encs

CMDS = ('msd', 'vacf', 'fkt', 'fskt', 'chi4qs', 'alpha2', 'qst', 'qt', 'gr', 'sk', 'ik', 'ba')
TIMES = ('msd', 'vacf', 'fkt', 'fskt', 'chi4qs', 'alpha2', 'qst', 'qt')
KS = ('sk', 'ik', 'fkt', 'fskt')
TWO = ('gr', 'ba', 'sk', 'fkt')
TD = {'msd': (Fraction(3, 4), 30, 'linear'), 'vacf': (Fraction(1, 10), 30, 'linear')}
KD = {'fkt': (7, 7, 1, 100), 'fskt': (7, 8, 1, 8), 'sk': (-1, 15, 30, 20), 'ik': (-1, 15, 30, 20)}


def pq(x):
    x = Fraction(x)
    return [x.numerator, x.denominator]


# ---- what a command stands for, as in PPApi.tla --------------------------------------

def bound(x, n):
    f = Fraction(*x)
    return int(f * n) if 0 < f < 1 else int(f)


def selected(tr, g):
    n, b = len(tr['steps']), tr['blk']

    def blk(x):
        i = bound(x, n)
        return i // b * b if b > 1 else i
    return list(range(n))[slice(blk(g['first']) if g['first'] else None, blk(g['last']) if g['last'] else None, g['skip'])]


def relabel(labels, layout, x):
    digits = all(y.isdigit() for y in labels)
    cur = 'A' if not digits else 'C' if labels[0] == '0' else 'F'
    if layout in ('', cur):
        return x
    k = labels.index(x) if cur == 'A' else int(x) - (cur == 'F')
    return chr(ord('A') + k) if layout == 'A' else str(k + (layout == 'F'))


def view(lib, e, name):
    tr = lib[name]
    w = lib[e['a'].get('wfile') or e['a'].get('rfile') or name]
    lab = sorted(set(tr['fr'][0]['s']))
    fr = []
    for i in selected(tr, e['g']):
        j = w['steps'].index(tr['steps'][i])
        fr.append(dict(tr['fr'][i], r=w['fr'][j]['r'], s=[relabel(lab, e['g']['layout'], x) for x in tr['fr'][i]['s']]))
    return dict(tr, steps=[tr['steps'][i] for i in selected(tr, e['g'])], fr=fr)


def args(e, tr):
    """Complete arguments"""
    h = Fraction(tr['hn'], tr['hd'])
    cmd = e['cmd']
    a = {}
    if cmd in TIMES:
        frac, n, func = TD.get(cmd, (Fraction(3, 4), 60, 'logx'))
        a.update(tmax=[-1, 1], tfrac=pq(frac), ts=n, func=func)
    if cmd in ('msd', 'fkt', 'fskt'):
        a.update(fixcm=False)
    if cmd == 'msd':
        a.update(nooff=False, sigma=pq(1 / h), rmsd=[-1, 1])
    if cmd in ('qst', 'qt', 'chi4qs'):
        a['a'] = pq(Fraction(3, 10) / h)
    if cmd in ('fkt', 'fskt', 'chi4qs'):
        a['total'] = False
    if cmd in KS:
        a.update(kgrid=[], wt='none', fluct=False, wfile='', nk=KD[cmd][3], ks=KD[cmd][2])
    if cmd in ('sk', 'ik'):
        a['kmin'] = [-1, 1]
    if cmd == 'gr':
        a.update(dr=pq(Fraction(4, 100) / h), rmax=[0, 1])
    if cmd == 'ba':
        a['dth'] = 4
    a.update(e['kd'])
    a.update(e['a'])
    return a


def last_time(cmd, a, tr):
    tot = tr['steps'][-1] - tr['steps'][0]
    t = Fraction(*a['tmax'])
    if t > 0:
        return min(t, tot) if cmd in ('msd', 'vacf', 'chi4qs') else t
    return Fraction(*a['tfrac']) * tot


def no_times(a):
    return a['tmax'][0] <= 0 and a['tfrac'][0] <= 0


def times(cmd, a, tr):
    """Requested times in timesteps, as floats; clear of ties"""
    if no_times(a):
        return None
    T, n = last_time(cmd, a, tr), a['ts']
    if T <= 0:
        raise Reject
    if a['func'] == 'linear':
        g = [1 + (i * (T - 1) / (n - 1) if i else 0) for i in range(n)]
        if any(x.denominator * max(1, abs(x.numerator)) > 200000000 for x in map(Fraction, g)):
            raise Reject
    else:
        r = float(T) ** (1 / n)
        g = [1.0] + [r ** i for i in range(2, n + 1)]
    g = [float(x) for x in [0] + g]
    if any(abs(x - math.floor(x) - 0.5) < 1e-4 for x in g):
        raise Reject
    return g


def kgrid(cmd, a):
    """List of norms, or None"""
    if a['kgrid']:
        return [Fraction(*x) for x in a['kgrid']]
    if cmd in ('fkt', 'fskt'):
        lo, hi, n = Fraction(*a['kmin']), Fraction(*a['kmax']), a['ks']
        return [lo + (i * (hi - lo) / (n - 1) if i else 0) for i in range(n)]
    return None


OWN = {'msd': [1, 1, 30], 'vacf': [1, 10, 12], 'alpha2': [3, 4, 20]}


def config(e, a, tr, rc):
    cmd = e['cmd']
    kind = 'chi4' if cmd == 'chi4qs' else cmd
    c = {'kind': kind, 'o': e['g']['o'], 'nooff': False, 'fixcm': False, 'wt': 'none', 'fluct': False, 'tg': [], 'tgk': 'given',
         'norm': True, 'per': True, 'nb': 0, 'rs': [1, 1], 'a': [1, 1], 'fast': e['fast']}
    c.update(a)
    if cmd in TIMES:
        t = times(cmd, a, tr)
        if t is None:
            c['tgk'] = 'lin' if cmd in OWN else 'log'
            if cmd in OWN:
                c['lin'] = OWN[cmd]
                num, den, npt = OWN[cmd]
                T = tr['steps'][-1] - tr['steps'][0]
                if a.get('rmsd', [0])[0] > 0:
                    c['tgk'], c['lin'] = 'rmsd', a['rmsd'] + [npt]
                elif any((2 * k * T * num) % (den * (npt - 1)) == 0 and (2 * k * T * num) // (den * (npt - 1)) % 2 == 1 for k in range(npt)):
                    raise Reject
            if kind == 'chi4' or cmd in KS and len(tr['steps']) < 3:
                raise Reject
        else:
            c['tg'] = [[int(round(x)), 1] for x in t]
    if cmd in KS:
        g = kgrid(cmd, a)
        c['kreq'] = 'lin' if g is None else 'given'
        c['vec'] = []
        if g is None:
            if a['kmin'][1] != 1 or a['kmax'][1] != 1:
                raise Reject
            c['lin'] = [a['kmin'][0], a['kmax'][0], a['ks']]
        else:
            if min(g) < 0 or any(x.denominator > 64 for x in g):
                raise Reject
            c['g'] = [pq(x) for x in g]
    if cmd == 'ba':
        c.update(sp=sorted(set(tr['fr'][0]['s'])), rc=rc, rmax=[0, 1])
    return c


def jobs(tr, e, rc):
    a = args(e, tr)
    g = e['g']
    cmd = e['cmd']
    sp = sorted(set(tr['fr'][0]['s']))
    c = config(e, a, tr, rc)
    out = []
    flt = bool(g['filter'])
    if cmd not in ('fkt', 'fskt', 'chi4qs') or a['total'] or len(sp) == 1 or flt:
        if flt:
            p = {'k': 'filter', 'flt': g['filter'], 'expr': g['expr']}
        else:
            p = {'k': 'total', 'flt': [], 'tag': ''}
        out.append({'c': c, 'parts': [p], 'partial': False})
    if len(sp) > 1 and not g['nopartial'] and not flt and cmd != 'ik' and not (cmd == 'chi4qs' and a['total']):
        cond = lambda x: {'op': 'eq', 'f': 'species', 'x': x}
        if cmd in TWO:
            ps = []
            for x in sp:
                for y in sp:
                    p, q = (x, y) if cmd == 'ba' else (min(x, y), max(x, y))
                    ps.append({'k': 'two', 'pair': [x, y], 'flt': [cond(p)] if p == q else [cond(p), cond(q)]})
        else:
            ps = [{'k': 'one', 'flt': [cond(x)]} for x in sp]
        out.append({'c': c, 'parts': ps, 'partial': True})
    return out


# ---- the classes, with the parameters of a job -------------------------------------

def unit(tr):
    return 2 * math.pi / (tr['T'] * tr['hn'] / tr['hd'])


def reference(th, tr, e, o, radius, drop=None):
    import atooms.postprocessing as pp
    cmd = e['cmd']
    a = args(e, tr)
    h, dt, u = tr['hn'] / tr['hd'], tr['tn'] / tr['td'], unit(tr)
    # The default values of the wave-vectors are approximated in our units
    dft = dict(dk=0.1, kmin=float(KD[cmd][0]), kmax=float(KD[cmd][1])) if cmd in KS else {}
    kval = lambda x: dft[x] if x in e['kd'] else a[x][0] / a[x][1] * (u if a[x][0] > 0 else 1)
    kw = {'norigins': e['g']['o']['raw']}
    if cmd in TIMES:
        t = times(cmd, a, tr)
        kw['tgrid'] = None if t is None else [x * dt for x in t]
    if cmd in KS:
        g = kgrid(cmd, a)
        kw.update(nk=a['nk'], dk=kval('dk'))
        if g is None:
            kw.update(kmin=kval('kmin'), kmax=kval('kmax'), ksamples=a['ks'])
        elif a['kgrid']:
            kw['kgrid'] = [float(x) * u for x in g]
        else:
            from atooms.postprocessing.helpers import linear_grid
            kw['kgrid'] = linear_grid(kval('kmin'), kval('kmax'), a['ks'])
    if cmd in ('msd', 'fkt', 'fskt'):
        kw['fix_cm'] = a['fixcm']
    if cmd == 'msd':
        kw.update(no_offset=a['nooff'], sigma=a['sigma'][0] / a['sigma'][1] * h)
    if 'a' in a:
        kw['a'] = a['a'][0] / a['a'][1] * h
    if cmd == 'gr':
        kw['dr'] = a['dr'][0] / a['dr'][1] * h
        if a['rmax'][0]:
            kw['rmax'] = a['rmax'][0] / a['rmax'][1] * h
    if cmd == 'ba':
        kw['dtheta'] = float(a['dth'])
    if cmd == 'msd' and a['rmsd'][0] > 0:
        kw['rmax'] = a['rmsd'][0] / a['rmsd'][1] * h
    kw.pop(drop, None)
    f = e['fast']
    cls = {'msd': pp.MeanSquareDisplacement, 'vacf': pp.VelocityAutocorrelation, 'alpha2': pp.NonGaussianParameter,
           'qst': pp.SelfOverlap, 'qt': pp.CollectiveOverlap,
           'chi4qs': pp.Chi4SelfOverlapOptimized if f else pp.Chi4SelfOverlap,
           'gr': pp.RadialDistributionFunctionFast if f else pp.RadialDistributionFunctionLegacy,
           'sk': pp.StructureFactorFast if f else pp.StructureFactorLegacy,
           'fskt': pp.SelfIntermediateScatteringFast if f else pp.SelfIntermediateScatteringLegacy,
           'fkt': pp.IntermediateScattering, 'ik': pp.SpectralDensity, 'ba': pp.BondAngleDistribution}[cmd]
    if o['partial']:
        cf = pp.Partial(cls, sorted(set(tr['fr'][0]['s'])), th, **kw)
    elif cmd == 'ik':
        cf = cls(th, radius, **kw)
    else:
        cf = cls(th, **kw)
    if not o['partial'] and o['parts'][0]['k'] == 'filter':
        cf = pp.Filter(cf, o['parts'][0]['expr'])
    if a.get('wt', 'none') != 'none' and drop != 'weight':
        cf.add_weight(field=a['wt'], fluctuations=a['fluct'])
    return cf


def cutoffs(th, tr):
    """Default cutoffs of the bond angles in lattice units"""
    import atooms.postprocessing as pp
    cf = pp.BondAngleDistribution(th, norigins=1)
    cf.compute()
    h = Fraction(tr['hn'], tr['hd'])
    return [[pq(Fraction(int(round(float(x) * 20)), 20) / h) for x in row] for row in cf.rcut]


# ---- execution ----------------------------------------------------------------------

def write_file(path, tr, shifted):
    if os.path.dirname(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
    if shifted:
        tr = dict(tr, fr=[dict(fr, p=[[x + l / 2 for x, l in zip(p, fr['L'])] for p in fr['p']]) for fr in tr['fr']])
    s_life.write_xyz(path, tr)


def options(e, lib):
    """The options as given by the user: (name, value), those of the command and global ones"""
    tr = lib[e['files'][0]]
    h, dt, u = tr['hn'] / tr['hd'], tr['tn'] / tr['td'], unit(tr)
    a, g = e['a'], e['g']
    own, glob = {}, {}
    num = lambda x: x[0] / x[1]
    names = {'tmax': ('tmax', dt), 'tfrac': ('tmax_fraction', 1), 'sigma': ('sigma', h), 'a': ('a', h), 'kmin': ('kmin', u),
             'kmax': ('kmax', u), 'dk': ('dk', u), 'dr': ('dr', h), 'rmax': ('rmax', h),
             'rmsd': ('rmsd_max', h)}
    for k, v in a.items():
        if k in names:
            name, s = names[k]
            x = num(v)
            own[name] = x * (s if x > 0 else 1)
        elif k == 'ts':
            own['tsamples'] = v
        elif k == 'ks':
            own['ksamples'] = v
        elif k in ('nk', 'func', 'total'):
            own[k] = v
        elif k == 'fixcm':
            own['fix_cm'] = v
        elif k == 'nooff':
            own['no_offset'] = v
        elif k == 'dth':
            own['dtheta'] = float(v)
        elif k == 'kgrid':
            own['kgrid'] = ','.join(repr(num(x) * u) for x in v)
        elif k == 'wt':
            own['weight'] = v
        elif k == 'fluct':
            own['weight_fluctuations'] = v
        elif k == 'wfile':
            own['weight_trajectory'] = v
        elif k == 'rfile':
            own['trajectory_radius'] = v
        else:
            raise ValueError(k)
    for k in ('first', 'last'):
        if g[k]:
            x = num(g[k])
            glob[k] = int(x) if g[k][1] == 1 else x
    if g['skip'] != 1 or g.get('skip1'):
        glob['skip'] = g['skip']
    if g['o']['raw'] is not None:
        glob['norigins'] = g['o']['raw']
    if g['filter']:
        glob['filter'] = g['expr']
    if g['nopartial']:
        glob['no_partial'] = True
    if g['layout']:
        glob['species_layout'] = g['layout']
    for k in ('update', 'center', 'fast', 'legacy', 'no_cache'):
        if g.get(k):
            glob[k] = True
    if g.get('fmt'):
        glob['fmt'] = g['fmt']
    own.update(e.get('moot', {}))
    return own, glob


def run_api(e, lib):
    import atooms.postprocessing.api as api
    own, glob = options(e, lib)
    f = getattr(api, e['cmd'])
    files = e['files']
    if len(files) == 1:
        f(files[0], **dict(own, **glob))
        return
    pos = []
    for p in list(inspect.signature(f).parameters.values())[1:]:
        if p.kind == p.VAR_POSITIONAL:
            break
        pos.append(own.pop(p.name, p.default))
    f(files[0], *(pos + files[1:]), **dict(own, **glob))


def run_cli(e, lib):
    import atooms.postprocessing.core as core
    import atooms.postprocessing.progress as progress
    import target
    own, glob = options(e, lib)
    opt = []
    for d in (glob, own):
        o = []
        for k, v in d.items():
            name = '--' + k.replace('_', '-')
            if v is True:
                o.append(name)
            elif v is False:
                pass
            else:
                o.append('%s=%s' % (name, v))
        opt.append(o)
    if s_life.template(e['g']['tmpl']) != s_life.template(s_life.DEFAULT):
        opt[0].append('--output=' + s_life.template(e['g']['tmpl']))
    if e.get('verb'):
        opt[0].append(e['verb'])
    argv = ['pp.py'] + opt[0] + [e['cmd']] + opt[1] + e['files']
    old = sys.argv, core.pp_output_path, progress.active, sys.path[:]
    try:
        sys.argv = argv
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(os.path.join(target.REPO, 'bin/pp.py'), run_name='__main__')
    finally:
        sys.argv, core.pp_output_path, progress.active, sys.path[:] = old
        for name in ('atooms', 'atooms.postprocessing'):
            log = logging.getLogger(name)
            for x in list(log.handlers):
                log.removeHandler(x)


def execute(s):
    if s['t'] == 'cutoff':
        return run_cutoff(s)
    import atooms.postprocessing.core as core
    evs = [{'ev': 'begin'}, {'ev': 'alib'}]
    old, oldpath = os.getcwd(), core.pp_output_path
    root = tempfile.mkdtemp(dir=old)
    os.chdir(root)
    lib = {}
    try:
        disk = None
        for op in s['ops']:
            k = op[0]
            if k == 'put':
                name, tr, t = op[1], s['trs'][op[2]], op[3]
                lib[name] = tr
                if disk is None:
                    disk = s_life.Disk(root, s['names'])
                write_file(name, tr, s['shifted'])
                s_life.utime(name, t)
                evs.append({'ev': 'aput', 'f': name, 'tr': tr, 't': t})
            elif k in ('touch', 'remove'):
                ps = disk.paths()
                if ps:
                    p = ps[op[1] % len(ps)]
                    if k == 'touch':
                        s_life.utime(p, op[2])
                        evs.append({'ev': 'ltouch', 'path': p, 't': op[2]})
                    else:
                        os.remove(p)
                        evs.append({'ev': 'lremove', 'path': p})
                    disk.seen = disk.snapshot()
            else:
                e = op[1]
                evs.append(invoke(s, e, lib, disk, op[2]))
        return evs
    finally:
        core.pp_output_path = oldpath
        os.chdir(old)
        shutil.rmtree(root, ignore_errors=True)


def invoke(s, e, lib, disk, t):
    import atooms.postprocessing.core as core
    ok, exc, msg = True, '', ''
    e = json.loads(json.dumps(e))
    try:
        if e['cli']:
            run_cli(e, lib)
        else:
            core.pp_output_path = s_life.template(e['g']['tmpl'])
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                run_api(e, lib)
    except (Exception, SystemExit) as x:
        import traceback
        ok, exc, msg = False, type(x).__name__, str(x)[:200] + traceback.format_exc()[-300:]
    finally:
        core.pp_output_path = s_life.template(s_life.DEFAULT)
    wrote, gone = disk.changes(t)
    res, rcs, lrs = [], [], []
    for i, name in enumerate(e['files']):
        tr = view(lib, e, name)
        rc = e['rc'][i]
        a = args(e, tr)
        lr = [1, 0]
        if e['cmd'] in TIMES and not no_times(a) and a['func'] == 'logx':
            lr = enc(float(last_time(e['cmd'], a, tr)) ** (1 / a['ts']))
        lrs.append(lr)
        out = []
        radius = 'radius%d.xyz' % os.getpid()
        if e['cmd'] == 'ik':
            s_life.write_xyz(radius, tr)
        for o in jobs(tr, e, rc):
            def go():
                th = worlds.realise(tr)
                cf = reference(th, tr, e, o, radius)
                cf.do()
                return [pool.observe(m, src, tr, o) for m, src in pool.members(cf, o)]
            try:
                out.append(go())
            except Exception as x:
                bad = {'ok': False, 'exc': 'class-' + type(x).__name__, 'g': [], 'v': [], 't': [], 'sg': [], 'st': [], 'sv': [], 'an': [],
                       'tau': [], 'sav': [], 'sva': [], 'kv': [], 'kvok': False, 'vn': [], 'av': [], 'va': [], 'msg': str(x)[:200]}
                out.append([bad] * len(o['parts']))
        if os.path.exists(radius):
            os.remove(radius)
        res.append(out)
    g = {k: v for k, v in e['g'].items() if k in ('first', 'last', 'skip', 'filter', 'expr', 'nopartial', 'layout', 'update', 'tmpl')}
    g['o'] = {k: v for k, v in e['g']['o'].items() if k != 'raw'}
    ev = {'ev': 'api', 'cmd': e['cmd'], 'a': e['a'], 'kd': e['kd'], 'g': g, 'files': [os.path.normpath(f) for f in e['files']], 'lr': lrs, 'rc': e['rc'],
          'res': res, 'wrote': wrote, 'gone': gone, 'ok': ok, 'exc': exc, 'msg': msg, 't': t, 'cli': e['cli']}
    return ev


def run_cutoff(s):
    """Default cutoffs"""
    import atooms.postprocessing as pp
    tr = s['tr']
    evs = [{'ev': 'begin'}, {'ev': 'traj', 'tr': tr}]
    sp = sorted(set(tr['fr'][0]['s']))
    c = {'kind': 'gr', 'o': {'k': 'none', 'p': 0, 'q': 1}, 'dr': [1, 1], 'rmax': [0, 1], 'nb': 0, 'per': True, 'nooff': False, 'fixcm': False,
         'tg': [], 'tgk': 'given', 'a': [1, 1], 'wt': 'none', 'fluct': False, 'flt': []}
    e = {'ev': 'cutoff', 'c': c, 'ok': True, 'exc': '', 'gr': [], 'rc': []}
    try:
        p = pp.Partial(pp.RadialDistributionFunction, sp, worlds.realise(tr), dr=0.1)
        p.compute()
        from s_real import strip_gr
        e['gr'] = [[strip_gr(tr, p.partial[(x, y)]) for y in sp] for x in sp]
        cf = pp.BondAngleDistribution(worlds.realise(tr), norigins=s['o'])
        cf.compute()
        e['rc'] = [encs(row) for row in cf.rcut]
    except Exception as x:
        e.update(ok=False, exc=type(x).__name__, msg=str(x)[:200])
    evs.append(e)
    return evs


# ---- generation -----------------------------------------------------------------------

FRACTIONS = [[1, 4], [1, 2], [3, 4], [5, 8]]


def globals_(rng, lib, names, shifted, tmpls):
    g = {'first': [], 'last': [], 'skip': 1, 'filter': [], 'expr': '', 'nopartial': rng.random() < 0.15, 'layout': '',
         'update': rng.random() < 0.3, 'center': shifted, 'fast': rng.random() < 0.3, 'legacy': rng.random() < 0.2,
         'no_cache': rng.random() < 0.3, 'fmt': rng.choice([None, None, 'xyz']), 'skip1': rng.random() < 0.3, 'tmpl': rng.choice(tmpls)}
    if rng.random() < 0.4:
        k = rng.choice(['first', 'last', 'skip', 'first', 'last', 'both'])
        if k in ('first', 'both'):
            g['first'] = rng.choice(FRACTIONS[:2] + [[1, 1], [2, 1], [0, 1], [-3, 1]])
        if k in ('last', 'both'):
            g['last'] = rng.choice(FRACTIONS[1:] + [[3, 1], [-1, 1], [4, 1], [20, 1]])
        if k == 'skip' and all(lib[n]['blk'] == 1 for n in names):
            g['skip'] = rng.choice([2, 2, 3])
    if any(n in NOSUFFIX for n in names):
        g['fmt'] = 'xyz'
    if rng.random() < (0.5 if shifted else 0.2):
        g['layout'] = rng.choice(['A', 'F', 'C'])
    g['o'] = worlds.origins(rng)
    if rng.random() < 0.35:
        g['o'] = {'k': 'none', 'p': 0, 'q': 1, 'raw': None}
    return g


def time_args(rng, e, tr):
    a = e['a']
    T = tr['steps'][-1] - tr['steps'][0]
    r = rng.random()
    if r < 0.3:
        a['tmax'] = [rng.randint(1, rng.choice([T, T + 2, 2 * T])), rng.choice([1, 1, 2])]
        a['tfrac'] = rng.choice([[1, 2], [-1, 1]])
        if rng.random() < 0.5:
            del a['tfrac']
    elif r < 0.6:
        a['tfrac'] = rng.choice([[1, 1], [1, 2], [1, 4], [7, 8]])
    elif r < 0.66:
        a['tfrac'] = [-1, 1]
    if e['cmd'] == 'msd' and rng.random() < 0.2:
        a.pop('tmax', None)
        a['tfrac'] = rng.choice([[-1, 1], [0, 1]])
    if rng.random() < 0.6:
        a['ts'] = rng.choice([1, 2, 3, 5, 8, 20])
    if e['cmd'] in ('msd', 'vacf', 'chi4qs') and rng.random() < 0.25:
        # up to the total time
        a.update(tmax=[rng.randint(T + 1, 2 * T), 1], ts=rng.choice([2, 2, 3, 4]))
    if rng.random() < 0.4:
        a['func'] = rng.choice(['linear', 'logx'])
    if rng.random() < 0.1 and 'func' in a:
        e['moot'] = {'func': a['func'] + '_grid'}


def k_args(rng, e, lib, tr):
    a, cmd = e['a'], e['cmd']
    views = [view(lib, e, n) for n in e['files']]
    u = unit(tr)
    conv = lambda x: Fraction(x / u).limit_denominator(1)
    lo, hi, ks, nk = KD[cmd]
    for _ in range(30):
        for k in ('kgrid', 'kmin', 'kmax', 'dk', 'nk', 'ks'):
            a.pop(k, None)
        e['kd'] = {}
        c = s_four.k_cfg(rng, views[0], nonzero=cmd == 'ik', vec=0, limit=24, full=150)
        if rng.random() < 0.15:
            # defaults
            e['kd'] = {'dk': pq(Fraction(0.1 / u).limit_denominator(40)), 'kmax': pq(Fraction(hi / u).limit_denominator(1 if cmd in ('sk', 'ik') else 40))}
            if cmd in ('fkt', 'fskt'):
                e['kd']['kmin'] = pq(Fraction(lo / u).limit_denominator(40))
            if any(abs(Fraction(*v) * Fraction(u) / Fraction({'dk': 0.1, 'kmax': hi, 'kmin': lo}[k]) - 1) > 1 / 300 for k, v in e['kd'].items()):
                continue
            if rng.random() < 0.7:
                a['nk'] = rng.choice([1, 2, 4])
            if rng.random() < 0.7 and cmd in ('sk', 'ik'):
                a['ks'] = rng.choice([1, 2, 3])
        else:
            a['dk'] = c['dk']
            if c['nk'] < 1000 or rng.random() < 0.5:
                a['nk'] = c['nk']
            if c['kreq'] == 'given':
                a['kgrid'] = c['g']
                if rng.random() < 0.3:
                    # a given grid has the precedence
                    a['ks'] = 4
            else:
                a.update(kmin=[c['lin'][0], 1], kmax=[c['lin'][1], 1], ks=c['lin'][2])
                if cmd in ('sk', 'ik') and c['lin'][0] < 0 and rng.random() < 0.5:
                    del a['kmin']
            if cmd in ('sk', 'ik') and 'kmax' not in a:
                e['kd'] = {'kmax': [c['lin'][1] or 1, 1]}
                a['kmax'] = e['kd'].pop('kmax')
            if cmd in ('fkt', 'fskt') and 'kgrid' in a:
                a.update(kmin=[1, 1], kmax=[1, 1])
        try:
            for v in views:
                full = config(e, args(e, v), v, [])
                for fr in v['fr']:
                    if e['kd']:
                        same_shells(full, fr, v, u)
                for fr in v['fr'][:1]:
                    sh = s_four.shells(full, fr['L'], v['T'], 400)
                    nvec = sum(min(len(x), full['nk']) for x in sh)
                    n, N = len(v['steps']), len(v['fr'][0]['p'])
                    cost = {'sk': n * N, 'ik': n * N * 3, 'fkt': n * n * 2 / 2, 'fskt': n * n * N / 2}[cmd] * nvec
                    if nvec > 60 or cost > 2500:
                        raise Reject
                    if cmd == 'ik' and any(not any(x) for y in sh for x in y):
                        raise Reject
            return
        except Reject:
            continue
    raise Reject


def same_shells(c, fr, v, u):
    """The approximate default parameters yield the same shells of wave-vectors"""
    cmd = c['kind']
    dk = Fraction(0.1 / u).limit_denominator(10**7)
    lo, hi = (Fraction(x / u).limit_denominator(10**7) if x > 0 else Fraction(v['T'] // max(fr['L'])) for x in KD[cmd][:2])
    if c['kreq'] == 'given' and len(c['g']) > 1 or c['kreq'] == 'lin':
        n = len(c['g']) if c['kreq'] == 'given' else c['lin'][2]
        gs = [lo + (i * (hi - lo) / (n - 1) if i else 0) for i in range(n)]
    else:
        gs = [lo]
    if s_four.shells(c, fr['L'], v['T'], 400) != raw_shells(gs, dk, fr['L'], v['T']):
        raise Reject


def raw_shells(gs, dk, L, T):
    import itertools
    ds = [dk] * len(gs)
    for _ in range(5):
        kmax = gs[-1] + ds[-1]
        r = [int(kmax * l / T) + 1 for l in L]
        sh = [[] for _ in gs]
        for n in itertools.product(*[range(-x, x + 1) for x in r]):
            Q = s_four.qsq(n, L, T)
            k = [i for i, (g, d) in enumerate(zip(gs, ds)) if (g - d < 0 or (g - d) ** 2 < Q) and Q < (g + d) ** 2]
            if k and Q <= kmax * kmax:
                sh[k[0]].append(n)
        if all(sh):
            return sh
        ds = [d if s else d * Fraction(6, 5) for d, s in zip(ds, sh)]
    raise Reject


def untied(v):
    """No displacements by half the box"""
    return all((2 * abs(x - y)) % (2 * l) != l for f, g in zip(v['fr'], v['fr'][1:]) for p, q in zip(f['p'], g['p'])
               for x, y, l in zip(p, q, f['L']))


def command(rng, lib, names, shifted, tmpls, cmd=None):
    """An invocation which the specification can evaluate"""
    cmd = cmd or rng.choice(CMDS)
    files = rng.sample(names, rng.randint(1, len(names)))
    e = {'cmd': cmd, 'files': files, 'a': {}, 'kd': {}, 'rc': [[] for _ in files], 'cli': rng.random() < 0.5, 'fast': rng.random() < 0.5}
    e['g'] = g = globals_(rng, lib, files, shifted, tmpls)
    if e['cli'] and isinstance(g['o']['raw'], float) and g['o']['raw'] == 1.0:
        raise Reject
    a = e['a']
    tr = lib[files[0]]
    h = Fraction(tr['hn'], tr['hd'])
    for n in files:
        v = view(lib, e, n)
        if len(v['steps']) < 2 or not untied(v):
            raise Reject
    if rng.random() < 0.2:
        views = [view(lib, e, n) for n in files]
        x = worlds.condition(rng, views[0], 2, fields=('species', 'radius') if cmd != 'ik' else ('species',))
        if x['op'] == 'true':
            raise Reject
        conds, expr = [x], worlds.cond_str(x)
        if cmd in TWO:
            y = worlds.condition(rng, views[0], 1, fields=('species',)) if rng.random() < 0.5 else worlds.COND_TRUE
            conds.append(y)
            expr = ','.join(worlds.cond_str(z) for z in conds if z['op'] != 'true')
        g['filter'], g['expr'] = conds, expr
    if cmd in TIMES:
        time_args(rng, e, tr)
    if cmd == 'msd':
        if rng.random() < 0.3:
            a['fixcm'] = True
        if rng.random() < 0.3:
            a['nooff'] = True
        if rng.random() < 0.5:
            a['sigma'] = rng.choice([[1, 1], [3, 2], [5, 2], [1, 4]])
        if no_times(args(e, tr)) and rng.random() < 0.7 and not a.get('fixcm'):
            a['rmsd'] = rng.choice([[1, 2], [1, 1], [3, 2], [2, 1], [3, 1], [5, 2], [1, 4]])
        elif rng.random() < 0.1:
            # moot, if the times are given
            a['rmsd'] = [1, 2] if not no_times(args(e, tr)) else [-1, 1]
    if cmd in ('fkt', 'fskt') and rng.random() < 0.6 and all(fits_cm(lib[n]) for n in files):
        a['fixcm'] = True
    if cmd in ('fkt', 'fskt', 'chi4qs') and rng.random() < 0.5:
        a['total'] = True
    if cmd == 'fskt' and rng.random() < 0.3:
        # the amount of memory
        e.setdefault('moot', {})['lookup_mb'] = rng.choice([0.0001, 0.001, 512.0])
    if cmd == 'chi4qs' and rng.random() < 0.8:
        a['a'] = rng.choice([[1, 1], [2, 1], [3, 1], [3, 2], [5, 2], [17, 10]])
    if cmd == 'gr':
        if rng.random() < 0.8:
            a['dr'] = rng.choice([[1, 1], [1, 2], [3, 4], [2, 1], [5, 4], [3, 2]])
        if rng.random() < 0.5:
            a['rmax'] = [rng.randint(2, 5), 1]
        if rng.random() < 0.3:
            e['moot'] = {'grandcanonical': True}
    if cmd == 'ba' and rng.random() < 0.7:
        a['dth'] = rng.choice([5, 7, 11, 13, 20])
    if cmd == 'sk' and rng.random() < 0.35:
        a['wt'] = 'radius'
        if rng.random() < 0.5:
            a['fluct'] = True
        w = [n for n in lib if n not in files and all(lib[n]['steps'] == lib[f]['steps'] and len(lib[n]['fr'][0]['p']) == len(lib[f]['fr'][0]['p'])
                                                      for f in files)]
        if w and rng.random() < 0.7 and not g['first'] and not g['last'] and g['skip'] == 1:
            a['wfile'] = rng.choice(w)
            if rng.random() < 0.7:
                # other files which that of the weights goes with
                more = [n for n in names if n not in files and n != a['wfile'] and lib[n]['steps'] == lib[a['wfile']]['steps']
                        and len(lib[n]['fr'][0]['p']) == len(lib[a['wfile']]['fr'][0]['p'])]
                files.extend(more)
                e['rc'] = [[] for _ in files]
    if cmd == 'ik':
        if tr['nd'] != 3:
            raise Reject
        w = [n for n in lib if all(set(lib[f]['steps']) <= set(lib[n]['steps']) and len(lib[n]['fr'][0]['p']) == len(lib[f]['fr'][0]['p']) for f in files)]
        # the format of that file is that of its name
        if w and rng.random() < 0.5 and w[0] not in NOSUFFIX:
            a['rfile'] = rng.choice(w)
    if cmd in KS:
        k_args(rng, e, lib, tr)
    for i, n in enumerate(files):
        v = view(lib, e, n)
        if cmd == 'ba':
            if not s_real_edges(v):
                raise Reject
            try:
                e['rc'][i] = cutoffs(worlds.realise(v), v)
            except Exception:
                raise Reject
            if any(x[0] <= 0 or x[0] > 200 * x[1] or x[0] ** 2 > 100000000 for row in e['rc'][i] for x in row):
                raise Reject
        if cmd == 'gr' and 'dr' not in a and not s_real_edges(v, 25):
            raise Reject
        for o in jobs(v, e, e['rc'][i]):
            c = o['c']
            for p in o['parts']:
                if not pool.valid(v, c, p['flt'], False) or c['tgk'] == 'rmsd' and rmsd_tied(v, c, p['flt']):
                    raise Reject
    return e


def rmsd_tied(v, c, flt):
    """Some of the times lie half-way between timesteps"""
    p, q, npt = c['lin']
    i, j = ([fr['u'][k] for k in (worlds.frame_match(flt[0], fr) if flt else range(len(fr['u'])))] for fr in (v['fr'][0], v['fr'][-1]))
    x = sum((a - b) ** 2 for y, z in zip(i, j) for a, b in zip(y, z)) * q * q
    y = p * p * len(i)
    num, den = (1, 1) if y >= x else (y, x)
    T = v['steps'][-1] - v['steps'][0]
    return any((2 * k * T * num) % (den * (npt - 1)) == 0 and (2 * k * T * num) // (den * (npt - 1)) % 2 == 1 for k in range(npt))


def fits_cm(tr):
    """Positions relative to the center of mass have tabulated phases"""
    return all(tr['T'] % (l * len(fr['p'])) == 0 for fr in tr['fr'] for l in fr['L'])


def s_real_edges(tr, bins=10):
    """No distance on the edge of a bin of width 1 / bins"""
    from s_real import dist2
    h = Fraction(tr['hn'], tr['hd'])
    for fr in tr['fr']:
        for i in range(len(fr['p'])):
            for j in range(i):
                x = dist2(fr['p'][i], fr['p'][j], fr['L']) * h * h * bins ** 2
                if x.denominator == 1 and math.isqrt(x.numerator) ** 2 == x.numerator:
                    return False
    return True


NAMES = [['x.xyz', 'y.xyz', 'data/z.xyz'], ['a/x.xyz', 'b/x.xyz', 'x.xyz'], ['T0.45.xyz', 'T0.5.xyz', 'T1.xyz'], ['x_1.xyz', 'x_2.xyz', 'd-1/x.xyz']]
NOSUFFIX = ['x.dat', 'y', 'conf.0']


def api_world(rng, like=None, bonds=False, same=False):
    from atooms.trajectory.utils import get_block_size
    cm = rng.random() < 0.5
    T = rng.choice([48, 60, 72, 80, 96, 120, 144]) if not like else like['T']
    for _ in range(300):
        kw = dict(T=T, Lrange=(5, 12), species=rng.choice([('A', 'B'), ('B', 'A', 'C'), ('1', '2'), ('0', '1'), ('A',)]), npart=(2, 6), nmax=6)
        if bonds:
            # Bond angles by default cutoffs: distances clear of the edges of bins of 0.1, no
            # particles at half a box, bonds for all pairs of species
            T = rng.choice([45, 63, 105])
            kw.update(T=T, h=rng.choice([(7, 16), (11, 16), (3, 16)]), Lrange=(5, 10), npart=(5, 9), nmax=3)
            if rng.random() < 0.7:
                kw['species'] = rng.choice([('A', 'B'), ('B', 'A'), ('1', '2')])
        if like:
            kw.update(nd=like['nd'], h=(like['hn'], like['hd']))
            if same or rng.random() < 0.5:
                kw['stp'] = (list(like['steps']), like['blk'])
                kw['npart'] = (len(like['fr'][0]['p']),) * 2
        tr = pool.world(rng, **kw)
        if get_block_size(tr['steps']) != tr['blk']:
            continue
        if like:
            tr.update(tn=like['tn'], td=like['td'])
        for fr in tr['fr']:
            fr['m'] = [1] * len(fr['m'])
        if like and tr['T'] != like['T'] or cm and not bonds and not fits_cm(tr):
            continue
        if bonds and any(len(set(map(tuple, fr['p']))) < len(fr['p']) for fr in tr['fr']):
            continue
        return tr
    raise Reject


def session(rng, cmd=None, nrun=None, multi=False, same=False):
    several = multi or cmd == 'ba' and rng.random() < 0.6
    while True:
        try:
            names = rng.choice(NAMES) if rng.random() < 0.85 else NOSUFFIX
            names = names[:3 if same else rng.choice([1, 2, 2, 3])]
            bonds = cmd == 'ba' or cmd is None and rng.random() < 0.1
            tr = api_world(rng, bonds=bonds)
            if several and len(set(tr['fr'][0]['s'])) == 1:
                continue
            trs = [tr]
            while len(trs) < len(names):
                trs.append(api_world(rng, tr, bonds, same))
            shifted = rng.random() < 0.25
            lib = dict(zip(names, trs))
            tmpls = [s_life.DEFAULT, s_life.DEFAULT, s_life.DEFAULT]
            tmpls += [[['file'], ['lit', '.'], ['symbol'], ['lit', '_'], ['desc']], [['file'], ['lit', '.pp/'], ['symbol'], ['lit', '_'], ['tag'], ['lit', '_x']]]
            if len(names) == 1:
                tmpls.append([['lit', 'Out/'], ['symbol'], ['lit', '/'], ['tag'], ['lit', '.DAT']])
            ops, t = [], 2
            for k, n in enumerate(names):
                ops.append(['put', n, k, t])
            runs = []
            for r in range(nrun or rng.randint(1, 3)):
                t += rng.choice([1, 1, 0])
                again = runs and rng.random() < 0.5
                if r and rng.random() < 0.3:
                    n = rng.choice(names)
                    trs.append(pool.redo(rng, lib[n]))
                    lib[n] = trs[-1]
                    ops.append(['put', n, len(trs) - 1, t])
                elif r and rng.random() < 0.3:
                    ops.append([rng.choice(['touch', 'remove']), rng.randint(0, 20), t])
                t += rng.choice([1, 1, 0])
                for _ in range(40):
                    try:
                        if again:
                            # the same command again, in update mode or on other files
                            e = json.loads(json.dumps(rng.choice(runs)))
                            e['g']['update'] = rng.random() < 0.8
                            e['cli'] = rng.random() < 0.5
                            e['files'] = rng.sample(names, rng.randint(1, len(names)))
                            e = recheck(e, lib)
                        else:
                            e = command(rng, lib, names, shifted, tmpls, cmd or rng.choice([x for x in CMDS if bonds or x != 'ba']))
                        break
                    except Reject:
                        again = again and rng.random() < 0.7
                else:
                    raise Reject
                runs.append(e)
                ops.append(['run', e, t])
            return {'t': 'api', 'trs': trs, 'names': names, 'ops': ops, 'shifted': shifted}
        except Reject:
            continue


# Options which the total (T) and the partial (P) correlations of a command must honour
PARAMS = {'msd': ('norigins', 'tgrid', 'fix_cm', 'no_offset', 'sigma', 'rmax'), 'vacf': ('norigins', 'tgrid'), 'alpha2': ('norigins', 'tgrid'),
          'qst': ('norigins', 'tgrid'), 'qt': ('norigins', 'tgrid'), 'chi4qs': ('norigins', 'tgrid', 'a'),
          'fkt': ('norigins', 'tgrid', 'kgrid', 'nk', 'dk', 'fix_cm'), 'fskt': ('norigins', 'tgrid', 'kgrid', 'nk', 'dk', 'fix_cm'),
          'gr': ('norigins', 'dr', 'rmax'), 'sk': ('norigins', 'kgrid', 'nk', 'dk', 'kmin', 'kmax', 'ksamples', 'weight'),
          'ik': ('norigins', 'kgrid', 'nk', 'dk', 'kmax', 'ksamples'), 'ba': ('norigins', 'dtheta')}


def matters(e, tr, o, drop):
    """Does this parameter change the result?"""
    def values(d):
        cf = reference(worlds.realise(tr), tr, e, o, 'radius.xyz', d)
        cf.compute()
        out = []
        for c in (cf.partial.values() if o['partial'] else [cf]):
            if drop == 'sigma':
                c.analyze()
                out.append(repr(sorted(c.analysis.items())))
            g = c.grid if isinstance(c.grid[0], (list, tuple, numpy.ndarray)) else [c.grid]
            out.append([numpy.array(x, dtype=float) for x in g] + [numpy.array(c.value, dtype=float)])
        return out

    def equal(x, y):
        if isinstance(x, str):
            return x == y
        return all(p.shape == q.shape and numpy.allclose(p, q, rtol=1e-5, atol=1e-5, equal_nan=True) for p, q in zip(x, y))
    if e['cmd'] == 'ik':
        s_life.write_xyz('radius.xyz', tr)
    try:
        x = values(None)
    except Exception:
        return False
    finally:
        if os.path.exists('radius.xyz'):
            os.remove('radius.xyz')
    try:
        if e['cmd'] == 'ik':
            s_life.write_xyz('radius.xyz', tr)
        y = values(drop)
    except Exception:
        return True
    finally:
        if os.path.exists('radius.xyz'):
            os.remove('radius.xyz')
    return not all(equal(p, q) for p, q in zip(x, y))


def effective_session(rng, cmd, part, drop, tries=200):
    """A session where a parameter of the total or of the partial correlations matters"""
    best = None
    n = 0
    while n < tries or best is None:
        n += 1
        s = session(rng, cmd, 1, multi=part == 'P')
        e = [op[1] for op in s['ops'] if op[0] == 'run'][0]
        lib = {op[1]: s['trs'][op[2]] for op in s['ops'] if op[0] == 'put'}
        tr = view(lib, e, e['files'][0])
        todo = [o for o in jobs(tr, e, e['rc'][0]) if o['partial'] == (part == 'P')]
        if not todo:
            continue
        best = s
        if drop == 'weight':
            if 'wt' in e['a']:
                break
            continue
        # the wave-vectors by default are too many
        if drop in ('dk', 'kmin', 'kmax', 'kgrid', 'nk', 'ksamples'):
            if {'ksamples': 'ks'}.get(drop, drop) in e['a']:
                break
        elif matters(e, tr, todo[0], drop):
            break
    return best


def weights_session(rng):
    """Several files with the weights, or the radii, of another one"""
    while True:
        cmd = rng.choice(['sk', 'sk', 'ik'])
        s = session(rng, cmd, 1, same=True)
        e = [op[1] for op in s['ops'] if op[0] == 'run'][0]
        if len(e['files']) > 1 and (e['a'].get('wfile') or e['a'].get('rfile')):
            return s


def clipped_session(rng, cmd):
    """A maximum time which exceeds the first file, not the second one"""
    while True:
        s = session(rng, cmd, 1)
        lib = {op[1]: s['trs'][op[2]] for op in s['ops'] if op[0] == 'put'}
        e = [op[1] for op in s['ops'] if op[0] == 'run'][0]
        tot = lambda n: view(lib, e, n)['steps'][-1] - view(lib, e, n)['steps'][0]
        files = sorted(e['files'], key=tot)
        if tot(files[0]) + 1 >= tot(files[-1]):
            continue
        e['files'] = files
        e['a'].pop('rmsd', None)
        e['a'].update(tmax=[rng.randint(tot(files[0]) + 1, tot(files[-1])), 1], ts=rng.choice([2, 3, 4]), func='linear')
        try:
            recheck(e, lib)
            # the time grids of the last file differ
            v = view(lib, e, files[-1])
            near = lambda a: {min(range(T + 1), key=lambda i: abs(i - x)) for T in [tot(files[-1])] for x in times(cmd, a, v)}
            if near(args(e, v)) == near(dict(args(e, v), tmax=[tot(files[0]), 1])):
                continue
        except Reject:
            continue
        return s


def cutoff_session(rng):
    while True:
        try:
            tr = api_world(rng, bonds=True)
        except Reject:
            continue
        if s_real_edges(tr):
            return {'t': 'cutoff', 'tr': tr, 'o': rng.choice([None, None, 1, 2])}


def recheck(e, lib):
    """The same command on other files"""
    if e['cmd'] == 'ba' or e['a'].get('wfile') or e['a'].get('rfile'):
        raise Reject
    e['rc'] = [[] for _ in e['files']]
    for n in e['files']:
        v = view(lib, e, n)
        if len(v['steps']) < 2 or not untied(v):
            raise Reject
        if e['g']['skip'] > 1 and v['blk'] > 1:
            raise Reject
        a = args(e, v)
        if e['cmd'] in ('fkt', 'fskt') and a['fixcm'] and not fits_cm(v):
            raise Reject
        if e['cmd'] in KS:
            full = config(e, a, v, [])
            if e['kd']:
                same_shells(full, v['fr'][0], v, unit(v))
            sh = s_four.shells(full, v['fr'][0]['L'], v['T'], 400)
            nvec = sum(min(len(x), full['nk']) for x in sh)
            n_, N = len(v['steps']), len(v['fr'][0]['p'])
            if nvec > 60 or {'sk': n_ * N, 'ik': n_ * N * 3, 'fkt': n_ * n_, 'fskt': n_ * n_ * N / 2}[e['cmd']] * nvec > 2500:
                raise Reject
            if e['cmd'] == 'ik' and any(not any(x) for y in sh for x in y):
                raise Reject
        if e['cmd'] == 'gr' and 'dr' not in e['a'] and not s_real_edges(v, 25):
            raise Reject
        for o in jobs(v, e, []):
            for p in o['parts']:
                if not pool.valid(v, o['c'], p['flt'], False) or o['c']['tgk'] == 'rmsd' and rmsd_tied(v, o['c'], p['flt']):
                    raise Reject
    return e


def sessions(prop, rng, tier, scale=1.0):
    big = 3 if tier == 'thorough' else 1
    m = lambda n: max(1, int(n * scale * big))
    for cmd in CMDS:
        for _ in range(m(24 if cmd in ('msd', 'sk', 'ba') else 12)):
            yield session(rng, cmd)
    for _ in range(m(2)):
        for cmd in CMDS:
            for part in 'TP' if cmd != 'ik' else 'T':
                for p in PARAMS[cmd]:
                    yield effective_session(rng, cmd, part, p)
    for _ in range(m(20)):
        yield cutoff_session(rng)
    for _ in range(m(16)):
        yield weights_session(rng)
    for _ in range(m(3)):
        for cmd in ('msd', 'vacf', 'chi4qs'):
            yield clipped_session(rng, cmd)
    for _ in range(m(240)):
        yield session(rng)
