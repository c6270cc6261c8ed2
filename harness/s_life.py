"""Sessions on output files and update mode (C14, C15)."""
import hashlib
import json
import os
import shutil
import tempfile
import pool
import worlds
from s_four import Reject
from pool import sci

T0 = 1500000000
TICK = 250000000  # ns: modification times differ by fractions of a second

FIELDS = ['species', 'position', 'velocity', 'mass', 'radius']


# ---- execution ----------------------------------------------------------------------

def write_xyz(path, tr, fields=FIELDS):
    from atooms.trajectory import TrajectoryXYZ
    with TrajectoryXYZ(path, 'w', fields=fields) as th:
        th.timestep = tr['tn'] / tr['td']
        th.precision = 12
        for f, fr in enumerate(tr['fr']):
            th.write(worlds.realise_frame(tr, fr), tr['steps'][f])


def utime(path, t):
    ns = T0 * 1000000000 + int(t) * TICK
    os.utime(path, ns=(ns, ns))


def parse(path):
    """Rows and header of a data file, as any other program would read it"""
    rows, hdr, ok = [], [], True
    try:
        with open(path) as fh:
            for line in fh:
                line = line.rstrip('\n')
                if line.startswith('#'):
                    k, _, v = line[1:].partition(':')
                    try:
                        hdr.append([k.strip(), sci(float(v))])
                    except ValueError:
                        pass
                    continue
                rows.append([sci(float(x)) for x in line.split()])
    except (ValueError, UnicodeDecodeError):
        ok = False
    return {'ok': ok, 'rows': rows, 'hdr': hdr}


class Disk(object):
    """The files below a directory, but for the input files"""

    def __init__(self, root, inputs):
        self.root, self.inputs = root, set(os.path.normpath(x) for x in inputs)
        self.seen = self.snapshot()

    def paths(self):
        out = []
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.normpath(os.path.relpath(os.path.join(d, f), self.root))
                if p not in self.inputs:
                    out.append(p)
        return sorted(out)

    def snapshot(self):
        s = {}
        for p in self.paths():
            st = os.stat(os.path.join(self.root, p))
            with open(os.path.join(self.root, p), 'rb') as fh:
                s[p] = (st.st_mtime_ns, st.st_size, hashlib.md5(fh.read()).hexdigest())
        return s

    def changes(self, t, names=None):
        """New or modified files, whose modification time is set to t"""
        new = self.snapshot()
        wrote = [p for p in sorted(new) if new[p] != self.seen.get(p)]
        gone = [p for p in sorted(self.seen) if p not in new]
        out = []
        for p in wrote:
            utime(os.path.join(self.root, p), t)
            out.append(dict(parse(os.path.join(self.root, p)), path=(names or {}).get(p, p)))
        self.seen = self.snapshot()
        return out, gone


def template(tmpl):
    f = {'file': '{trajectory.filename}', 'symbol': '{symbol}', 'short': '{short_name}', 'long': '{long_name}',
         'tag': '{tag}', 'desc': '{tag_description}'}
    return ''.join(x[1] if x[0] == 'lit' else f[x[0]] for x in tmpl)


DEFAULT = [['file'], ['lit', '.pp.'], ['symbol'], ['lit', '.'], ['tag']]


def execute(s):
    import atooms.postprocessing as pp
    import atooms.postprocessing.core as core
    from atooms.trajectory import Trajectory
    from atooms.trajectory.decorators import Sliced
    evs = [{'ev': 'begin'}]
    old, oldpath = os.getcwd(), core.pp_output_path
    root = tempfile.mkdtemp(dir=old)
    os.chdir(root)
    path = s['file']
    objs = {}

    def load(v):
        if path:
            if os.path.dirname(path):
                os.makedirs(os.path.dirname(path), exist_ok=True)
            write_xyz(path, s['trs'][v])

    def trajectory(v, how):
        tr = s['trs'][v]
        if not path:
            return worlds.realise(tr)
        if how == 'path':
            return path
        th = Trajectory(path)
        th.block_size = tr['blk']
        if how == 'sliced':
            th = Sliced(th, slice(0, None, 1))
        if how == 'cached':
            th.cache = True
        return th

    def attempt(f):
        try:
            r = f()
            r.update(ok=True, exc='')
        except Exception as e:
            r = {'ok': False, 'exc': type(e).__name__, 'msg': str(e)[:200]}
        r.setdefault('res', [])
        return r

    def normal(p):
        return os.path.normpath(p)
    try:
        ver = 0
        load(0)
        disk = Disk(root, [path] if path else [])
        if path:
            utime(path, s['t0'])
        evs.append({'ev': 'lmodify', 'tr': s['trs'][0], 't': s['t0']})
        for op in s['ops']:
            k = op[0]
            if k == 'modify':
                ver = op[1]
                load(ver)
                if path:
                    utime(path, op[2])
                evs.append({'ev': 'lmodify', 'tr': s['trs'][ver], 't': op[2]})
            elif k == 'touchtraj':
                if path:
                    utime(path, op[1])
                evs.append({'ev': 'ltouchtraj', 't': op[1]})
            elif k == 'touch':
                ps = disk.paths()
                if ps:
                    p = ps[op[1] % len(ps)]
                    utime(p, op[2])
                    disk.seen = disk.snapshot()
                    evs.append({'ev': 'ltouch', 'path': p, 't': op[2]})
            elif k == 'remove':
                ps = disk.paths()
                if ps:
                    p = ps[op[1] % len(ps)]
                    os.remove(p)
                    disk.seen = disk.snapshot()
                    evs.append({'ev': 'lremove', 'path': p})
            elif k == 'new':
                o = s['objs'][op[1]]
                tr = s['trs'][ver]
                core.pp_output_path = template(o['gtmpl'])

                def go():
                    cf = pool.build(trajectory(ver, op[2]), tr, o)
                    if o['tmpl'] != o['gtmpl']:
                        cf.output_path = template(o['tmpl'])
                    objs[op[1]] = cf
                    return {}
                objs.pop(op[1], None)
                r = attempt(go)
                core.pp_output_path = oldpath
                if not r['ok']:
                    evs.append({'ev': 'crash', 'what': 'new-' + r['exc']})
                    return evs
                cc = pool.event_cfg(o['c'])
                # paths are recorded relative to the current directory
                cc.update(tmpl=o['tmpl'], gtmpl=o['gtmpl'], file=normal(path) if path else '', parts=o['parts'])
                evs.append({'ev': 'new', 'o': 'l%d' % op[1], 'c': cc})
            else:
                o = s['objs'][op[1]]
                cf = objs[op[1]]
                tr = s['trs'][ver]
                t = op[-1]

                def go():
                    full = True
                    if k == 'do':
                        if op[2]:
                            cf.do(update=True)
                        elif op[3]:
                            cf()
                        else:
                            cf.do()
                        full = None
                    elif k == 'compute':
                        cf.compute()
                    elif k == 'write':
                        cf.write()
                        full = False
                    elif k == 'read':
                        for m in (cf.partial.values() if o['partial'] else [cf]):
                            m.read()
                        full = False
                    elif k == 'need':
                        return {'need': bool(cf.need_update())}
                    return {'full': full}
                r = attempt(go)
                wrote, gone = disk.changes(t)
                if r['ok'] and k != 'need':
                    if r['full'] is None:
                        r['full'] = not op[2] or len(wrote) > 0 or not path
                    full = r['full']
                    r2 = attempt(lambda: {'res': [pool.observe(m, src, tr, o, full) for m, src in pool.members(cf, o)]})
                    r['res'], r['ok'], r['exc'] = r2['res'], r2['ok'], r2['exc'] and 'observe-' + r2['exc']
                r.pop('full', None)
                e = dict(r, ev='l' + k, o='l%d' % op[1], t=t, wrote=wrote, gone=gone)
                if k == 'do':
                    e['upd'] = op[2]
                if k == 'need':
                    e.setdefault('need', False)
                evs.append(e)
        return evs
    finally:
        core.pp_output_path = oldpath
        os.chdir(old)
        shutil.rmtree(root, ignore_errors=True)


# ---- generation -----------------------------------------------------------------------

TEMPLATES = [
    DEFAULT,
    DEFAULT,
    [['lit', 'out/'], ['symbol'], ['lit', '/'], ['tag'], ['lit', '.dat']],
    [['file'], ['lit', '.'], ['symbol'], ['lit', '_'], ['desc']],
    [['lit', 'a/b/'], ['long'], ['lit', '-'], ['tag']],
    [['lit', 'res_'], ['short'], ['lit', '.'], ['tag']],
    [['lit', 'res.'], ['tag'], ['lit', '.'], ['symbol']],
    [['symbol'], ['lit', '-'], ['tag'], ['lit', '.txt']],
    [['file'], ['lit', '.pp/'], ['symbol'], ['lit', '_'], ['tag'], ['lit', '_x']],
    [['file'], ['lit', '.pp.'], ['symbol'], ['lit', '_.'], ['tag']],
    [['symbol'], ['lit', '._-'], ['tag'], ['lit', '_.']],
    [['file'], ['lit', '-.'], ['symbol'], ['lit', '-_'], ['tag']],
    [['lit', 'c d/'], ['symbol'], ['lit', '.'], ['desc'], ['lit', '.'], ['tag']],
]
FILES = ['x.xyz', 'x.xyz', 'data/x.xyz', 'd-1/run_2.xyz', 'T0.45.xyz', 'run--a..b/x__1.xyz', '_d/-x.xyz']


def life_objs(rng, trs, kinds, n, partial, file):
    objs = []
    for j in range(n):
        kind = rng.choice(kinds)
        for _ in range(60):
            try:
                o = pool.describe(rng, trs[0], kind, trs, partial=partial(j))
                break
            except Reject:
                kind = rng.choice(kinds)
        else:
            raise Reject
        if file:
            o['tmpl'] = rng.choice(TEMPLATES)
            o['gtmpl'] = o['tmpl'] if rng.random() < 0.7 else rng.choice(TEMPLATES)
        else:
            o['tmpl'] = o['gtmpl'] = DEFAULT
        objs.append(o)
    return objs


def opens(rng):
    return rng.choice(['obj', 'obj', 'cached', 'sliced', 'path'])


def world(rng, need2=False, file=''):
    while True:
        tr = pool.world(rng, species=rng.choice([('A', 'B'), ('B', 'A', 'C'), ('1', '2')]), npart=(2, 5), nmax=4)
        # blocks are not stored in xyz files
        if tr['blk'] > 1:
            continue
        if file:
            # xyz files written by atooms cannot restore the masses
            for fr in tr['fr']:
                fr['m'] = [1] * len(fr['m'])
        if need2 and len(set(tr['fr'][0]['s'])) < 2:
            continue
        return tr


def openable(tr, how):
    """Opened by its path, the block size is guessed by atooms"""
    st = tr['steps']
    d = {b - a for a, b in zip(st, st[1:])}
    return how if how != 'path' or len(d) == 1 else 'obj'


def content_session(rng, kinds=None):
    """C14: what is written and read back"""
    while True:
        file = rng.choice(FILES) if rng.random() < 0.92 else ''
        par = rng.random() < 0.4
        try:
            tr = world(rng, par, file)
            trs = [tr]
            n = rng.choice([1, 1, 2])
            objs = life_objs(rng, trs, kinds or list(pool.ALL), n, lambda j: par and j == 0, file)
        except Reject:
            continue
        ops, t = [], 3
        for k in range(n):
            ops.append(['new', k, openable(tr, opens(rng))])
        for k in range(n):
            h = rng.choice(['do', 'do', 'call', 'cw'])
            if objs[k]['partial'] and h == 'call':
                h = 'do'
            t += 1
            if h == 'cw':
                ops += [['compute', k, t], ['write', k, t]]
            else:
                ops.append(['do', k, False, h == 'call', t])
            if file and rng.random() < 0.3:
                ops.append(['compute', k, t + 1])
                t += 1
        if file:
            for k in range(n):
                # somebody else reads it
                ops.append(['new', k, openable(tr, opens(rng))])
                ops.append(['read', k, t])
                if rng.random() < 0.3:
                    ops.append(['write', k, t + 1])
                    ops.append(['read', k, t + 1])
                    t += 1
                if rng.random() < 0.4:
                    # a correlation which has been read can be computed
                    ops.append(rng.choice([['compute', k, t + 1], ['do', k, False, False, t + 1]]))
                    t += 1
        if not all_distinct(objs, file) or any(rewrites(ops, objs)):
            continue
        return {'t': 'life', 'trs': trs, 'file': file, 'objs': objs, 'ops': ops, 't0': 1}


def rewrites(ops, objs):
    """Writing after reading: relaxation times and moments are not read back"""
    for i, op in enumerate(ops):
        if op[0] == 'write' and objs[op[1]]['c']['kind'] in ('fskt', 'fkt', 'chi4') and ['read', op[1], op[2]] in ops[i:] \
                and any(x[0] == 'read' and x[1] == op[1] for x in ops[:i]):
            yield True


def all_distinct(objs, file):
    """Objects of the same session do not share their files"""
    keys = set()
    for o in objs:
        for p in o['parts']:
            k = (o['c']['kind'], json.dumps(p, sort_keys=True), json.dumps(o['tmpl']))
            if k in keys:
                return False
            keys.add(k)
        # without the tag, the parts or symbols would collide
        names = {x[0] for x in o['tmpl']}
        if not file:
            continue
        if o['c']['kind'] == 'chi4':
            g = {x[0] for x in o['gtmpl']}
            if not ({'tag', 'desc'} & g):
                return False
    return True


def update_session(rng, log):
    """C15: a history generated by TLC from MC_Life"""
    while True:
        file = rng.choice(FILES)
        try:
            tr = world(rng, True, file)
            nver = 1 + sum(1 for op in log if op[0] == 'modify')
            trs = [tr]
            while len(trs) < nver:
                trs.append(pool.redo(rng, tr))
            kinds = ['msd', 'vacf', 'qst', 'qt', 'chi4', 'gr', 'sk', 'fskt', 'fkt', 'alpha2']
            objs = life_objs(rng, trs, kinds, 3, lambda j: j == 2, file)
        except Reject:
            continue
        if not all_distinct(objs, file):
            continue
        ops = []
        fresh = {}
        ver = 0
        for op in log:
            if op[0] == 'modify':
                ver += 1
                ops.append(['modify', ver, op[1] + 1])
                fresh = {}
            elif op[0] == 'touchtraj':
                ops.append(['touchtraj', op[1] + 1])
            elif op[0] == 'touchfile':
                ops.append(['touch', 3 * op[1] + op[2] + rng.randint(0, 1), op[3] + 1])
            elif op[0] == 'remove':
                ops.append(['remove', 3 * op[1] + op[2] + rng.randint(0, 1)])
            else:
                k = op[1] - 1
                if k not in fresh or rng.random() < 0.4:
                    ops.append(['new', k, openable(tr, opens(rng))])
                    fresh[k] = True
                if rng.random() < 0.2:
                    ops.append(['need', k, op[3] + 1])
                ops.append(['do', k, op[2], not objs[k]['partial'] and rng.random() < 0.3, op[3] + 1])
        return {'t': 'life', 'trs': trs, 'file': file, 'objs': objs, 'ops': ops, 't0': 2}


def ram_session(rng):
    """In-memory trajectories are always recomputed, and nothing is written"""
    while True:
        try:
            tr = world(rng, True)
            objs = life_objs(rng, [tr], list(pool.ALL), 2, lambda j: j == 1, '')
        except Reject:
            continue
        ops = [['new', 0, 'obj'], ['new', 1, 'obj']]
        for _ in range(3):
            k = rng.randint(0, 1)
            ops.append(['need', k, 3])
            ops.append(['do', k, rng.random() < 0.7, False, 3])
        return {'t': 'life', 'trs': [tr], 'file': '', 'objs': objs, 'ops': ops, 't0': 1}


def sessions(prop, rng, tier, scale=1.0):
    big = 3 if tier == 'thorough' else 1
    m = lambda n: max(1, int(n * scale * big))
    if prop == 'C14':
        for _ in range(m(700)):
            yield content_session(rng)
        for _ in range(m(120)):
            yield content_session(rng, kinds=['chi4', 'fskt', 'fkt'])
    elif prop == 'C15':
        with open(os.environ['VERIF_TABLES']) as fh:
            logs = json.load(fh)['MC_Life']
        for log in logs[:m(600)]:
            yield update_session(rng, log)
        for _ in range(m(40)):
            yield ram_session(rng)
