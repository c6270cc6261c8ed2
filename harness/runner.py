"""Run the check of one property.

  runner.py PROPERTY            (VERIF_SEED, VERIF_TIER from the environment)
  runner.py --replay FILE       re-run one recorded session

Exit code 0: the property held on everything explored.  Exit code 1 and a line
VIOLATION property=<id> replay=<path>: it did not.  Other exit codes: the machinery failed.
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
sys.path.insert(0, HERE)
import build
import catalogue

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def tlc(module, cfg, workdir, env=None, args=(), heap='2g', timeout=800):
    """Run TLC on a module of /verif/spec; returns (returncode, output)"""
    e = dict(os.environ)
    e.update(env or {})
    meta = tempfile.mkdtemp(prefix='tlc-', dir=workdir)
    cmd = ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-Xss64m', '-Xmx' + heap,
           '-DTLA-Library=' + SPEC, '-Djava.io.tmpdir=' + meta,
           '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta, '-config', os.path.join(SPEC, cfg)]
    cmd += list(args) + [os.path.join(SPEC, module)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=meta, timeout=timeout)
        rc, out = p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as err:
        rc, out = 124, (err.stdout or b'').decode(errors='replace')
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


OK = re.compile(r'^<<"OK", "([0-9.]+)">>', re.M)
BAD = re.compile(r'<<\s*"BAD",\s*"([0-9.]+)",\s*\{(.*?)\}\s*>>', re.S)
STATES = re.compile(r'(\d+) states generated.*?(\d+) distinct states found')


def validate(trace, workdir):
    """Validate one trace shard.  Returns (ok ids, {bad id: [clauses]}, states, distinct, error)"""
    rc, out = tlc('PPTrace.tla', 'PPTrace.cfg', workdir, env={'PP_TRACE': trace}, args=['-workers', '1'])
    with open(trace + '.out', 'w') as fh:
        fh.write(out)
    ok = OK.findall(out)
    bad = {n: re.findall(r'"([^"]*)"', c) for n, c in BAD.findall(out)}
    st = STATES.findall(out)
    states = tuple(int(x) for x in st[-1]) if st else (0, 0)
    err = None
    if rc != 0 or 'No error has been found' not in out:
        i = out.find('Error:')
        err = (out[i:i + (20000 if os.environ.get('VERIF_ALL') else 1500)] if i >= 0 else out[-1500:]) or 'rc=%d' % rc
    return ok, bad, states, err


def evaluation_error(err):
    """Did TLC fail to evaluate the specification on the observed values?"""
    if 'Parsing or semantic analysis failed' in err or 'OutOfMemory' in err or 'StackOverflow' in err:
        return False
    return 'Attempted' in err or 'evaluat' in err or 'Overflow' in err or 'overflow' in err or 'unexpected exception' in err


def err_session(trace, groups):
    """The session at which the validation stopped: the number of the last line consumed
    is that of the states generated"""
    with open(trace + '.out') as fh:
        out = fh.read()
    st = re.findall(r'^l = (\d+)|/\\ l = (\d+)', out, re.M)
    last = max([int(a or b) for a, b in st] or [0])
    n = 0
    for k in sorted(groups):
        n += len(groups[k])
        if last and n >= last:
            return k
    seen = [int(x.split('.')[0]) for x in OK.findall(out)] + [int(x.split('.')[0]) for x, _ in BAD.findall(out)]
    later = [k for k in sorted(groups) if not seen or k >= max(seen)]
    return later[0]


def known_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as fh:
        return {x['clause']: x for x in json.load(fh)['findings']}


def split_sessions(trace):
    """The trace lines grouped by session"""
    groups = {}
    with open(trace) as fh:
        for line in fh:
            k = int(json.loads(line)['n'].split('.')[0])
            groups.setdefault(k, []).append(line)
    return groups


def main():
    t0 = time.time()
    replay = None
    if sys.argv[1] == '--replay':
        replay = os.path.abspath(sys.argv[2])
        with open(replay) as fh:
            prop = json.load(fh)['property']
    else:
        prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = tempfile.mkdtemp(prefix='pp-%s-' % prop)
    try:
        code = check(prop, tier, seed, work, replay, t0)
    finally:
        if os.environ.get('VERIF_KEEP'):
            print('work', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def design_models(prop, tier, work):
    """Model-check the design models of a property in the background.  Models with 'expect': 'violation'
    lack an assumption on purpose: TLC must find the counterexample."""
    def one(m):
        t = time.time()
        limit = m.get('timeout', 300 if tier == 'quick' else 700)
        rc, out = tlc(m['module'], m['cfg'], work, args=['-workers', str(m.get('workers', 2))] + m.get('args', []),
                      timeout=limit)
        st = STATES.findall(out)
        st = tuple(int(x) for x in st[-1]) if st else (0, 0)
        if not st[0]:
            pr = re.findall(r'([0-9,]+) states generated .*?([0-9,]+) distinct', out)
            st = tuple(int(x.replace(',', '')) for x in pr[-1]) if pr else (0, 0)
        if m.get('expect') == 'violation':
            good = 'is violated' in out
        else:
            # a model which does not finish in time held on what was explored
            good = (rc == 0 and 'No error has been found' in out) or (rc == 124 and 'Error:' not in out)
        return {'module': m['module'], 'cfg': m['cfg'], 'ok': good, 'finished': rc != 124, 'expect': m.get('expect', 'holds'),
                'generated': st[0], 'distinct': st[1],
                'wall_s': round(time.time() - t, 1), 'out': '' if good else out[-3000:]}
    ms = [m for m in catalogue.DESIGN.get(prop, []) if tier == 'thorough' or not m.get('thorough')]
    ex = ThreadPoolExecutor(2)
    return [ex.submit(one, m) for m in ms]


def check(prop, tier, seed, work, replay, t0):
    so = build.build_all()
    env = dict(os.environ)
    env.update({'VERIF_SO': json.dumps(so), 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1',
                'OPENBLAS_NUM_THREADS': '1', 'MPLBACKEND': 'Agg', 'VERIF_SEED': str(seed), 'HOME': work,
                'VERIF_WORK': work})
    models = [] if replay else design_models(prop, tier, work)
    # The thorough check goes on with further seeds until its time is over
    budget = float(os.environ.get('VERIF_BUDGET', '560')) if tier == 'thorough' else 0
    tot = Tally()
    code = 0
    r = 0
    while True:
        c = one_round(prop, tier, seed + 1000 * r, work, replay, env, tot)
        r += 1
        if c == 2:
            return 2
        code = max(code, c)
        used = time.time() - t0
        if replay or code or used + 1.3 * used / r > budget:
            break
    for k in sorted(tot.known):
        print('KNOWN-FINDING: property=%s %s (%d sessions)' % (prop, known_findings()[k]['what'], tot.known[k]))
    mods = [f.result() for f in models]
    for m in mods:
        if not m['ok']:
            print('ERROR design model %s failed\n%s' % (m['module'], m['out']))
            code = code or 2
    if tot.verdicts == 0:
        print('ERROR no verdicts')
        code = code or 2
    if not replay:
        evidence(prop, tier, seed, tot, r, mods, time.time() - t0)
    print('%s %s: %d sessions, %d verdicts, %d bad, %d rounds; driver %.1fs, TLC %.1fs, total %.1fs'
          % (prop, tier, tot.sessions, tot.verdicts, tot.bad, r, tot.t_driver, tot.t_tlc, time.time() - t0))
    return code


class Tally(object):
    """What was covered so far"""
    def __init__(self):
        self.sessions = self.verdicts = self.bad = self.generated = self.distinct = self.violations = 0
        self.t_driver = self.t_tlc = 0.
        self.known, self.kinds, self.unique, self.samples = {}, {}, set(), []

    def add(self, sessions):
        def clip(s):
            txt = json.dumps(s)
            return txt if len(txt) < 1500 else txt[:1500] + '...'
        self.sessions += len(sessions)
        for s in sessions:
            self.kinds[s.get('t', '?')] = self.kinds.get(s.get('t', '?'), 0) + 1
            self.unique.add(hash(json.dumps(s, sort_keys=True)))
        if not self.samples and sessions:
            self.samples = [clip(sessions[i]) for i in sorted({0, len(sessions) // 2, len(sessions) - 1})]


def one_round(prop, tier, seed, work, replay, env, tot):
    t0 = time.time()
    pre = catalogue.PREPARE.get(prop)
    env = dict(env, VERIF_SEED=str(seed))
    if pre and not replay:
        import prepare
        env['VERIF_TABLES'] = prepare.run(pre, tier, seed, work, tlc)
    elif replay:
        env['VERIF_TABLES'] = ''
    out = os.path.join(work, 'run')
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    args = [build.PYTHON, os.path.join(HERE, 'driver.py')]
    args += ['--replay', replay, out] if replay else [prop, tier, str(seed), out]
    p = subprocess.run(args, env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=3600)
    if p.returncode != 0:
        sys.stderr.write(p.stdout.decode(errors='replace')[-5000:])
        print('ERROR driver failed for %s' % prop)
        return 2
    t1 = time.time()
    with open(os.path.join(out, 'sessions.json')) as fh:
        sessions = json.load(fh)
    shards = sorted(glob.glob(os.path.join(out, 'trace*.ndjson')))
    with ThreadPoolExecutor(6) as ex:
        res = list(ex.map(lambda t: validate(t, work), shards))
    t2 = time.time()
    ok, bad, gen, dist = [], {}, 0, 0
    nbad = 0
    for trace, (o, b, st, err) in zip(shards, res):
        if err is not None and not evaluation_error(err):
            sys.stderr.write(err[:1500] + '\n')
            print('ERROR TLC failed on %s' % os.path.basename(trace))
            return 2
        while err is not None:
            # TLC could not evaluate the verdict of a line: that session cannot be understood,
            # the following ones are validated without it
            groups = split_sessions(trace)
            order = sorted(groups)
            cul = err_session(trace, groups)
            if nbad < 3:
                sys.stderr.write('session %d: %s\n' % (cul, err[:20000 if os.environ.get('VERIF_ALL') else 800]))
            nbad += 1
            b['%d.0' % cul] = ['malformed-observation']
            rest = [k for k in order if k > cul]
            if not rest or nbad > 40:
                break
            trace = trace + 'r'
            with open(trace, 'w') as fh:
                for k in rest:
                    fh.writelines(groups[k])
            o2, b2, st2, err = validate(trace, work)
            o, b = list(o) + o2, dict(b, **b2)
            if err is not None and not evaluation_error(err):
                print('ERROR TLC failed:', err[:500])
                return 2
        ok += o
        bad.update(b)
        gen += st[0]
        dist += st[1]
    # Verdicts
    kf = known_findings()
    viol = {}
    for n, clauses in bad.items():
        for c in clauses:
            if c in kf and kf[c]['property'] == prop:
                tot.known[c] = tot.known.get(c, 0) + 1
            else:
                viol.setdefault(int(n.split('.')[0]), []).append((n, c))
    code = 0
    if viol:
        code = 1
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        shown = set()
        for k in sorted(viol):
            key = (sessions[k].get('t'), viol[k][0][1])
            if not os.environ.get('VERIF_ALL'):
                if key in shown:
                    continue
                shown.add(key)
                if len(shown) > 12:
                    break
            path = os.path.join(VERIF, 'replay', '%s-%d-%d.json' % (prop, seed, k))
            with open(path, 'w') as fh:
                json.dump({'property': prop, 'session': sessions[k], 'verdict': viol[k],
                           'tables': ''}, fh)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  clauses: %s' % ', '.join('%s@%s' % (c, n) for n, c in viol[k][:6]))
        print('%d sessions of %d violate %s' % (len(viol), len(sessions), prop))
    tot.add(sessions)
    tot.verdicts += len(set(ok)) + len(bad)
    tot.bad += len(bad)
    tot.violations += len(viol)
    tot.generated += gen
    tot.distinct += dist
    tot.t_driver += t1 - t0
    tot.t_tlc += t2 - t1
    return code


def evidence(prop, tier, seed, tot, rounds, mods, wall):
    cov = {'states': tot.generated + sum(m['generated'] for m in mods),
           'transitions': tot.generated + sum(m['generated'] for m in mods),
           'traces_validated_against_impl': tot.sessions,
           'samples': tot.samples,
           'verdicts_evaluated': tot.verdicts, 'verdicts_failed': tot.bad,
           'distinct_sessions': len(tot.unique), 'sessions_by_kind': tot.kinds, 'rounds': rounds,
           'trace_states_distinct': tot.distinct,
           'design_models': [{k: m[k] for k in ('module', 'cfg', 'expect', 'ok', 'finished', 'generated', 'distinct', 'wall_s')} for m in mods],
           'exhaustive': False}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': catalogue.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': tot.violations}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print('ERROR machinery failure')
        sys.exit(2)
