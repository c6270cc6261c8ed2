"""Generate the sessions of a property and execute them against the real code.

Usage: driver.py PROPERTY TIER SEED OUTDIR [NSESSIONS_SCALE]
       driver.py --replay FILE OUTDIR

Each session is executed in a worker process; if the worker dies or hangs, the session
is recorded as crashed and the others go on.
"""
import importlib
import json
import multiprocessing
import os
import random
import select
import signal
import sys
import time
import traceback

HANG = 90.0


def _worker(sessions, todo, path, pipe, scratch):
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    with open(path, 'a') as out:
        for i in todo:
            os.write(pipe, b'%d\n' % i)
            try:
                events = importlib.import_module(sessions[i]['m']).execute(sessions[i])
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = [t for t in tb if 'postprocessing' in t.filename]
                where = where[-1] if where else tb[-1]
                events = [{'ev': 'begin'},
                          {'ev': 'crash', 'what': type(e).__name__,
                           'msg': str(e)[:300], 'where': '%s:%s' % (os.path.basename(where.filename), where.lineno)}]
            out.write(json.dumps({'i': i, 'events': events}) + '\n')
            out.flush()
    os.write(pipe, b'end\n')
    os._exit(0)


def run_all(sessions, outdir, nw=6):
    results = {}
    jobs = []
    for k in range(nw):
        todo = list(range(k, len(sessions), nw))
        if todo:
            jobs.append({'k': k, 'todo': todo})

    def start(job):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                _worker(sessions, job['todo'], os.path.join(outdir, 'raw%d' % job['k']), w,
                        os.path.join(outdir, 'scratch%d' % job['k']))
            finally:
                os._exit(3)
        os.close(w)
        job.update(pid=pid, fd=r, buf=b'', cur=None, t=time.time(), done=False)

    for j in jobs:
        start(j)
    active = list(jobs)
    while active:
        rd, _, _ = select.select([j['fd'] for j in active], [], [], 1.0)
        for j in list(active):
            dead = False
            if j['fd'] in rd:
                data = os.read(j['fd'], 65536)
                if not data:
                    dead = True
                j['buf'] += data
                while b'\n' in j['buf']:
                    line, j['buf'] = j['buf'].split(b'\n', 1)
                    j['t'] = time.time()
                    if line == b'end':
                        j['done'] = True
                    else:
                        j['cur'] = int(line)
            what = None
            if not dead and time.time() - j['t'] > HANG:
                os.kill(j['pid'], signal.SIGKILL)
                what, dead = 'hang', True
            if dead:
                os.close(j['fd'])
                _, status = os.waitpid(j['pid'], 0)
                active.remove(j)
                if j['done']:
                    continue
                if what is None:
                    what = 'signal-%d' % os.WTERMSIG(status) if os.WIFSIGNALED(status) else 'exit-%d' % os.WEXITSTATUS(status)
                cur = j['cur']
                if cur is None:
                    raise RuntimeError('worker failed to start: ' + what)
                results[cur] = [{'ev': 'begin'}, {'ev': 'crash', 'what': what, 'msg': '', 'where': ''}]
                j['todo'] = [i for i in j['todo'] if i > cur]
                if j['todo']:
                    start(j)
                    active.append(j)
    for j in jobs:
        path = os.path.join(outdir, 'raw%d' % j['k'])
        if os.path.exists(path):
            with open(path) as fh:
                for line in fh:
                    try:
                        x = json.loads(line)
                    except ValueError:
                        continue
                    results.setdefault(x['i'], x['events'])
    return results


def main():
    import target  # noqa: F401
    if sys.argv[1] == '--replay':
        with open(sys.argv[2]) as fh:
            rec = json.load(fh)
        prop, sessions, outdir = rec['property'], [rec['session']], sys.argv[3]
    else:
        prop, tier, seed, outdir = sys.argv[1:5]
        sessions = None
    import catalogue
    os.makedirs(outdir, exist_ok=True)
    if sessions is None:
        rng = random.Random('%s-%s' % (prop, seed))
        budget = float(os.environ.get('VERIF_SCALE', '1')) * catalogue.SCALE.get(prop, 4)
        sessions = []
        for name in catalogue.MODULE[prop]:
            mod = importlib.import_module(name)
            for s in mod.sessions(prop, rng, tier, budget):
                s['m'] = name
                sessions.append(s)
    results = run_all(sessions, outdir)
    missing = [i for i in range(len(sessions)) if i not in results]
    if missing:
        raise RuntimeError('sessions without result: %s' % missing[:5])
    with open(os.path.join(outdir, 'sessions.json'), 'w') as fh:
        json.dump(sessions, fh)
    # Shard the traces
    nshard = int(os.environ.get('VERIF_SHARDS', '6'))
    cost = [sum(len(json.dumps(e)) * e.get('cost', 1) for e in results[i]) for i in range(len(sessions))]
    load = [0] * nshard
    shards = [[] for _ in range(nshard)]
    for i in sorted(range(len(sessions)), key=lambda i: -cost[i]):
        k = load.index(min(load))
        load[k] += cost[i]
        shards[k].append(i)
    for k in range(nshard):
        if not shards[k]:
            continue
        with open(os.path.join(outdir, 'trace%d.ndjson' % k), 'w') as fh:
            for i in sorted(shards[k]):
                for n, e in enumerate(results[i]):
                    e['n'] = '%d.%d' % (i, n)
                    fh.write(json.dumps(e) + '\n')
    os._exit(0)


if __name__ == '__main__':
    main()
