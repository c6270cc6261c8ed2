"""Behaviours of the specification, generated by TLC in simulation mode, which the driver
replays on the implementation."""
import json
import os
import re


def parse(text):
    """A TLA+ value made of tuples, strings, numbers and booleans"""
    t = text.replace('<<', '[').replace('>>', ']').replace('TRUE', 'true').replace('FALSE', 'false')
    return json.loads(t)


LOG = re.compile(r'^<<\s*"LOG",.*?(?=^<<\s*"LOG"|^Progress|^The number of|^Finished|\Z)', re.M | re.S)


def run(pre, tier, seed, work, tlc):
    tables = {}
    for p in pre:
        num = p['num'] * (4 if tier == 'thorough' else 1)
        num = max(1, int(num * max(1.0, float(os.environ.get('VERIF_SCALE', '1')))))
        rc, out = tlc(p['module'] + '.tla', p['cfg'], work, args=['-workers', '1', '-simulate', 'num=%d' % num,
                      '-depth', str(p['depth']), '-seed', str(seed), '-aril', '0'])
        logs = []
        for m in LOG.finditer(out):
            txt = m.group(0).strip()
            # keep the balanced prefix
            depth = 0
            for i in range(len(txt) - 1):
                if txt[i:i + 2] == '<<':
                    depth += 1
                elif txt[i:i + 2] == '>>':
                    depth -= 1
                    if depth == 0 and i > 0:
                        txt = txt[:i + 2]
                        break
            try:
                v = parse(txt)[1]
            except ValueError:
                continue
            if v not in logs:
                logs.append(v)
        if not logs:
            raise RuntimeError('no behaviours from %s: %s' % (p['module'], out[-1500:]))
        tables[p['module']] = logs
    path = os.path.join(work, 'tables.json')
    with open(path, 'w') as fh:
        json.dump(tables, fh)
    return path
