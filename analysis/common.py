"""shared machinery of the checks: export, reporting, known findings"""
import json
import os
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('JLX_REPO', '/repo')
CR = 'japanese_law_xml_schema::'


class Missing(Exception):
    """the code no longer offers something the property is about"""


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.items = []          # (key, status, detail)
        self.cov = {}
        self.notes = []

    def ok(self, key, detail=''):
        self.items.append((key, 'ok', detail))

    def bad(self, key, detail, where=''):
        self.items.append((key, 'bad', (detail, where)))

    def undecided(self, key, detail):
        self.items.append((key, 'undecided', detail))

    def put(self, name, value):
        self.cov[name] = value


def export():
    """MIR of /repo's current source"""
    os.makedirs(os.path.join(ROOT, 'build'), exist_ok=True)
    fd, out = tempfile.mkstemp(prefix='mir-', suffix='.json', dir=os.path.join(ROOT, 'build'))
    os.close(fd)
    try:
        r = subprocess.run(['bash', os.path.join(HERE, 'export.sh'), out], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-3000:])
            raise RuntimeError('export failed')
        from engine import Prog
        return Prog(out)
    finally:
        for p in (out,):
            if os.path.exists(p):
                os.unlink(p)


def known():
    p = os.path.join(ROOT, 'known_findings.json')
    with open(p) as f:
        return json.load(f)


def finish(rep, tier, t0):
    kf = {(k['property'], k['key']): k for k in known()['findings']}
    bad = [(k, d) for k, s, d in rep.items if s == 'bad']
    und = [(k, d) for k, s, d in rep.items if s == 'undecided']
    okn = sum(1 for _, s, _ in rep.items if s == 'ok')
    listed, new = [], []
    for k, d in bad:
        (listed if (rep.prop, k) in kf else new).append((k, d))
    cov = dict(rep.cov)
    cov['obligations'] = len(rep.items)
    cov['discharged'] = okn
    cov['undecided'] = [{'obligation': k, 'why': d[:300]} for k, d in und]
    cov['known_findings_seen'] = [k for k, _ in listed]
    cov['violations'] = [{'obligation': k, 'what': d[0][:1500], 'where': d[1]} for k, d in new]
    cov['samples'] = [{'obligation': k, 'result': s, 'detail': (d if isinstance(d, str) else d[0])[:300]} for k, s, d in rep.items[:12]]
    cov.setdefault('explanation', EXPLAIN.get(rep.prop, ''))
    if rep.notes:
        cov['notes'] = rep.notes
    ev = {'property': rep.prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'wall_s': round(time.time() - t0, 2)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    path = os.path.join(ROOT, 'evidence', rep.prop + '.json')
    with open(path, 'w') as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d known findings, %d violations (%.1f s)'
          % (rep.prop, len(rep.items), okn, len(und), len(listed), len(new), time.time() - t0))
    for k, d in und:
        print('UNDECIDED property=%s %s: %s' % (rep.prop, k, d[:300]))
    for k, d in listed:
        print('KNOWN-FINDING: property=%s %s' % (rep.prop, kf[(rep.prop, k)]['text']))
    for k, d in new:
        print('  violated: %s' % k)
        print('    %s' % d[0][:1200])
        if d[1]:
            print('    at %s' % d[1])
    if new:
        print('VIOLATION property=%s replay=%s' % (rep.prop, os.path.relpath(path, ROOT)))
        return 1
    return 0


EXPLAIN = json.load(open(os.path.join(HERE, 'explain.json')))


def big_stack(f):
    box = {}

    def g():
        try:
            box['r'] = f()
        except BaseException:
            import traceback
            box['e'] = traceback.format_exc()
    threading.stack_size(1 << 30)
    t = threading.Thread(target=g)
    t.start()
    t.join()
    if 'e' in box:
        print(box['e'][-3000:])
        sys.exit(2)
    return box['r']
