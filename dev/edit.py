"""python3 edit.py MODULE [name-filter]: apply each edit list to a copy of /repo and run every check on it (development aid)"""
import importlib, os, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'analysis'))


def apply(d, edits):
    for f, a, b in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        n = s.count(a)
        if n == 0:
            return 'no match in %s: %r' % (f, a[:80])
        s = s.replace(a, b, 1) if n >= 1 else s
        open(p, 'w').write(s)
    return None


def copy():
    d = os.environ.get('EDITDIR', '/tmp/jlx-edit')
    if not os.path.isdir(d):
        os.makedirs(d)
    for n in ('Cargo.toml', 'Cargo.lock'):
        shutil.copy('/repo/' + n, d)
    shutil.rmtree(d + '/src', ignore_errors=True)
    shutil.copytree('/repo/src', d + '/src')
    return d


def main():
    mod = importlib.import_module(sys.argv[1])
    flt = sys.argv[2] if len(sys.argv) > 2 else ''
    want = os.environ.get('PROPS')
    import check, common
    for name, edits in mod.R:
        if flt and flt not in name:
            continue
        d = copy()
        err = apply(d, edits)
        if err:
            print('%-28s NOT APPLIED %s' % (name, err))
            continue
        os.environ['JLX_REPO'] = d
        try:
            prog = common.export()
        except RuntimeError:
            print('%-28s DOES NOT BUILD' % name)
            continue
        out = []
        for p in (want.split(',') if want else check.TABLE):
            rep = common.Report(p)
            t0 = time.time()
            try:
                importlib.import_module(check.TABLE[p]).run(rep, prog)
            except Exception as ex:
                import traceback
                tb = traceback.format_exc().splitlines()
                out.append('%s EXCEPTION %s %s' % (p, ex, tb[-3].strip()))
                continue
            kf = {(k['property'], k['key']) for k in common.known()['findings']}
            for k, s, x in rep.items:
                if s == 'bad' and (p, k) not in kf:
                    out.append('%s BAD %s: %s' % (p, k, x[0][:int(os.environ.get('W', '250'))]))
                elif s == 'undecided':
                    out.append('%s UND %s: %s' % (p, k, x[:int(os.environ.get('W', '250'))]))
        print('%-28s %s' % (name, 'quiet' if not out else ''))
        for o in out:
            print('    ' + o)
        sys.stdout.flush()


import common
if __name__ == "__main__":
    common.big_stack(main)
