"""C21: text, number and listing operations never panic.

As C10, for every other operation of the public interface.  A path to a panic counts only when it is feasible as far as this is known:
constant regular expressions compile, a group that takes part in every match is there, one of several alternative groups takes part,
and values lie within the bounds they were compared with (intervals)."""
from common import *
from compose import *
import panics
import regex_
from regex_ import sre_parse, sc

FULL = {'usize': 2**64 - 1, 'u64': 2**64 - 1, 'u32': 2**32 - 1, 'u16': 65535, 'u8': 255, 'char': 0x10ffff, 'u128': 2**128 - 1}
TOP = (0, 2**64 - 1)


def tree(rx):
    try:
        return sre_parse.parse(regex_.re.sub(r'\(\?<(?=[A-Za-z_])', '(?P<', rx))
    except regex_.re.error:
        return None


def compiles(rx):
    return tree(rx) is not None


def must(t, ids):
    """one of the groups takes part in every match"""
    for op, av in t:
        if op is sc.SUBPATTERN:
            if av[0] in ids or must(av[3], ids):
                return True
        elif op is sc.BRANCH:
            if all(must(x, ids) for x in av[1]):
                return True
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            if av[0] >= 1 and must(av[2], ids):
                return True
    return False


def taking_part(rx, names):
    t = tree(rx)
    if t is None:
        return False
    ids = {t.state.groupdict[n] if isinstance(n, str) else n for n in names if not isinstance(n, str) or n in t.state.groupdict}
    return 0 in ids or must(t, ids)


def regex_of(v):
    """the expression of a value made by capturing"""
    found = []
    for l in leaves(v):
        while l.k == 'fld':
            l = l.a[0]
        if l.k != 'call' or l.a[0] != 'captures':
            return []
        r = l.a[2][0]
        while r.k == 'fld':
            r = r.a[0]
        if r.k != 'call' or r.a[0] != 'regex' or r.a[2][0].k != 'c':
            return []
        found.append((l, r.a[2][0].a[1]))
    return found


def interval(t, env):
    if t in env:
        return env[t]
    if t.k == 'c' and isinstance(t.a[1], int) and not isinstance(t.a[1], bool):
        return (t.a[1], t.a[1])
    if t.k == 'call':
        n, a = t.a[0], t.a[2]
        if n in ('as', 'cast') and len(a) >= 1:
            return interval(a[0], env)
        if n in ('Sub', 'Add', 'Mul', 'Rem', 'Div', 'BitAnd') and len(a) == 2:
            x, y = interval(a[0], env), interval(a[1], env)
            if n == 'Rem' and y[0] == y[1] and y[0] > 0:
                return (0, min(y[0] - 1, x[1]))
            if n == 'Div' and y[0] == y[1] and y[0] > 0:
                return (x[0] // y[0], x[1] // y[0])
            if n == 'Sub' and x[0] >= y[1]:
                return (x[0] - y[1], x[1] - y[0])
            if n == 'Add':
                return (min(x[0] + y[0], TOP[1]), min(x[1] + y[1], TOP[1]))
            if n == 'Mul':
                return (min(x[0] * y[0], TOP[1]), min(x[1] * y[1], TOP[1]))
    return TOP


def small(t):
    """an index into a collection in memory (an element's first part from enumerate, or a length)"""
    return (t.k == 'fld' and t.a[2] == 0 and t.a[0].k in ('elem', 'at', 'sym')) or t.k == 'idx' or t.k == 'call' and t.a[0] in ('len', 'str_len', 'count')


class Walk:
    def __init__(self, limit=20000):
        self.left = limit
        self.failed = set()

    def outcome(self, a, key, env, gone):
        """the facts after a test came out as `key`; None when it cannot"""
        k = a.kind
        ts = [t for t in a.t if isinstance(t, V)]
        if k == 'disc' and ts:
            t = ts[0]
            if t.k == 'call' and t.a[0] == 'regex' and t.a[2][0].k == 'c':
                if compiles(t.a[2][0].a[1]) and key != 0:
                    return None
            if t.k == 'call' and t.a[0] == 'cap_name' and key == 0 and t.a[2][1].k == 'c':
                for c, rx in regex_of(t.a[2][0])[:1]:
                    g = dict(gone)
                    g[c] = g.get(c, frozenset()) | {t.a[2][1].a[1]}
                    if taking_part(rx, g[c]):
                        return None
                    return env, g
        if k == 'lt' and len(ts) == 2:
            x, y = interval(ts[0], env), interval(ts[1], env)
            e = dict(env)
            if key == 1 or key is True:
                nx, ny = (x[0], min(x[1], y[1] - 1)), (max(y[0], x[0] + 1), y[1])
            else:
                nx, ny = (max(x[0], y[0]), x[1]), (y[0], min(y[1], x[1]))
            if nx[0] > nx[1] or ny[0] > ny[1]:
                return None
            for t, n in ((ts[0], nx), (ts[1], ny)):
                if t.k != 'c':
                    e[t] = n
                    while t.k == 'call' and t.a[0] in ('as', 'cast'):
                        t = t.a[2][0]
                        e[t] = n
            return e, gone
        if k == 'val' and ts:
            t = ts[0]
            if t.k == 'call' and t.a[0].startswith('overflow_') and key not in (0, False):
                op, (x, y) = t.a[0][9:], t.a[2][:2]
                ix, iy = interval(x, env), interval(y, env)
                if op == 'Sub' and ix[0] >= iy[1]:
                    return None
                if op == 'Add' and (ix[1] + iy[1] < 2**32 or y.k == 'c' and small(x) or x.k == 'c' and small(y)):
                    return None
                if op == 'Mul' and ix[1] * iy[1] < 2**32:
                    return None
            elif isinstance(key, int) and not isinstance(key, bool):
                i = interval(t, env)
                if not i[0] <= key <= i[1]:
                    return None
                if t.k != 'c':
                    e = dict(env)
                    e[t] = (key, key)
                    return e, gone
            elif key == 'other' and t.k != 'c':
                lo, hi = interval(t, env)
                cs = {kk for kk in self.keys if isinstance(kk, int)}
                while lo in cs and lo <= hi:
                    lo += 1
                if lo > hi:
                    return None
                e = dict(env)
                e[t] = (lo, hi)
                return e, gone
        return env, gone

    def path(self, v, env=None, gone=None, p=()):
        env, gone = env or {}, gone or {}
        if v is TRUE:
            return p
        if v.k != 'ite':
            return None if v is FALSE or v is BOT else p
        key = (v, frozenset(env.items()), frozenset(gone.items()))
        if key in self.failed:
            return None
        self.left -= 1
        if self.left < 0:
            raise AnalysisError('too many paths to a panic')
        a, cs, d = v.a
        for kk, y in cs:
            if y is FALSE:
                continue
            r = self.outcome(a, kk, env, gone)
            if r is not None:
                q = self.path(y, r[0], r[1], p + ((a, kk),))
                if q is not None:
                    return q
        if d is not None and d is not FALSE:
            self.keys = [k for k, _ in cs]
            r = self.outcome(a, 'other', env, gone)
            if r is not None:
                q = self.path(d, r[0], r[1], p + ((a, 'other'),))
                if q is not None:
                    return q
        self.failed.add(key)
        return None


def feasible(pc):
    return Walk().path(pc)


def settled(x, what):
    """operations that cannot fail for the arguments they have here"""
    a = [t for t in x.get('args') or () if isinstance(t, V)]
    if what == 'call of String::insert' and len(a) > 1 and a[1].k == 'c' and a[1].a[1] == 0:
        return True
    if what == 'panic:capture' and len(a) == 2 and a[1].k == 'c':
        r = regex_of(a[0])
        return bool(r) and all(taking_part(rx, [a[1].a[1]]) for _, rx in r)
    return False


def cuts(prog):
    """functions examined on their own: those with a regular expression, and those that advance an iterator they are given"""
    out = set()
    for p, f in prog.fns.items():
        if '{' in p or f.get('derived'):
            continue
        tys = [prog.tkey(t) for t in f['body']['locals'][1:f['body']['argc'] + 1]]
        if any('&mut ' in t and 'Peekable' in t for t in tys):
            out.add(p)
        elif not f.get('exported') and 'Regex::new' in repr(f['body']['blocks']):
            out.add(p)
    return out


def run(rep, prog):
    other = set(panics.ENTRIES)
    roots = sorted(p for p, f in prog.fns.items() if f.get('exported') and '{' not in p and not f.get('derived') and p.startswith(CR) and p[len(CR):] not in other)
    roots += sorted(p for (tr, ty, m), p in prog.impls.items() if (tr.endswith('FromStr') or tr.endswith('ToString') or tr.endswith('Display')) and not prog.fns[p].get('derived'))
    cut = cuts(prog)
    readers = {p for (tr, ty, m), p in prog.impls.items() if m in ('parser', 'to_xml_element', 'to_xml_element_with_name')}
    S = Summaries(prog, cut | readers)
    S.e.by_summary = {p for p, f in prog.fns.items() if '{' not in p and f['file'].endswith(('utils.rs', 'text.rs')) and not f.get('derived')}
    own = set(roots) | cut
    queue, seen, npan, nev = list(dict.fromkeys(list(roots) + sorted(cut))), set(), 0, 0
    while queue:
        path = queue.pop(0)
        if path in seen or path in readers:
            continue
        seen.add(path)
        f = prog.fns[path]
        key = short(path)
        t0 = time.time()
        try:
            v, a, pc, ev = S.get(path, ['a%d' % i for i in range(f['body']['argc'])])
        except AnalysisError as ex:
            rep.undecided(key, str(ex))
            continue
        bad = und = None
        for x in ev:
            nev += 1
            n = x['kind'][5:] if x['kind'].startswith('call:') else ''
            n = n[4:] if n.startswith('rec:') else n
            if n in prog.fns and n not in seen:
                queue.append(n)
        queue += sorted((S.e.inlined & S.e.by_summary) - seen)
        for x, what in panics.sites(ev):
            npan += 1
            if settled(x, what):
                continue
            try:
                st, text = panics.judge(x, what, feasible)
            except AnalysisError as ex:
                st, text = 'undecided', str(ex)
            at = '%s:%s' % (x['file'], x['line'])
            det = '%s in %s can panic %s' % (what, short(x['fn']), text)
            if st == 'bad' and bad is None:
                bad = (det, at)
            elif st == 'undecided' and und is None:
                und = det + ' at ' + at
        if os.environ.get('TIMES'):
            print('%.1f' % (time.time() - t0), key, flush=True)
        if bad and path not in own:
            bad, und = None, '%s at %s (for arguments it may not get)' % bad
        if bad:
            rep.bad(key, *bad)
        elif und:
            rep.undecided(key, und)
        else:
            rep.ok(key, 'no reachable panic (%d call sites)' % len(ev))
    rep.put('functions_examined', len(seen))
    rep.put('functions_inlined', len(S.e.inlined))
    rep.put('panic_sites_reached', npan)
    rep.put('events', nev)


def short(p):
    return p.replace(CR, '')
