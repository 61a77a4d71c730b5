"""Value domain: hash-consed terms and multi-valued decision diagrams over them.

A value is either a leaf term or a decision node ``ite(atom, {key: value}, default)``.
Atoms are finite tests on terms (variant of a value, string/integer equality, loop exit ...).
Nodes are kept ordered and reduced, so two values that make the same decisions are the same
object whatever the order in which the program made them.
"""
import sys
sys.setrecursionlimit(200000)


class V:
    __slots__ = ('k', 'a', 'id', '__weakref__')

    def __repr__(self):
        return show(self)


_tab = {}


def mk(k, *a):
    key = (k,) + a
    v = _tab.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        v.id = len(_tab)
        _tab[key] = v
    return v


class Atom:
    __slots__ = ('kind', 't', 'order', 'dom')

    def __repr__(self):
        return '%s(%s)' % (self.kind, ', '.join(show(x) if isinstance(x, V) else str(x) for x in self.t))


_atoms = {}


def atom(kind, *t, dom=None):
    if dom is not None:
        dom = tuple(dom)
    key = (kind,) + t + (dom,)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind = kind
        a.t = t
        a.order = len(_atoms)
        a.dom = dom
        _atoms[key] = a
    return a


def c(kind, x):
    return mk('c', kind, x)


TRUE = c('b', 1)
FALSE = c('b', 0)
UNIT = mk('tuple', ())
BOT = mk('bot')
ABSENT = mk('absent')


def cint(n):
    return c('i', n)


def cstr(x):
    return c('s', x)


def is_ite(v):
    return v.k == 'ite'


DEF = ('default',)


def _node(a, cases, default):
    """cases: dict key->V, already ordered below a."""
    if a.dom is not None:
        full = {}
        for k in a.dom:
            x = cases.get(k, default)
            full[k] = BOT if x is None else x
        nb = [x for x in full.values() if x is not BOT]
        if not nb:
            return BOT
        if all(x is nb[0] for x in nb):
            return nb[0]
        return mk('ite', a, tuple(full.items()), None)
    if default is None:
        default = BOT
    if default is BOT and cases:
        nb = [x for x in cases.values() if x is not BOT]
        if nb and all(x is nb[0] for x in nb):
            return nb[0]
    cs = {k: x for k, x in cases.items() if x is not default}
    nb = [x for x in cs.values() if x is not BOT]
    if not nb:
        return default
    return mk('ite', a, tuple(sorted(cs.items(), key=lambda kv: repr(kv[0]))), default)


def cof(v, a, key):
    if v.k == 'ite' and v.a[0] is a:
        for k, x in v.a[1]:
            if k == key:
                return x
        return v.a[2] if v.a[2] is not None else BOT
    return v


_sw = {}


def switch(a, cases, default=None):
    items = list(cases.items())
    key = (a, tuple(items), default)
    r = _sw.get(key)
    if r is not None:
        return r
    ch = [x for _, x in items]
    if default is not None:
        ch.append(default)
    top = None
    for x in ch:
        if x.k == 'ite' and x.a[0].order <= a.order and (top is None or x.a[0].order < top.order):
            top = x.a[0]
    if top is None:
        r = _node(a, dict(items), default)
    elif top is a:
        cs = {}
        for k, x in items:
            cs[k] = cof(x, a, k)
        d = default
        if d is not None and d.k == 'ite' and d.a[0] is a:
            for k, x in d.a[1]:
                if k not in cs:
                    cs[k] = x
            d = d.a[2]
        r = switch(a, cs, d)
    else:
        keys = []
        for x in ch:
            if x.k == 'ite' and x.a[0] is top:
                for k, _ in x.a[1]:
                    if k not in keys:
                        keys.append(k)
        res = {}
        for k in keys:
            res[k] = switch(a, {kk: cof(x, top, k) for kk, x in items},
                            cof(default, top, k) if default is not None else None)
        d = None
        if top.dom is None:
            d = switch(a, {kk: cof(x, top, DEF) for kk, x in items},
                       cof(default, top, DEF) if default is not None else None)
        r = _node(top, res, d)
    _sw[key] = r
    return r


_ite = {}


def ite(cond, x, y):
    """cond: boolean diagram"""
    if cond is TRUE:
        return x
    if cond is FALSE:
        return y
    if x is y:
        return x
    if cond.k != 'ite':
        if cond is BOT:
            return x
        cond = as_bool(cond)
        return ite(cond, x, y)
    key = (cond, x, y)
    r = _ite.get(key)
    if r is None:
        a, cs, d = cond.a
        r = switch(a, {k: ite(v, x, y) if v is not BOT else BOT for k, v in cs},
                   (ite(d, x, y) if d is not BOT else BOT) if d is not None else None)
        _ite[key] = r
    return r


def as_bool(v):
    """turn a boolean value into a diagram with TRUE/FALSE leaves"""
    def f(l):
        if l is TRUE or l is FALSE or l is BOT:
            return l
        if l.k == 'c':
            return TRUE if l.a[1] else FALSE
        if l.k == 'not':
            return not_(as_bool(l.a[0]))
        return switch(atom('val', l, dom=(0, 1)), {0: FALSE, 1: TRUE})
    return map_leaves(v, f)


def not_(v):
    return map_leaves(as_bool(v), lambda l: FALSE if l is TRUE else TRUE if l is FALSE else l)


def and_(x, y):
    if x is TRUE:
        return y
    if y is TRUE:
        return x
    return ite(x, y, FALSE)


def or_(x, y):
    if x is FALSE:
        return y
    if y is FALSE:
        return x
    return ite(x, TRUE, y)


def map_leaves(v, f, memo=None):
    if v.k != 'ite':
        return f(v) if v is not BOT else BOT
    if memo is None:
        memo = {}
    r = memo.get(v)
    if r is None:
        a, cs, d = v.a
        r = switch(a, {k: map_leaves(x, f, memo) for k, x in cs},
                   map_leaves(d, f, memo) if d is not None else None)
        memo[v] = r
    return r


def leaves(v, out=None):
    """all distinct leaves"""
    if out is None:
        out = {}
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == 'ite':
            for _, y in x.a[1]:
                st.append(y)
            if x.a[2] is not None:
                st.append(x.a[2])
        else:
            out[x] = 1
    return list(out)


_rs = {}


def restrict(v, care):
    """simplify v, which only matters where care holds"""
    if care is TRUE or v.k != 'ite' or care is FALSE or care is BOT:
        return v
    key = (v, care)
    r = _rs.get(key)
    if r is not None:
        return r
    ca = care.a[0]
    va = v.a[0]
    if ca.order < va.order:
        # v does not test ca: merge care's branches
        cc = FALSE
        for _, x in care.a[1]:
            cc = or_(cc, x if x is not BOT else FALSE)
        if care.a[2] is not None and care.a[2] is not BOT:
            cc = or_(cc, care.a[2])
        r = restrict(v, cc)
    else:
        keys = [k for k, _ in v.a[1]]
        if ca is va:
            keys += [k for k, _ in care.a[1] if k not in keys]
        res = {}
        live = []
        for k in keys:
            cc = cof(care, va, k)
            if cc is FALSE or cc is BOT:
                continue
            res[k] = restrict(cof(v, va, k), cc)
            live.append(res[k])
        d = None
        if va.dom is None:
            cc = cof(care, va, DEF)
            if not (cc is FALSE or cc is BOT):
                d = restrict(cof(v, va, DEF), cc)
                live.append(d)
        elif len(res) < len(va.dom):
            pass
        if live and all(x is live[0] for x in live):
            r = live[0]
        elif va.dom is not None:
            # dead keys take some live value
            fill = live[0] if live else BOT
            r = _node(va, {k: res.get(k, BOT) for k in va.dom}, None) if live else BOT
            _ = fill
        else:
            if d is None:
                r = _node(va, res, BOT)
            else:
                dead = [k for k in keys if k not in res]
                r = _node(va, {**res, **{k: d for k in dead}}, d)
    _rs[key] = r
    return r


class Conflict(Exception):
    pass


_ov = {}


def overlay(x, y):
    """the diagram agreeing with x and y where they are defined (BOT = undefined)"""
    if x is y or y is BOT:
        return x
    if x is BOT:
        return y
    if x.k != 'ite' and y.k != 'ite':
        raise Conflict()
    key = (x, y)
    r = _ov.get(key)
    if r is None:
        top = min((v.a[0] for v in (x, y) if v.k == 'ite'), key=lambda a: a.order)
        keys = []
        for v in (x, y):
            if v.k == 'ite' and v.a[0] is top:
                keys += [k for k, _ in v.a[1] if k not in keys]
        res = {k: overlay(cof(x, top, k), cof(y, top, k)) for k in keys}
        d = overlay(cof(x, top, DEF), cof(y, top, DEF)) if top.dom is None else None
        r = _ov[key] = _node(top, res, d)
    return r


def drop_atom(v, a, memo=None):
    """v without decisions on a, when they only ever separate defined from undefined; else None"""
    if memo is None:
        memo = {}
    if v.k != 'ite' or v.a[0].order > a.order:
        return v
    r = memo.get(v)
    if r is None:
        t, cs, d = v.a
        if t is a:
            r = BOT
            for _, x in cs:
                r = overlay(r, x)
            if d is not None:
                r = overlay(r, d)
        else:
            r = _node(t, {k: drop_atom(x, a, memo) for k, x in cs}, drop_atom(d, a, memo) if d is not None else None)
        memo[v] = r
    return r


def atoms_of(v, out=None, deep=True):
    if out is None:
        out = set()
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.k == 'ite':
            out.add(x.a[0])
            for _, y in x.a[1]:
                go(y)
            if x.a[2] is not None:
                go(x.a[2])
        elif deep:
            for y in subterms(x):
                go(y)
    go(v)
    return out


def _walk(a):
    for y in a:
        if isinstance(y, V):
            yield y
        elif isinstance(y, tuple):
            yield from _walk(y)


def subterms(x):
    """direct V children of a non-ite term"""
    return _walk(x.a)


def mentions(v, pred, memo=None):
    """does pred hold for any term inside v (atoms included)?"""
    if memo is None:
        memo = {}
    r = memo.get(v)
    if r is not None:
        return r
    memo[v] = False
    if pred(v):
        memo[v] = True
        return True
    if v.k == 'ite':
        a, cs, d = v.a
        for t in a.t:
            if isinstance(t, V) and mentions(t, pred, memo):
                memo[v] = True
                return True
        for _, x in cs:
            if mentions(x, pred, memo):
                memo[v] = True
                return True
        if d is not None and mentions(d, pred, memo):
            memo[v] = True
            return True
        return False
    for y in subterms(v):
        if mentions(y, pred, memo):
            memo[v] = True
            return True
    return False


# ---------------------------------------------------------------- sequences (vectors and strings)

def seq(kind, segs):
    out = []
    for s in segs:
        if s[0] == 'splice':
            v = s[1]
            if v.k == 'seq':
                out.extend(v.a[1])
                continue
            if kind == 's' and v.k == 'c' and v.a[0] == 's':
                if v.a[1] == '':
                    continue
                if out and out[-1][0] == 'splice' and out[-1][1].k == 'c':
                    out[-1] = ('splice', cstr(out[-1][1].a[1] + v.a[1]))
                    continue
        elif kind == 's' and s[0] == 'one' and s[1].k == 'c' and s[1].a[0] in ('ch', 'i'):
            v = cstr(chr(s[1].a[1]))
            if out and out[-1][0] == 'splice' and out[-1][1].k == 'c':
                out[-1] = ('splice', cstr(out[-1][1].a[1] + v.a[1]))
            else:
                out.append(('splice', v))
            continue
        out.append(s)
    if kind == 's':
        # merge neighbouring constants produced by flattening
        m = []
        for s in out:
            if m and s[0] == 'splice' and s[1].k == 'c' and m[-1][0] == 'splice' and m[-1][1].k == 'c':
                m[-1] = ('splice', cstr(m[-1][1].a[1] + s[1].a[1]))
            else:
                m.append(s)
        out = m
        if not out:
            return cstr('')
        if len(out) == 1 and out[0][0] == 'splice':
            return out[0][1]
    else:
        if len(out) == 1 and out[0][0] == 'splice':
            return out[0][1]
    return mk('seq', kind, tuple(out))


EMPTY = mk('seq', 'v', ())


def segs_of(v, kind='v'):
    if v.k == 'seq':
        return list(v.a[1])
    if kind == 's' and v.k == 'c' and v.a[1] == '':
        return []
    return [('splice', v)]


def concat(kind, x, y):
    def f(xx):
        return seq(kind, segs_of(xx, kind) + segs_of(y, kind))
    if x.k == 'ite':
        return seq(kind, [('splice', x)] + segs_of(y, kind))
    return f(x)


# ---------------------------------------------------------------- printing

def show(v, d=0):
    if not isinstance(v, V):
        return str(v)
    if d > 12:
        return '…'
    k, a = v.k, v.a
    n = d + 1
    if k == 'c':
        return repr(a[1]) if a[0] == 's' else ({1: 'true', 0: 'false'}[a[1]] if a[0] == 'b' else str(a[1]))
    if k == 'ite':
        return 'if[%r]{%s%s}' % (a[0], ', '.join('%s: %s' % (kk, show(x, n)) for kk, x in a[1]),
                                 '' if a[2] is None else ', _: ' + show(a[2], n))
    if k == 'sym':
        return str(a[0])
    if k == 'fld':
        return '%s.%s%s' % (show(a[0], n), '' if a[1] is None else 'v%s.' % a[1], a[2])
    if k == 'adt':
        return '%s#%s(%s)' % (a[0].split('::')[-1], a[1], ', '.join(show(x, n) for x in a[2]))
    if k == 'tuple':
        return '(%s)' % ', '.join(show(x, n) for x in a[0])
    if k == 'seq':
        return '%s[%s]' % (a[0], ', '.join(showseg(s, n) for s in a[1]))
    if k == 'call':
        return '%s(%s)' % (a[0], ', '.join(show(x, n) for x in a[2]))
    if k == 'elem':
        return 'elem<%s>%s' % (short_loop(a[0]), a[1] or '')
    if k in ('loopvar', 'fold'):
        return '%s<%s:%s>' % (k, short_loop(a[0]), a[1])
    if k == 'map':
        return 'map{%s}' % ', '.join('%s: %s' % (show(x, n), show(y, n)) for x, y in a[0])
    return '%s(%s)' % (k, ', '.join(show(x, n) if isinstance(x, V) else str(x) for x in a))


def short_loop(l):
    return str(l)[-24:]


def showseg(s, n=0):
    if s[0] == 'one':
        return show(s[1], n)
    if s[0] == 'splice':
        return '..' + show(s[1], n)
    return 'for %s in %s: %s' % (show(s[1], n), show(s[2], n), show(s[3], n))
