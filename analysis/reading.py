"""C06..C09: what readers refuse.

The summary of every reader is applied to the element its writer describes for an unknown value, changed in one
respect (a further child, a missing attribute, another tag, an attribute value nobody defined): every outcome that
is left must be an error."""
from common import *
from compose import *
from roundtrip import RT, vague, possible
import roundtrip


def reach(v, assume):
    """leaves of v under what is assumed about single tests"""
    out, seen, st = {}, set(), [v]
    while st:
        x = st.pop()
        if x in seen or x is BOT:
            continue
        seen.add(x)
        if x.k != 'ite':
            out[x] = 1
            continue
        a, cs, d = x.a
        k = assume(a)
        if k is None:
            st += [y for _, y in cs]
            if d is not None:
                st.append(d)
        elif k == 'other':
            if d is not None:
                st.append(d)
        else:
            st.append(cof(x, a, k))
    return list(out)


def path_to(v, leaf, assume, acc=()):
    """tests that lead to a leaf"""
    st = [(v, ())]
    seen = set()
    while st:
        x, p = st.pop()
        if x is leaf:
            return p
        if x.k != 'ite' or x in seen:
            continue
        seen.add(x)
        a, cs, d = x.a
        k = assume(a)
        for kk, y in cs:
            if k is None or k == kk:
                st.append((y, p + ((a, kk),)))
        if d is not None and k in (None, 'other'):
            st.append((d, p + ((a, 'other'),)))
    return ()


def seqof(vs):
    r = vs[0]
    for i, v in enumerate(vs[1:]):
        r = ite(switch(atom('which', i, dom=(0, 1)), {0: FALSE, 1: TRUE}), v, r)
    return r


def is_err(l):
    return l.k == 'adt' and l.a[0].endswith('::Result') and l.a[1] == 1


class TextApart(Comp):
    """leaves the reading of inline text around the added element to the type that does it"""
    extra = None

    def callr(self, e, name, targs, a):
        if name == FC and self.extra is not None and mentions(a[0], lambda t: t is self.extra or (t.k == 'elem' and t.a[0] == 'open')):
            return None
        return Comp.callr(self, e, name, targs, a)


class Reading(RT):
    def attrs(self, g):
        box = []
        self.with_field(g, ATTR, lambda m: box.append(m) or m)
        return box[0] if len(box) == 1 else seqof(box)

    def __init__(self, prog):
        RT.__init__(self, prog)
        self.soct_terms = set()

    def reader_of(self, ty, how):
        if how == FC:
            return self.S.get(FC, ['children'])
        if how == FE:
            return self.S.get(FE, ['element'])
        return self.S.reader(ty)

    def element_of(self, ty, how):
        slf = mk('sym', 'self')
        if how == FC:
            w, wa, _, _ = self.S.writer(TEXT, True)
        else:
            w, wa, _, _ = self.S.writer(ty, how != W)
        g = Comp(self.S, {wa[0]: slf}, None, {})(w)
        return g

    def with_field(self, g, fi, f):
        cp = Comp(self.S, {}, None, {})

        def put(l):
            x = cp.force(l)
            if x is not None and x is not l:
                return norm(map_leaves(x, put))
            if l.k != 'adt':
                raise AnalysisError('the writer does not make an element')
            fs = list(l.a[2])
            fs[fi] = f(fs[fi])
            return mk('adt', l.a[0], l.a[1], tuple(fs))
        return norm(map_leaves(g, put))

    def apply(self, ty, how, goal, extra=None):
        v, args, pc, ev = self.reader_of(ty, how)
        if how == FC:
            goal = self.kids(goal)
        if how != FC and extra is not None:
            cls = type('TextApart1', (TextApart,), {'extra': extra})
        else:
            cls = Comp
        return cls(self.S, {args[0]: goal}, None, {})(v)

    def node(self, u):
        return mk('adt', 'xmltree::XMLNode', 0, (u,))

    def places(self, g, u):
        """the element with u as a further child: before, between and behind its children"""
        ks = leaves(self.kids(self.with_field(g, KIDS, lambda k: k)))
        n = max(len(segs_of(k)) for k in ks)
        for i in range(n + 1):
            def put(l):
                sg = segs_of(l)
                j = min(i, len(sg))
                return seq('v', sg[:j] + [('one', self.node(u))] + sg[j:])
            yield ('behind' if i == n else 'at %d' % i), self.with_field(g, KIDS, lambda k: norm(map_leaves(k, put)))

    def tags(self, v):
        """tag names the reader asks its children for"""
        out = {}
        seen = set()
        st = [v]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.k == 'ite':
                a, cs, d = x.a
                if a.kind == 'val' and a.t[0].k == 'fld' and a.t[0].a[2] == NAME and a.t[0].a[0].k != 'sym':
                    for k, _ in cs:
                        if isinstance(k, str):
                            out[k] = 1
                st += [t for t in a.t if isinstance(t, V)]
                if a.kind in ('exit', 'some', 'more') and a.t[0] in self.S.e.loops:
                    lp = self.S.e.loops[a.t[0]]
                    st += [e[0] for e in lp.exits]
                st += [y for _, y in cs] + ([d] if d is not None else [])
            else:
                def walk(a):
                    for y in a:
                        if isinstance(y, V):
                            st.append(y)
                        elif isinstance(y, tuple):
                            walk(y)
                walk(x.a)
        return sorted(out)


def name_of(u):
    return mk('fld', u, None, NAME)


def unknown(u):
    """nothing asked about the tag of u is true"""
    n = name_of(u)

    def f(a):
        if a.kind == 'val' and a.t[0] is n:
            return 'other'
        if a.kind == 'eq' and any(t is n for t in a.t):
            return 0
        return None
    return f


def about(u, a):
    return any(isinstance(t, V) and mentions(t, lambda x: x is u) for t in a.t)


def named(u, tag, bad):
    n = name_of(u)

    def f(a):
        if a.kind == 'val' and a.t[0] is n:
            ks = a.dom
            return tag
        if bad and a.kind == 'disc' and a.t[0].k == 'call' and a.t[0].a[0] in (P, FE) and a.t[0].a[2][0] is u:
            return 1
        return None
    return f


def run(rep, prog):
    globals()[{'C06': 'unknown_children', 'C07': 'nested_errors', 'C08': 'attributes', 'C09': 'vocabulary'}[rep.prop]](rep, Reading(prog))


def each(rep, R, skip=()):
    obs = R.obligations()
    rep.put('model_types', len(obs))
    for ty, how in obs:
        key = ty[len(CR):]
        if key in skip:
            continue
        fn = FC if how == FC else FE if how == FE else R.types[ty]['parser']
        yield ty, how, key, R.p.loc(R.p.fns[fn])


def settle(rep, R, key, where, v, assume, what, good=is_err):
    """every outcome left must satisfy `good`"""
    left = [l for l in reach(v, assume) if not good(l)]
    if not left:
        return rep.ok(key, what)
    l = left[0]
    p = path_to(v, l, assume)
    det = '%s, but the outcome can be `%s`, when %s' % (what, show(l)[:300], '; '.join('%r=%s' % x for x in p)[:500])
    if any(vague(x) for x in left) or any(a.kind in ('exit', 'more') or any(isinstance(t, V) and vague(t) for t in a.t) for a, _ in p):
        return rep.undecided(key, det)
    rep.bad(key, det, where)


def occurs(v, pred, assume):
    """does a term occur in v, as far as it can be reached?"""
    seen, st = set(), [v]
    while st:
        x = st.pop()
        if x in seen or x is BOT:
            continue
        seen.add(x)
        if pred(x):
            return True
        if x.k == 'ite':
            a, cs, d = x.a
            k = assume(a)
            if k is None:
                st += [y for _, y in cs] + ([d] if d is not None else [])
            elif k == 'other':
                st += [d] if d is not None else []
            else:
                st.append(cof(x, a, k))
            continue

        def walk(a):
            for y in a:
                if isinstance(y, V):
                    st.append(y)
                elif isinstance(y, tuple):
                    walk(y)
        walk(x.a)
    return False


def unknown_children(rep, R):
    rooted = set()
    for ty, how, key, where in each(rep, R):
        if how in (FC, FE):
            continue
        v, args, pc, ev = R.reader_of(ty, how)
        as_other = unknown(args[0])
        if all(is_err(l) for l in reach(v, as_other)):
            rooted.add(ty)
        if key == 'law::Law':
            settle(rep, R, key + ' other tag', where, v, as_other, 'reading a document whose outermost element is not Law has to fail')
    rep.put('types_that_check_their_tag', len(rooted))
    n = 0
    for ty, how, key, where in each(rep, R):
        try:
            g = R.element_of(ty, how)
            u = mk('sym', 'extra')
            nu = R.node(u)
            out = []
            for pos, g2 in R.places(g, u):
                v = R.apply(ty, how, g2, u)
                n += 1
                un = unknown(u)

                def assume(a):
                    k = un(a)
                    if k is None and a.kind == 'disc' and a.t[0].k == 'call' and a.t[0].a[0] == P and a.t[0].a[2][0] is u and bare(a.t[0].a[1][0]) in rooted:
                        return 1
                    return k

                def good(l):
                    return is_err(l) or (how != FC and occurs(l, lambda t: t.k == 'call' and t.a[0] == FC and mentions(t, lambda y: y is nu), assume))
                sub = Report(rep.prop)
                settle(sub, R, '%s extra child' % key, where, v, assume,
                       'an element with an unknown tag among the children of %s (%s) has to make reading fail' % (key, pos), good)
                out += sub.items
            rep.items += ([x for x in out if x[1] == 'bad'] or [x for x in out if x[1] == 'undecided'] or out)[:1]
        except AnalysisError as ex:
            rep.undecided(key, str(ex))
    rep.put('places_tried', n)


def consults(v, assume):
    """does v depend on a test about a failed nested reader, as far as it can be reached?"""
    seen, st = set(), [v]
    while st:
        x = st.pop()
        if x in seen or x is BOT:
            continue
        seen.add(x)
        if x.k == 'ite':
            a, cs, d = x.a
            k = assume(a)
            if a.kind == 'disc' and k is not None:
                return True
            if k is None:
                st += [y for _, y in cs] + ([d] if d is not None else []) + [t for t in a.t if isinstance(t, V)]
            else:
                st.append(cof(x, a, k))
            continue

        def walk(a):
            for y in a:
                if isinstance(y, V):
                    st.append(y)
                elif isinstance(y, tuple):
                    walk(y)
        walk(x.a)
    return False


def nested_errors(rep, R):
    n = 0
    for ty, how, key, where in each(rep, R):
        try:
            g = R.element_of(ty, how)
            rv, args, pc, ev = R.reader_of(ty, how)
            tags = R.tags(rv)
            u = mk('sym', 'extra')
            nu = R.node(u)
            vs = [(pos, R.apply(ty, how, g2, u)) for pos, g2 in R.places(g, u)]
            for t in tags:
                n += 1
                out = []
                for pos, v in vs:
                    bad = named(u, t, True)
                    left = [l for l in reach(v, bad) if not is_err(l)]
                    hit = []
                    for l in left:
                        p = path_to(v, l, bad)
                        if consults(l, bad) or any(a.kind == 'disc' and k == 1 and about(u, a) and a.t[0].k == 'call' for a, k in p):
                            hit.append((l, p))
                    k2 = '%s > %s' % (key, t)
                    if hit:
                        l, p = hit[0]
                        det = 'an error in a nested %s has to make reading fail, but the outcome can be `%s`, when %s' % (
                            t, show(l)[:300], '; '.join('%r=%s' % x for x in p)[:500])
                        out.append((k2, 'undecided', det) if vague(l) else (k2, 'bad', (det, where)))
                    else:
                        out.append((k2, 'ok', ''))
                rep.items += ([x for x in out if x[1] == 'bad'] or [x for x in out if x[1] == 'undecided'] or out)[:1]
        except AnalysisError as ex:
            rep.undecided(key, str(ex))
    rep.put('tags_handled', n)


# ---------------------------------------------------------------- attributes

def attr_names(R, ty, how):
    """attribute names a type writes or asks for"""
    out = {}
    if how == FC:
        return []
    g = R.element_of(ty, how)
    for m in leaves(R.attrs(g)):
        if m.k != 'map':
            raise AnalysisError('attributes of %s: %s' % (ty, show(m)[:100]))
        for q, _ in m.a[0]:
            if q.k != 'c':
                raise AnalysisError('attribute name %s' % show(q)[:100])
            out[q.a[1]] = 1
    rv, args, pc, ev = R.reader_of(ty, how)

    def seen(t):
        if t.k == 'call' and t.a[0] == 'hget' and t.a[2][1].k == 'c':
            x = t.a[2][0]
            if x.k == 'fld' and x.a[2] == ATTR and x.a[0] is args[0]:
                out[t.a[2][1].a[1]] = 1
        return False
    mentions(rv, seen)
    return sorted(out)


def without(m, name):
    return mk('map', tuple((q, x) for q, x in m.a[0] if q.a[1] != name))


def having(m, name, val):
    d = {q.a[1]: (q, x) for q, x in m.a[0]}
    d[name] = (cstr(name), val)
    return mk('map', tuple(d[k] for k in sorted(d)))


def senseless(s):
    """a non-empty attribute value that is none of the known ones and no number"""
    def f(a):
        t = a.t[0] if a.t and isinstance(a.t[0], V) else None
        if t is None:
            return None
        if a.kind == 'val' and t is s:
            return 'other'
        if a.kind == 'eq' and any(x is s for x in a.t):
            return 0
        if a.kind == 'empty' and t is s:
            return 0
        if a.kind == 'disc' and t.k == 'call' and t.a[0] in ('parse', FNS, FS) and t.a[2][0] is s:
            return 1
        return None
    return f


def attribute_cases(R, ty, how, name):
    """(outcome without the attribute, outcome with a value nobody defined, the tests that say so)"""
    g = R.element_of(ty, how)
    s = mk('sym', 'junk')
    g1 = R.with_field(g, ATTR, lambda m: norm(map_leaves(m, lambda l: without(l, name))))
    g2 = R.with_field(g, ATTR, lambda m: norm(map_leaves(m, lambda l: having(l, name, s))))
    return R.apply(ty, how, g1), R.apply(ty, how, g2), senseless(s)


def tag_of(R, cp, x):
    """the one tag an element has, if it is known"""
    for _ in range(4):
        if x.k == 'adt':
            n = x.a[2][NAME]
            return n.a[1] if n.k == 'c' else None
        y = cp.force(x)
        if y is None:
            return None
        ns = {tag_of(R, cp, l) for l in leaves(y)}
        return ns.pop() if len(ns) == 1 else None


def without_child(R, ty, how):
    """(tag, outcome of reading the element without that child) for the children that are always written"""
    g = R.element_of(ty, how)
    cp = Comp(R.S, {}, None, {})
    kids = R.kids(R.with_field(g, KIDS, lambda k: k))
    if kids.k != 'seq':
        return
    for i, s in enumerate(kids.a[1]):
        if s[0] != 'one' or s[1].k != 'adt' or s[1].a[1] != 0:
            continue
        t = tag_of(R, cp, s[1].a[2][0])
        if t is None:
            continue
        less = seq('v', kids.a[1][:i] + kids.a[1][i + 1:])
        yield t, R.apply(ty, how, R.with_field(g, KIDS, lambda k: less))


def spec():
    with open(os.path.join(HERE, 'schema.json')) as f:
        return json.load(f)


def attributes(rep, R):
    sp = spec()
    have = {ty[len(CR):]: (ty, how) for ty, how in R.obligations()}
    n = nc = 0
    for key in sorted(sp):
        if key not in have:
            rep.undecided(key, 'the type cannot be read and written any more')
            continue
        ty, how = have[key]
        where = R.p.loc(R.p.fns[FC if how == FC else FE if how == FE else R.types[ty]['parser']])
        for name, a in sorted(sp[key]['attributes'].items()):
            if not a['required'] and not a['strict']:
                continue
            n += 1
            try:
                missing, junk, as_junk = attribute_cases(R, ty, how, name)
                if a['required']:
                    settle(rep, R, '%s %s missing' % (key, name), where, missing, lambda x: None,
                           'reading %s without its required attribute %s has to fail' % (key, name))
                if a['strict']:
                    settle(rep, R, '%s %s invalid' % (key, name), where, junk, as_junk,
                           'reading %s with an undefined value of %s has to fail' % (key, name))
            except AnalysisError as ex:
                rep.undecided('%s %s' % (key, name), str(ex))
        done = {}
        try:
            for t, v in (without_child(R, ty, how) if sp[key].get('needs') else ()):
                if t in sp[key]['needs']:
                    done[t] = 1
                    settle(rep, R, '%s %s missing' % (key, t), where, v, lambda x: None,
                           'reading %s without its required child %s has to fail' % (key, t))
        except AnalysisError as ex:
            rep.undecided('%s children' % key, str(ex))
            continue
        for t in sp[key].get('needs', ()):
            nc += 1
            if t not in done:
                rep.undecided('%s %s missing' % (key, t), 'the child is not always written any more')
    rep.put('attributes_decided', n)
    rep.put('required_children_decided', nc)


# ---------------------------------------------------------------- vocabulary

def field_name(R, ty, i):
    a = R.p.adts.get(ty)
    try:
        return a['variants'][0]['fields'][i]['name']
    except Exception:
        return str(i)


def self_fields(R, ty, v, via):
    """fields of self a value is taken from; via: loop elements -> fields of their collections"""
    slf = mk('sym', 'self')
    out = set()

    def f(t):
        if t.k == 'fld' and t.a[0] is slf:
            out.add(field_name(R, ty, t.a[2]) if t.a[1] is None else 'variant %d' % t.a[1])
        elif t in via:
            out.update(via[t])
        return False
    mentions(v, f)
    if not out and mentions(v, lambda t: t is slf):
        out.add('self')
    return out


def children_of(R, ty, kids):
    """(tag, field) of every child element the writer can make"""
    out = set()
    via = {}
    cp = Comp(R.S, {}, None, {})
    e = R.S.e
    done = set()

    def node(x):
        for l in leaves(x):
            if l is BOT:
                continue
            if l.k == 'adt' and l.a[0].endswith('XMLNode'):
                if l.a[1] == 0:
                    elem(l.a[2][0])
                else:
                    for t in self_fields(R, ty, l.a[2][0], via) or {'-'}:
                        out.add(('#text', t))
            else:
                raise AnalysisError('child %s' % show(l)[:150])

    def elem(x):
        fs = self_fields(R, ty, x, via) or {'-'}
        for l in leaves(x):
            if l is BOT:
                continue
            y = l if l.k == 'adt' else cp.force(l)
            if y is None:
                raise AnalysisError('child element %s' % show(l)[:150])
            ns = set()
            for z in leaves(y):
                if z.k != 'adt':
                    zz = cp.force(z)
                    for w in leaves(zz) if zz is not None else []:
                        ns |= {show(n) if n.k != 'c' else n.a[1] for n in leaves(w.a[2][NAME])} if w.k == 'adt' else {'?'}
                    continue
                ns |= {n.a[1] if n.k == 'c' else show(n) for n in leaves(z.a[2][NAME])}
            for n in ns:
                for f in fs:
                    out.add((n, f))

    def walk(k):
        for l in leaves(k):
            if l is BOT or l in done:
                continue
            done.add(l)
            for s in segs_of(l):
                if s[0] == 'one':
                    node(s[1])
                elif s[0] == 'splice':
                    if s[1].k == 'ite' or s[1].k == 'seq':
                        walk(s[1])
                    else:
                        x = cp.opened(s[1])
                        if x is None:
                            raise AnalysisError('children %s' % show(s[1])[:150])
                        walk(x)
                else:
                    o, b = e.open(s[1], s[3])
                    via[o] = self_fields(R, ty, s[2], via)
                    walk(b)
    walk(kids)
    return out


def values_of(R, ty, v):
    """{constant: the variants it stands for} when the attribute only takes constants"""
    out = {}

    def go(x, acc):
        if x is BOT or x.k == 'absent':
            return True
        if x.k == 'ite':
            a, cs, d = x.a
            ok = True
            for k, y in cs:
                ok = go(y, acc + ((a, k),)) and ok
            if d is not None:
                ok = go(d, acc + ((a, 'other'),)) and ok
            return ok
        if x.k == 'c' and x.a[0] == 's':
            what = []
            for a, k in acc:
                if a.kind == 'disc':
                    what.append(variant(R, ty, a.t[0], k))
                else:
                    what.append(str(k))
            out.setdefault(x.a[1], set()).add(' '.join(w for w in what if w))
            return True
        return False
    if not go(v, ()):
        return None
    return {k: sorted(w) for k, w in sorted(out.items())}


def type_of(R, ty, t):
    """declared type of a part of self"""
    if t.k == 'sym':
        return ty
    if t.k != 'fld':
        return None
    b = type_of(R, ty, t.a[0])
    if b is None:
        return None
    b = bare(b)
    if b.startswith('core::option::Option<') or b.startswith('std::option::Option<'):
        return b[b.index('<') + 1:-1]
    a = R.p.adts.get(b)
    try:
        return R.p.tkey(a['variants'][t.a[1] or 0]['fields'][t.a[2]]['ty'])
    except Exception:
        return None


def variant(R, ty, t, k):
    ty2 = type_of(R, ty, t)
    if ty2 is None:
        return '#%s' % k
    ty2 = bare(ty2)
    if 'option::Option<' in ty2[:30]:
        return ''
    a = R.p.adts.get(ty2)
    try:
        return a['variants'][k]['name']
    except Exception:
        return '#%s' % k


def describe_type(R, ty, how):
    g = R.element_of(ty, how)
    d = {'tag': [], 'attributes': {}, 'children': []}
    names = set()

    def name(x):
        names.update(l.a[1] if l.k == 'c' else '*' for l in leaves(x))
        return x
    R.with_field(g, NAME, name)
    d['tag'] = sorted(names)
    for m in leaves(R.attrs(g)):
        if m.k != 'map':
            raise AnalysisError('attributes of %s: %s' % (ty, show(m)[:100]))
        for q, x in m.a[0]:
            a = d['attributes'].setdefault(q.a[1], {'from': set(), 'values': None})
            a['from'] |= self_fields(R, ty, x, {})
            vs = values_of(R, ty, x)
            if vs is not None:
                a['values'] = vs if a['values'] is None else {k: sorted(set(vs.get(k, []) + a['values'].get(k, []))) for k in {**vs, **a['values']}}
    for a in d['attributes'].values():
        a['from'] = sorted(a['from'])
    box = []
    R.with_field(g, KIDS, lambda k: box.append(k) or k)
    ch = set()
    for k in box:
        ch |= children_of(R, ty, k)
    d['children'] = sorted(list(x) for x in ch)
    return d


def vocabulary(rep, R):
    sp = spec()
    have = {ty[len(CR):]: (ty, how) for ty, how in R.obligations()}
    ntag = natt = nval = 0
    for key in sorted(sp):
        if key not in have:
            rep.undecided(key, 'the type cannot be read and written any more')
            continue
        ty, how = have[key]
        meth = R.types[ty].get('to_xml_element') or R.types[ty].get('to_xml_element_with_name')
        where = R.p.loc(R.p.fns[meth])
        fields = {f['name'] for v in R.p.adts[ty]['variants'] for f in v['fields']} if ty in R.p.adts else set()
        try:
            d = describe_type(R, ty, how)
        except AnalysisError as ex:
            rep.undecided(key, str(ex))
            continue
        want = sp[key]
        used = {f for _, f in want['children']} | {f for a in want['attributes'].values() for f in a['from']}
        if any(f not in fields and not f.startswith('variant') and f not in ('self', '-') for f in used):
            rep.undecided(key, 'the fields of the type are other ones now')
            continue
        ntag += 1
        if d['tag'] == want['tag']:
            rep.ok(key + ' tag', 'written as %s' % ' or '.join(d['tag']))
        else:
            rep.bad(key + ' tag', '%s is written as %s, the schema says %s' % (key, d['tag'], want['tag']), where)
        wa, ga = want['attributes'], d['attributes']
        for n in sorted(set(wa) | set(ga)):
            k2 = '%s @%s' % (key, n)
            natt += 1
            if n not in wa:
                rep.bad(k2, 'the attribute %s is not one of %s in the schema' % (n, key), where)
            elif n not in ga:
                rep.bad(k2, 'the attribute %s of %s is never written' % (n, key), where)
            elif ga[n]['from'] != wa[n]['from']:
                rep.bad(k2, 'the attribute %s of %s is taken from %s, not from %s' % (n, key, ga[n]['from'], wa[n]['from']), where)
            else:
                bad = None
                if wa[n]['values'] and ga[n]['values'] is not None:
                    for c0, vs in ga[n]['values'].items():
                        nval += 1
                        if c0 not in wa[n]['values'] or not set(vs) <= set(wa[n]['values'][c0]):
                            bad = 'the value %r of %s stands for %s, in the schema for %s' % (c0, n, vs, wa[n]['values'].get(c0, 'nothing'))
                if bad:
                    rep.bad(k2, bad, where)
                elif wa[n]['values'] and ga[n]['values'] is None:
                    rep.undecided(k2, 'the values of the attribute are not constants any more')
                else:
                    rep.ok(k2)
        wc, gc = {tuple(x) for x in want['children']}, {tuple(x) for x in d['children']}
        for t, f in sorted(wc | gc):
            k2 = '%s > %s from %s' % (key, t, f)
            ntag += 1
            if (t, f) not in wc:
                rep.bad(k2, '%s writes a child %s made from %s, which the schema does not have' % (key, t, f), where)
            elif (t, f) not in gc:
                rep.bad(k2, '%s never writes the child %s made from %s' % (key, t, f), where)
            else:
                rep.ok(k2)
    rep.put('tags_compared', ntag)
    rep.put('attributes_compared', natt)
    rep.put('attribute_values_compared', nval)
