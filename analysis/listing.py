"""C18: listed articles.  C20: listed headings.

The listing functions are summarised whole (value-flow over the MIR, helpers included) as sequence terms over an unknown provision.  What they
have to be is put together from the types alone: a walk over `children`, every article (or heading) once, in order, with the numbers of the
divisions around it, as far down as the types go."""
from common import *
from compose import *
from engine import State
from numbers_ import opaque, site, all_terms
from roundtrip import vague, loops_lost
import re

DIV = {'Part': 'part', 'Chapter': 'chapter', 'Section': 'section', 'Subsection': 'subsection', 'Division': 'division'}
LEVELS = list(DIV.values())
U = CR + 'utils::'
TEXT = CR + '<text::Text as std::string::ToString>::to_string'


def variant_types(prog, ty):
    """(variant index, payload type) of an enum with one payload each"""
    return [(k, prog.tkey(v['fields'][0]['ty']) if len(v['fields']) == 1 else None) for k, v in enumerate(prog.adts[ty]['variants'])]


def field(prog, ty, name):
    for i, f in enumerate(prog.adts[ty]['variants'][0]['fields']):
        if f['name'] == name:
            return i, prog.tkey(f['ty'])
    raise Missing('%s has no field %s' % (ty.replace(CR, ''), name))


def elem_type(ty):
    m = re.match(r'^std::vec::Vec<(.*)>$', ty)
    if not m:
        raise Missing('children in a %s' % ty)
    return m.group(1)


def short(ty):
    return (ty or '').rsplit('::', 1)[-1]


SHAPES = {'twice': lambda ks: ks + ks, 'backwards': lambda ks: ks[::-1] + ks[-1:], 'bare': lambda ks: [],
          'divisions only': lambda ks: [k for k in ks if short(k[1]) in DIV] or ks, 'empty and not': lambda ks: ks}


def instance(prog, ty, name, order, depth=9):
    """a provision with known children and unknown contents"""
    if short(ty) not in DIV and depth < 9:
        return mk('sym', name)
    out = []
    for i, f in enumerate(prog.adts[ty]['variants'][0]['fields']):
        if f['name'] != 'children':
            out.append(mk('sym', '%s.%s' % (name, f['name'])))
            continue
        et = elem_type(prog.tkey(f['ty']))
        en = prog.adts.get(et, {}).get('kind') == 'enum'
        kids = variant_types(prog, et) if en else [(0, et)]
        if depth == 9 and order == 'bare':
            kids = [k for a in kids for b in kids for k in (a, b)]
        elif depth < 9:
            kids = SHAPES[order](kids)
        elif order != 'bare':
            kids = SHAPES[order](kids)
        ss = []
        if order == 'empty and not':
            kids = [(k, pt, o) for k, pt in kids for o in (('bare', order) if short(pt) in DIV else (order,))]
        for j, (k, pt, *o) in enumerate(kids):
            pl = instance(prog, pt, '%s/%d:%s' % (name, j, short(pt)), o[0] if o else order, min(depth, 9) - 1) if pt else mk('sym', 'none')
            ss.append(('one', mk('adt', et, k, (pl,)) if en else pl))
        out.append(seq('v', ss))
    return mk('adt', ty, 0, tuple(out))


def part(e, x, i):
    return x.a[2][i] if x.k == 'adt' else e.fld(x, None, i)


class Walk:
    """the listing the types call for"""

    def __init__(self, S, prog, entry, heading=None):
        self.S, self.e, self.prog, self.entry, self.heading = S, S.e, prog, entry, heading
        self.n = 0
        self.kinds = set()
        self.entries = 0

    def children(self, x, ty, ctx):
        i, t = field(self.prog, ty, 'children')
        src = part(self.e, x, i)
        et = elem_type(t)
        if src.k == 'seq' and all(sg[0] == 'one' for sg in src.a[1]):
            out = []
            for sg in src.a[1]:
                y = sg[1]
                if self.prog.adts.get(et, {}).get('kind') == 'enum':
                    pt = dict(variant_types(self.prog, et))[y.a[1]]
                    y = y.a[2][0]
                else:
                    pt = et
                out += segs_of(self.node(y, pt, ctx)) if pt else []
            return seq('v', out)
        el = mk('elem', '#%d' % self.n, 0)
        self.n += 1
        if self.prog.adts.get(et, {}).get('kind') == 'enum':
            cs = {}
            for k, pt in variant_types(self.prog, et):
                cs[k] = self.node(self.e.fld(el, k, 0), pt, ctx) if pt is not None else EMPTY
            body = switch(atom('disc', el, dom=tuple(range(len(cs)))), cs)
        else:
            body = self.node(el, et, ctx)
        return self.e.many('v', el, src, body)

    def groups(self, x, ty):
        """paragraphs of a concrete provision"""
        i, t = field(self.prog, ty, 'children')
        out, cur = [], []
        vs = dict(variant_types(self.prog, elem_type(t)))
        for sg in part(self.e, x, i).a[1]:
            n = short(vs[sg[1].a[1]])
            if n == 'Paragraph':
                cur.append(('one', sg[1].a[2][0]))
            elif n == 'Article' or n in DIV:
                out.append(('one', seq('v', cur)))
                cur = []
        out.append(('one', seq('v', cur)))
        return seq('v', out)

    def node(self, x, ty, ctx):
        name = short(ty)
        if name == 'Article':
            self.entries += 1
            self.kinds.add(name)
            return seq('v', [('one', self.entry(x, ty, ctx))])
        if name in DIV:
            i, t = field(self.prog, ty, 'num')
            num = part(self.e, x, i)
            ctx = dict(ctx, **{DIV[name]: num if t.startswith('std::option::Option') else some(num)})
            self.kinds.add(name)
            out = []
            if self.heading:
                self.entries += 1
                out = [('one', self.heading(x, ty, ctx))]
            return seq('v', out + segs_of(self.children(x, ty, ctx)))
        return EMPTY


def getters(rep, S, prog, ty, names, what):
    """field index behind each getter; get after set gives what was set, and setting touches nothing else"""
    out = {}
    e = S.e
    nf = len(prog.adts[ty]['variants'][0]['fields'])
    base = ty + '::'
    for n in names:
        p = base + 'get_' + n
        key = '%s: %s' % (what, n)
        if p not in prog.fns:
            raise Missing('get_' + n)
        v, a, _, _ = S.get(p, ['self'])
        idx = [i for i in range(nf) if v is e.fld(a[0], None, i)]
        if not idx:
            rep.undecided(key, 'reading gives %s' % show(v)[:150])
            raise AnalysisError('the parts of an entry cannot be read')
        i = out[n] = idx[0]
        if list(out.values()).count(i) > 1:
            rep.bad(key, 'reading %s gives the same part as reading %s' % (n, next(m for m in out if out[m] == i)), site(prog, p))
            continue
        q = next((base + 'set_' + m for m in (n, n[:-1]) if base + 'set_' + m in prog.fns), None)
        if q is None:
            rep.ok(key, 'read only')
            continue
        st = State()
        cell = 'entry ' + n
        me, num = mk('sym', 'entry'), mk('sym', 'new ' + n)
        st[cell] = me
        val, st2, pc = e.run_fn(q, [mk('ref', cell, ()), num], st=st)
        after = e.full_deref(mk('ref', cell, ()), st2)
        want = {j: e.fld(me, None, j) for j in range(nf)}
        want[i] = num
        got = {j: e.fld(after, None, j) for j in range(nf)}
        bad = [j for j in range(nf) if got[j] is not want[j]]
        if not bad:
            rep.ok(key, 'what was set is read back, nothing else changes')
        elif any(vague(got[j]) or opaque(e, got[j]) for j in bad):
            rep.undecided(key, 'after setting: %s' % show(after)[:200])
        else:
            j = bad[0]
            rep.bad(key, 'setting it leaves %s in place of %s' % (show(got[j])[:100], show(want[j])[:100]), site(prog, q))
    return out


def on_shapes(rep, e, prog, key, path, shapes):
    """a general comparison that cannot be decided: look at provisions with known children"""
    for order in SHAPES:
        try:
            got, want = shapes(order)
        except AnalysisError:
            return False
        P = Prover(e)
        if P.eq(got, want):
            continue
        p, x, y, facts = P.fail
        if any(vague(t) or opaque(e, t) for t in (x, y, got)) or mentions(got, lambda t: t.k in ('fold', 'foldat', 'loopvar')) or loops_lost(facts):
            return False
        rep.bad(key, 'the list has %s in place of %s (at %s; children: %s)' % (show(x)[:300], show(y)[:300], p, order), site(prog, path))
        return True
    return False


def compare(rep, e, prog, key, got, want, path, note, P=None, shapes=None):
    P = P or Prover(e)
    if P.eq(got, want):
        rep.ok(key, '%s (%d comparisons)' % (note, P.n))
        return
    p, x, y, facts = P.fail
    if shapes and on_shapes(rep, e, prog, key, path, shapes):
        return
    if vague(x) or vague(y) or loops_lost(facts) or any(opaque(e, t) for t in [x, y, got] + [t for a in facts if isinstance(a, Atom) for t in a.t if isinstance(t, V)]) \
            or mentions(got, lambda t: t.k in ('fold', 'foldat', 'loopvar')):
        rep.undecided(key, 'cannot compare %s with %s' % (show(x)[:150], show(y)[:150]))
    else:
        rep.bad(key, 'the list has %s in place of %s (at %s; case %s)' % (show(x)[:300], show(y)[:300], p, describe(facts)[:200]), site(prog, path))


class Quiet:
    """collects verdicts"""

    def __init__(self):
        self.items = []

    def ok(self, *a):
        self.items.append(('ok', a))

    def bad(self, *a):
        self.items.append(('bad', a))

    def undecided(self, *a):
        self.items.append(('undecided', a))


def groups(rep, e, prog, key, S, v, args, ty, path, shapes):
    q = Quiet()
    try:
        groups_(q, e, prog, key, S, v, args, ty, path)
    except Missing as ex:
        q.undecided(key, 'missing: %s' % ex)
    if all(k == 'ok' for k, a in q.items) or not on_shapes(rep, e, prog, key, path, shapes):
        for k, a in q.items:
            getattr(rep, k)(*a)


def groups_(rep, e, prog, key, S, v, args, ty, path):
    """the paragraphs that stand directly in the provision: cut into groups at every article and division"""
    i, t = field(prog, ty, 'children')
    et = elem_type(t)
    if v.k == 'seq' and len(v.a[1]) == 2 and v.a[1][0][0] == 'splice' and v.a[1][1][0] == 'one' and v.a[1][0][1].k == 'fold' and v.a[1][1][1].k == 'fold':
        a, b = v.a[1][0][1], v.a[1][1][1]
        if a.a[0] != b.a[0] or a.a[0] not in e.loops:
            rep.undecided(key, 'built in two loops')
            return
        lp = e.loops[a.a[0]]
        (i1, b1, h1), (i2, b2, h2) = lp.folds[a.a[1]], lp.folds[b.a[1]]
        if lp.coll is not e.fld(args[0], None, i):
            rep.undecided(key, 'built while walking over %s' % show(lp.coll)[:100])
            return
        el = mk('elem', lp.elname, 0) if not isinstance(lp.elname, V) else lp.elname
        els = {t for x in (b1, b2) for t in all_elems(x)}
        el = next(iter(els)) if len(els) == 1 else None
        if el is None:
            rep.undecided(key, 'no single walk over the children')
            return
        w1, w2 = {}, {}
        for k, pt in variant_types(prog, et):
            n = short(pt)
            if n == 'Paragraph':
                w1[k], w2[k] = h1, seq('v', [('splice', h2), ('one', e.fld(el, k, 0))])
            elif n == 'Article' or n in DIV:
                w1[k], w2[k] = seq('v', [('splice', h1), ('one', h2)]), EMPTY
            else:
                w1[k], w2[k] = h1, h2
        at = atom('disc', el, dom=tuple(range(len(w1))))
        got = mk('tuple', (i1, i2, b1, b2))
        want = mk('tuple', (EMPTY, EMPTY, switch(at, w1), switch(at, w2)))
        P = Prover(e)
        if P.eq(got, want):
            rep.ok(key, 'paragraphs in order, a new group at every article and division (%d comparisons)' % P.n)
            return
        p, x, y, facts = P.fail
        if vague(x) or vague(y) or opaque(e, got):
            rep.undecided(key, 'cannot compare %s with %s' % (show(x)[:150], show(y)[:150]))
            return
        rep.bad(key, 'the groups of paragraphs have %s in place of %s (case %s)' % (show(x)[:200], show(y)[:200], describe(facts)[:200]), site(prog, path))
    elif v.k == 'seq' and not v.a[1]:
        rep.bad(key, 'the paragraphs are left out', site(prog, path))
    else:
        rep.undecided(key, 'built in an unknown way: %s' % show(v)[:200])


def all_elems(x):
    seen, out, todo = set(), set(), [x]
    while todo:
        t = todo.pop()
        if id(t) in seen:
            continue
        seen.add(id(t))
        if t.k == 'elem':
            out.add(t)
        if t.k == 'ite':
            todo += [u for u in t.a[0].t if isinstance(u, V)]
        todo += list(subterms(t))
    return out


def c18(rep, prog):
    S = Summaries(prog, set())
    e = S.e
    ty = U + 'WithNumberArticle'
    n = 0
    try:
        idx = getters(rep, S, prog, ty, LEVELS + ['article'], 'listed article')
        new = S.get(ty + '::new', ['article'])
        want = [NONE] * len(prog.adts[ty]['variants'][0]['fields'])
        want[idx['article']] = new[1][0]
        compare(rep, e, prog, 'listed article: new', new[0], mk('adt', ty, 0, tuple(want)), ty + '::new', 'only the article, no numbers')
    except (Missing, AnalysisError) as ex:
        rep.undecided('listed article', str(ex))
        idx = None

    def numbered(x, t, ctx):
        fs = [NONE] * len(prog.adts[ty]['variants'][0]['fields'])
        for lv, num in ctx.items():
            fs[idx[lv]] = num
        fs[idx['article']] = x
        return mk('adt', ty, 0, tuple(fs))
    for name, pty, entry in (('with_number_article_list_from_main_provision', CR + 'law::MainProvision', numbered),
                             ('with_number_article_list_from_suppl_provision', CR + 'suppl_provision::SupplProvision', numbered),
                             ('article_list_from_main_provision', CR + 'law::MainProvision', lambda x, t, c: x),
                             ('article_list_from_suppl_provision', CR + 'suppl_provision::SupplProvision', lambda x, t, c: x)):
        try:
            if U + name not in prog.fns:
                raise Missing(name)
            if entry is numbered and idx is None:
                rep.undecided(name, 'the parts of an entry are unknown')
                continue
            v, args, pc, ev = S.get(U + name, ['provision'])
            w = Walk(S, prog, entry)
            want = w.children(args[0], pty, {})
            n += w.entries
            if v.k != 'tuple' or len(v.a[0]) != 2:
                rep.undecided(name, 'the result is %s' % show(v)[:150])
                continue
            def shapes(order, part):
                x = instance(prog, pty, 'provision', order)
                r = S.get(U + name, [x])[0]
                if r.k != 'tuple' or len(r.a[0]) != 2:
                    raise AnalysisError('the result is no pair')
                w = Walk(S, prog, entry)
                return r.a[0][part], w.groups(x, pty) if part else w.children(x, pty, {})
            compare(rep, e, prog, name + ': articles', v.a[0][0], want, U + name, 'every article once, in order, at every depth', shapes=lambda o: shapes(o, 0))
            groups(rep, e, prog, name + ': paragraphs', S, v.a[0][1], args, pty, U + name, lambda o: shapes(o, 1))
        except Missing as ex:
            rep.undecided(name, 'missing: %s' % ex)
        except AnalysisError as ex:
            rep.undecided(name, str(ex))
    rep.put('places_of_articles', n)
    rep.put('functions_inlined', len(e.inlined))


def c20(rep, prog):
    S = Summaries(prog, {TEXT})
    e = S.e
    ty = U + 'Toc'
    n = 0
    try:
        idx = getters(rep, S, prog, ty, LEVELS + ['article', 'title'], 'listed heading')
    except (Missing, AnalysisError) as ex:
        rep.undecided('listed heading', str(ex))
        return
    nf = len(prog.adts[ty]['variants'][0]['fields'])
    targs = [()]

    def text(x, t, name):
        i, ft = field(prog, t, name)
        return some(mk('call', TEXT, targs[0], (part(e, x, i),)))

    def entry(x, t, ctx):
        fs = [NONE] * nf
        for lv, num in ctx.items():
            fs[idx[lv]] = num
        i, ft = field(prog, t, 'num')
        fs[idx['article']] = some(part(e, x, i))
        fs[idx['title']] = text(x, t, 'title')
        return mk('adt', ty, 0, tuple(fs))

    def heading(x, t, ctx):
        fs = [NONE] * nf
        for lv, num in ctx.items():
            fs[idx[lv]] = num
        fs[idx['title']] = text(x, t, DIV[short(t)] + '_title')
        return mk('adt', ty, 0, tuple(fs))
    for name, pty in (('toc_list_from_main_provision', CR + 'law::MainProvision'), ('toc_list_from_suppl_provision', CR + 'suppl_provision::SupplProvision')):
        try:
            if U + name not in prog.fns:
                raise Missing(name)
            v, args, pc, ev = S.get(U + name, ['provision'])
            targs[:] = [x.a[1] for x in all_terms(v) if x.k == 'call' and x.a[0] == TEXT][:1] or [()]
            w = Walk(S, prog, entry, heading)
            want = w.children(args[0], pty, {})
            n += w.entries
            e.opaque.pop(TEXT, None)

            def shapes(order):
                x = instance(prog, pty, 'provision', order)
                r = S.get(U + name, [x])[0]
                e.opaque.pop(TEXT, None)
                return r, Walk(S, prog, entry, heading).children(x, pty, {})
            compare(rep, e, prog, name, v, want, U + name, 'every heading and article once, in order, with its title and the numbers around it', shapes=shapes)
        except Missing as ex:
            rep.undecided(name, 'missing: %s' % ex)
        except AnalysisError as ex:
            rep.undecided(name, str(ex))
    rep.put('places_of_headings_and_articles', n)
    rep.put('functions_inlined', len(e.inlined))


def run(rep, prog):
    {'C18': c18, 'C20': c20}[rep.prop](rep, prog)
