"""Summary application: substitute one function's result summary into another's, with the
agreed pairings as rewrite rules, and compare the outcome with what is expected."""
from domain import *
from engine import *
import stdmodel
from stdmodel import okv, errv, some, NONE, OPT, RES

CR = 'japanese_law_xml_schema::'
W = 'ToXmlElement::to_xml_element'
WN = 'ToXmlElementWithName::to_xml_element_with_name'
P = 'Parser::parser'
FC = CR + 'text::Text::from_children'
TC = CR + 'text::Text::to_children'
FE = CR + 'class::SentenceOrColumnOrTable::from_element'
NS = CR + 'article_number::ArticleNumber::num_str'
FNS = CR + 'article_number::ArticleNumber::from_num_str'
FS = CR + 'article_number::ArticleNumber::from_str'
BOUNDARY = [(CR + 'parser::Parser', 'parser'), (CR + 'to_xml::ToXmlElement', 'to_xml_element'),
            (CR + 'to_xml::ToXmlElementWithName', 'to_xml_element_with_name'), FC, TC, FE, NS, FNS, FS]
TEXT = CR + 'text::Text'
NAME, ATTR, KIDS = 3, 4, 5


class Summaries:
    """summaries of readers and writers, computed on demand"""

    def __init__(self, prog, boundary=BOUNDARY):
        self.p = prog
        self.e = Engine(prog, boundary)
        self.memo = {}

    def get(self, path, argsyms):
        given = tuple(argsyms) if any(isinstance(a, V) for a in argsyms) else ()
        r = self.memo.get((path, given))
        if r is None:
            if path not in self.p.fns:
                raise AnalysisError('missing function ' + path)
            before = set(self.e.events)
            args = [a if isinstance(a, V) else mk('sym', '%s:%s' % (a, path)) for a in argsyms]
            n = self.p.fns[path]['body']['argc']
            if n != len(args):
                raise AnalysisError('unexpected arity of ' + path)
            comp, self.e.comp = self.e.comp, None
            op, self.e.opener = self.e.opener, None
            try:
                v, st, pc = self.e.run_fn(path, args)
            finally:
                self.e.comp = comp
                self.e.opener = op
            ev = [self.e.events[k] for k in self.e.events if k not in before]
            r = self.memo[(path, given)] = (v, args, pc, ev)
        return r

    def impl(self, trait, ty, meth):
        return self.p.impls.get((trait, ty, meth))

    def writer(self, ty, named):
        t = self.impl(CR + ('to_xml::ToXmlElementWithName' if named else 'to_xml::ToXmlElement'), ty,
                      'to_xml_element_with_name' if named else 'to_xml_element')
        if t is None:
            raise AnalysisError('no writer for ' + ty)
        return self.get(t, ['self', 'name'] if named else ['self'])

    def reader(self, ty):
        t = self.impl(CR + 'parser::Parser', ty, 'parser')
        if t is None:
            raise AnalysisError('no reader for ' + ty)
        return self.get(t, ['element'])


def bare(t):
    while t.startswith('&'):
        t = t[1:]
        if t.startswith('mut '):
            t = t[4:]
    return t


class Comp(Subst):
    """substitution that also applies loop summaries and pairing rules"""

    def __init__(self, S, m, parent=None, used=None):
        Subst.__init__(self, S.e, m, self.atomr, self.callr)
        self.S = S
        self.loopmemo = {}
        S.e.comp = lambda m2: type(self)(S, m2, None, self.used)
        S.e.opener = self.opened
        self.used = used if used is not None else {}

    def child(self, m2):
        m = dict(self.m)
        m.update(m2)
        return type(self)(self.S, m, self, self.used)

    # ---- pairing rules
    def use(self, rule):
        self.used[rule] = self.used.get(rule, 0) + 1

    def callr(self, e, name, targs, a):
        if name == P:
            x = a[0]
            t = bare(targs[0])
            if x.k == 'call' and x.a[0] in (W, WN) and bare(x.a[1][0]) == t:
                if x.a[0] == WN and self.S.impl(CR + 'to_xml::ToXmlElement', t, 'to_xml_element') is not None:
                    pass
                self.use((x.a[0], t))
                return okv(x.a[2][0])
            if x.k in ('call', 'upd'):
                y = self.force(x)
                if y is not None and y is not x:
                    if y.k != 'adt':
                        return norm(map_leaves(y, lambda l: self.again(e, name, targs, l)))
                    x = y
            if x.k == 'adt':
                v, args, pc, ev = self.S.reader(t)
                return type(self)(self.S, {args[0]: x}, None, self.used)(v)
        elif name == FC:
            x = a[0]
            b = self.text_source(x)
            if b is not None:
                self.use((FC, TEXT))
                return b
            if x.k == 'seq':
                v, args, pc, ev = self.S.get(FC, ['children'])
                return type(self)(self.S, {args[0]: x}, None, self.used)(v)
        elif name == FE:
            x = a[0]
            if x.k == 'call' and x.a[0] == WN and bare(x.a[1][0]).endswith('SentenceOrColumnOrTable'):
                self.use((FE, bare(x.a[1][0])))
                return okv(x.a[2][0])
            if x.k == 'adt':
                v, args, pc, ev = self.S.get(FE, ['element'])
                return type(self)(self.S, {args[0]: x}, None, self.used)(v)
        elif name in (FNS, FS):
            x = a[0]
            if x.k == 'call' and x.a[0] == NS:
                self.use((FNS, NS))
                return okv(x.a[2][0])
            if x.k == 'c':
                v, args, pc, ev = self.S.get(name, ['text'])
                return type(self)(self.S, {args[0]: x}, None, self.used)(v)
        return None

    def force(self, x):
        """the element a writer call (with later updates) makes"""
        if x.k == 'call' and x.a[0] in (W, WN):
            return self.expand(x)
        if x.k == 'upd' and x.a[1].startswith("('f', "):
            y = self.force(x.a[0])
            if y is None:
                return None
            fi = int(x.a[1][6:-1])

            def put(l):
                if l.k != 'adt':
                    return mk('upd', l, x.a[1], x.a[2])
                fs = list(l.a[2])
                fs[fi] = x.a[2]
                return mk('adt', l.a[0], l.a[1], tuple(fs))
            return norm(map_leaves(y, put))
        return None

    def again(self, e, name, targs, l):
        r = self.callr(e, name, targs, (l,))
        return mk('call', name, targs, (l,)) if r is None else r

    def text_source(self, x):
        if x.k == 'call' and x.a[0] == TC:
            return x.a[2][0]
        if x.k == 'fld' and x.a[2] == KIDS and x.a[0].k == 'call' and x.a[0].a[0] == WN and bare(x.a[0].a[1][0]) == TEXT:
            return x.a[0].a[2][0]
        return None

    def expand(self, x):
        """the element a nested writer call produces"""
        t = bare(x.a[1][0])
        v, args, pc, ev = self.S.writer(t, x.a[0] == WN)
        return self.e.subst(dict(zip(args, x.a[2])))(v)

    def _fld(self, base, vi, fi):
        def f(l):
            if l.k == 'call' and l.a[0] in (W, WN) and vi is None:
                if fi == KIDS and l.a[0] == WN and bare(l.a[1][0]) == TEXT:
                    return mk('fld', l, vi, fi)
                if fi == NAME and l.a[0] == WN and False:
                    return l.a[2][1]
                return self._fld(self.expand(l), vi, fi)
            if l.k == 'upd' and vi is None:
                x = field_of(l, vi, fi)
                return self._fld(x.a[0], None, fi) if x.k == 'fld' and x.a[0] is not l else x
            return Subst._fld(self, l, vi, fi)
        return norm(map_leaves(base, f))

    # ---- loops
    def _go(self, v):
        if v.k == 'fold':
            lid, key = v.a
            if lid in self.e.loops:
                return self.loop(lid).vals[key]
        elif v.k == 'foldat':
            lid, key, i = v.a
            if lid in self.e.loops:
                r = self.loop(lid)
                if (i, key) in r.at:
                    return r.at[(i, key)]
        elif v.k == 'call' and v.a[0] == 'rest_in_loop' and len(v.a[1]) == 4:
            lid, nm, n, i = v.a[1]
            if lid in self.e.loops:
                r = self.loop(lid)
                if (int(i), int(n)) in r.rest:
                    return r.rest[(int(i), int(n))]
        return Subst._go(self, v)

    def atomr(self, a, sub):
        if a.kind == 'exit':
            lid = a.t[0]
            if lid not in self.e.loops:
                return None
            exits = self.loop(lid).exits
            lp = self.e.loops[lid]
            nat = [i for i, x in enumerate(lp.exits) if not x[3]]
            if not nat:
                return None
            r = cint(nat[0])
            for i, cnd in exits.items():
                if cnd is not FALSE:
                    r = ite(cnd, cint(i), r)
            return r
        return None

    def loop(self, lid):
        r = self.loopmemo.get(lid)
        if r is not None:
            return r
        lp = self.e.loops[lid]
        r = LoopState()
        r.vals = {k: self(init) for k, (init, bv, hv) in lp.folds.items()}
        r.exits = {i: FALSE for i, x in enumerate(lp.exits) if x[3]}
        r.alive = TRUE
        r.at = {}
        r.rest = {}
        if len(lp.iters) != 1 or lp.iters[0][3] != {1}:
            r.vals = {k: mk('call', 'iterated', (lid, k), (self(lp.coll) if lp.coll is not None else UNIT,)) for k in r.vals}
            r.exits = {i: switch(atom('some', lid, i, dom=(0, 1)), {0: FALSE, 1: TRUE}) for i in r.exits}
        else:
            coll = self(lp.coll)
            self.segs(lp, coll, EMPTY, r)
        self.loopmemo[lid] = r
        return r

    def segs(self, lp, coll, tail, r):
        """let the loop run over coll (tail is what comes behind it), updating r"""
        if coll.k == 'ite':
            parts = {}
            for l in leaves(coll):
                if l is not BOT:
                    parts[l] = p = r.copy()
                    self.segs(lp, l, tail, p)

            def pick(get):
                return norm(map_leaves(coll, lambda l: get(parts[l])))
            r.vals = {k: pick(lambda p: p.vals[k]) for k in r.vals}
            r.exits = {i: pick(lambda p: p.exits[i]) for i in r.exits}
            r.alive = pick(lambda p: p.alive)
            for name in ('at', 'rest'):
                keys = {k for p in parts.values() for k in getattr(p, name)}
                setattr(r, name, {k: pick(lambda p: getattr(p, name).get(k, BOT)) for k in keys})
            return
        sg = segs_of(coll)
        for ix, s in enumerate(sg):
            behind = seq('v', sg[ix + 1:] + segs_of(tail))
            if s[0] == 'one':
                self.step(lp, s[1], behind, r)
                continue
            if s[0] == 'splice' and s[1].k in ('ite', 'seq'):
                self.segs(lp, s[1], behind, r)
                continue
            if s[0] == 'splice':
                x = self.opened(s[1])
                if x is not None:
                    self.segs(lp, x, behind, r)
                    continue
                el, src = mk('elem', 'gen', self.e.fresh()), s[1]
                body = mk('seq', 'v', (('one', el),))
            else:
                src = s[2]
                el, body = self.e.open(s[1], s[3])
            self.repeat(lp, el, src, body, s, behind, r)

    def opened(self, x):
        """the node list behind a call that makes one"""
        if x.k == 'call' and x.a[0] == TC:
            v, args, pc, ev = self.S.get(TC, ['text'])
            return self.e.subst({args[0]: x.a[2][0]})(v)
        if x.k == 'fld' and x.a[2] == KIDS and x.a[0].k == 'call' and x.a[0].a[0] == WN:
            return Subst._fld(self, self.expand(x.a[0]), None, KIDS)
        return None

    def step(self, lp, x, behind, r):
        nm = lp.elname.split('|', 1)[1]
        m = {mk('elem', lp.elname, 0): x}
        for k, (init, bv, hv) in lp.folds.items():
            m[hv] = r.vals[k]
        sub = self.child(m)
        more = atom('more', lp.id, nm, 0, dom=(0, 1))
        base = sub.atom_rule

        def ar(a, s):
            if a is more:
                return cint(1)
            return base(a, s)
        sub.atom_rule = ar
        hit = FALSE
        here = seq('v', [('one', x)] + segs_of(behind))
        for i, (rp, src, dst, early) in enumerate(lp.exits):
            if not early:
                continue
            cnd = as_bool(sub(rp))
            if cnd is not FALSE:
                cnd2 = and_(r.alive, cnd)
                r.leave(i, cnd2, r.vals, here, behind)
                hit = or_(hit, cnd)
        r.vals = {k: sub(bv) for k, (init, bv, hv) in lp.folds.items()}
        r.alive = and_(r.alive, not_(hit))

    def repeat(self, lp, el, src, body, seg, behind, r):
        # variables an iteration leaves alone keep their value throughout
        moving = {}
        vals = r.vals
        while True:
            cur = {k: moving.get(k, vals[k]) for k in vals}
            p = LoopState()
            p.vals, p.exits, p.alive, p.at, p.rest = dict(cur), {i: FALSE for i in r.exits}, TRUE, {}, {}
            self.segs(lp, body, EMPTY, p)
            new = [k for k in vals if k not in moving and p.vals[k] is not cur[k] and p.vals[k] is not BOT]
            if not new:
                break
            for k in new:
                moving[k] = mk('loopvar', 'rep', self.e.fresh())
        nv = p.vals
        out = {}
        for k in vals:
            v = nv[k]
            if v is cur[k] or v is BOT:
                out[k] = vals[k]
                continue
            L = cur[k]
            suf = self.suffix(v, L)
            if suf is not None and not mentions(suf[1], lambda t: t.k == 'loopvar' and t.a[0] == 'rep'):
                kind, sv = suf
                out[k] = norm(seq(kind, segs_of(vals[k], kind) + segs_of(self.e.many(kind, el, src, sv), kind)))
            else:
                out[k] = self.lost(lp, k, v, L, vals[k], el, src)
        hit = FALSE
        for i, cnd in p.exits.items():
            if cnd is FALSE:
                continue
            if cnd is TRUE and all(len(l.a[1]) == 1 for l in leaves(body) if l.k == 'seq'):
                # the first one ends the loop
                some_ = not_(self.e.stdmodel.is_empty_of(self.e, src))
                r.leave(i, and_(r.alive, some_), vals, seq('v', [seg] + segs_of(behind)), mk('call', 'after', (), (seq('v', [seg] + segs_of(behind)),)))
            else:
                a = atom('some', mk('seq', 'v', (('many', el, src, cnd),)), dom=(0, 1))
                some_ = switch(a, {0: FALSE, 1: TRUE})
                off = {k: vals[k] if k not in moving else mk('call', 'iterated', (lp.id, k, str(i)), (vals[k], src)) for k in vals}
                rest = mk('call', 'after', (lp.id, str(i)), (seq('v', [seg] + segs_of(behind)),))
                r.leave(i, and_(r.alive, some_), off, rest, rest)
            hit = or_(hit, some_)
        r.alive = and_(r.alive, not_(hit))
        r.vals = out

    def lost(self, lp, k, v, L, init, el, src):
        return mk('call', 'iterated', (lp.id, k), (init, src))

    def suffix(self, v, L):
        ok = [True]
        kinds = set()

        def strip(l):
            if l is L:
                return mk('seq', '?', ())
            if l.k == 'seq' and l.a[1] and l.a[1][0] == ('splice', L):
                kinds.add(l.a[0])
                return mk('seq', l.a[0], l.a[1][1:]) if l.a[0] == 'v' else seq('s', l.a[1][1:])
            ok[0] = False
            return l
        r = map_leaves(v, strip)
        if not ok[0] or len(kinds) > 1:
            return None
        kind = kinds.pop() if kinds else 'v'
        empty = EMPTY if kind == 'v' else cstr('')
        return kind, norm(map_leaves(r, lambda l: empty if l.k == 'seq' and l.a[0] == '?' else l))


class LoopState:
    def copy(self):
        p = LoopState()
        p.vals, p.exits, p.alive, p.at, p.rest = dict(self.vals), dict(self.exits), self.alive, dict(self.at), dict(self.rest)
        return p

    def leave(self, i, cnd, vals, here, behind):
        if cnd is FALSE:
            return
        self.exits[i] = or_(self.exits[i], cnd)
        for k, v in vals.items():
            self.at[(i, k)] = ite(cnd, v, self.at.get((i, k), BOT))
        self.rest[(i, 0)] = ite(cnd, here, self.rest.get((i, 0), BOT))
        self.rest[(i, 1)] = ite(cnd, behind, self.rest.get((i, 1), BOT))


# ------------------------------------------------------------------ equality modulo case knowledge

class Prover:
    def __init__(self, e, assume=None):
        self.e = e
        self.assume = assume or (lambda a: None)
        self.fail = None
        self.n = 0

    def eq(self, x, y, facts=None, path=''):
        self.fail = None
        return self.go(x, y, dict(facts or {}), path)

    def no(self, x, y, facts, path):
        if self.fail is None:
            self.fail = (path, x, y, dict(facts))
        return False

    def pick(self, v, facts):
        """follow decisions already made"""
        while v.k == 'ite':
            a, cs, d = v.a
            k = facts.get(a)
            if k is None:
                k = self.assume(a)
            if k is None:
                break
            if k is OTHER:
                v = d if d is not None else BOT
            else:
                v = cof(v, a, k)
        return v

    def split(self, v, facts):
        a, cs, d = v.a
        for k, x in cs:
            if x is BOT or k in facts.get(('not', a), ()):
                continue
            f = dict(facts)
            f[a] = k
            yield x, f
        if d is not None and d is not BOT:
            f = dict(facts)
            f[a] = OTHER
            yield d, f

    def go(self, x, y, facts, path):
        self.n += 1
        x, y = self.pick(x, facts), self.pick(y, facts)
        if x is y:
            return True
        if x is BOT or y is BOT:
            return True
        if x.k == 'ite':
            return all(self.go(x2, y, f, path) for x2, f in self.split(x, facts))
        if y.k == 'ite':
            return all(self.go(x, y2, f, path) for y2, f in self.split(y, facts))
        if x.k == 'seq' or y.k == 'seq':
            kind = x.a[0] if x.k == 'seq' else y.a[0]
            return self.seqs(kind, segs_of(x, kind), segs_of(y, kind), facts, path)
        if y.k in ('adt', 'tuple', 'c') and x.k not in ('adt', 'tuple', 'c'):
            x, y = y, x
        if x.k == 'adt' and y.k == 'adt':
            if x.a[0] != y.a[0] or x.a[1] != y.a[1]:
                return self.no(x, y, facts, path)
            return all(self.go(p, q, facts, path + self.fname(x, i)) for i, (p, q) in enumerate(zip(x.a[2], y.a[2])))
        if x.k == 'tuple' and y.k == 'tuple':
            return all(self.go(p, q, facts, path + '.%d' % i) for i, (p, q) in enumerate(zip(x.a[0], y.a[0])))
        if x.k == 'adt':
            a = self.e.p.adts.get(x.a[0])
            if a is None:
                return self.no(x, y, facts, path)
            nv = len(a['variants'])
            if nv > 1:
                dom = tuple(range(nv))
                k = facts.get(atom('disc', y, dom=dom))
                if k is None:
                    k = self.assume(atom('disc', y, dom=dom))
                if k is None:
                    for k in dom:
                        f = dict(facts)
                        f[atom('disc', y, dom=dom)] = k
                        if not self.go(x, y, f, path):
                            return False
                    return True
                if k != x.a[1]:
                    return self.no(x, y, facts, path)
            vi = None if a['kind'] == 'struct' else x.a[1]
            return all(self.go(q, self.e.fld(y, vi, i), facts, path + self.fname(x, i)) for i, q in enumerate(x.a[2]))
        if x.k == 'tuple':
            return all(self.go(q, self.e.fld(y, None, i), facts, path + '.%d' % i) for i, q in enumerate(x.a[0]))
        if x.k == 'c' and y.k != 'c':
            a2 = atom('val', y, dom=(0, 1))
            if x.a[0] == 'b':
                k = facts.get(a2)
                if k is not None and k == x.a[1]:
                    return True
            if facts.get(atom('val', y)) == x.a[1] and atom('val', y) in facts:
                return True
            if x.a[0] == 's' and x.a[1] == '' and facts.get(atom('empty', y, dom=(0, 1))) == 1:
                return True
            return self.no(x, y, facts, path)
        e2 = facts.get(atom('eq', *((x, y) if x.id <= y.id else (y, x)), dom=(0, 1)))
        if e2 == 1:
            return True
        if x.k == y.k == 'call' and x.a[0] == y.a[0] and x.a[1] == y.a[1] and len(x.a[2]) == len(y.a[2]):
            return all(self.go(p, q, facts, path + ':' + x.a[0] + '%d' % i) for i, (p, q) in enumerate(zip(x.a[2], y.a[2])))
        return self.no(x, y, facts, path)

    def fname(self, x, i):
        a = self.e.p.adts.get(x.a[0])
        try:
            v = a['variants'][x.a[1]]
            return ('::' + v['name'] if len(a['variants']) > 1 else '') + '.' + v['fields'][i]['name']
        except Exception:
            return '.%d' % i

    def flat(self, kind, sg, facts):
        out = []
        for s in sg:
            if s[0] == 'splice':
                v = self.pick(s[1], facts)
                if v.k == 'seq' or (v.k == 'c' and v.a[1] == ''):
                    out.extend(self.flat(kind, segs_of(v, kind), facts))
                    continue
                if v is BOT:
                    return None
                if facts.get(atom('empty', v, dom=(0, 1))) == 1:
                    continue
                out.append(('splice', v))
            elif s[0] == 'many' and facts.get(atom('empty', s[2], dom=(0, 1))) == 1:
                continue
            else:
                out.append(s)
        return out

    def seqs(self, kind, xs, ys, facts, path):
        xs, ys = self.flat(kind, xs, facts), self.flat(kind, ys, facts)
        if xs is None or ys is None:
            return True
        # strip matching ends
        why = {}
        while xs and ys and self.same(kind, xs[0], ys[0], facts, why):
            xs, ys = xs[1:], ys[1:]
        while xs and ys and self.same(kind, xs[-1], ys[-1], facts, why):
            xs, ys = xs[:-1], ys[:-1]
        if not xs and not ys:
            return True
        # decide a splice
        for sg, other in ((xs, ys), (ys, xs)):
            for i, s in enumerate(sg):
                if s[0] == 'splice' and s[1].k == 'ite':
                    for v, f in self.split(s[1], facts):
                        a = sg[:i] + segs_of(v, kind) + sg[i + 1:]
                        if sg is xs:
                            if not self.seqs(kind, a, ys, f, path):
                                return False
                        elif not self.seqs(kind, xs, a, f, path):
                            return False
                    return True
        if len(xs) == 1 and len(ys) == 1 and xs[0][0] == 'one' and ys[0][0] == 'one':
            return self.go(xs[0][1], ys[0][1], facts, path + '[]')
        if xs and ys and xs[0][0] == 'one' and ys[0][0] == 'one' and len(xs) == len(ys):
            return self.go(xs[0][1], ys[0][1], facts, path + '[]') and self.seqs(kind, xs[1:], ys[1:], facts, path)
        if len(xs) == len(ys):
            for a, b in zip(xs, ys):
                if a[0] == 'many' or b[0] == 'many':
                    if (a, b) in why and self.fail is None:
                        self.fail = why[a, b] and (path + '[*]' + why[a, b][0],) + why[a, b][1:]
                        if self.fail:
                            return False
                    if not self.manys(kind, a, b, facts, path + '[*]'):
                        return False
                elif not self.same(kind, a, b, facts):
                    return self.no(seq(kind, xs), seq(kind, ys), facts, path)
            return True
        return self.no(seq(kind, xs), seq(kind, ys), facts, path)

    def same(self, kind, a, b, facts, why=None):
        if a == b:
            return True
        if why is not None and (a, b) in why:
            return False
        keep, self.fail = self.fail, None
        r = False
        if a[0] == 'many' or b[0] == 'many':
            r = self.manys(kind, a, b, facts, '')
        elif a[0] == b[0] == 'one':
            r = self.go(a[1], b[1], facts, '')
        elif a[0] == b[0] == 'splice' and a[1].k != 'ite' and b[1].k != 'ite' and a[1].k == b[1].k == 'call':
            r = self.go(a[1], b[1], facts, '')
        if why is not None and not r:
            why[a, b] = self.fail
        self.fail = keep
        return r

    def manys(self, kind, a, b, facts, path):
        el = mk('elem', 'cmp', self.e.fresh())

        def parts(s):
            if s[0] == 'many':
                return s[2], Subst(self.e, {s[1]: el}, renaming=True)(s[3])
            if s[0] == 'splice' and kind == 'v':
                return s[1], mk('seq', 'v', (('one', el),))
            if s[0] == 'splice' and s[1].k == 'call' and s[1].a[0] == 'concat':
                return s[1].a[2][0], el
            return None
        pa, pb = parts(a), parts(b)
        if pa is None or pb is None:
            return self.no(seq(kind, [a]), seq(kind, [b]), facts, path)
        return self.go(pa[0], pb[0], facts, path + '.source') and self.go(pa[1], pb[1], facts, path)


OTHER = ('other',)


def describe(facts):
    out = []
    for a, k in facts.items():
        if isinstance(a, Atom):
            out.append('matched as %s: %s' % (a.t[0].a[1], k) if a.kind == 'matched as' else '%r=%s' % (a, k if k is not OTHER else 'other'))
    return '; '.join(out)
