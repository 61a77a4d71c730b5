"""C19: plain texts.

The text functions are summarised whole (value-flow over the MIR, helpers and recursion over the levels of items included) as sequence terms over an
unknown article, sentence or table.  What they have to be is put together from the types alone."""
from common import *
from compose import *
from engine import State
from numbers_ import opaque, site
from roundtrip import vague, loops_lost
from listing import U, TEXT, variant_types, field, elem_type, short, part

TEXTW = CR + '<text::TextWithWritingMode as std::string::ToString>::to_string'
SENT, TABLE = U + 'sentence_element_to_str', U + 'table_to_str'
ANY = mk('sym', 'any text')
TEXTS = {CR + 'text::Text': TEXT, CR + 'text::TextWithWritingMode': TEXTW}
STR = 'std::string::String'


class Loose(Prover):
    """what is not part of the claim is equal to everything"""

    def go(self, x, y, facts, path):
        if self.pick(y, facts) is ANY:
            return True
        return Prover.go(self, x, y, facts, path)


class Spec:
    def __init__(self, S, prog):
        self.S, self.e, self.prog = S, S.e, prog
        self.n = self.places = 0

    def each(self, kind, src, f):
        """f for each element of src, one after the other"""
        def g(l):
            if l.k == 'seq' and all(s[0] == 'one' for s in l.a[1]):
                return seq(kind, [x for s in l.a[1] for x in segs_of(f(s[1]), kind)])
            el = mk('elem', '#%d' % self.n, 0)
            self.n += 1
            return self.e.many(kind, el, l, f(el))
        return norm(map_leaves(src, g))

    def get(self, x, ty, name):
        i, t = field(self.prog, ty, name)
        return part(self.e, x, i), t

    def call(self, f, *a):
        return mk('call', f, (), a)

    def join(self, v, sep):
        return self.e.stdmodel.recall(self.e, 'join', (), (v, cstr(sep)), None)

    def cases(self, x, ty, by, other):
        """by name of the payload's type"""
        cs = {}
        vs = self.prog.adts[ty]['variants']
        if x.k == 'adt':
            pt = dict(variant_types(self.prog, ty))[x.a[1]]
            f = by.get(short(pt))
            return f(x.a[2][0], pt) if f else other
        for k, pt in variant_types(self.prog, ty):
            f = by.get(short(pt))
            cs[k] = f(self.e.fld(x, k, 0), pt) if f else other
            self.places += f is not None
        return switch(atom('disc', x, dom=tuple(range(len(vs)))), cs)

    def marked(self, mark):
        return lambda x, ty: cat(mark, self.get(x, ty, 'text')[0], '}')

    def ruby(self, x, ty):
        v, t = self.get(x, ty, 'text')
        return self.text(v, t)

    def text(self, v, t):
        if t == STR:
            return v
        if t not in TEXTS:
            raise Missing('a text of type %s' % t.replace(CR, ''))
        return self.call(TEXTS[t], v)

    def inline(self, contents):
        d = {'String': lambda x, t: x, 'Ruby': self.ruby, 'Sup': self.marked('^{'), 'Sub': self.marked('_{')}
        if contents:
            d['QuoteStruct'] = d['ArithFormula'] = self.quoted
            d['Line'] = lambda x, t: cstr('')
        else:
            d['Line'] = lambda x, t: cstr('')
        return d

    def quoted(self, x, ty):
        i = next((i for i, f in enumerate(self.prog.adts[ty]['variants'][0]['fields']) if short(self.prog.tkey(f['ty'])) == 'Contents'), None)
        if i is None:
            raise Missing('contents of a %s' % short(ty))
        cty = self.prog.tkey(self.prog.adts[ty]['variants'][0]['fields'][i]['ty'])
        v, t = self.get(part(self.e, x, i), cty, 'contents')
        el = elem_type(t)
        return self.each('s', v, lambda y: self.cases(y, el, self.inline(False), ANY))

    def elements(self, v, t):
        el = elem_type(t)
        return self.each('s', v, lambda y: self.cases(y, el, self.inline(True), ANY))

    def sentence(self, x, ty):
        v, t = self.get(x, ty, 'contents')
        return self.call(SENT, v)

    def sentences(self, v, t):
        el = elem_type(t)
        return self.each('s', v, lambda x: self.sentence(x, el))

    def body(self, v, t):
        """the text of an item"""
        def columns(cs, ct):
            c = elem_type(ct)

            def column(x):
                s, st = self.get(x, c, 'sentence')
                el = elem_type(st)
                return self.each('v', s, lambda y: seq('v', [('one', self.sentence(y, el))]))
            return self.join(self.each('v', cs, column), ' ')
        by = {}
        for k, pt in variant_types(self.prog, t):
            if pt and pt.startswith('std::vec::Vec<'):
                el = short(elem_type(pt))
                by[short(pt)] = self.sentences if el == 'Sentence' else columns if el == 'Column' else None
            elif short(pt) == 'Table':
                by['Table'] = lambda x, ty: self.call(TABLE, x)
        return self.cases(v, t, {k: f for k, f in by.items() if f}, ANY)

    def index(self, para, items):
        ty = U + 'TextIndex'
        fs = self.prog.adts[ty]['variants'][0]['fields']
        d = {'paragraph': para, 'items': items}
        if sorted(f['name'] for f in fs) != sorted(d):
            raise Missing('the parts of TextIndex')
        return mk('adt', ty, 0, tuple(d[f['name']] for f in fs))

    def items(self, src, ty, para, above):
        """the entries of the items in src and below"""
        def one(x):
            n, _ = self.get(x, ty, 'num')
            mine = seq('v', list(segs_of(above)) + [('one', n)])
            b, bt = self.get(x, ty, 'sentence')
            out = [('one', mk('tuple', (self.index(para, mine), self.body(b, bt))))]
            self.places += 1
            if any(f['name'] == 'children' for f in self.prog.adts[ty]['variants'][0]['fields']):
                c, ct = self.get(x, ty, 'children')
                out += segs_of(self.items(c, elem_type(ct), para, mine))
            return seq('v', out)
        return self.each('v', src, one)

    def paragraphs(self, src, ty):
        def one(x):
            n, _ = self.get(x, ty, 'num')
            s, st = self.get(x, ty, 'sentence')
            c, ct = self.get(x, ty, 'children')
            self.places += 1
            return seq('v', [('one', mk('tuple', (self.index(n, EMPTY), self.sentences(s, st))))] + list(segs_of(self.items(c, elem_type(ct), n, EMPTY))))
        return self.each('v', src, one)

    def lines(self, entries):
        """the texts of the entries on lines of their own"""
        return self.join(self.each('v', entries, lambda x: seq('v', [('one', x.a[0][1] if x.k == 'tuple' else self.e.fld(x, None, 1))])), '\n')

    def table(self, x, ty):
        h, ht = self.get(x, ty, 'table_header_row')
        r, rt = self.get(x, ty, 'table_row')
        ht, rt = elem_type(ht), elem_type(rt)

        def header(y):
            c, ct = self.get(y, ht, 'columns')
            el = elem_type(ct)
            return seq('v', [('one', self.each('s', c, lambda z: self.text(z, el)))])

        def cell(z, el):
            c, ct = self.get(z, el, 'contents')
            et = elem_type(ct)

            def column(y, t):
                s, st = self.get(y, t, 'sentence')
                return self.sentences(s, st)
            return self.each('s', c, lambda y: self.cases(y, et, {'String': lambda v, t: v, 'Sentence': self.sentence, 'Column': column}, ANY))

        def row(y):
            c, ct = self.get(y, rt, 'columns')
            el = elem_type(ct)
            return seq('v', [('one', self.join(self.each('v', c, lambda z: seq('v', [('one', cell(z, el))])), ' '))])
        return cat(self.join(self.each('v', h, header), ' '), '\n', self.join(self.each('v', r, row), '\n'))

    def plain(self, x, ty):
        """text of inline text"""
        v, t = self.get(x, ty, 'contents')
        el = elem_type(t)

        def raw(y, yt):
            return self.get(y, yt, 'text')[0]
        return self.each('s', v, lambda y: self.cases(y, el, {'String': lambda z, zt: z, 'Ruby': self.ruby, 'Sup': raw, 'Sub': raw, 'Line': lambda z, zt: cstr('')}, ANY))


def cat(*xs):
    return seq('s', [('splice', cstr(x) if isinstance(x, str) else x) for x in xs])


def example(prog, ty, name, level=0):
    """items with known children and sentences, unknown contents"""
    out = []
    for f in prog.adts[ty]['variants'][0]['fields']:
        t = prog.tkey(f['ty'])
        n = '%s.%s' % (name, f['name'])
        if f['name'] == 'children':
            et = elem_type(t)
            out.append(seq('v', [('one', example(prog, et, n + '/0', level + 1)), ('one', example(prog, et, n + '/1', 99))] if level < 99 else []))
        elif f['name'] == 'sentence' and t.startswith('std::vec::Vec<'):
            out.append(seq('v', [('one', mk('sym', n + '/0')), ('one', mk('sym', n + '/1'))]))
        elif f['name'] == 'sentence' and prog.adts.get(t, {}).get('kind') == 'enum':
            vs = variant_types(prog, t)
            k, pt = vs[level % len(vs)]
            pl = mk('sym', n)
            if pt and pt.startswith('std::vec::Vec<'):
                el = elem_type(pt)
                pl = seq('v', [('one', example(prog, el, n + '/0', 99) if short(el) == 'Column' else mk('sym', n + '/0')),
                               ('one', example(prog, el, n + '/1', 99) if short(el) == 'Column' else mk('sym', n + '/1'))])
            out.append(mk('adt', t, k, (pl,)))
        else:
            out.append(mk('sym', n))
    return mk('adt', ty, 0, tuple(out))


def mixed(prog, ty, name, level=0):
    """each variant between texts"""
    vs = variant_types(prog, ty)
    txt = next((k for k, pt in vs if pt == STR), None)
    out = []
    for k, pt in vs:
        n = '%s/%d' % (name, k)
        pl = mk('sym', n)
        if short(pt) in ('QuoteStruct', 'ArithFormula') and level == 0:
            pl = quoted_example(prog, pt, n)
        if txt is not None:
            out.append(('one', mk('adt', ty, txt, (mk('sym', n + ' before'),))))
        out += [('one', mk('adt', ty, k, (pl,)))] * 2
    if txt is not None:
        out.append(('one', mk('adt', ty, txt, (mk('sym', name + ' last'),))))
    return seq('v', out)


def quoted_example(prog, ty, name):
    fs = []
    for f in prog.adts[ty]['variants'][0]['fields']:
        t = prog.tkey(f['ty'])
        n = '%s.%s' % (name, f['name'])
        if short(t) == 'Contents':
            fs.append(quoted_example(prog, t, n))
        elif f['name'] == 'contents':
            fs.append(mixed(prog, elem_type(t), n, 1))
        else:
            fs.append(mk('sym', n))
    return mk('adt', ty, 0, tuple(fs))


def settle(rep, e, prog, key, got, want, path, note, more=None):
    P = Loose(e)
    if P.eq(got, want):
        rep.ok(key, '%s (%d comparisons)' % (note, P.n))
        return
    p, x, y, facts = P.fail
    if vague(x) or vague(y) or loops_lost(facts) or opaque(e, x) or opaque(e, got) or mentions(got, lambda t: t.k in ('fold', 'foldat', 'loopvar')):
        if more:
            try:
                got, want = more()
                P = Loose(e)
                if not P.eq(got, want):
                    p, a, b, facts = P.fail
                    if not (vague(a) or vague(b) or loops_lost(facts) or opaque(e, got) or mentions(got, lambda t: t.k in ('fold', 'foldat', 'loopvar'))):
                        rep.bad(key, 'the text has %s in place of %s (at %s)' % (show(a)[:300], show(b)[:300], p), site(prog, path))
                        return
            except (Missing, AnalysisError):
                pass
        rep.undecided(key, 'cannot compare %s with %s' % (show(x)[:150], show(y)[:150]))
    else:
        rep.bad(key, 'the text has %s in place of %s (at %s; case %s)' % (show(x)[:300], show(y)[:300], p, describe(facts)[:200]), site(prog, path))


def param(prog, path):
    f = prog.fns[path]
    t = prog.tkey(f['body']['locals'][1])
    while t.startswith('&'):
        t = t[1:]
    return t


def run(rep, prog):
    mine = {p for p in prog.fns if p.startswith(U) and '{' not in p}
    n = 0
    inlined = set()

    def do(key, path, boundary, want, note, more=None):
        nonlocal n
        try:
            if path not in prog.fns:
                raise Missing(path.replace(CR, ''))
            S = Summaries(prog, boundary)
            S.e.by_summary = mine - set(boundary)
            sp = Spec(S, prog)
            v, args, pc, ev = S.get(path, ['given'])
            w = want(sp, args[0])
            for b in boundary:
                S.e.opaque.pop(b, None)
                S.e.opaque.pop('rec:' + b, None)
            v = Plain(S.e, boundary)(v)
            n += sp.places

            def shapes():
                x = more(prog)
                r = Plain(S.e, boundary)(S.get(path, [x])[0])
                for b in boundary:
                    S.e.opaque.pop(b, None)
                return r, want(sp, x)
            settle(rep, S.e, prog, key, v, w, path, note, shapes if more else None)
            inlined.update(S.e.inlined)
        except Missing as ex:
            rep.undecided(key, 'missing: %s' % ex)
        except AnalysisError as ex:
            rep.undecided(key, str(ex))

    out = {SENT, TABLE, TEXT, TEXTW}
    for t, path in TEXTS.items():
        do('inline text: ' + short(t), path, {TEXT} - {path} if path != TEXT else set(), lambda sp, x, t=t: sp.plain(x, t), 'texts, bases of rubies, sub- and superscripts in order', lambda prog, t=t: quoted_example(prog, t, 'text'))
    if SENT in prog.fns:
        t = param(prog, SENT)
        t = t[1:-1] if t.startswith('[') else elem_type(t)
        do('sentence', SENT, out - {SENT}, lambda sp, x: sp.elements(x, 'std::vec::Vec<%s>' % t), 'every text, ruby base, sub- and superscript in order, inside quotations and formulas too', lambda prog: mixed(prog, t, 'sentence'))
    else:
        rep.undecided('sentence', 'missing: sentence_element_to_str')
    do('table', TABLE, out - {TABLE}, lambda sp, x: sp.table(x, CR + 'table::Table'), 'header and rows on lines, cells in order')
    P = CR + 'paragraph::Paragraph'
    A = CR + 'article::Article'

    def paras(prog):
        return seq('v', [('one', example(prog, P, 'first')), ('one', example(prog, P, 'second', 98))])

    def art(prog):
        fs = prog.adts[A]['variants'][0]['fields']
        return mk('adt', A, 0, tuple(paras(prog) if elemish(prog, f) == P else mk('sym', 'article.' + f['name']) for f in fs))

    def of_article(sp, x):
        i = next((i for i, f in enumerate(prog.adts[A]['variants'][0]['fields']) if elemish(prog, f) == P), None)
        if i is None:
            raise Missing('the paragraphs of an article')
        return part(sp.e, x, i)
    do('entries of paragraphs', U + 'text_info_list_from_paragraph', out, lambda sp, x: sp.paragraphs(x, P), 'one entry per paragraph, item and subitem at every depth, with its place and text', paras)
    do('text of paragraphs', U + 'text_from_paragraph_list', out, lambda sp, x: sp.lines(sp.paragraphs(x, P)), 'the texts of the entries, one per line', paras)
    do('text of an article', U + 'text_from_article', out, lambda sp, x: sp.lines(sp.paragraphs(of_article(sp, x), P)), 'the texts of the entries, one per line', art)
    rep.put('places_of_text', n)
    rep.put('functions_inlined', len(inlined))


def elemish(prog, f):
    t = prog.tkey(f['ty'])
    return elem_type(t) if t.startswith('std::vec::Vec<') else None


class Plain:
    """calls of text functions without type arguments; a recursive call is a call"""

    def __init__(self, e, boundary):
        self.e = e
        self.names = set(boundary) | {TEXT, TEXTW, SENT, TABLE}

    def __call__(self, v):
        names = self.names

        class R(Subst):
            def _go(self, t):
                if t.k == 'call' and t.a[0].replace('rec:', '', 1) in names:
                    return mk('call', t.a[0].replace('rec:', '', 1), (), self._tup(t.a[2]))
                return Subst._go(self, t)
        return R(self.e, {}, renaming=True)(v)
