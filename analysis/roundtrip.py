"""C01..C05: reading back what was written.

For every model type the reader's and the writer's result summaries (value-flow analysis of the MIR) are put
together: the reader's summary is applied to the element the writer's summary describes, for an unknown value
`self`; nested readers meeting the matching nested writer count as the identity, which is what the obligation of
the nested type says (the obligations are closed under use).  The outcome has to be Ok(self), field by field."""
from common import *
from compose import *
import stdmodel

GROUPS = {
    'C01': ['law::', 'suppl_provision::'],
    'C02': ['article::', 'paragraph::', 'class::', 'list::', 'sentence::'],
    'C03': ['appdx::', 'structs::', 'table::', 'fig::', 'contents::', 'remarks::'],
    'C04': ['table_of_contents::'],
    'C05': ['text::', 'line::'],
}
# types that have both a reader and a writer today
FLOOR = {'C01': 10, 'C02': 23, 'C03': 23, 'C04': 8, 'C05': 5}
VAGUE = {'iterated', 'after', 'rest_in_loop', 'next', 'advanced', 'callout', 'runtime_check'}


def vague(v):
    return isinstance(v, V) and mentions(v, lambda t: (t.k == 'call' and t.a[0] in VAGUE) or t.k in ('foldat', 'loopvar', 'uninit', 'constop', 'callout'))


def loops_lost(facts):
    return any(isinstance(a, Atom) and (a.kind in ('exit', 'more') or any(isinstance(t, V) and vague(t) for t in a.t)) for a in facts)


def possible(e, v, depth=6):
    """the values a loop-carried variable (or a part of one) can have: those it starts with and those put in"""
    if depth == 0:
        return None
    if v.k == 'fold' and v.a[0] in e.loops and v.a[1] in e.loops[v.a[0]].folds:
        init, bv, hv = e.loops[v.a[0]].folds[v.a[1]]
        out = []
        for l in list(leaves(init)) + list(leaves(bv)):
            if l is BOT or l is hv:
                continue
            more = possible(e, l, depth - 1) if l.k in ('fold', 'fld') else [l]
            if more is None:
                return None
            out += more
        return out
    if v.k == 'fld':
        base = possible(e, v.a[0], depth - 1)
        if base is None:
            return None
        out = []
        for l in base:
            if l.k == 'adt':
                if v.a[1] is None or l.a[1] == v.a[1]:
                    out += [x for x in leaves(l.a[2][v.a[2]]) if x is not BOT]
            else:
                return None
        return out
    return None


class RT:
    def __init__(self, prog):
        self.p = prog
        self.S = Summaries(prog)
        self.types = {}
        for (tr, ty, m), path in prog.impls.items():
            if tr.startswith(CR) and m in ('to_xml_element', 'to_xml_element_with_name', 'parser'):
                self.types.setdefault(ty, {})[m] = path

    def obligations(self):
        out = []
        for ty, ms in sorted(self.types.items()):
            if 'parser' in ms and 'to_xml_element' in ms:
                out.append((ty, W))
            elif 'parser' in ms and 'to_xml_element_with_name' in ms and ty != TEXT:
                out.append((ty, WN))
            elif 'to_xml_element_with_name' in ms and FE in self.p.fns and FE.startswith(ty):
                out.append((ty, FE))
        if FC in self.p.fns:
            out.append((TEXT, FC))
        return out

    def group(self, ty):
        t = ty[len(CR):]
        for g, ms in GROUPS.items():
            if any(t.startswith(m) for m in ms):
                return g
        return 'C03'

    def assume(self):
        """facts about the values readers make, established from their summaries first"""
        facts = []
        if FE in self.p.fns and self.sentences_never_empty():
            facts.append('soct')
        if NS in self.p.fns and self.num_str_never_empty():
            facts.append('num_str')

        def f(a):
            if a.kind == 'empty':
                t = a.t[0]
                if 'num_str' in facts and t.k == 'call' and t.a[0] == NS:
                    return 0
                if 'soct' in facts and t.k == 'fld' and t.a[1] in (0, 1) and t.a[2] == 0 and self.is_soct(t.a[0]):
                    return 0
            return None
        self.facts = facts
        return f

    def is_soct(self, x):
        return x in self.soct_terms

    def num_str_never_empty(self):
        v, args, pc, ev = self.S.get(NS, ['self'])

        def nonempty(l):
            if l.k == 'seq':
                return any(s[0] == 'splice' and nonempty(s[1]) or s[0] == 'one' for s in l.a[1])
            if l.k == 'c':
                return l.a[1] != ''
            if l.k == 'ite':
                return all(nonempty(x) for x in leaves(l) if x is not BOT)
            return l.k == 'call' and l.a[0] == 'to_string' and l.a[1] and l.a[1][0] in ('usize', 'u64', 'u32', 'i64')
        return all(nonempty(l) for l in leaves(v) if l is not BOT)

    def sentences_never_empty(self):
        """every sentence/column list from_element makes has an element"""
        v, args, pc, ev = self.S.get(FE, ['element'])
        ty = CR + 'class::SentenceOrColumnOrTable'

        def ok(l):
            if l.k == 'adt' and l.a[0].endswith('::Result'):
                if l.a[1] == 1:
                    return TRUE
                return norm(map_leaves(l.a[2][0], ok))
            if l.k == 'adt' and l.a[0] == ty:
                if l.a[1] == 2:
                    return TRUE
                return not_(self.S.e.stdmodel.is_empty_of(self.S.e, l.a[2][0]))
            alts = possible(self.S.e, l)
            if alts is None:
                return FALSE
            r = TRUE
            for x in alts:
                r = and_(r, norm(ok(x)) if x is not l else FALSE)
            return r
        r = norm(map_leaves(v, ok))
        return all(l is TRUE or l is BOT for l in leaves(r))

    def decide(self, ty, how):
        """None if reading inverts writing for the type; else (path, got, want, facts)"""
        S = self.S
        slf = mk('sym', 'self')
        used = {}
        if how == FC:
            v, args, pc, ev = S.get(FC, ['children'])
            w, wa, _, _ = S.get(TC, ['text']) if TC in self.p.fns else (None, None, None, None)
            goals = []
            if w is not None:
                goals.append(Comp(S, {wa[0]: slf}, None, used)(w))
            w, wa, _, _ = S.writer(TEXT, True)
            goals.append(self.kids(Comp(S, {wa[0]: slf}, None, used)(w)))
            want = slf
        else:
            v, args, pc, ev = S.get(FE, ['element']) if how == FE else S.reader(ty)
            w, wa, _, _ = S.writer(ty, how != W)
            goals = [Comp(S, {wa[0]: slf}, None, used)(w)]
            want = okv(slf)
        self.soct_terms = set()
        for g in goals:
            cp = Comp(S, {args[0]: g}, None, used)
            r = cp(v)
            self.collect_soct(ty, slf)
            pr = Prover(S.e, self.assume_fn)
            if not pr.eq(r, want):
                return pr.fail, used
        return None, used

    def kids(self, v):
        return norm(map_leaves(v, lambda l: l.a[2][KIDS] if l.k == 'adt' else self.S.e.fld(l, None, KIDS)))

    def collect_soct(self, ty, slf):
        ts = CR + 'class::SentenceOrColumnOrTable'
        if ty == ts:
            self.soct_terms.add(slf)
        a = self.p.adts.get(ty)
        if a and a['kind'] == 'struct':
            for i, f in enumerate(a['variants'][0]['fields']):
                if f['ty'] is not None and self.p.tkey(f['ty']) == ts:
                    self.soct_terms.add(self.S.e.fld(slf, None, i))

    def run(self, rep):
        self.soct_terms = set()
        self.facts = []
        self.assume_fn = self.assume()
        obs = self.obligations()
        mine = [o for o in obs if self.group(o[0]) == rep.prop]
        rep.put('model_types', len(mine))
        rep.put('facts_established', list(self.facts))
        if len(mine) < FLOOR[rep.prop]:
            rep.bad('floor', 'only %d readable and writable types are left of %d' % (len(mine), FLOOR[rep.prop]))
        names = {}
        total = 0
        for ty, how in mine:
            key = ty[len(CR):]
            fn = self.types[ty].get('to_xml_element') or self.types[ty].get('to_xml_element_with_name')
            where = self.p.loc(self.p.fns[fn])
            try:
                fail, used = self.decide(ty, how)
            except AnalysisError as ex:
                rep.undecided(key, str(ex))
                continue
            for u in used:
                names['%s / %s' % tuple(str(x).replace(CR, '') for x in u)] = used[u] + names.get('%s / %s' % tuple(str(x).replace(CR, '') for x in u), 0)
            total += 1
            if fail is None:
                rep.ok(key, 'reading what is written gives the value back')
                continue
            path, got, want, facts = fail
            det = 'for %s, writing a value and reading it back gives `%s` where `%s` was%s%s' % (
                key, show(got)[:300], show(want)[:200], (' at ' + path) if path else '',
                (', when ' + describe(facts)[:400]) if facts else '')
            if vague(got) or vague(want) or loops_lost(facts):
                rep.undecided(key, det)
            else:
                rep.bad(key + ' ' + field(path), det, where)
        rep.put('nested_pairs_used', names)
        rep.put('summaries', len(self.S.memo))
        rep.put('loops_summarised', len(self.S.e.loops))
        rep.put('unmodelled_calls', sorted(self.S.e.opaque)[:40])


def field(path):
    import re
    m = re.match(r'(?:::Ok\.0)?\.?([A-Za-z_0-9]*)', path)
    return m.group(1) if m and m.group(1) else 'whole'


def run(rep, prog):
    RT(prog).run(rep)
