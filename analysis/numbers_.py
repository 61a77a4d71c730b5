"""C14: the text of a number gives the number back.  C15: the notation of numbers.  C16: numerals and item symbols.

All three work on value-flow summaries of the number functions: the writing functions are summarised to string terms (literals,
numerals, one piece per branch number), the reading functions to decision diagrams over the pieces of the string; C14 substitutes the
former into the latter and normalises, C15/C16 compare them with the notation."""
from common import *
from compose import *
from roundtrip import vague, loops_lost
import stdmodel
import regex_

AN = CR + 'article_number::ArticleNumber'
ITEM = CR + 'article_number::ItemNumber'


class Strings(Comp):
    """composition that also cuts string terms at separators"""

    def callr(self, e, name, targs, a):
        if name == 'split' and len(a) >= 2 and a[1].k == 'c':
            sep = a[1].a[1] if a[1].a[0] == 's' else chr(a[1].a[1])
            r = pieces(self, a[0], sep)
            if r is not None:
                return r
        if name == 'split_once' and len(a) == 2 and a[1].k == 'c':
            sep = a[1].a[1] if a[1].a[0] == 's' else chr(a[1].a[1])
            r = pieces(self, a[0], sep)
            return norm(map_leaves(r, lambda l: cut_once(l, sep)))
        if name in ('split_terminator', 'rsplit', 'rsplit_once') and len(a) == 2 or name in ('splitn', 'rsplitn') and len(a) == 3 and a[1].k == 'c' and a[2].k == 'c':
            r = self.callr(e, 'split', targs, (a[0], a[-1]))
            r = norm(map_leaves(r, lambda l: cut_up(e, name, l, a)))
            if not opaque(e, r):
                return r
        if name == 'parse' and targs and targs[0] == 'usize':
            x = a[0]
            if x.k == 'call' and x.a[0] == 'to_string' and x.a[1] == ('usize',):
                return okv(x.a[2][0])
        return Comp.callr(self, e, name, targs, a)


    def lost(self, lp, k, v, L, init, el, src):
        vs = [l for l in leaves(v) if l is not BOT]
        if all(l is L or l.k == 'seq' and l.a[1] and l.a[1][-1] == ('splice', L) for l in vs) and not mentions(src, lambda t: t.k == 'call' and t.a[0] == 'rev'):
            kind = next(l.a[0] for l in vs if l.k == 'seq')
            one = map_leaves(v, lambda l: seq(kind, []) if l is L else seq(kind, l.a[1][:-1]) if l.k == 'seq' else l)
            if not mentions(one, lambda t: t.k == 'loopvar'):
                return seq(kind, [('splice', mk('call', 'reversed', (), (self.S.e.many(kind, el, src, norm(one)),)))] + segs_of(init, kind))
        return ite(self.S.e.stdmodel.is_empty_of(self.S.e, src), init, mk('call', 'iterated', (lp.id, k), (init, src)))


def cut_up(e, name, l, a):
    """the other ways of cutting at a separator, from the list of all parts"""
    sep = a[-1]
    sep = sep.a[1] if sep.k == 'c' and sep.a[0] == 's' else chr(sep.a[1]) if sep.k == 'c' else None
    if l.k != 'seq' or sep is None:
        return unsplit(a[0], '')
    sg = list(l.a[1])
    if name == 'split_terminator':
        if sg and sg[-1][0] == 'one':
            return ite(e.stdmodel.is_empty_of(e, sg[-1][1]), seq('v', sg[:-1]), l)
        if sg and all(e.stdmodel.is_empty_of(e, t) is FALSE for s in sg if s[0] in ('one', 'many') for t in ([s[1]] if s[0] == 'one' else [x[1] for x in segs_of(s[3])] if s[3].k == 'seq' and all(x[0] == 'one' for x in s[3].a[1]) else [EMPTY])):
            return l
        return unsplit(a[0], '')
    if any(s[0] != 'one' for s in sg):
        if name == 'rsplit':
            return mk('call', 'reversed', (), (l,))
        return unsplit(a[0], '')
    ps = [s[1] for s in sg]

    def join(xs):
        out = []
        for i, x in enumerate(xs):
            out += ([('splice', cstr(sep))] if i else []) + segs_of(x, 's')
        return seq('s', out)
    if name == 'rsplit':
        return seq('v', [('one', x) for x in reversed(ps)])
    if name == 'rsplit_once':
        return some(mk('tuple', (join(ps[:-1]), ps[-1]))) if len(ps) > 1 else NONE
    n = a[1].a[1]
    if n == 0:
        return EMPTY
    if name == 'splitn':
        return seq('v', [('one', x) for x in ps[:n - 1]] + ([('one', join(ps[n - 1:]))] if len(ps) >= n else []))
    k = max(len(ps) - n + 1, 0)
    return seq('v', [('one', x) for x in reversed(ps[k:])] + ([('one', join(ps[:k]))] if k else [])) if len(ps) < n else seq('v', [('one', x) for x in reversed(ps[k:])] + [('one', join(ps[:k]))])


def cut_once(l, sep):
    if l.k == 'seq' and l.a[1] and l.a[1][0][0] == 'one' and all(s[0] == 'one' for s in l.a[1]):
        if len(l.a[1]) == 1:
            return NONE
        more = segs_of(l.a[1][1][1], 's')
        for s in l.a[1][2:]:
            more += [('splice', cstr(sep))] + segs_of(s[1], 's')
        return some(mk('tuple', (l.a[1][0][1], seq('s', more))))
    return unsplit(l, sep)


def numeral(x):
    return x.k == 'call' and x.a[0] == 'to_string' and x.a[1] == ('usize',)


def is_idx(v, el):
    return v.k == 'idx' and v.a[0] is el


def unroll_first(C, s):
    """a loop whose body depends on whether it is the first round, as first round and rest"""
    el, src, body = s[1], s[2], s[3]
    ids = [v for v in all_terms(body) if is_idx(v, el)]
    if not ids:
        return None
    idx = ids[0]
    for a in atoms_of(body):
        if any(mentions(t, lambda v: v is idx) for t in a.t if isinstance(t, V)):
            if a.kind != 'val' or a.t[0] is not idx:
                raise AnalysisError('the position in the loop is used in an unknown way')
    for v in all_terms(body):
        if v.k == 'ite' and v.a[0].kind == 'val' and v.a[0].t[0] is idx and {k for k, _ in v.a[1]} != {0}:
            raise AnalysisError('the position in the loop is compared with other numbers than 0')

    def pick(v, k):
        def rule(a, sub):
            if a.kind == 'val' and a.t[0] is idx:
                return cint(k)
            return None
        return Subst(C.S.e, {}, rule)(v)
    first = Subst(C.S.e, {el: mk('at', src, cint(0))})(pick(body, 0))
    rest = stdmodel.p_rest(C.S.e, (), src, cint(1))
    return first, rest, pick(body, 1 << 40)


def all_terms(v, seen=None):
    seen = {} if seen is None else seen
    if v in seen:
        return
    seen[v] = True
    yield v
    if v.k == 'ite':
        for t in v.a[0].t:
            if isinstance(t, V):
                yield from all_terms(t, seen)
    for x in subterms(v):
        yield from all_terms(x, seen)


def pieces(C, x, sep):
    """the list of parts of the string term x between separators"""
    e = C.S.e
    if x.k == 'ite':
        return norm(map_leaves(x, lambda l: pieces(C, l, sep) or mk('call', 'split', (), (l, cstr(sep)))))
    out, cur = [], []
    todo = segs_of(x, 's')
    while todo:
        s = todo.pop(0)
        if s[0] == 'splice':
            v = unjoin(C, s[1])
            if v is not s[1]:
                todo = segs_of(v, 's') + todo
                continue
            if v.k == 'c':
                ps = v.a[1].split(sep)
                cur.append(('splice', cstr(ps[0])))
                for p in ps[1:]:
                    out.append(('one', seq('s', cur)))
                    cur = [('splice', cstr(p))]
            elif alphabet(v) is not None and not set(sep) & set(alphabet(v)):
                cur.append(s)
            elif v.k == 'ite':
                res = map_leaves(v, lambda l: glue(C, out, cur, seq('s', segs_of(l, 's') + todo), sep))
                return norm(res)
            else:
                return unsplit(x, sep)
        elif s[0] == 'many':
            u = unroll_first(C, s)
            if u is not None:
                first, rest, body = u
                full = seq('s', segs_of(first, 's') + [('many', s[1], rest, body)] + todo)
                none = seq('s', todo)
                em = e.stdmodel.is_empty_of(e, s[2])
                a = glue(C, out, cur, none, sep)
                b = glue(C, out, cur, full, sep)
                return ite(em, a, b)
            body = s[3]
            if body.k == 'ite':
                # a filter: nothing, or a separator and one more part
                if all(whole(pieces(C, l, sep)) for l in leaves(body) if l is not BOT):
                    cur.append(s)
                    continue
                leaf = {}
                for l in leaves(body):
                    if l is BOT:
                        continue
                    if l is cstr(''):
                        leaf[l] = EMPTY
                        continue
                    ps = pieces(C, l, sep)
                    if ps.k != 'seq' or len(ps.a[1]) != 2 or ps.a[1][0] != ('one', cstr('')) or ps.a[1][1][0] != 'one':
                        return ite(e.stdmodel.is_empty_of(e, s[2]), glue(C, out, cur, seq('s', todo), sep), unsplit(x, sep))
                    leaf[l] = seq('v', [ps.a[1][1]])
                out.append(('one', seq('s', cur)))
                out.append(('many', s[1], s[2], norm(map_leaves(body, lambda l: leaf.get(l, l)))))
                if todo:
                    if heads(todo[0], sep) is not True:
                        return unsplit(x, sep)
                    todo, cur = strip_head(todo, sep), []
                    continue
                return seq('v', out)
            ps = pieces(C, body, sep)
            if ps.k != 'seq' or any(p[0] != 'one' for p in ps.a[1]):
                return unsplit(x, sep)
            n = [p[1] for p in ps.a[1]]
            if len(n) == 1:
                cur.append(s)
            elif len(n) == 2 and n[0] is cstr(''):
                out.append(('one', seq('s', cur)))
                out.append(('many', s[1], s[2], seq('v', [('one', n[1])])))
                # the last part goes on only if a separator follows at once
                nxt = todo[0] if todo else None
                if nxt is not None:
                    h = heads(nxt, sep)
                    if h is not True:
                        if nxt[0] == 'many':
                            alt = pieces(C, seq('s', segs_of(x, 's')[:-len(todo)] + todo[1:]), sep) if segs_of(x, 's')[-len(todo):] == todo else None
                            if alt is not None:
                                return ite(e.stdmodel.is_empty_of(e, nxt[2]), alt, unsplit(x, sep))
                        return unsplit(x, sep)
                    todo = strip_head(todo, sep)
                    cur = []
                    continue
                return seq('v', out)
            else:
                return unsplit(x, sep)
        else:
            return unsplit(x, sep)
    out.append(('one', seq('s', cur)))
    return seq('v', out)


def unjoin(C, v):
    """join over a list of mapped elements, as first element and separated rest"""
    if v.k != 'call' or v.a[0] not in ('join', 'concat') or v.a[2][0].k != 'seq' or len(v.a[2][0].a[1]) != 1:
        return v
    s = v.a[2][0].a[1][0]
    sep = v.a[2][1] if len(v.a[2]) > 1 else cstr('')
    if s[0] != 'many' or s[3].k != 'seq' or len(s[3].a[1]) != 1 or s[3].a[1][0][0] != 'one':
        return v
    e = C.S.e
    el, src, body = s[1], s[2], s[3].a[1][0][1]
    first = Subst(e, {el: mk('at', src, cint(0))})(body)
    rest = stdmodel.p_rest(e, (), src, cint(1))
    full = seq('s', segs_of(first, 's') + [('many', el, rest, seq('s', [('splice', sep)] + segs_of(body, 's')))])
    return ite(e.stdmodel.is_empty_of(e, src), cstr(''), full)


KNOWN = {'roman::to', 'roman::from', CR + 'article_number::to_zenkaku_alphabet'}


def opaque(e, v):
    """something the analysis does not know"""
    names = (set(e.opaque) | {'unsplit', 'splitn', 'rsplit', 'rsplitn', 'split_terminator', 'rsplit_once'}) - KNOWN
    return mentions(v, lambda t: t.k == 'call' and t.a[0] in names or t.k in ('clos', 'callout'))


class Careful(Prover):
    """goes on after a comparison that cannot be decided"""
    unsure = None

    def no(self, x, y, facts, path):
        if unsure(self.e, x, y, facts):
            self.unsure = self.unsure or (path, x, y, dict(facts))
            return True
        return Prover.no(self, x, y, facts, path)


def verdict(rep, e, key, got, want, what, where, note=''):
    judge(rep, Careful(e), key, got, want, what, where, note)


def judge(rep, P, key, got, want, what, where, note=''):
    if not P.eq(got, want):
        p, x, y, facts = P.fail
        rep.bad(key, '%s %s in place of %s (at %s; case %s)' % (what, show(x)[:250], show(y)[:250], p, describe(facts)[:300]), where)
    elif P.unsure:
        p, x, y, facts = P.unsure
        rep.undecided(key, 'cannot compare %s with %s' % (show(x)[:150], show(y)[:150]))
    else:
        rep.ok(key, (note or '%d case comparisons') % P.n if '%d' in note else '%s (%d comparisons)' % (note, P.n))


def unsure(e, x, y, facts):
    return vague(x) or vague(y) or loops_lost(facts) or any(opaque(e, t) for t in [x, y] + [t for a in facts if isinstance(a, Atom) for t in a.t if isinstance(t, V)])


def heads(s, sep):
    return s[0] == 'splice' and s[1].k == 'c' and s[1].a[1].startswith(sep)


def strip_head(todo, sep):
    return [('splice', cstr(todo[0][1].a[1][len(sep):]))] + todo[1:]


def glue(C, out, cur, rest, sep):
    return norm(prefix(out, pieces(C, seq('s', cur + segs_of(rest, 's')), sep)))


def unsplit(x, sep):
    return mk('call', 'unsplit', (), (x, cstr(sep)))


def whole(p):
    return p.k == 'seq' and len(p.a[1]) == 1 and p.a[1][0][0] == 'one'


def prefix(out, v):
    return map_leaves(v, lambda l: seq('v', out + segs_of(l)))


def rejoin(e, v, src):
    """first(src) followed by rest(src) is src"""
    first = mk('at', src, cint(0))

    def f(l):
        sg = segs_of(l)
        if len(sg) == 2 and sg[0] == ('one', first):
            s = sg[1]
            if s[0] == 'many' and s[2].k == 'call' and s[2].a[0] == 'rest' and s[2].a[2][0] is src and s[3].k == 'seq' and s[3].a[1] == (('one', s[1]),):
                return src
            if s[0] == 'splice' and s[1].k == 'call' and s[1].a[0] == 'rest' and s[1].a[2][0] is src:
                return src
        return l
    return norm(map_leaves(v, f))


def fresh_summaries(prog, boundary=()):
    return Summaries(prog, boundary=list(boundary))


def c14(rep, prog):
    S = fresh_summaries(prog)
    for name, path in (('ArticleNumber::num_str, then ArticleNumber::from_num_str', FNS), ('ArticleNumber::num_str, then str::parse', None)):
        if path is None:
            path = prog.impls.get(('std::str::FromStr', AN, 'from_str'))
        try:
            if path not in prog.fns or NS not in prog.fns:
                raise Missing(name)
            w, wa, _, _ = S.get(NS, ['self'])
            r, ra, _, _ = S.get(path, ['s'])
            C = Strings(S, {ra[0]: w})
            v = C(r)
            v = tidy(S.e, v, wa[0])
            verdict(rep, S.e, name, v, okv(wa[0]), 'reading back what was written gives', site(prog, path), 'gives the number back (%d case comparisons)')
        except Missing as ex:
            rep.undecided(name, 'function missing: %s' % ex)
        except AnalysisError as ex:
            rep.undecided(name, str(ex))
        malformed(rep, prog, name.split(' then ')[1], path)


SHAPES = ('a', 'a_b', 'a_b_c', 'a:d', 'a:d_e', 'a_b:d_e', 'a_b_c:d_e_f', 'a_b_c_g_h_i:d_e_f_j_k_l')


def malformed(rep, prog, name, path):
    """a text of any pieces between the separators: the numbers in their places, or an error"""
    for sh in SHAPES:
        key = '%s of %s' % (name, sh)
        try:
            if path not in prog.fns:
                raise Missing(name)
            S = fresh_summaries(prog)
            p = {x: mk('call', 'piece', (x,), ()) for x in sh if x.isalpha()}
            text = strs(*[p.get(x, x) for x in sh])
            r, ra, _, _ = S.get(path, ['s'])
            v = map_leaves(Strings(S, {ra[0]: text})(r), lambda l: errv(UNIT) if l.k == 'adt' and l.a[0] == RES and l.a[1] == 1 else l)
            q = {x: mk('call', 'parse', ('usize',), (y,)) for x, y in p.items()}
            n = {x: S.e.fld(y, 0, 0) for x, y in q.items()}
            head, _, tail = sh.partition(':')
            lists = [seq('v', [('one', n[x]) for x in part.split('_') if x]) for part in (head[2:], tail)]
            w = okv(mk('adt', AN, 0, (n['a'], lists[0], lists[1])))
            for x in q.values():
                w = switch(atom('disc', x, dom=(0, 1)), {0: w, 1: errv(UNIT)})
            for k, x in p.items():
                em = S.e.stdmodel.is_empty_of(S.e, x)
                if em.k == 'ite' and any(at is em.a[0] for at in atoms_of(v)):
                    v = empty_piece(S.e, em.a[0], q[k], v)
                    w = switch(em.a[0], {0: w, 1: errv(UNIT)})
            judge(rep, Careful(S.e), key, v, w, 'the result is', site(prog, path), 'numbers in their places, an error if a piece is no number')
        except Missing as ex:
            rep.undecided(key, 'function missing: %s' % ex)
        except AnalysisError as ex:
            rep.undecided(key, str(ex))


def empty_piece(e, em, parsed, v):
    """v, knowing that an empty text is not a number"""
    one = Subst(e, {}, lambda at, sub: cint(1) if at is em else cint(1) if at.kind == 'disc' and at.t[0] is parsed else None)(v)
    none = Subst(e, {}, lambda at, sub: cint(0) if at is em else None)(v)
    return norm(switch(em, {0: none, 1: one}))


def tidy(e, v, me):
    lists = [e.fld(me, None, i) for i in range(3)]

    def f(l):
        if l.k == 'adt' and l.a[0] == AN:
            def whole_list(x):
                x = lifted(None, x) if x.k in ('seq', 'ite') else x
                for y in lists[1:]:
                    x = rejoin(e, x, y)
                return x
            return mk('adt', l.a[0], l.a[1], tuple(whole_list(x) for x in l.a[2]))
        if l.k == 'adt':
            return mk('adt', l.a[0], l.a[1], tuple(norm(map_leaves(x, f)) for x in l.a[2]))
        return l
    return norm(map_leaves(v, f))


# ---------------------------------------------------------------- C15: the notation

KATAKANA = 'イロハニホヘトチリヌルヲワカヨタレソツネナラムウヰノオクヤマケフコエテアサキユメミシヱヒモセス'
HIRAGANA = 'いろはにほへとちりぬるをわかよたれそつねならむうゐのおくやまけふこえてあさきゆめみしゑひもせす'
KANJI = '一二三四五六七八九十百千'
ASCII = '0123456789'
WIDE = '０１２３４５６７８９'
ROMAN = 'IVXLCDM'
ALPHA = CR + 'article_number::to_zenkaku_alphabet'


def alphabet(x):
    """the characters a string term can consist of, where that is known"""
    if numeral(x):
        return ASCII
    if x.k == 'fld' and x.a[0].k == 'call' and x.a[0].a[0] in ('roman::to',):
        return ROMAN
    if x.k == 'call' and x.a[0] == 'charmap':
        return ''.join(dict.fromkeys(''.join(v for _, v in x.a[1])))
    if x.k == 'call' and x.a[0] == 'to_string' and x.a[1] == ('kansuji::Kansuji',):
        return KANJI
    if x.k == 'call' and x.a[0] == 'symbol':
        return x.a[1][0]
    if x.k == 'call' and x.a[0] == 'piece':
        return '?'
    return None


def charmap(x, f):
    """the string x with every character replaced by f of it (None: unknown)"""
    al = alphabet(x)
    if al is None:
        return None
    if x.k == 'call' and x.a[0] == 'charmap':
        base, pairs = x.a[2][0], x.a[1]
    else:
        base, pairs = x, tuple((k, k) for k in al)
    out = []
    for k, v in pairs:
        r = [f(ch) for ch in v]
        if None in r:
            return None
        out.append((k, ''.join(r)))
    if all(k == v for k, v in out):
        return base
    return mk('call', 'charmap', tuple(out), (base,))


class Notation(Strings):
    """also brings replaced characters to one form"""

    def callr(self, e, name, targs, a):
        if name == 'replace' and len(a) == 3 and a[2].k == 'c' and a[2].a[0] == 's' and a[1].k == 'c':
            k = a[1].a[1] if a[1].a[0] == 's' else chr(a[1].a[1])
            r = charmap(a[0], lambda ch: ch.replace(k, a[2].a[1])) if len(k) == 1 else None
            if r is not None:
                return r
        return Strings.callr(self, e, name, targs, a)

    def _go(self, v):
        r = Strings._go(self, v)
        if r.k == 'seq' and r.a[0] == 's':
            sg = [self.mapped(s) for s in r.a[1]]
            if sg != list(r.a[1]):
                r = seq('s', sg)
        return r

    def mapped(self, s):
        if s[0] != 'many' or s[2].k != 'call' or s[2].a[0] != 'chars':
            return s
        el = s[1]

        def f(ch):
            v = Comp(self.S, {el: c('ch', ord(ch))})(s[3])
            if v.k == 'seq' and len(v.a[1]) == 1:
                v = v.a[1][0][1]
            if v.k == 'c':
                return v.a[1] if v.a[0] == 's' else chr(v.a[1])
            return None
        r = charmap(s[2].a[2][0], f)
        return s if r is None else ('splice', r)


class Letters(Careful):
    """compares string terms character by character"""

    def flat(self, kind, sg, facts):
        out = Careful.flat(self, kind, sg, facts)
        if kind != 's' or out is None:
            return out
        res = []
        for s in out:
            if s[0] == 'splice' and s[1].k == 'c' and s[1].a[0] == 's':
                res += [('splice', cstr(ch)) for ch in s[1].a[1]]
            else:
                res.append(s)
        return res

    def same(self, kind, a, b, facts, why=None):
        if a == b:
            return True
        if kind == 's' and a[0] == b[0] == 'splice' and a[1].k == 'ite' and b[1].k == 'ite' and a[1].a[0] is b[1].a[0]:
            keep, ku = self.fail, self.unsure
            r = self.go(a[1], b[1], facts, '') and self.unsure is ku
            self.fail, self.unsure = keep, ku
            if r:
                return True
        return Careful.same(self, kind, a, b, facts)

    def go(self, x, y, facts, path):
        if x.k == 'c' and y.k == 'c' and x is not y and x.a[0] == 's':
            return self.no(x, y, facts, path)
        return Careful.go(self, x, y, facts, path)


def canonical(C, v):
    """string terms as flat lists of parts: joins and first-round cases opened"""
    e = C.S.e

    def text(l):
        if l.k == 'c':
            return l
        res = cstr('')
        for s in segs_of(l, 's'):
            if s[0] == 'splice':
                w = unjoin(C, s[1])
                part = norm(map_leaves(w, text)) if w is not s[1] or w.k == 'ite' else w
            elif s[0] == 'many':
                u = unroll_first(C, s)
                if u is not None:
                    first, rest, body = u
                    part = ite(e.stdmodel.is_empty_of(e, s[2]), cstr(''), seq('s', segs_of(first, 's') + [('many', s[1], rest, body)]))
                else:
                    part = seq('s', [s])
            else:
                part = seq('s', [s])
            res = seq('s', segs_of(res, 's') + [('splice', part)] if part.k == 'ite' else segs_of(res, 's') + segs_of(part, 's'))
        return res
    return norm(map_leaves(v, text))


def written(e, me, head, branch, no='の', second=None, opened=False):
    """the text of a number, from the texts of its parts"""
    base, eda, rng = (e.fld(me, None, i) for i in range(3))

    def branches(l, nm):
        el = mk('elem', 'spec|' + nm, 0)
        if not opened:
            return [('many', el, l, strs(no, branch(el)))]
        more = seq('s', segs_of(strs(no, branch(stdmodel.at(e, l, 0))), 's') + [('many', el, stdmodel.p_rest(e, (), l, cint(1)), strs(no, branch(el)))])
        return [('splice', ite(e.stdmodel.is_empty_of(e, l), cstr(''), more))]
    tail = seq('s', segs_of(strs('から', (second or head)(mk('at', rng, cint(0)))), 's') + branches(stdmodel.p_rest(e, (), rng, cint(1)), 'range') + [('splice', cstr('まで'))])
    return seq('s', segs_of(strs(head(base)), 's') + branches(eda, 'eda') + [('splice', ite(e.stdmodel.is_empty_of(e, rng), cstr(''), tail))])


def opened_list(e, l, n):
    """a list by cases of its first n elements"""
    if n == 0:
        return l
    return ite(e.stdmodel.is_empty_of(e, l), EMPTY, seq('v', [('one', stdmodel.at(e, l, 0)), ('splice', opened_list(e, stdmodel.p_rest(e, (), l, cint(1)), n - 1))]))


def n_text(n):
    return mk('call', 'to_string', ('usize',), (n,))


def wide(n):
    return mk('call', 'charmap', tuple(zip(ASCII, WIDE)), (n_text(n),))


def kansuji(n):
    return mk('call', 'to_string', ('kansuji::Kansuji',), (mk('call', 'convert', ('usize', 'kansuji::Kansuji'), (n,)),))


def table(letters):
    return lambda e, n: switch(atom('val', n), {i + 1: cstr(ch) for i, ch in enumerate(letters)}, wide(n))


def roman(letters):
    def f(e, n):
        c = mk('call', 'try_convert', ('usize', 'i32'), (n,))
        r = mk('call', 'roman::to', (), (e.fld(c, 0, 0),))
        t = mk('call', 'charmap', tuple(zip(ROMAN, letters)), (e.fld(r, 1, 0),))
        inner = switch(atom('disc', r, dom=(0, 1)), {0: wide(n), 1: t})
        return switch(atom('disc', c, dom=(0, 1)), {0: inner, 1: wide(n)})
    return f


def letters(first):
    def f(e, n):
        r = mk('call', ALPHA, (), (mk('c', 'ch', ord(first)), n))
        return switch(atom('disc', r, dom=(0, 1)), {0: wide(n), 1: e.fld(r, 1, 0)})
    return f


SYMBOLS = {
    'Kansuji': lambda e, n: kansuji(n),
    'IrohaKatakana': table(KATAKANA),
    'IrohaHiragana': table(HIRAGANA),
    'ZenkakuNum': lambda e, n: wide(n),
    'ZenkakuRomanUpper': roman('ＩＶＸＬＣＤＭ'),
    'ZenkakuRomanLower': roman('ｉｖｘｌｃｄｍ'),
    'ZenkakuUpper': letters('Ａ'),
    'ZenkakuLower': letters('ａ'),
}

HEADS = (('part_text', '編'), ('chapter_text', '章'), ('section_text', '節'), ('subsection_text', '款'), ('division_text', '目'), ('article_text', '条'))


def strs(*xs):
    return seq('s', [('splice', cstr(x) if isinstance(x, str) else x) for x in xs])


def c15(rep, prog):
    for name, suffix in HEADS:
        check_text(rep, prog, name, lambda e, me: written(e, me, lambda n: strs('第', kansuji(n), suffix), kansuji), '第…%s[の…][から第…%s[の…]まで]' % (suffix, suffix))
    check_text(rep, prog, 'paragraph_text', lambda e, me: written(e, me, wide, wide), 'full-width digits')
    pat = prog.adts.get(CR + 'article_number::ItemPattern')
    if pat is None:
        rep.undecided('item_text', 'no enumeration of item patterns')
        return
    for i, var in enumerate(pat['variants']):
        nm = var['name']
        paren = nm.startswith('Paren')
        f = SYMBOLS.get(nm[5:] if paren else nm[7:])
        if f is None:
            rep.undecided('item_text, ' + nm, 'unknown kind of symbol')
            continue
        p = mk('adt', CR + 'article_number::ItemPattern', i, ())

        def want(e, me):
            plain = lambda n: f(e, n)
            return written(e, me, (lambda n: strs('（', f(e, n), '）')) if paren else plain, plain)
        check_text(rep, prog, 'item_text', want, 'numerals %s' % nm, [p], 'item_text, ' + nm, need=ALPHA if nm.endswith(('Upper', 'Lower')) and 'Roman' not in nm else None)


def check_text(rep, prog, name, want, note, args=(), key=None, need=None):
    path = AN + '::' + name
    key = key or name
    try:
        if path not in prog.fns:
            raise Missing(path)
        if need and need not in prog.fns:
            raise Missing(need)
        S = fresh_summaries(prog, [ALPHA])
        v, a, _, _ = S.get(path, ['self'] + list(args))
        C = Notation(S, {})
        got = canonical(C, C(v))
        w = canonical(C, want(S.e, a[0]))
        judge(rep, Letters(S.e), key, got, w, 'the text is', site(prog, path), note)
    except Missing as ex:
        rep.undecided(key, 'function missing: %s' % ex)
    except AnalysisError as ex:
        rep.undecided(key, str(ex))


# ---------------------------------------------------------------- C16: written text is read back

class Reading(Notation):
    """also runs the regular expressions of the program over string terms"""

    def callr(self, e, name, targs, a):
        if name == 'captures':
            r = self.captures(a[0], a[1])
            if r is not None:
                return r
        if name == 'is_match':
            r = self.captures(a[0], a[1])
            if r is not None:
                return map_leaves(r, lambda l: FALSE if l is NONE else TRUE)
        if name == 'contains' and len(a) == 2 and (a[1].k == 'c' or a[1].k == 'seq' and all(s[0] == 'one' and s[1].k == 'c' for s in a[1].a[1])):
            cs = [s[1] for s in a[1].a[1]] if a[1].k == 'seq' else [a[1]]
            if all(x.a[0] == 'ch' for x in cs):
                pat = '[%s]' % ''.join('\\' + chr(x.a[1]) if chr(x.a[1]) in '[]\\^-&~|' else chr(x.a[1]) for x in cs)
                r = self.captures(mk('call', 'regex', (), (cstr(pat),)), a[0])
                if r is not None:
                    return map_leaves(r, lambda l: FALSE if l is NONE else TRUE)
        if name in ('cap_name', 'cap_index') and a[0].k == 'call' and a[0].a[0] == 'found' and a[1].k == 'c':
            for n, v in zip(a[0].a[1], a[0].a[2]):
                if n == a[1].a[1]:
                    return v if name == 'cap_name' else map_leaves(v, lambda l: BOT if l is NONE else l.a[2][0] if l.k == 'adt' else l)
            return BOT
        if name == 'match_str' and is_text(a[0]):
            return a[0]
        if name == 'trim' and a[0].k == 'seq' and not any(s[0] == 'splice' and s[1].k == 'c' and s[1].a[1].strip() != s[1].a[1] for s in a[0].a[1]):
            return a[0]
        if name == 'parse' and targs and targs[0] == 'usize':
            al = alphabet_of(a[0])
            if al is not None and al and not set(al) & set(ASCII + '+'):
                return errv(mk('call', 'parse_error', (), (a[0],)))
        if name == 'try_convert' and targs == ('str', 'kansuji::Kansuji'):
            x = only(a[0])
            if x.k == 'call' and x.a[0] == 'to_string' and x.a[1] == ('kansuji::Kansuji',):
                return okv(x.a[2][0])
        if name == 'convert' and targs == ('kansuji::Kansuji', 'u128') and a[0].k == 'call' and a[0].a[0] == 'convert' and a[0].a[1] == ('usize', 'kansuji::Kansuji'):
            return mk('call', 'as', ('u128',), (a[0].a[2][0],))
        if name == 'chars':
            r = self.letter(a[0])
            if r is not None:
                return map_leaves(r, lambda l: l if l is BOT else seq('v', [('one', c('ch', ord(l.a[1])))]))
        if name == 'roman::from':
            x = only(a[0])
            if x.k == 'call' and x.a[0] == 'symbol':
                return some(mk('call', 'as', ('u128',), x.a[2]))
        if name == 'as' and targs == ('usize',) and a[0].k == 'call' and a[0].a[0] == 'as' and a[0].a[1] == ('u128',):
            return a[0].a[2][0]
        if name == 'replace' and len(a) == 3 and a[0].k == 'seq' and a[1].k == 'c' and a[2].k == 'c':
            k = a[1].a[1] if a[1].a[0] == 's' else chr(a[1].a[1])
            r = replaced(a[0], k, a[2].a[1]) if len(k) == 1 else None
            if r is not None:
                return r
        if name in self.S.base and (is_text(a[0]) or a[0].k == 'ite' and all(is_text(l) for l in leaves(a[0]))):
            v, va, _, _ = self.S.get(name, ['s'])
            r = self.one_by_one(v, va[0], a[0])
            return r if r is not None else self.child({va[0]: a[0]})(v)
        if name == 'replace' and len(a) == 3 and only(a[0]) is not a[0]:
            return self.callr(e, name, targs, (only(a[0]), a[1], a[2]))
        if name == 'parse' and only(a[0]) is not a[0]:
            return self.callr(e, name, targs, (only(a[0]),))
        if name == 'split' and len(a) == 2 and a[1].k == 'seq' and all(s[0] == 'one' and s[1].k == 'c' for s in a[1].a[1]):
            al = alphabet_of(a[0])
            if al is not None:
                seps = [s[1] for s in a[1].a[1]]
                used = [x for x in seps if chr(x.a[1]) in al]
                if len(used) <= 1:
                    return Notation.callr(self, e, name, targs, (a[0], used[0] if used else seps[0])) or unsplit(a[0], '')
        return Notation.callr(self, e, name, targs, a)

    def one_by_one(self, v, arg, x):
        """a function of the text of a one-letter symbol, for every letter"""
        sy = {t for t in all_terms(x) if t.k == 'call' and t.a[0] == 'symbol' and t.a[1][2]}
        if len(sy) != 1:
            return None
        sy = sy.pop()
        order, n = sy.a[1][2], sy.a[2][0]
        rs = []
        for ch in sy.a[1][0]:
            y = seq('s', [('splice', cstr(ch) if s[0] == 'splice' and s[1] is sy else s[1]) for s in segs_of(x, 's')])
            rs.append((order.index(ch) + 1, self.child({arg: y})(v)))

        def same(rs):
            if all(r is rs[0][1] for _, r in rs):
                return rs[0][1]
            if all(r.k == 'c' and r.a == ('i', k) for k, r in rs):
                return n
            if all(r.k == 'adt' and r.a[:2] == rs[0][1].a[:2] for _, r in rs) or all(r.k == 'tuple' and len(r.a[0]) == len(rs[0][1].a[0]) for _, r in rs if rs[0][1].k == 'tuple') and rs[0][1].k == 'tuple':
                sub = [same([(k, (r.a[2] if r.k == 'adt' else r.a[0])[i]) for k, r in rs]) for i in range(len(rs[0][1].a[2] if rs[0][1].k == 'adt' else rs[0][1].a[0]))]
                if None in sub:
                    return None
                return mk('adt', rs[0][1].a[0], rs[0][1].a[1], tuple(sub)) if rs[0][1].k == 'adt' else mk('tuple', tuple(sub))
            return None
        r = same(rs)
        return r if r is not None else switch(atom('val', n), dict(rs), BOT)

    def letter(self, t):
        """a one-letter symbol, case by case"""
        t = only(t)
        if t.k == 'call' and t.a[0] == 'symbol' and t.a[1][2]:
            return switch(atom('val', t.a[2][0]), {t.a[1][2].index(ch) + 1: cstr(ch) for ch in t.a[1][0]}, BOT)
        return None

    def captures(self, rx, x):
        while rx.k == 'fld':
            rx = rx.a[0]
        if rx.k != 'call' or rx.a[0] != 'regex' or rx.a[2][0].k != 'c':
            return None
        x = lifted(self, x)
        if x.k == 'ite':
            return norm(map_leaves(x, lambda l: self.captures(rx, l) or mk('call', 'captures', (), (rx, l))))
        parts, segs = as_parts(x)
        if parts is None:
            return None
        try:
            r = regex_.match(rx.a[2][0].a[1], parts)
        except regex_.Unsupported as ex:
            raise AnalysisError('regular expression: %s' % ex)
        if r.some is None:
            return NONE
        fs = []
        for word, group in r.cases:
            vals = []
            for n in sorted(r.names):
                g = group[n]
                if g is None:
                    vals.append(NONE)
                elif g is regex_.VARIES:
                    vals.append(some(mk('call', 'cut', (n, word), (x,))))
                else:
                    vals.append(some(seq('s', segs[g[0]:g[1]])))
            fs.append((word, some(mk('call', 'found', tuple(sorted(r.names)), tuple(vals)))))
        if r.none is not None:
            fs.append((None, NONE))
        if len(fs) == 1:
            return fs[0][1]
        words = ' or '.join('no match, as %s' % r.none if w is None else w for w, _ in fs)
        return switch(atom('matched as', cstr(words), mk('call', 'regex', (), (rx.a[2][0],)), dom=range(len(fs))), {i: f for i, (_, f) in enumerate(fs)})

    def nonempty(self, x):
        return x.k == 'call' and (x.a[0] in ('charmap', 'symbol') or x.a[0] == 'to_string' and x.a[1][0] in ('usize', 'kansuji::Kansuji'))

    def atomr(self, a, sub):
        if a.kind == 'empty':
            v = sub(a.t[0])
            sg = segs_of(v, 's') if v.k in ('seq', 'call', 'c') else []
            if any(s[0] == 'splice' and self.nonempty(s[1]) for s in sg):
                return FALSE
        if a.kind == 'some':
            v = sub(a.t[0])
            if v.k == 'seq' and all((s[3] if s[0] == 'many' else s[1]) is FALSE for s in v.a[1] if s[0] in ('many', 'one')) and all(s[0] != 'splice' for s in v.a[1]):
                return FALSE
        if a.kind == 'val':
            r = self.letter(sub(a.t[0]))
            if r is not None:
                return r
        return Notation.atomr(self, a, sub)


def replaced(x, k, by):
    """a flat string term with one character replaced everywhere"""
    if x.k == 'c':
        return cstr(x.a[1].replace(k, by))
    if x.k != 'seq':
        return charmap(x, lambda ch: ch.replace(k, by))
    out = []
    for s in x.a[1]:
        if s[0] == 'splice':
            r = replaced(s[1], k, by)
            out.append(('splice', r))
        elif s[0] == 'many':
            r = replaced(s[3], k, by)
            out.append(('many', s[1], s[2], r))
        else:
            r = None
        if r is None:
            return None
    return seq('s', out)


def only(x):
    return x.a[1][0][1] if x.k == 'seq' and len(x.a[1]) == 1 and x.a[1][0][0] == 'splice' else x


def is_text(x):
    return x.k == 'seq' and x.a[0] == 's' or x.k == 'c' and x.a[0] == 's' or alphabet(x) is not None


def alphabet_of(x):
    """all characters a flat string term can contain"""
    out = ''
    for s in segs_of(x, 's'):
        if s[0] == 'splice' and s[1].k == 'c':
            out += s[1].a[1]
        elif s[0] == 'splice' and alphabet(s[1]) is not None:
            out += alphabet(s[1])
        elif s[0] == 'many':
            for l in leaves(s[3]):
                r = alphabet_of(l)
                if r is None:
                    return None
                out += r
        else:
            return None
    return out


def as_parts(x):
    """a flat string term as parts for the regular expression, and the segments they stand for"""
    parts, segs = [], []
    for s in segs_of(x, 's'):
        if s[0] == 'splice' and s[1].k == 'c':
            for ch in s[1].a[1]:
                parts.append(('ch', ch))
                segs.append(('splice', cstr(ch)))
        elif s[0] == 'splice' and alphabet(s[1]) is not None:
            parts.append(('tok', alphabet(s[1]), not (s[1].k == 'call' and s[1].a[0] == 'symbol' and not s[1].a[1][1])))
            segs.append(s)
        elif s[0] == 'many' and s[3].k in ('seq', 'call', 'c'):
            p, _ = as_parts(s[3])
            if p is None:
                return None, None
            parts.append(('rep', p))
            segs.append(s)
        else:
            return None, None
    return parts, segs


def lifted(C, x):
    """the cases of the parts of a string term, outside of it"""
    if x.k == 'ite':
        return map_leaves(x, lambda l: lifted(C, l))
    if x.k != 'seq':
        return x
    for i, s in enumerate(x.a[1]):
        if s[0] == 'splice' and s[1].k == 'ite':
            sg = list(x.a[1])
            return map_leaves(s[1], lambda l: lifted(C, seq(x.a[0], sg[:i] + segs_of(l, x.a[0]) + sg[i + 1:])))
    return x


def read_back(rep, prog, key, reader, text, boundary=(), expect=None, note='', sums=None):
    try:
        if reader not in prog.fns:
            raise Missing(reader)
        S = sums or fresh_summaries(prog, boundary)
        r, ra, _, _ = S.get(reader, ['s'])
        me = mk('sym', 'number')
        w = text(S.e, me)
        S.base = set(boundary)
        C = Reading(S, {ra[0]: w})
        v = C(r)
        again = Reading(S, {mk('sym', 'nothing'): UNIT})(v)
        if opaque(S.e, again) <= opaque(S.e, v):
            v = again
        want = expect(S.e, me)
        judge(rep, Letters(S.e), key, v, want, 'reading the text back gives', site(prog, reader), note)
    except Missing as ex:
        rep.undecided(key, 'function missing: %s' % ex)
    except AnalysisError as ex:
        rep.undecided(key, str(ex))


def symbol(letters, multi=False, upto=None):
    """the text of n in single letters of an order, or (multi) in numerals of these letters"""
    return lambda n: mk('call', 'symbol', (letters if upto is None else upto, multi, '' if multi else letters), (n,))


def digits(n):
    return n_text(n)


def roman_text(letters):
    return lambda n: mk('call', 'charmap', tuple(zip('IVXLC', letters)), (symbol('IVXLC', True)(n),))


UPPER = ''.join(chr(0xff21 + i) for i in range(26))
LOWER = ''.join(chr(0xff41 + i) for i in range(26))

READ = {
    'Kansuji': (kansuji, '1..9999'),
    'IrohaKatakana': (symbol(KATAKANA), '1..47'),
    'IrohaHiragana': (symbol(HIRAGANA, upto=HIRAGANA.replace('の', '')), '1..47 except 26'),
    'ZenkakuNum': (wide, 'any'),
    'ZenkakuRomanUpper': (roman_text('ＩＶＸＬＣ'), '1..399'),
    'ZenkakuRomanLower': (roman_text('ｉｖｘｌｃ'), '1..399'),
    'ZenkakuUpper': (symbol(UPPER, upto=''.join(x for x in UPPER if x not in 'ＩＶＸＬＣ')), '1..26, letters that are no Roman digits'),
    'ZenkakuLower': (symbol(LOWER, upto=''.join(x for x in LOWER if x not in 'ｉｖｘｌｃ')), '1..26, letters that are no Roman digits'),
}


def ret_type(prog, f):
    return prog.tkey(f['body']['locals'][0])


def c16(rep, prog):
    PAN = CR + 'article_number::parse_article_number'
    PIN = CR + 'article_number::parse_item_number'
    S = fresh_summaries(prog)

    def number(e, me):
        return some(mk('adt', AN, 0, (e.fld(me, None, 0), opened_list(e, e.fld(me, None, 1), 1), opened_list(e, e.fld(me, None, 2), 2))))
    for kind, num in (('kanji', kansuji), ('full-width', wide), ('ASCII', digits)):
        for suffix in '編章節款目条項号':
            for head in ('第', ''):
                for no in 'のノ':
                    def text(e, me):
                        return written(e, me, lambda n: strs(head, num(n), suffix), num, no, lambda n: strs('第', num(n), suffix), opened=True)
                    read_back(rep, prog, '%s%s%s with %s' % (head, kind, suffix, no), PAN, text, expect=number, sums=S, note='any branches, with or without range')
    for kind, num in (('full-width', wide), ('ASCII', digits)):
        for no in 'のノ':
            read_back(rep, prog, 'paragraph number, %s with %s' % (kind, no), PAN, lambda e, me: written(e, me, num, num, no, opened=True), expect=number, sums=S, note='any branches, with or without range')
    pat = prog.adts.get(CR + 'article_number::ItemPattern')
    item = prog.adts.get(ITEM)
    if pat is None or item is None:
        rep.undecided('item numbers', 'no enumeration of item patterns')
        return
    base = [p for p, f in prog.fns.items() if f['body']['argc'] == 1 and p != PIN and ret_type(prog, f).replace(' ', '') == 'std::option::Option<(%s,usize)>' % (CR + 'article_number::ItemPattern')]
    if not base:
        rep.undecided('item numbers', 'no function reading a single symbol')
        return
    S2 = fresh_summaries(prog, base)
    for i, var in enumerate(pat['variants']):
        nm = var['name']
        paren = nm.startswith('Paren')
        f = READ.get(nm[5:] if paren else nm[7:])
        if f is None:
            continue
        num = f[0]

        def text(e, me):
            return written(e, me, (lambda n: strs('（', num(n), '）')) if paren else num, num, opened=True)

        def expect(e, me):
            val = {'str': text(e, me), 'base_number': e.fld(me, None, 0), 'eda_numbers': opened_list(e, e.fld(me, None, 1), 1), 'range_end_numbers': opened_list(e, e.fld(me, None, 2), 2), 'pattern': mk('adt', CR + 'article_number::ItemPattern', i, ())}
            return some(mk('adt', ITEM, 0, tuple(val[fl['name']] for fl in item['variants'][0]['fields'])))
        read_back(rep, prog, 'item number, ' + nm, PIN, text, base, expect=expect, sums=S2, note='numbers ' + f[1])


def site(prog, path):
    f = prog.fns[path]
    return '%s:%s' % (f['file'], f['line'])


def run(rep, prog):
    {'C14': c14, 'C15': c15, 'C16': c16}[rep.prop](rep, prog)
