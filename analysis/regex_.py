"""A regular expression constant of the program, run over a symbolic text.

The text is a list of parts: single characters, tokens (one or more characters of a known alphabet) and repetitions of a list of
parts.  match() explores the product of the text (as an automaton) with the ordered list of threads of the expression (leftmost-first
semantics) exhaustively, so its answer holds for every text of that form:

  result.some / result.none   some / no text of that form matches (with an example of each)
  result.group[name]          (start, end) in parts, None (never takes part), or VARIES"""
try:
    import re._parser as sre_parse
    import re._constants as sc
except ImportError:
    import sre_parse
    import sre_constants as sc
import re

VARIES = 'varies'


class Unsupported(Exception):
    pass


class Regex:
    """an expression as ordered nondeterministic automaton"""
    memo = {}

    @staticmethod
    def of(text):
        if text not in Regex.memo:
            Regex.memo[text] = Regex(text)
        return Regex.memo[text]

    def __init__(self, text):
        try:
            p = sre_parse.parse(re.sub(r'\(\?<(?=[A-Za-z_])', '(?P<', text))
        except re.error as ex:
            raise Unsupported(str(ex))
        self.groups = dict(p.state.groupdict)
        self.code = []
        self.emit(p)
        self.code.append(('match',))

    def emit(self, seq_):
        for op, av in seq_:
            self.one(op, av)

    def put(self, *ins):
        self.code.append(ins)
        return len(self.code) - 1

    def one(self, op, av):
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.IN, sc.ANY):
            self.put('char', charset(op, av))
        elif op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                self.put('begin')
            elif av in (sc.AT_END, sc.AT_END_STRING):
                self.put('end')
            else:
                raise Unsupported(str(av))
        elif op is sc.SUBPATTERN:
            g, add, sub, p = av
            if add or sub:
                raise Unsupported('flags')
            if g is not None:
                self.put('save', g, 0)
            self.emit(p)
            if g is not None:
                self.put('save', g, 1)
        elif op is sc.BRANCH:
            ends = []
            for i, alt in enumerate(av[1]):
                if i < len(av[1]) - 1:
                    s = self.put('split')
                    self.emit(alt)
                    ends.append(self.put('jmp'))
                    self.code[s] = ('split', s + 1, len(self.code))
                else:
                    self.emit(alt)
            for e in ends:
                self.code[e] = ('jmp', len(self.code))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            greedy = op is sc.MAX_REPEAT
            if lo > 40 or hi is not sc.MAXREPEAT and hi > 40:
                raise Unsupported('repetition')
            for _ in range(lo):
                self.emit(p)
            if hi is sc.MAXREPEAT:
                s = self.put('split')
                self.emit(p)
                self.put('jmp', s)
                self.code[s] = ('split', s + 1, len(self.code)) if greedy else ('split', len(self.code), s + 1)
            else:
                ss = []
                for _ in range(hi - lo):
                    ss.append(self.put('split'))
                    self.emit(p)
                for s in ss:
                    self.code[s] = ('split', s + 1, len(self.code)) if greedy else ('split', len(self.code), s + 1)
        else:
            raise Unsupported(str(op))

    def close(self, threads, begin, end, here):
        """threads: [(pc, caps)] -> ordered list of (pc, caps) at char or match instructions"""
        out, seen = [], set()
        for pc, caps in threads:
            stack = [(pc, caps)]
            while stack:
                pc, caps = stack.pop()
                if pc in seen:
                    continue
                seen.add(pc)
                i = self.code[pc]
                if i[0] == 'jmp':
                    stack.append((i[1], caps))
                elif i[0] == 'split':
                    stack.append((i[2], caps))
                    stack.append((i[1], caps))
                elif i[0] == 'save':
                    d = dict(caps)
                    if i[2] == 0:
                        d[(i[1], 'open')] = here
                    else:
                        d[i[1]] = (d.pop((i[1], 'open')), here)
                    stack.append((pc + 1, tuple(sorted(d.items(), key=repr))))
                elif i[0] == 'begin':
                    if begin:
                        stack.append((pc + 1, caps))
                elif i[0] == 'end':
                    if end:
                        stack.append((pc + 1, caps))
                else:
                    out.append((pc, caps))
        return out


def charset(op, av):
    if op is sc.LITERAL:
        return lambda ch: ord(ch) == av
    if op is sc.NOT_LITERAL:
        return lambda ch: ord(ch) != av
    if op is sc.ANY:
        return lambda ch: ch != '\n'
    tests, neg = [], False
    for o, a in av:
        if o is sc.NEGATE:
            neg = True
        elif o is sc.LITERAL:
            tests.append(lambda ch, a=a: ord(ch) == a)
        elif o is sc.RANGE:
            tests.append(lambda ch, a=a: a[0] <= ord(ch) <= a[1])
        elif o is sc.CATEGORY:
            cat = {sc.CATEGORY_DIGIT: str.isdecimal, sc.CATEGORY_NOT_DIGIT: lambda c: not c.isdecimal(), sc.CATEGORY_SPACE: str.isspace, sc.CATEGORY_NOT_SPACE: lambda c: not c.isspace()}.get(a)
            if cat is None:
                raise Unsupported(str(a))
            tests.append(cat)
        else:
            raise Unsupported(str(o))
    return lambda ch: neg != any(t(ch) for t in tests)


class Text:
    """the automaton of a symbolic text; names: positions between the parts"""

    def __init__(self, parts):
        self.eps, self.chars, self.names = {}, {}, {}
        self.n = 0
        a = self.node(0)
        self.start = a
        self.final = self.run(parts, a, True)

    def node(self, name=None):
        self.n += 1
        self.eps[self.n] = []
        self.chars[self.n] = []
        self.names[self.n] = name
        return self.n

    def run(self, parts, a, top):
        for i, p in enumerate(parts):
            b = self.node(i + 1 if top else None)
            if p[0] == 'ch':
                self.chars[a].append((p[1], b))
            elif p[0] == 'tok':
                if p[2]:
                    m = self.node()
                    self.chars[a].append((p[1], b))
                    self.chars[a].append((p[1], m))
                    self.chars[m].append((p[1], b))
                    self.chars[m].append((p[1], m))
                else:
                    self.chars[a].append((p[1], b))
            else:
                s = self.node()
                self.eps[a] += [s, b]
                e = self.run(p[1], s, False)
                self.eps[e] += [s, b]
            a = b
        return a

    def ready(self, n):
        """(node with characters or the final one, names of the position)"""
        out, stack = {}, [(n, frozenset([self.names[n]]) - {None})]
        seen = set()
        while stack:
            n, ns = stack.pop()
            if (n, ns) in seen:
                continue
            seen.add((n, ns))
            if n == self.final:
                out.setdefault(('end', n), set()).add(ns)
            if self.chars[n]:
                out.setdefault(('go', n), set()).add(ns)
            for m in self.eps[n]:
                # a position followed by another round is no boundary
                stack.append((m, ns | (frozenset([self.names[m]]) - {None}) if self.names[m] is not None else frozenset() if self.loops(n, m) else ns))
        return [(k[0], k[1], ns) for k, v in sorted(out.items()) for ns in sorted(v, key=sorted)]

    def loops(self, n, m):
        """n is the end of a round and m the start of one"""
        return self.names[n] is None


class Result:
    def __init__(self):
        self.some = self.none = None
        self.cases = []


def agree(a, b):
    """the common positions of two outcomes"""
    out = {}
    for n, x in a.items():
        y = b[n]
        if (x is None) != (y is None):
            return None
        if x is None:
            out[n] = None
        else:
            z = (x[0] & y[0], x[1] & y[1])
            if not z[0] and (x[0] or y[0]) or not z[1] and (x[1] or y[1]):
                return None
            out[n] = z
    return out


def span(x):
    if x is None:
        return None
    return (min(x[0]), min(x[1])) if x[0] and x[1] else VARIES


def match(text, parts, limit=200000):
    """run the expression over every text the parts stand for"""
    rx = Regex.of(text)
    t = Text(parts)
    res = Result()
    caps_seen = []
    todo = []
    seen = set()

    def push(kind, n, ns, raw, best, first, word):
        key = (kind, n, ns, tuple(raw), best, first)
        if key not in seen:
            if len(seen) > limit:
                raise Unsupported('too many cases')
            seen.add(key)
            todo.append((kind, n, ns, raw, best, first, word))
    for kind, n, ns in t.ready(t.start):
        push(kind, n, ns, ((0, ()),), None, True, '')
    while todo:
        kind, n, ns, raw, best, first, word = todo.pop(0)
        if not first and best is None:
            # the expression may also begin here
            raw = raw + ((0, ()),)
        th = rx.close(raw, first, kind == 'end', ns)
        kept = []
        for pc, caps in th:
            if rx.code[pc][0] == 'match':
                best = caps
                break
            kept.append((pc, caps))
        if kind == 'end':
            if best is None:
                if res.none is None:
                    res.none = word
            else:
                if res.some is None:
                    res.some = word
                caps_seen.append((best, word))
            continue
        for alpha, m in t.chars[n]:
            for ch in alpha:
                nxt = tuple((pc + 1, caps) for pc, caps in kept if rx.code[pc][1](ch))
                for k2, n2, ns2 in t.ready(m):
                    push(k2, n2, ns2, nxt, best, False, word + ch)
    # outcomes: ways in which the groups fall on the parts, with an example each
    outcomes = []
    for caps, word in caps_seen:
        d = dict(caps)
        d = {name: d.get(g) for name, g in rx.groups.items()}
        for o in outcomes:
            m = agree(o[0], d)
            if m is not None:
                o[0].update(m)
                break
        else:
            outcomes.append((d, word))
            if len(outcomes) > 12:
                raise Unsupported('too many ways to match')
    res.cases = [(word, {name: span(x) for name, x in d.items()}) for d, word in outcomes]
    res.names = set(rx.groups)
    return res


if __name__ == '__main__':
    K = '一二三'
    art = r'^(第)?(?<k>[一二三]+)(?<s>(編|条))(?<e>((の|ノ)([一二三]+))*)(から(第(?<k2>[一二三]+)(?<s2>(編|条))(?<e2>((の|ノ)[一二三]+)*))まで)?'
    P = [('ch', '第'), ('tok', K, True), ('ch', '条'), ('rep', [('ch', 'の'), ('tok', K, True)])]
    r = match(art, P)
    print(r.some, r.none, r.cases)
    Q = P + [('ch', c) for c in 'から第'] + [('tok', K, True), ('ch', '条'), ('rep', [('ch', 'の'), ('tok', K, True)])] + [('ch', c) for c in 'まで']
    r = match(art, Q)
    print(r.some, r.none, r.cases)
    r = match(art.replace('[一二三]+)(?<s>', '[一二]+)(?<s>'), Q)
    print(r.some, r.none, r.cases)
    r = match(r'[三]+', Q)
    print(r.some, r.none, r.cases)
