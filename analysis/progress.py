"""C12: every operation comes to an end.

Loops: every cycle of every function has to pass a block that takes an item from an iterator (or pops from a collection, or
steps a counter towards its bound) that no block of the cycle resets.  The argument is lexicographic: such blocks are removed
and what remains of the cycle is examined again.  Helper functions that always take an item from an argument count.
Recursion: every cycle of the call graph has to hand on a part of its argument.

A cycle without progress is a violation when nothing in it changes what decides about leaving it; otherwise undecided."""
from common import *
from mir import *
import re

TAKE = re.compile(r'::(next|next_back|nth|nth_back|advance_by|try_fold|fold)$')
POP = re.compile(r'::(pop|pop_front|pop_back|remove|swap_remove|drain|truncate|clear|split_off|pop_first|pop_last)$')
COLL = re.compile(r'^std::(vec::Vec|collections::\w+|string::String)')
GROW = re.compile(r'::(push|push_back|push_front|insert|extend|append|push_str|resize|extend_from_slice)$')
ENDLESS = re.compile(r'std::ops::RangeFrom|std::iter::(Repeat|RepeatWith|FromFn|Successors|Cycle)|std::iter::Cycle')
PURE_MUT = re.compile(r'::(peek|peek_mut|deref_mut|as_mut|by_ref|index_mut|iter_mut|as_mut_slice)$')
THROUGH = re.compile(r'::(by_ref|as_mut|deref_mut|as_deref_mut|borrow_mut)$')


class Body:
    def __init__(self, prog, fn):
        self.prog, self.fn, self.b = prog, fn, fn['body']
        self.blocks = self.b['blocks']
        self.defs = {}
        for i, bb in enumerate(self.blocks):
            if bb.get('cl') or i not in self.b['pos']:
                continue
            for s in bb['s']:
                if s.get('k') == '=':
                    self.defs.setdefault(s['p'][0], []).append((i, s['p'], s['r'], None))
            t = bb['t']
            if t['k'] == 'call':
                self.defs.setdefault(t['d'][0], []).append((i, t['d'], None, t))

    def ty(self, local):
        return self.prog.tkey(self.b['locals'][local])

    def temps(self, nodes):
        """locals assigned only once, inside the nodes, by taking a reference"""
        return {x for x, ds in self.defs.items() if len(ds) == 1 and ds[0][0] in nodes and ds[0][2] is not None and
                ds[0][2]['k'] in ('ref', 'use')}

    def root(self, place, n=30):
        """(local, fields): where the place lives, looking through references"""
        local, proj = place[0], [tuple(e) for e in place[1:] if e != '*' and e[0] in ('f', 'd')]
        while n:
            n -= 1
            ds = [d for d in self.defs.get(local, ())]
            if local <= self.b['argc'] or len(ds) != 1 or len(ds[0][1]) != 1:
                break
            _, _, r, t = ds[0]
            if r is not None:
                if r['k'] == 'ref' or r['k'] == 'addr':
                    src = r['p']
                elif r['k'] in ('use', 'cast') and 'p' in r['o'] and (self.ty(local).startswith(('&', '*'))):
                    src = r['o']['p']
                else:
                    break
            else:
                q = callee(t)
                if q and THROUGH.search(q) and t['a'] and 'p' in t['a'][0]:
                    src = t['a'][0]['p']
                else:
                    break
            proj = [tuple(e) for e in src[1:] if e != '*' and e[0] in ('f', 'd')] + proj
            local = src[0]
        return local, tuple(proj)


def sccs(nodes, succ):
    """strongly connected components that contain a cycle"""
    nodes = set(nodes)
    idx, low, st, on, out = {}, {}, [], set(), []
    for r in sorted(nodes):
        if r in idx:
            continue
        work = [(r, iter([s for s in succ(r) if s in nodes]))]
        idx[r] = low[r] = len(idx)
        st.append(r)
        on.add(r)
        while work:
            x, it = work[-1]
            for y in it:
                if y not in idx:
                    idx[y] = low[y] = len(idx)
                    st.append(y)
                    on.add(y)
                    work.append((y, iter([s for s in succ(y) if s in nodes])))
                    break
                if y in on:
                    low[x] = min(low[x], idx[y])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[x])
                if low[x] == idx[x]:
                    c = set()
                    while True:
                        y = st.pop()
                        on.discard(y)
                        c.add(y)
                        if y == x:
                            break
                    if len(c) > 1 or x in succ(x):
                        out.append(c)
    return out


def overlaps(a, b):
    n = min(len(a[1]), len(b[1]))
    return a[0] == b[0] and a[1][:n] == b[1][:n]


class Progress:
    def __init__(self, prog):
        self.prog = prog
        self.bodies = {}
        self.consumes = {}          # fn -> set of parameters from which an item is always taken
        self.loops = 0
        self.by_rule = {}

    def body(self, p):
        if p not in self.bodies:
            self.bodies[p] = Body(self.prog, self.prog.fns[p])
        return self.bodies[p]

    # ---- what a block takes from
    def takes(self, B, t):
        """(root, rule) of what the call takes an item from"""
        q = callee(t)
        if not q or not t['a']:
            return
        if q in self.prog.fns:
            for i in self.consumes.get(q, ()):
                if i < len(t['a']) and 'p' in t['a'][i]:
                    yield B.root(t['a'][i]['p']), 'helper that takes an item'
        fn = fn_of(t['f'])
        a0 = t['a'][0]
        if 'p' not in a0:
            return
        it = B.ty(a0['p'][0])
        if TAKE.search(q) and (fn.get('trait') == 'std::iter::Iterator' or fn.get('trait') == 'std::iter::DoubleEndedIterator' or 'std::iter' in q):
            if not ENDLESS.search(it):
                yield B.root(a0['p']), 'item taken from an iterator'
        elif POP.search(q) and COLL.search(q.replace('<', '')):
            yield B.root(a0['p']), 'element taken from a collection'

    def writes(self, B, nodes):
        """places written in the nodes: (root, kind, block)"""
        for i in nodes:
            bb = B.blocks[i]
            for s in bb['s']:
                if s.get('k') in ('=', 'setd'):
                    p = s['p']
                    yield (B.root(p) if '*' in p else (p[0], tuple(tuple(e) for e in p[1:] if e != '*' and e[0] in ('f', 'd')))), 'assign', i
            t = bb['t']
            if t['k'] == 'call':
                yield (t['d'][0], tuple(tuple(e) for e in t['d'][1:] if e != '*' and e[0] in ('f', 'd'))), 'assign', i
                q = callee(t) or ''
                for j, a in enumerate(t['a']):
                    if 'p' in a and B.ty(a['p'][0]).startswith('&mut') and not PURE_MUT.search(q):
                        yield B.root(a['p']), ('grow' if GROW.search(q) and j == 0 else 'take' if j == 0 and (TAKE.search(q) or POP.search(q)) else 'call'), i
            elif t['k'] == 'drop':
                pass

    def counter(self, B, nodes):
        """blocks that step a counter towards a bound tested in the loop"""
        out = {}
        cands = {}
        for i in nodes:
            for s in B.blocks[i]['s']:
                if s.get('k') == '=' and len(s['p']) == 1:
                    cands.setdefault(s['p'][0], []).append((i, s['r']))
        calls_to = {B.blocks[i]['t']['d'][0] for i in nodes if B.blocks[i]['t']['k'] == 'call'}
        mutrefs = {s['r']['p'][0] for i in nodes for s in B.blocks[i]['s'] if s.get('k') == '=' and s['r']['k'] == 'ref' and s['r'].get('mut')}
        for x, ds in cands.items():
            if x in calls_to or x in mutrefs or not re.match(r'^[ui](8|16|32|64|128|size)$', B.ty(x)):
                continue
            dirs = {self.direction(B, r, x, nodes) for _, r in ds}
            if dirs == {'down'} and B.ty(x).startswith('u'):
                out.update({i: ('counter', x) for i, _ in ds})
            elif dirs in ({'up'}, {'down'}) and self.bounded(B, nodes, x):
                out.update({i: ('counter', x) for i, _ in ds})
        return out

    def expr(self, B, o, nodes, n=12):
        """operand as a small expression over locals"""
        if 'c' in o:
            c = o['c']
            return ('int', int(c['int'])) if 'int' in c else None
        p = o['p']
        ds = [d for d in B.defs.get(p[0], ()) if d[0] in nodes]
        if not n or len(B.defs.get(p[0], ())) != 1 or len(ds) != 1 or ds[0][2] is None or len(ds[0][1]) != 1:
            return ('loc', p[0]) if len(p) == 1 else None
        r = ds[0][2]
        if r['k'] == 'use':
            return self.expr(B, r['o'], nodes, n - 1) if len(p) == 1 else None
        if r['k'] == 'bin':
            a, b = self.expr(B, r['a'], nodes, n - 1), self.expr(B, r['b'], nodes, n - 1)
            return (r['op'].replace('WithOverflow', '').replace('Unchecked', ''), a, b)
        return None

    def direction(self, B, r, x, nodes):
        if r['k'] == 'use':
            e = self.expr(B, r['o'], nodes)
        elif r['k'] == 'bin':
            e = (r['op'].replace('WithOverflow', ''), self.expr(B, r['a'], nodes), self.expr(B, r['b'], nodes))
        else:
            return '?'
        d = self.sign(e, x, self.bounded(B, nodes, x))
        return {-1: 'down', 1: 'up'}.get(d, '?')

    def sign(self, e, x, nonzero):
        """-1: e < x, 0: e <= x, 1: e > x; None unknown"""
        if e is None:
            return None
        if e == ('loc', x):
            return 0
        if e[0] in ('Sub', 'Add') and e[2] and e[2][0] == 'int' and e[2][1] > 0:
            s = self.sign(e[1], x, nonzero)
            if e[0] == 'Sub' and s in (0, -1):
                return -1
            if e[0] == 'Add' and e[1] == ('loc', x):
                return 1
        if e[0] == 'Div' and e[2] and e[2][0] == 'int' and e[2][1] >= 1:
            s = self.sign(e[1], x, nonzero)
            if s == -1:
                return -1
            if s == 0 and e[2][1] >= 2:
                return -1 if nonzero else None
        if e[0] == 'Shr' and e[2] and e[2][0] == 'int' and e[2][1] > 0 and self.sign(e[1], x, nonzero) in (0, -1):
            return -1 if nonzero else None
        return None

    def length(self, B, nodes, y):
        """y is the length of something the loop does not change"""
        ds = B.defs.get(y, ())
        if len(ds) != 1 or ds[0][3] is None or not re.search(r'::(len|count)$', callee(ds[0][3]) or ''):
            return False
        a = ds[0][3]['a'][0]
        if 'p' not in a:
            return False
        r = B.root(a['p'])
        return not any(overlaps(w, r) and w[0] not in B.temps(nodes) for w, _, _ in self.writes(B, nodes))

    def bounded(self, B, nodes, x):
        for i in nodes:
            t = B.blocks[i]['t']
            if t['k'] != 'switch' or 'p' not in t['d'] or all(s in nodes for s in B.b['succ'][i]):
                continue
            e = self.expr(B, t['d'], nodes)
            if e and e[0] in ('Lt', 'Le', 'Gt', 'Ge', 'Ne', 'Eq') and ('loc', x) in e[1:]:
                y = e[2] if e[1] == ('loc', x) else e[1]
                if y and (y[0] == 'int' or y[0] == 'loc' and (not any(w[0][0] == y[1] for w in self.writes(B, nodes)) or self.length(B, nodes, y[1]))):
                    return True
        return False

    # ---- loops
    def examine(self, B, nodes, found):
        """appends ('ok'|'bad'|'undecided', text, line) for the cycles among nodes"""
        succ = lambda i: B.b['succ'][i]
        for comp in sccs(nodes, succ):
            self.loops += 1
            ws = list(self.writes(B, comp))
            prog = {}
            for i in comp:
                t = B.blocks[i]['t']
                if t['k'] != 'call':
                    continue
                for root, rule in self.takes(B, t):
                    # not reset in the cycle, and not refilled
                    if any(k in ('assign', 'grow') and overlaps(w, root) and not (k == 'assign' and w[0] == root[0] and len(w[1]) > len(root[1])) for w, k, _ in ws):
                        continue
                    if rule == 'element taken from a collection' and any(k in ('grow', 'call') and overlaps(w, root) for w, k, _ in ws):
                        continue
                    prog[i] = rule
            if not prog:
                for i, (r, x) in self.counter(B, comp).items():
                    prog[i] = 'counter stepped towards its bound'
            line = min(ln for i in comp for ln in [s.get('ln') for s in B.blocks[i]['s']] + [B.blocks[i]['t'].get('ln')] if ln)
            if prog:
                for r in prog.values():
                    self.by_rule[r] = self.by_rule.get(r, 0) + 1
                found.append(('ok', sorted(set(prog.values()))[0], line))
                self.examine(B, comp - set(prog), found)
                continue
            stuck = self.stuck(B, comp, ws) or self.repeats(B, comp, ws)
            at = '%s:%s' % (B.fn['file'], stuck[1] if stuck else line)
            if stuck is not None:
                found.append(('bad', 'a cycle takes nothing from its input and changes nothing that decides about leaving it%s' % stuck[0], at))
            else:
                found.append(('undecided', 'no progress rule applies to the loop at ' + at, at))

    def stuck(self, B, comp, ws):
        """(text, line) when nothing written in the component influences the decisions to leave it"""
        slice_, todo = set(), []
        for i in comp:
            t = B.blocks[i]['t']
            out = [s for s in B.b['succ'][i] if s not in comp]
            if not out:
                continue
            if t['k'] == 'switch' and 'p' in t['d']:
                todo.append(t['d']['p'][0])
            elif t['k'] == 'assert' and 'p' in t['c']:
                return None
            elif t['k'] not in ('switch', 'assert'):
                return None
        defs_in = {}
        for x, ds in B.defs.items():
            ds = [d for d in ds if d[0] in comp]
            if ds:
                defs_in[x] = ds
        state = set()
        while todo:
            x = todo.pop()
            if x in slice_:
                continue
            slice_.add(x)
            ds = defs_in.get(x)
            if not ds:
                state.add(x)
                continue
            for _, p, r, t in ds:
                if r is not None:
                    for o in operands_of(r):
                        if 'p' in o:
                            todo += [o['p'][0]]
                    if r.get('p'):
                        todo.append(r['p'][0])
                else:
                    q = callee(t)
                    if q is None or any('p' in a and B.ty(a['p'][0]).startswith('&mut') and not PURE_MUT.search(q) for a in t['a']):
                        return None
                    if re.search(r'Read>::|::read|::write|LocalKey|atomic|Instant|SystemTime|::next|::pop', q):
                        return None
                    for o in t['a']:
                        if 'p' in o:
                            todo.append(o['p'][0])
        # locals in the slice that are written in the component must be temporaries computed from unwritten state:
        # a written local that is read before it is written in the component is state that changes
        written = {w[0] for w, k, _ in ws}
        for x in slice_:
            for w, k, i in ws:
                if w[0] == x and k != 'assign':
                    return None
        for x in slice_ & set(defs_in):
            if self.carried(B, comp, x):
                return None
        lines = [s.get('ln') for i in comp for s in B.blocks[i]['s'] if s.get('ln')] + [B.blocks[i]['t'].get('ln') for i in comp if B.blocks[i]['t'].get('ln')]
        return '', min(lines)

    def repeats(self, B, comp, ws):
        """a round through the component after which every decision comes out the same again, for ever: (text, line)"""
        head = min(comp, key=lambda i: B.b['pos'][i])
        written = {w[0] for w, _, _ in ws}
        count = 0
        stack = [(head, (head,))]
        while stack:
            x, path = stack.pop()
            for y in B.b['succ'][x]:
                if y == head:
                    count += 1
                    if count > 4000:
                        return None
                    env = {l: 'T' for l in written}
                    e1 = self.round(B, path, env, None)
                    e2 = e1 and self.round(B, path, dict(e1), head)
                    e3 = e2 and self.round(B, path, dict(e2), head)
                    if e3 and e3 == e2:
                        lines = [s.get('ln') for i in path for s in B.blocks[i]['s'] if s.get('ln')]
                        lines += [B.blocks[i]['t'].get('ln') for i in path if B.blocks[i]['t'].get('ln')]
                        return '', max(lines)
                elif y in comp and y not in path:
                    stack.append((y, path + (y,)))
        return None

    def round(self, B, path, env, strict):
        """abstract values of the locals after one round: known constants/variants ('k', v), ('same',) when a function of what the
        cycle does not change, 'T' otherwise; None when a decision contradicts the path (or, if strict, is not settled)"""
        S = ('same',)

        def place(p):
            v = env.get(p[0], S)
            if len(p) == 1:
                return v
            if isinstance(v, tuple) and v[0] == 'ref' and p[1] == '*' and len(p) == 2:
                return env.get(v[1], S)
            if v == 'T' or v[0] == 'ref' and env.get(v[1], S) == 'T':
                return 'T'
            if v[0] == 'k':
                return v[2]
            return S if v == S else 'T'

        def op(o):
            if 'c' in o:
                return ('k', int(o['c']['int']), S) if 'int' in o['c'] else S
            return place(o['p'])

        def weak(vs):
            return 'T' if any(v == 'T' or v[0] == 'k' and v[2] == 'T' or v[0] == 'ref' and env.get(v[1], S) == 'T' for v in vs) else S
        for n, i in enumerate(path):
            bb = B.blocks[i]
            for s in bb['s']:
                if s.get('k') == 'setd':
                    env[s['p'][0]] = 'T'
                if s.get('k') != '=':
                    continue
                r, p = s['r'], s['p']
                k = r['k']
                if k == 'use':
                    v = op(r['o'])
                elif k == 'ref':
                    v = ('ref', r['p'][0]) if len(r['p']) == 1 else (env.get(r['p'][0], S) if len(r['p']) == 2 and r['p'][1] == '*' else weak([place(r['p'])]))
                elif k == 'discr':
                    v = place(r['p'])
                    v = ('k', v[1], S) if v != 'T' and v[0] == 'k' else weak([v])
                elif k == 'agg' and r['ak'] == 'adt' and 'variant' in r:
                    v = ('k', int(r['variant']), weak([op(o) for o in r['ops']]))
                elif k == 'un' and r.get('op') == 'Not' and op(r['a']) != 'T' and op(r['a'])[0] == 'k' and B.ty(p[0]) == 'bool':
                    v = ('k', 1 - op(r['a'])[1], S)
                else:
                    v = weak([op(o) for o in operands_of(r)] + ([place(r['p'])] if r.get('p') else []))
                if len(p) == 1:
                    env[p[0]] = v
                else:
                    tgt = env.get(p[0], S)
                    env[tgt[1] if tgt != 'T' and tgt[0] == 'ref' else p[0]] = 'T'
            t = bb['t']
            nxt = path[n + 1] if n + 1 < len(path) else path[0]
            if t['k'] == 'call':
                q = callee(t)
                vs = [op(a) for a in t['a']]
                v = 'T' if q is None or re.search(r'Read>::|::read|::write|LocalKey|atomic|Instant|SystemTime', q) else weak(vs)
                if q and re.search(r'Option::<T>::(is_none|is_some)$', q) and vs[0] != 'T' and vs[0][0] == 'ref':
                    x = env.get(vs[0][1], S)
                    if x != 'T' and x[0] == 'k':
                        v = ('k', int((x[1] == 1) == q.endswith('is_some')), S)
                for a in t['a']:
                    if 'p' in a and B.ty(a['p'][0]).startswith('&mut') and not PURE_MUT.search(q or ''):
                        env[B.root(a['p'])[0]] = 'T'
                        v = 'T' if v == S else v
                env[t['d'][0]] = v if len(t['d']) == 1 else 'T'
            elif t['k'] == 'switch':
                v = op(t['d'])
                if v != 'T' and v[0] == 'k':
                    go = next((x for c_, x in t['ts'] if int(c_) == v[1]), t['else'])
                    if go != nxt:
                        return None
                elif strict is not None and v == 'T':
                    return None
        return env

    def carried(self, B, comp, x):
        """x written in the component may be read there before it is written in the same round"""
        defb = {i for i, _, _, _ in B.defs[x] if i in comp}
        # x is a temporary when every read in the component is dominated by a write in the component
        def reads(i):
            out = []
            bb = B.blocks[i]
            for k, s in enumerate(bb['s']):
                if s.get('k') == '=':
                    r = s['r']
                    if any('p' in o and o['p'][0] == x for o in operands_of(r)) or (r.get('p') and r['p'][0] == x):
                        out.append(k)
            t = bb['t']
            if t['k'] == 'switch' and 'p' in t['d'] and t['d']['p'][0] == x:
                out.append(len(bb['s']))
            if t['k'] == 'call' and any('p' in a and a['p'][0] == x for a in t['a']):
                out.append(len(bb['s']))
            return out

        def first_write(i):
            for k, s in enumerate(B.blocks[i]['s']):
                if s.get('k') == '=' and s['p'] == [x]:
                    return k
            t = B.blocks[i]['t']
            if t['k'] == 'call' and t['d'] == [x]:
                return len(B.blocks[i]['s']) + 1
            return None
        idom = B.b['idom']
        for i in comp:
            for k in reads(i):
                w = first_write(i)
                if w is not None and w < k:
                    continue
                d, ok = i, False
                while d != 0:
                    d = idom[d]
                    if d in comp and first_write(d) is not None:
                        ok = True
                        break
                    if d not in comp:
                        break
                if not ok:
                    return True
        return False

    # ---- helpers that always take
    def fix(self):
        fns = [p for p, f in self.prog.fns.items() if f['kind'] in ('Fn', 'AssocFn') and any(
            self.prog.tkey(f['body']['locals'][i + 1]).startswith('&mut') for i in range(f['body']['argc']))]
        ch = True
        while ch:
            ch = False
            for p in fns:
                B = self.body(p)
                for i in range(B.b['argc']):
                    if i in self.consumes.get(p, set()) or not B.ty(i + 1).startswith('&mut'):
                        continue
                    hit = set()
                    for j, bb in enumerate(B.blocks):
                        if bb.get('cl') or bb['t']['k'] != 'call' or j not in B.b['pos']:
                            continue
                        if any(r[0] == i + 1 and not r[1] for r, _ in self.takes(B, bb['t'])):
                            hit.add(j)
                    if hit and not self.escapes(B, hit):
                        self.consumes.setdefault(p, set()).add(i)
                        ch = True

    def escapes(self, B, hit):
        """a path from entry to return that avoids the blocks"""
        seen, todo = set(), [0]
        while todo:
            i = todo.pop()
            if i in seen or i in hit:
                continue
            seen.add(i)
            if B.blocks[i]['t']['k'] == 'return':
                return True
            todo += B.b['succ'][i]
        return False


# ---- recursion
PART = re.compile(r'::(iter|into_iter|iter_mut|deref|deref_mut|as_ref|as_mut|as_slice|next|peekable|enumerate|map|filter|filter_map|first|last|get|unwrap|'
                  r'unwrap_or|clone|cloned|copied|borrow|branch|chars|as_str|as_deref|flat_map|chain|rev|zip|skip|take|collect|into|to_owned|peek|'
                  r'get_child|children|by_ref|ok|ok_or|ok_or_else|from_residual|expect|as_element|to_string|fuse|take_while|skip_while|join|trim)$')


class Recursion:
    def __init__(self, prog):
        self.prog = prog
        self.by_trait = impls_called(prog)

    def components(self, live):
        g = {p: edges(self.prog, self.prog.fns[p], self.by_trait) & live for p in live}
        # generated comparison and serialisation code recurses over the fields of the value by construction
        return g, sccs(live, lambda p: g[p])

    def relation(self, B, o, up, seen=None):
        """relation of an operand to the parameters: {param: '<' or '='}"""
        if 'p' not in o:
            return {}
        p = o['p']
        seen = seen or set()
        fields = any(e != '*' and e[0] in ('f', 'd') for e in p[1:])
        return self.rel(B, p[0], fields, up, seen, tuple(tuple(e) for e in p[1:] if e != '*' and e[0] == 'f'))

    def rel(self, B, local, part, up, seen, fields=()):
        if local <= B.b['argc'] and local > 0:
            base = up.get((local, fields[:1])) or up.get((local, ()))
            if base:
                return {k: ('<' if v == '<' or (part and not up.get((local, fields[:1]))) or len(fields) > 1 else '=') for k, v in base.items()}
            return {('p', local): '<' if part else '='}
        if local in seen:
            return None                  # around a loop: adds nothing
        seen = seen | {local}
        out = None
        for _, pl, r, t in B.defs.get(local, ()):
            if r is not None:
                ops = [o for o in operands_of(r) if 'p' in o]
                if r['k'] in ('ref', 'addr', 'discr') or r.get('p'):
                    ops = [{'p': r['p']}]
                if r['k'] == 'agg' and r.get('closure'):
                    continue
                if r['k'] in ('bin', 'un', 'discr'):
                    got = {}
                else:
                    got = None
                    for o in ops:
                        x = self.relation(B, o, up, seen)
                        got = x if got is None else got if x is None else self.meet(got, x, True)
                    got = {} if got is None and not ops else got
            else:
                q = callee(t) or ''
                if PART.search(q) and t['a']:
                    x = self.relation(B, t['a'][0], up, seen)
                    step = re.search(r'::(next|first|last|get|get_child|peek)$', q)
                    got = None if x is None else {k: '<' if step else v for k, v in x.items()}
                else:
                    got = {}
            if got is None:
                continue
            if part:
                got = {k: '<' for k in got}
            out = got if out is None else self.meet(out, got, False)
        return out

    def meet(self, a, b, union):
        keys = set(a) | set(b) if union else set(a) & set(b)
        return {k: '=' if '=' in (a.get(k), b.get(k)) else '<' for k in keys}

    def sites(self, P, p, up, comp):
        """(callee, [relation per argument], line, block) of calls inside the component; closures are entered"""
        B = P.body(p)
        for i, t in calls(B.b):
            if i not in B.b['pos']:
                continue
            fn = fn_of(t['f'])
            targets = set()
            if fn:
                q = fn.get('res') or fn['path']
                targets |= set(behind(self.prog, fn, self.by_trait)) & comp
                if q in comp:
                    targets.add(q)
                elif q not in self.prog.fns and fn.get('trait'):
                    targets |= set(self.by_trait.get(fn['trait'] + '::' + fn['name'], ())) & comp
            for q in targets:
                yield q, [self.relation(B, a, up) or {} for a in t['a']], t.get('ln'), i
            # function values and closures handed to library functions: called with items of the receiver
            for a in t['a']:
                f2 = fn_of(a)
                if f2 and (f2.get('res') or f2['path']) in comp:
                    x = self.relation(B, t['a'][0], up) or {}
                    yield (f2.get('res') or f2['path']), [{k: '<' for k in x}], t.get('ln'), i
            for c, caps in self.closures_in(B, t):
                if c not in self.prog.fns:
                    continue
                x = self.relation(B, t['a'][0], up) or {}
                item = {k: '<' for k in x}
                cup = {(1, ()): {}}
                for n, o in enumerate(caps):
                    cup[(1, (('f', n),))] = self.relation(B, o, up) or {}
                CB = P.body(c)
                for n in range(2, CB.b['argc'] + 1):
                    cup[(n, ())] = item
                yield from self.sites(P, c, cup, comp)

    def closures_in(self, B, t):
        for a in t['a']:
            if 'p' not in a:
                continue
            for _, _, r, _ in B.defs.get(a['p'][0], ()):
                if r is not None and r['k'] == 'agg' and r.get('closure'):
                    yield r['closure'], r['ops']
                elif r is not None and r['k'] in ('use', 'ref'):
                    src = r['o']['p'] if r['k'] == 'use' and 'p' in r['o'] else r.get('p')
                    if src:
                        for _, _, r2, _ in B.defs.get(src[0], ()):
                            if r2 is not None and r2['k'] == 'agg' and r2.get('closure'):
                                yield r2['closure'], r2['ops']


def run(rep, prog):
    P = Progress(prog)
    P.fix()
    exported = [p for p, f in prog.fns.items() if f.get('exported') and f['kind'] in ('Fn', 'AssocFn')]
    impls = [p for p, f in prog.fns.items() if f.get('impl_trait') and f['kind'] == 'AssocFn']
    live = {p for p in reachable(prog, exported + impls) if not prog.fns[p].get('derived') and '_::<impl' not in p and prog.fns[p]['kind'] != 'Const'}
    nfn = 0
    for p in sorted(live):
        B = P.body(p)
        if not any(True for _ in sccs(B.b['pos'], lambda i: B.b['succ'][i])):
            continue
        nfn += 1
        found = []
        P.examine(B, set(B.b['pos']), found)
        key = short(p)
        bad = [f for f in found if f[0] == 'bad']
        und = [f for f in found if f[0] == 'undecided']
        if bad:
            rep.bad(key, '%s in %s' % (bad[0][1], key), bad[0][2])
        elif und:
            rep.undecided(key, und[0][1])
        else:
            rep.ok(key, '%d loops: %s' % (len(found), ', '.join(sorted({f[1] for f in found}))))
    R = Recursion(prog)
    g, comps = R.components(live)
    nrec = 0
    for comp in comps:
        es = {}
        fns = {q for q in comp if prog.fns[q]['kind'] in ('Fn', 'AssocFn')}
        for p in fns:
            for q, rels, ln, blk in R.sites(P, p, {}, fns):
                r = {}
                for n, x in enumerate(rels):
                    for (k, loc), v in x.items():
                        r.setdefault((loc, n + 1), v)
                es.setdefault((p, q), []).append((r, ln, blk, rels))
        # per function one tracked parameter: try the combinations of first parameters
        nrec += sum(len(x) for x in es.values())
        ok, why, bad = judge_recursion(prog, P, fns, es)
        key = 'recursion of ' + short(sorted(fns)[0] if fns else sorted(comp)[0]) + (' and %d others' % (len(fns) - 1) if len(fns) > 1 else '')
        if ok:
            rep.ok(key, '%d calls hand on a part of the argument' % sum(len(x) for x in es.values()))
        elif bad:
            rep.bad(key, *bad)
        else:
            rep.undecided(key, why)
    rep.put('functions_with_loops', nfn)
    rep.put('loops', P.loops)
    rep.put('progress_blocks_by_rule', P.by_rule)
    rep.put('recursive_components', len(comps))
    rep.put('recursive_calls', nrec)
    rep.put('helpers_that_always_take', sorted(short(p) for p in P.consumes))


def judge_recursion(prog, P, fns, es):
    weak = {}
    why = ''
    for (p, q), calls_ in es.items():
        for r, ln, blk, rels in calls_:
            best = None
            # parameter 1 of p against parameter 1 of q (the element or the value); otherwise any that is handed on
            v = r.get((1, 1))
            if v is None:
                v = next((x for x in r.values() if x == '<'), None) or next(iter(r.values()), None)
            if v == '<':
                continue
            weak.setdefault(p, []).append((q, v, ln, blk, rels))
            if v is None:
                why = why or 'the call of %s in %s at line %s is not seen to hand on a part of the argument' % (short(q), short(p), ln)
    if not weak:
        return True, '', None
    # cycles among weak calls
    comps = sccs(weak, lambda p: [q for q, *_ in weak.get(p, ()) if q in weak])
    if not comps:
        return True, '', None
    for comp in comps:
        for p in sorted(comp):
            B = P.body(p)
            for q, v, ln, blk, rels in weak[p]:
                if q == p and same_arguments(B, blk):
                    return False, '', ('%s calls itself with the same arguments, which leads to the same call again' % short(p),
                                       '%s:%s' % (prog.fns[p]['file'], ln))
        if not why:
            p = sorted(comp)[0]
            why = '%s calls %s with its own argument at line %s' % (short(p), short(weak[p][0][0]), weak[p][0][2])
    return False, why, None


def same_arguments(B, blk):
    """the call hands on exactly the unchanged parameters: what led to it leads to it again"""
    a = B.blocks[blk]['t']['a']
    if len(a) != B.b['argc']:
        return False
    for n, o in enumerate(a):
        if 'p' not in o or B.ty(n + 1).startswith('&mut') or B.defs.get(n + 1):
            return False
        if B.root(o['p']) != (n + 1, ()):
            return False
    return True
