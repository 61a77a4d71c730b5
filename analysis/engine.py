"""Interprocedural value-flow analysis over exported MIR.

Every function is analysed once per calling context by a forward pass over its control-flow
graph.  Joins merge values into decision diagrams; loops are summarised (never iterated over
inputs): variables that change in the body become per-iteration transfer functions, appends
become `for elem in collection: ...` segments.
"""
import json
import re
from domain import *

OPT = 'std::option::Option'
RES = 'std::result::Result'
CF = 'std::ops::ControlFlow'


ERR = mk('sym', 'ERR')


class AnalysisError(Exception):
    pass


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d['crate']
        self.types = d['types']
        self.fns = {}
        for f in d['fns']:
            self.fns[f['path']] = f
        self.adts = {a['path']: a for a in d['adts']}
        self.tkey_memo = {}
        self.impls = {}   # (trait, selfkey, method) -> fn path
        for f in d['fns']:
            if f.get('impl_trait') and f['kind'] == 'AssocFn':
                self.impls[(f['impl_trait'], self.tkey(f['impl_self']), f['name'])] = f['path']
        for f in d['fns']:
            self._prep(f['body'])
            for p in f['promoted']:
                self._prep(p)

    def loc(self, f):
        return '%s:%s' % (f['file'], f['line'])

    # ---- types as strings with substitution
    def tkey(self, i, sub=None):
        if not isinstance(i, int):
            return str(i)
        if not sub:
            r = self.tkey_memo.get(i)
            if r is not None:
                return r
        t = self.types[i]
        k = t['k']
        T = lambda j: self.tkey(j, sub)
        if k == 'adt':
            s = t['path'] + ('<' + ','.join(T(a) for a in t['args'] if not self._alloc(a)) + '>' if t['args'] else '')
        elif k == 'ref':
            s = '&' + ('mut ' if t['mut'] else '') + T(t['el'])
        elif k == 'ptr':
            s = '*' + T(t['el'])
        elif k in ('int', 'uint', 'float'):
            s = t['name']
        elif k == 'tuple':
            s = '(' + ','.join(T(a) for a in t['els']) + ')'
        elif k in ('slice', 'array'):
            s = '[' + T(t['el']) + ']'
        elif k == 'fndef':
            s = 'fn ' + t['path']
        elif k == 'closure':
            s = 'closure ' + t['path']
        elif k == 'param':
            s = (sub or {}).get(t['name'], t['name'])
        else:
            s = t.get('name', k)
        if not sub:
            self.tkey_memo[i] = s
        return s

    def _alloc(self, a):
        return isinstance(a, int) and self.types[a]['k'] == 'adt' and self.types[a]['path'] == 'std::alloc::Global'

    # ---- CFG preparation
    def _prep(self, b):
        bl = b['blocks']
        n = len(bl)
        succ = [[] for _ in range(n)]
        for i, bb in enumerate(bl):
            if bb['cl']:
                continue
            t = bb['t']
            k = t['k']
            if k in ('goto', 'drop', 'assert'):
                succ[i] = [t['t']]
            elif k == 'call':
                succ[i] = [t['t']] if t['t'] is not None else []
            elif k == 'switch':
                s = []
                for _, x in t['ts']:
                    if x not in s:
                        s.append(x)
                if t['else'] not in s:
                    s.append(t['else'])
                succ[i] = s
        b['succ'] = succ
        pred = [[] for _ in range(n)]
        for i in range(n):
            for j in succ[i]:
                pred[j].append(i)
        b['pred'] = pred
        # rpo
        seen = set()
        order = []
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(succ[y])))
                    break
            else:
                order.append(x)
                st.pop()
        order.reverse()
        b['rpo'] = order
        pos = {x: i for i, x in enumerate(order)}
        b['pos'] = pos
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for x in order[1:]:
                ps = [p for p in pred[x] if p in idom]
                nd = ps[0]
                for p in ps[1:]:
                    a, c2 = p, nd
                    while a != c2:
                        while pos[a] > pos[c2]:
                            a = idom[a]
                        while pos[c2] > pos[a]:
                            c2 = idom[c2]
                    nd = a
                if idom.get(x) != nd:
                    idom[x] = nd
                    ch = True
        b['idom'] = idom

        def dom(a, x):
            while True:
                if x == a:
                    return True
                if x == 0:
                    return False
                x = idom[x]
        loops = {}
        b['irreducible'] = False
        for x in order:
            for y in succ[x]:
                if pos.get(y, -1) <= pos[x]:
                    if dom(y, x):
                        body = loops.setdefault(y, {y})
                        st = [x]
                        while st:
                            z = st.pop()
                            if z not in body:
                                body.add(z)
                                st.extend(p for p in pred[z] if p in pos)
                    else:
                        b['irreducible'] = True
        b['loops'] = loops
        # locals whose address is taken mutably stay live
        at = set()
        uses = [None] * n
        defs = [None] * n
        for i, bb in enumerate(bl):
            u, d = set(), set()
            if bb['cl']:
                uses[i], defs[i] = u, d
                continue

            def usep(p):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1:]:
                    if isinstance(e, list) and e[0] == 'i' and e[1] not in d:
                        u.add(e[1])

            def useo(o):
                if 'p' in o:
                    usep(o['p'])
            for s in bb['s']:
                if s['k'] == '=':
                    r = s['r']
                    for kk in ('o', 'a', 'b'):
                        if kk in r and isinstance(r[kk], dict):
                            useo(r[kk])
                    for o in r.get('ops', []):
                        useo(o)
                    if 'p' in r:
                        usep(r['p'])
                        if r['k'] in ('ref', 'rawptr') and r.get('mut'):
                            at.add(r['p'][0])
                    if len(s['p']) == 1:
                        d.add(s['p'][0])
                    else:
                        usep(s['p'])
                elif s['k'] == 'setd':
                    usep(s['p'])
            t = bb['t']
            if t['k'] == 'switch':
                useo(t['d'])
            elif t['k'] == 'call':
                useo(t['f'])
                for o in t['a']:
                    useo(o)
                if len(t['d']) == 1:
                    d.add(t['d'][0])
                else:
                    usep(t['d'])
            elif t['k'] == 'assert':
                useo(t['c'])
                for o in t['ops']:
                    useo(o)
            elif t['k'] == 'return':
                if 0 not in d:
                    u.add(0)
            uses[i], defs[i] = u, d
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for x in reversed(order):
                out = set()
                for y in succ[x]:
                    out |= live[y]
                nl = uses[x] | (out - defs[x])
                if nl != live[x]:
                    live[x] = nl
                    ch = True
        b['live'] = live
        b['addr'] = at


def short_callee(fn):
    """a short stable name for a callee: 'Option::map', 'str::trim', 'Iterator::next', 'crate fn path'"""
    p = fn['path']
    if fn.get('trait'):
        return fn['trait'].split('::')[-1] + '::' + fn['name']
    p = re.sub(r"<impl str>", 'str', p)
    p = re.sub(r"<impl \[T\]>", 'slice', p)
    p = re.sub(r"<impl char>", 'char', p)
    p = re.sub(r"<impl (\w+)>", r'\1', p)
    # strip generic args
    while True:
        q = re.sub(r'(::)?<[^<>]*>', '', p)
        if q == p:
            break
        p = q
    parts = [x for x in p.split('::') if x]
    return '::'.join(parts[-2:])


def norm(v):
    """push a decision down into a common constructor"""
    if v.k != 'ite':
        return v
    ls = [l for l in leaves(v) if l is not BOT]
    if len(ls) < 2:
        return v
    l0 = ls[0]
    if l0.k == 'adt' and all(l.k == 'adt' and l.a[0] == l0.a[0] and l.a[1] == l0.a[1] for l in ls):
        fs = []
        for i in range(len(l0.a[2])):
            fs.append(norm(map_leaves(v, lambda l: l.a[2][i])))
        return mk('adt', l0.a[0], l0.a[1], tuple(fs))
    if l0.k == 'tuple' and all(l.k == 'tuple' and len(l.a[0]) == len(l0.a[0]) for l in ls):
        return mk('tuple', tuple(norm(map_leaves(v, lambda l: l.a[0][i])) for i in range(len(l0.a[0]))))
    if all(l.k == 'map' for l in ls):
        keys = []
        for l in ls:
            for k, _ in l.a[0]:
                if k not in keys:
                    keys.append(k)
        ent = []
        for k in keys:
            ent.append((k, norm(map_leaves(v, lambda l: dict(l.a[0]).get(k, ABSENT)))))
        return mk('map', tuple(ent))
    sq = [l for l in ls if l.k == 'seq']
    if sq:
        kind = sq[0].a[0]
        sg = {l: segs_of(l, kind) for l in ls}
        pre = 0
        mn = min(len(x) for x in sg.values())
        first = sg[ls[0]]
        while pre < mn and all(x[pre] == first[pre] for x in sg.values()):
            pre += 1
        suf = 0
        while suf < mn - pre and all(x[-1 - suf] == first[-1 - suf] for x in sg.values()):
            suf += 1
        if pre or suf:
            rest = map_leaves(v, lambda l: seq(kind, sg[l][pre:len(sg[l]) - suf]))
            return seq(kind, first[:pre] + [('splice', norm(rest))] + (first[len(first) - suf:] if suf else []))
    return v


def merge(cond, x, y):
    if x is y:
        return x
    return norm(ite(cond, x, y))


class State(dict):
    def copy(self):
        return State(self)


class Loop:
    def __init__(self, lid):
        self.id = lid
        self.vars = {}     # key -> (init, body)
        self.exits = []    # (pc, label)
        self.coll = None
        self.where = None
        self.colls = {}    # n -> coll


class Engine:
    def __init__(self, prog, boundary=(), max_depth=40):
        self.p = prog
        self.boundary = set(boundary)
        self.loops = {}
        self.events = {}
        self.opaque = {}
        self.stack = []
        self.max_depth = max_depth
        self.rewrites = []
        import stdmodel
        self.models = stdmodel.MODELS
        self.stdmodel = stdmodel
        self.uniq = 0
        self.rnd = ''
        self.err_type = prog.crate + '::result::Error'
        self._bd = {}
        self.inlined = set()
        self.by_summary = set()
        self.generic = {}

    def fresh(self):
        self.uniq += 1
        return self.uniq

    # ------------------------------------------------------------ types
    def pty(self, body, place, sub):
        """type (index or string) of a place -> index of type (unsubstituted) ; best effort"""
        t = body['locals'][place[0]]
        var = 0
        T = self.p.types
        for e in place[1:]:
            if t is None:
                return None, sub
            ty = T[t]
            if ty['k'] == 'param':
                return None, sub
            if e == '*':
                if ty['k'] in ('ref', 'ptr'):
                    t = ty['el']
                elif ty['k'] == 'adt' and ty['path'].endswith('boxed::Box'):
                    t = ty['args'][0]
                else:
                    return None, sub
            elif e[0] == 'd':
                var = e[1]
            elif e[0] == 'f':
                if ty['k'] == 'adt':
                    a = self.p.adts.get(ty['path'])
                    if a is None:
                        return None, sub
                    f = a['variants'][var]['fields'][e[1]]['ty']
                    if f is None:
                        return None, sub
                    ft = T[f]
                    if ft['k'] == 'param' and ft['name'] in a['generics']:
                        t = ty['args'][a['generics'].index(ft['name'])]
                        if not isinstance(t, int):
                            return None, sub
                    else:
                        t = f
                    var = 0
                elif ty['k'] == 'tuple':
                    t = ty['els'][e[1]]
                elif ty['k'] == 'closure':
                    t = ty['upvars'][e[1]]
                else:
                    return None, sub
            elif e[0] in ('i', 'ci'):
                if ty['k'] in ('slice', 'array'):
                    t = ty['el']
                else:
                    return None, sub
        return t, sub

    def strip_ref(self, t):
        while t is not None and self.p.types[t]['k'] == 'ref':
            t = self.p.types[t]['el']
        return t

    # ------------------------------------------------------------ reading and writing
    def deref(self, v, st):
        def f(l):
            if l.k == 'ref':
                return self.read_cell(st, l.a[0], l.a[1])
            return l
        return map_leaves(v, f)

    def full_deref(self, v, st):
        for _ in range(8):
            if v.k == 'ref' or (v.k == 'ite' and any(l.k == 'ref' for l in leaves(v))):
                v = self.deref(v, st)
            else:
                return v
        return v

    def read_cell(self, st, cell, proj):
        v = st.get(cell)
        if v is None:
            v = mk('uninit', str(cell))
        for e in proj:
            v = self.project(v, e, st)
        return v

    def project(self, v, e, st):
        if e == '*':
            return self.deref(v, st)
        k = e[0]
        if k == 'd':
            vi = e[1]

            def f(l):
                if l.k == 'adt':
                    return l if l.a[1] == vi else BOT
                if l.k == 'vw':
                    return l
                return mk('vw', l, vi)
            return map_leaves(v, f)
        if k == 'f':
            fi = e[1]

            def f(l):
                if l.k == 'adt':
                    return l.a[2][fi] if fi < len(l.a[2]) else BOT
                if l.k == 'tuple':
                    return l.a[0][fi] if fi < len(l.a[0]) else BOT
                if l.k == 'clos':
                    return l.a[1][fi]
                if l.k == 'vw':
                    return self.fld(l.a[0], l.a[1], fi)
                if l.k == 'ref':
                    return self.project(self.deref(l, st), e, st)
                if l.k == 'box':
                    return l
                return self.fld(l, None, fi)
            return norm(map_leaves(v, f))
        if k == 'ci':
            off, _, from_end = e[1], e[2], e[3]

            def f(l):
                if l.k == 'seq' and all(s[0] == 'one' for s in l.a[1]):
                    i = len(l.a[1]) - off if from_end else off
                    return l.a[1][i][1] if 0 <= i < len(l.a[1]) else BOT
                if l.k == 'ref':
                    return self.project(self.deref(l, st), e, st)
                return mk('at', l, cint(-off if from_end else off))
            return map_leaves(v, f)
        if k == 'i':
            ix = e[1]

            def f(l):
                if l.k == 'ref':
                    return self.project(self.deref(l, st), e, st)

                def g(i):
                    if l.k == 'seq' and i.k == 'c' and all(s[0] == 'one' for s in l.a[1]):
                        n = i.a[1]
                        return l.a[1][n][1] if 0 <= n < len(l.a[1]) else BOT
                    return mk('at', l, i)
                return map_leaves(ix, g) if isinstance(ix, V) else mk('at', l, cint(0))
            return map_leaves(v, f)
        if k == 'sub':
            if e[2] == 0 and e[3]:
                return self.stdmodel.p_rest(self, (), v, cint(e[1]))
            return map_leaves(v, lambda l: mk('call', 'subslice', (), (l, cint(e[1]), cint(e[2]))))
        return v

    def fld(self, base, vi, fi):
        return field_of(base, vi, fi)

    def upd(self, v, proj, new, st, ty=None):
        """functional update of v at proj"""
        if not proj:
            return new
        e = proj[0]
        rest = proj[1:]

        def f(l):
            if e == '*':
                if l.k == 'ref':
                    self.write_cell(st, l.a[0], l.a[1] + tuple(rest), new)
                    return l
                return self.upd(l, rest, new, st)
            if e[0] == 'd':
                if l.k == 'adt':
                    if l.a[1] != e[1]:
                        return l
                    return self.upd(l, rest, new, st)
                # opaque enum payload update
                ll = mk('vwupd', l, e[1])
                return self.upd(ll, rest, new, st)
            if e[0] == 'f':
                fi = e[1]
                if l.k == 'adt':
                    fs = list(l.a[2])
                    while len(fs) <= fi:
                        fs.append(mk('uninit', 'field'))
                    fs[fi] = self.upd(fs[fi], rest, new, st)
                    return mk('adt', l.a[0], l.a[1], tuple(fs))
                if l.k == 'tuple':
                    fs = list(l.a[0])
                    fs[fi] = self.upd(fs[fi], rest, new, st)
                    return mk('tuple', tuple(fs))
                if l.k == 'clos':
                    fs = list(l.a[1])
                    fs[fi] = self.upd(fs[fi], rest, new, st)
                    return mk('clos', l.a[0], tuple(fs))
                if l.k == 'box':
                    return self.upd(l, rest, new, st)
                old = self.project(l, e, st)
                return mk('upd', l, str(e), self.upd(old, rest, new, st))
            if e[0] in ('i', 'ci'):
                ix = e[1] if e[0] == 'i' else cint(e[1])
                if l.k == 'seq' and isinstance(ix, V) and ix.k == 'c' and all(s[0] == 'one' for s in l.a[1]) \
                        and ix.a[1] < len(l.a[1]):
                    sg = list(l.a[1])
                    n = ix.a[1]
                    sg[n] = ('one', self.upd(sg[n][1], rest, new, st))
                    return seq(l.a[0], sg)
                return mk('upd', l, 'index', new)
            return mk('upd', l, str(e), new)
        return norm(map_leaves(v, f))

    def write_cell(self, st, cell, proj, new):
        if not proj:
            st[cell] = new
            return
        old = st.get(cell)
        if old is None:
            old = mk('uninit', str(cell))
        st[cell] = self.upd(old, proj, new, st)

    def place_proj(self, fr, st, p):
        """concrete projections (index locals evaluated)"""
        out = []
        for e in p[1:]:
            if isinstance(e, list):
                if e[0] == 'i':
                    out.append(('i', st.get((fr.fid, e[1]), mk('uninit', 'ix'))))
                else:
                    out.append(tuple(e))
            else:
                out.append(e)
        return tuple(out)

    def read_place(self, fr, st, p):
        v = st.get((fr.fid, p[0]))
        if v is None:
            v = mk('uninit', '%s:_%d' % (fr.fid[-30:], p[0]))
        for e in self.place_proj(fr, st, p):
            v = self.project(v, e, st)
        if v.k == 'vw':
            v = v.a[0]
        return v

    def resolve_ref(self, fr, st, p):
        """&mut place -> ref value (following derefs of references)"""
        cell = (fr.fid, p[0])
        proj = ()
        cur = None
        pj = self.place_proj(fr, st, p)
        i = 0
        while i < len(pj):
            e = pj[i]
            if e == '*':
                v = self.read_cell(st, cell, proj)
                if v.k == 'ref':
                    cell, proj = v.a
                    i += 1
                    continue
                if v.k == 'ite' and any(l.k == 'ref' for l in leaves(v)):
                    rest = pj[i + 1:]
                    return map_leaves(v, lambda l: mk('ref', l.a[0], l.a[1] + tuple(rest)) if l.k == 'ref' else l)
                # a transparent shared reference or box: keep the same cell
                i += 1
                continue
            proj = proj + (e,)
            i += 1
        return mk('ref', cell, proj)

    def write_place(self, fr, st, p, v):
        cell = (fr.fid, p[0])
        pj = self.place_proj(fr, st, p)
        self.write_cell(st, cell, pj, v)
        if not p[1:]:
            return
        # make opaque structs concrete when a field is overwritten
        return

    # ------------------------------------------------------------ operands
    def const(self, fr, cc):
        if 'fn' in cc:
            return mk('fn', self._fnkey(fr, cc['fn']))
        if 'promoted' in cc:
            owner = self.p.fns.get(cc['of'])
            if owner is None:
                raise AnalysisError('promoted of unknown ' + cc['of'])
            return self.eval_const_body(owner['promoted'][cc['promoted']], owner, 'prom%s:%s' % (cc['promoted'], cc['of']))
        if 'str' in cc:
            return cstr(cc['str'])
        t = self.p.types[cc['ty']] if cc.get('ty') is not None else {'k': '?'}
        if 'int' in cc:
            n = int(cc['int'])
            if t['k'] == 'bool':
                return c('b', n)
            if t['k'] == 'char':
                return c('ch', n)
            if t['k'] in ('int', 'uint'):
                return cint(n)
            if t['k'] == 'adt' and 'const_item' not in cc:
                return mk('constadt', self.p.tkey(cc['ty']), n)
            if t['k'] != 'adt':
                return cint(n)
        if 'bytes' in cc:
            return mk('bytes', tuple(cc['bytes']))
        if 'const_item' in cc and cc['const_item'] in self.p.fns:
            f = self.p.fns[cc['const_item']]
            return self.eval_const_body(f['body'], f, cc['const_item'])
        if 'static' in cc and cc['static'] in self.p.fns:
            f = self.p.fns[cc['static']]
            return self.eval_const_body(f['body'], f, cc['static'])
        if cc.get('zst') or t['k'] == 'tuple':
            if t['k'] == 'tuple' and not t['els']:
                return UNIT
            if t['k'] == 'closure':
                return mk('clos', t['path'], ())
            if t['k'] == 'adt':
                a = self.p.adts.get(t['path'])
                if a and a['kind'] == 'struct':
                    return mk('adt', t['path'], 0, ())
            return mk('zst', self.p.tkey(cc['ty']))
        return mk('constop', str(cc.get('const_item') or cc.get('opaque') or sorted(cc)), self.p.tkey(cc['ty']))

    def eval_const_body(self, body, fn, key):
        memo = self.__dict__.setdefault('_constmemo', {})
        if key in memo:
            return memo[key]
        st = State()
        ret, st2, pc = self.run_body(body, fn, [], {}, TRUE, st, 'const:' + key)
        v = self.close_refs(ret, st2)
        memo[key] = v
        return v

    def close_refs(self, v, st):
        return self.full_deref(v, st)

    def _fnkey(self, fr, fn):
        """hashable callee description with the frame's substitution applied"""
        sub = fr.sub if fr else None
        args = tuple(self.p.tkey(a, sub) for a in fn.get('args', []))
        rargs = tuple(self.p.tkey(a, sub) for a in fn.get('rargs', []))
        return FnKey.get(fn, args, rargs, self.p, sub)

    def operand(self, fr, st, o):
        if 'p' in o:
            return self.read_place(fr, st, o['p'])
        if 'c' in o:
            return self.const(fr, o['c'])
        return mk('call', 'runtime_check', (), ())

    # ------------------------------------------------------------ discriminants
    def discr(self, v, dom=None, dmap=None):
        def f(l):
            if l.k == 'adt':
                return cint(dmap[l.a[1]] if dmap else l.a[1])
            if l.k == 'vw':
                l = l.a[0]
            if l.k == 'constadt':
                return cint(l.a[1])
            if dom is None:
                a = atom('disc', l, dom=None)
                raise AnalysisError('discriminant of unknown type: ' + show(l))
            a = atom('disc', l, dom=dom)
            return switch(a, {k: cint(dmap[k] if dmap else k) for k in dom})
        return map_leaves(v, f)

    def adt_dom(self, path):
        a = self.p.adts.get(path)
        if a is None:
            return None, None
        dom = tuple(range(len(a['variants'])))
        dmap = {i: int(v['discr']) for i, v in enumerate(a['variants'])}
        if all(k == v for k, v in dmap.items()):
            dmap = None
        return dom, dmap

    def rvalue(self, fr, st, r, pc, s):
        k = r['k']
        if k == 'use':
            return self.operand(fr, st, r['o'])
        if k == 'ref':
            if r['mut']:
                return self.resolve_ref(fr, st, r['p'])
            # shared borrow: the place cannot change while borrowed, so the value stands for it
            v = self.read_place(fr, st, r['p'])
            return v
        if k == 'rawptr':
            if r['mut']:
                return self.resolve_ref(fr, st, r['p'])
            return self.read_place(fr, st, r['p'])
        if k == 'discr':
            v = self.full_deref(self.read_place(fr, st, r['p']), st)
            t, sub = self.pty(fr.body, r['p'], fr.sub)
            t = self.strip_ref(t)
            dom = dmap = None
            if t is not None and self.p.types[t]['k'] == 'adt':
                dom, dmap = self.adt_dom(self.p.types[t]['path'])
            if dom is None:
                for l in leaves(v):
                    if l.k == 'adt':
                        dom, dmap = self.adt_dom(l.a[0])
                        break
            if dom is None and t is not None and self.p.types[t]['k'] in ('param', 'alias'):
                dom = (0, 1)
            return self.discr(v, dom, dmap)
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in r['ops']]
            ak = r['ak']
            if ak == 'adt':
                if r['adt'] == self.err_type:
                    return ERR
                return mk('adt', r['adt'], r['variant'], tuple(ops))
            if ak == 'tuple':
                return mk('tuple', tuple(ops))
            if ak == 'array':
                return mk('seq', 'v', tuple(('one', o) for o in ops))
            if ak == 'closure':
                return mk('clos', r['closure'], tuple(ops))
            return mk('call', 'aggregate', (), tuple(ops))
        if k == 'repeat':
            o = self.operand(fr, st, r['o'])
            if r['n'] is not None and r['n'] <= 64:
                return mk('seq', 'v', tuple(('one', o) for _ in range(r['n'])))
            return mk('call', 'repeat', (), (o,))
        if k == 'cast':
            ck = r['ck']
            op = r['o']
            if ck.startswith('BoxDerefTransmute'):
                # the pointer inside a box stands for the box's content
                if op.get('p') and op['p'][-1] == ['f', 0]:
                    op = {'p': op['p'][:-1]}
            o = self.operand(fr, st, op)
            if ck.startswith('IntToInt'):
                src = None
                ty = self.p.tkey(r['ty'], fr.sub)

                return map_leaves(o, lambda l: cast(ty, l))
            return o
        if k == 'bin':
            return self.binop(r['op'], self.full_deref(self.operand(fr, st, r['a']), st),
                              self.full_deref(self.operand(fr, st, r['b']), st))
        if k == 'un':
            a = self.operand(fr, st, r['a'])
            if r['op'] == 'Not':
                def f(l):
                    if l.k == 'c' and l.a[0] == 'b':
                        return FALSE if l.a[1] else TRUE
                    if l.k == 'c':
                        return mk('call', 'Not', (), (l,))
                    if l.k == 'not':
                        return l.a[0]
                    return not_(l)
                return map_leaves(a, f)
            if r['op'] == 'PtrMetadata':
                return self.stdmodel.len_of(self, self.full_deref(a, st))
            return map_leaves(a, lambda l: cint(-l.a[1]) if l.k == 'c' and r['op'] == 'Neg' else mk('call', r['op'], (), (l,)))
        if k == 'other':
            return mk('call', 'rvalue', (r['dbg'][:40],), ())
        raise AnalysisError('rvalue ' + k)

    def binop(self, op, a, b):
        def f(x):
            return map_leaves(b, lambda y: self.binop1(op, x, y))
        return map_leaves(a, f)

    def binop1(self, op, x, y):
        if x.k == 'c' and y.k == 'c':
            m, n = x.a[1], y.a[1]
            try:
                if op == 'Eq':
                    return c('b', int(m == n))
                if op == 'Ne':
                    return c('b', int(m != n))
                if op == 'Lt':
                    return c('b', int(m < n))
                if op == 'Le':
                    return c('b', int(m <= n))
                if op == 'Gt':
                    return c('b', int(m > n))
                if op == 'Ge':
                    return c('b', int(m >= n))
                k = 'b' if x.a[0] == 'b' else 'i'
                if op in ('Add', 'AddUnchecked'):
                    return cint(m + n)
                if op in ('Sub', 'SubUnchecked'):
                    return cint(m - n)
                if op in ('Mul', 'MulUnchecked'):
                    return cint(m * n)
                if op == 'BitAnd':
                    return c(k, m & n)
                if op == 'BitOr':
                    return c(k, m | n)
                if op == 'BitXor':
                    return c(k, m ^ n)
                if op == 'Div':
                    return cint(m // n)
                if op == 'Rem':
                    return cint(m % n)
                if op == 'AddWithOverflow':
                    return mk('tuple', (cint(m + n), FALSE))
                if op == 'SubWithOverflow':
                    return mk('tuple', (cint(m - n), TRUE if m < n else FALSE))
                if op == 'MulWithOverflow':
                    return mk('tuple', (cint(m * n), FALSE))
            except (TypeError, ZeroDivisionError):
                pass
        if op == 'Eq':
            return self.eq_leaf(x, y)
        if op == 'Ne':
            return not_(self.eq_leaf(x, y))
        if op in ('BitAnd', 'BitOr', 'BitXor') and (self._boolish(x) or self._boolish(y)):
            if op == 'BitAnd':
                return and_(as_bool(x), as_bool(y))
            if op == 'BitOr':
                return or_(as_bool(x), as_bool(y))
            return ite(as_bool(x), not_(as_bool(y)), as_bool(y))
        if op == 'Gt':
            return self.binop1('Lt', y, x)
        if op == 'Ge':
            return not_(self.binop1('Lt', x, y))
        if op == 'Le':
            return not_(self.binop1('Lt', y, x))
        if op == 'Lt':
            if x is y:
                return FALSE
            if y is cint(0) and x.k == 'call' and x.a[0] in ('len', 'as'):
                return FALSE
            if x is cint(0) and y.k == 'call' and y.a[0] == 'len':
                return not_(self.stdmodel.is_empty_of(self, y.a[2][0]))
            if y is cint(1) and x.k == 'call' and x.a[0] == 'len':
                return self.stdmodel.is_empty_of(self, x.a[2][0])
            return switch(atom('lt', x, y, dom=(0, 1)), {0: FALSE, 1: TRUE})
        if op.endswith('WithOverflow'):
            o = op[:-len('WithOverflow')]
            return mk('tuple', (mk('call', o, (), (x, y)), mk('call', 'overflow_' + o, (), (x, y))))
        return mk('call', op, (), (x, y))

    def _boolish(self, x):
        return x is TRUE or x is FALSE or x.k == 'not' or (x.k == 'call' and x.a[0].startswith('overflow_'))

    def eq_leaf(self, x, y):
        """equality of two leaves as a boolean diagram"""
        if x is y:
            return TRUE
        if x.k == 'c' and y.k == 'c':
            return TRUE if x.a[1] == y.a[1] else FALSE
        if x.k == 'c':
            x, y = y, x
        if y.k == 'c':
            if x.k == 'call' and x.a[0] == 'len' and y.a[1] == 0:
                return self.stdmodel.is_empty_of(self, x.a[2][0])
            if y.a[0] == 'b':
                b = as_bool(x)
                return b if y.a[1] else not_(b)
            if x.k in ('call', 'fld', 'elem', 'sym', 'at', 'fold', 'loopvar', 'seq', 'upd', 'uninit', 'constop', 'vw'):
                if y.a[0] == 's' and y.a[1] == '':
                    return self.stdmodel.is_empty_of(self, x)
                dom = None
                return switch(atom('val', x), {y.a[1]: TRUE}, FALSE)
        if x.k == 'adt' and y.k == 'adt' and x.a[0] == y.a[0]:
            if x.a[1] != y.a[1]:
                return FALSE
            r = TRUE
            for p, q in zip(x.a[2], y.a[2]):
                r = and_(r, self.eq(p, q))
            return r
        if x.k == 'adt':
            x, y = y, x
        if y.k == 'adt' and x.k != 'adt':
            dom, dmap = self.adt_dom(y.a[0])
            if dom:
                r = TRUE
                if len(dom) > 1:
                    r = switch(atom('disc', x, dom=dom), {k: TRUE if k == y.a[1] else FALSE for k in dom})
                for i, q in enumerate(y.a[2]):
                    r = and_(r, self.eq(self.fld(x, y.a[1] if len(dom) > 1 else None, i), q))
                return r
        if x.k == 'tuple' and y.k == 'tuple':
            r = TRUE
            for p, q in zip(x.a[0], y.a[0]):
                r = and_(r, self.eq(p, q))
            return r
        if x.id > y.id:
            x, y = y, x
        return switch(atom('eq', x, y, dom=(0, 1)), {0: FALSE, 1: TRUE})

    def eq(self, a, b):
        return map_leaves(a, lambda x: map_leaves(b, lambda y: self.eq_leaf(x, y)))

    # ------------------------------------------------------------ running bodies
    def run_fn(self, path, args, targs=None, pc=TRUE, st=None, fid=None):
        """analyse a function with the given argument values; returns (value, state, pc)"""
        f = self.p.fns[path]
        if st is None:
            st = State()
        sub = {}
        if targs and f.get('generics'):
            sub = dict(zip(f['generics'], targs))
        return self.run_body(f['body'], f, args, sub, pc, st, fid or path)

    def run_body(self, body, fn, args, sub, pc, st, fid):
        if len(self.stack) > self.max_depth:
            raise AnalysisError('inlining too deep: ' + fid[-200:])
        fr = Frame()
        fr.body, fr.fn, fr.sub, fr.fid = body, fn, sub, fid
        if body['irreducible']:
            raise AnalysisError('irreducible control flow in ' + fn['path'])
        st = st.copy()
        if body['argc'] != len(args):
            if fn['kind'] == 'Closure' and len(args) == 2 and args[1].k == 'tuple':
                args = [args[0]] + list(args[1].a[0])
            if body['argc'] != len(args):
                raise AnalysisError('arity %s: %d vs %d' % (fn['path'], body['argc'], len(args)))
        for i, a in enumerate(args):
            st[(fid, i + 1)] = a
        self.stack.append(fn['path'])
        try:
            rets = []
            exits, backs = self.run_region(fr, 0, set(body['rpo']), [(pc, st)], None, rets)
        finally:
            self.stack.pop()
        if not rets:
            return BOT, st, FALSE
        pc2, st2 = self.merge_states(rets, None, None)
        v = st2.get((fid, 0), UNIT)
        v = self.escape(fr, st2, v)
        # forget the frame
        st3 = State((k, x) for k, x in st2.items() if k[0] != fid)
        return v, st3, pc2

    def escape(self, fr, st, v):
        """references to this frame's own locals cannot outlive it: replace by value"""
        def f(l):
            if l.k == 'ref' and l.a[0][0] == fr.fid:
                return self.read_cell(st, l.a[0], l.a[1])
            return l
        if v.k == 'ref' or v.k == 'ite':
            v = map_leaves(v, f)
        return v

    def merge_states(self, lst, live_fid, live):
        """lst: [(pc, state)] -> (pc, state)"""
        if len(lst) == 1:
            return lst[0]
        pc, st = lst[0]
        st = st.copy()
        for pc2, st2 in lst[1:]:
            both = or_(pc, pc2)
            cond = None
            new = State()
            for k, x in st.items():
                y = st2.get(k)
                if y is None:
                    continue
                if x is y:
                    new[k] = x
                    continue
                if live is not None and k[0] == live_fid and k[1] not in live:
                    continue
                if cond is None:
                    cond = restrict(pc, both)
                new[k] = merge(cond, x, y)
            for k, y in st2.items():
                if k not in st and k not in new:
                    # defined on one side only
                    if live is not None and k[0] == live_fid and k[1] not in live:
                        continue
                    new[k] = y
            for k, x in st.items():
                if k not in st2 and k not in new:
                    if live is not None and k[0] == live_fid and k[1] not in live:
                        continue
                    new[k] = x
            pc, st = both, new
        return pc, st

    def run_region(self, fr, entry, nodes, ins, header, rets):
        """process `nodes` from `entry`; returns (exits, backedges): [(src,dst,pc,state)]"""
        b = fr.body
        pending = {entry: list(ins)}
        order = [x for x in b['rpo'] if x in nodes]
        exits, backs = [], []
        # outermost loops inside this region
        inner = {}
        for h, nd in b['loops'].items():
            if h in nodes and h != header:
                if header is not None and not nd <= nodes:
                    continue
                inner[h] = nd
        skip = set()
        for h, nd in inner.items():
            pass

        def emit(src, dst, pc, st):
            if pc is FALSE or pc is BOT:
                return
            if header is not None and dst == header:
                backs.append((src, dst, pc, st))
            elif dst not in nodes:
                exits.append((src, dst, pc, st))
            else:
                pending.setdefault(dst, []).append((pc, st))
        done = set()
        for x in order:
            if x in done or x not in pending:
                continue
            lst = pending.pop(x)
            addr = b['addr']
            live = b['live'][x] | addr
            pc, st = self.merge_states(lst, fr.fid, live)
            if pc is FALSE:
                continue
            if x in inner:
                nd = inner[x]
                outs = self.handle_loop(fr, x, nd, pc, st, rets)
                done |= nd
                for (src, dst, pc2, st2) in outs:
                    emit(src, dst, pc2, st2)
                continue
            for (dst, pc2, st2) in self.exec_block(fr, x, pc, st, rets):
                emit(x, dst, pc2, st2)
        return exits, backs

    def event(self, fr, bb, kind, pc, **kw):
        key = (fr.fid, bb, kind, kw.get('sub'))
        if pc is FALSE:
            self.events.pop(key, None)
            return
        self.events[key] = dict(fn=fr.fn['path'], file=fr.fn['file'], bb=bb, kind=kind, pc=pc,
                                stack=tuple(self.stack), **kw)

    def exec_block(self, fr, bb, pc, st, rets):
        blk = fr.body['blocks'][bb]
        st = st.copy()
        for s in blk['s']:
            k = s['k']
            if k == '=':
                v = self.rvalue(fr, st, s['r'], pc, s)
                self.write_place(fr, st, s['p'], v)
            elif k == 'dead':
                pass
            elif k == 'setd':
                pass
        t = blk['t']
        k = t['k']
        if k == 'goto' or k == 'drop':
            return [(t['t'], pc, st)]
        if k == 'return':
            rets.append((pc, st))
            return []
        if k in ('unreachable', 'resume'):
            if k == 'unreachable':
                pass
            return []
        if k == 'switch':
            d = self.full_deref(self.operand(fr, st, t['d']), st)
            out = []
            isb = self.p.types[t['ty']]['k'] == 'bool'
            keys = [int(x) for x, _ in t['ts']]
            if isb:
                d = as_bool(d)
            tgt = {}
            tot = []

            def cond_for(pred):
                def f(l):
                    if l.k == 'c':
                        return TRUE if pred(l.a[1]) else FALSE
                    if l is BOT:
                        return BOT
                    # opaque integer
                    a = atom('val', l)
                    res = {n: (TRUE if pred(n) else FALSE) for n in keys}
                    return switch(a, res, TRUE if pred('other') else FALSE)
                return map_leaves(d, f)
            conds = []
            ty = self.p.types[t['ty']]
            for (n, tb) in t['ts']:
                n = int(n)
                m = n
                if ty['k'] == 'int':
                    w = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128}.get(ty['name'], 64)
                    if m >> (w - 1):
                        m -= 1 << w
                cnd = cond_for(lambda z, m=m: z == m)
                cnd = self.drop_bot(cnd)
                conds.append((tb, cnd))
            ms = [int(x) for x, _ in t['ts']]
            cnd = self.drop_bot(cond_for(lambda z: z not in ms))
            conds.append((t['else'], cnd))
            for tb, cnd in conds:
                p2 = and_(pc, cnd)
                if p2 is FALSE or p2 is BOT:
                    continue
                if fr.body['blocks'][tb]['t']['k'] == 'unreachable' and not fr.body['blocks'][tb]['s']:
                    continue
                out.append((tb, p2, st))
            return out
        if k == 'assert':
            cv = as_bool(self.full_deref(self.operand(fr, st, t['c']), st))
            ok = cv if t['exp'] else not_(cv)
            bad = and_(pc, not_(ok))
            ops = [self.full_deref(self.operand(fr, st, o), st) for o in t['ops']]
            self.event(fr, bb, 'assert:' + t['msg'], bad, line=t['ln'], args=tuple(ops))
            p2 = and_(pc, ok)
            return [(t['t'], p2, st)]
        if k == 'call':
            return self.exec_call(fr, bb, t, pc, st)
        raise AnalysisError('terminator %s in %s' % (t, fr.fn['path']))

    def drop_bot(self, v):
        return map_leaves(v, lambda l: l)

    # ------------------------------------------------------------ calls
    def exec_call(self, fr, bb, t, pc, st):
        args = [self.operand(fr, st, o) for o in t['a']]
        f = t['f']
        site = Site()
        site.fr, site.bb, site.line = fr, bb, t['ln']
        site.fid = '%s@%d' % (fr.fid, bb)
        site.dty = t['dty']
        if 'c' in f and 'fn' in f['c']:
            key = self._fnkey(fr, f['c']['fn'])
            site.targs_ix = f['c']['fn'].get('rargs') or f['c']['fn'].get('args')
            r, st, pc = self.call_fn(key, args, pc, st, site)
        else:
            fv = self.operand(fr, st, f)
            r, st, pc = self.call_value(fv, args, pc, st, site)
        if t['t'] is None:
            self.event(fr, bb, 'panic:diverges', pc, line=t['ln'], args=(), sub=site.fid)
            return []
        if pc is FALSE or pc is BOT:
            return []
        st = st.copy() if st is not None else State()
        self.write_place(fr, st, t['d'], r)
        return [(t['t'], pc, st)]

    def call_value(self, fv, args, pc, st, site):
        """call a closure or function value"""
        fv = self.full_deref(fv, st)
        if fv.k == 'clos':
            f = self.p.fns.get(fv.a[0])
            if f is None:
                raise AnalysisError('closure body missing ' + fv.a[0])
            a = list(args)
            n = f['body']['argc']
            if n == 2 and len(a) == 1 and False:
                pass
            sub = site.fr.sub if site and site.fr else {}
            # the environment parameter: pass by transparent value; captured &mut are refs inside
            r, st2, pc2 = self.run_body(f['body'], f, [fv] + a, sub, pc, st, site.fid + '/c' + fv.a[0].rsplit('::', 2)[-2][-24:] + fv.a[0].rsplit('::', 1)[-1])
            return r, st2, pc2
        if fv.k == 'fn':
            return self.call_fn(fv.a[0], args, pc, st, site)
        return mk('call', 'call_value', (), (fv,) + tuple(self.full_deref(a, st) for a in args)), st, pc

    def call_fn(self, key, args, pc, st, site):
        fn = key.fn
        # constructors used as functions
        if fn.get('ctor'):
            if fn['adt'] == self.err_type:
                return ERR, st, pc
            return mk('adt', fn['adt'], fn['variant'], tuple(args)), st, pc
        name = key.short
        if name in ('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once') and fn.get('rlocal') and '{closure#' in str(fn.get('res')):
            return self.call_model(self.models[name], key, args, pc, st, site)
        # trait methods on generic self: resolve through the substitution
        target = None
        if fn.get('rlocal'):
            target = fn['res']
        elif key.local:
            target = key.local
        elif fn.get('path') in self.p.fns:
            target = fn['path']
        if target is not None and target in self.p.fns:
            bname = self.boundary_name(key, target)
            if bname is not None:
                return self.opaque_call(bname, key, args, pc, st, site)
            if target in self.stack and self.stack.count(target) >= 1:
                return self.opaque_call('rec:' + target, key, args, pc, st, site)
            f = self.p.fns[target]
            m = self.models.get(name) if f.get('derived') else None
            if f.get('derived') and m is not None and not self.inline_derived(f):
                return self.call_model(m, key, args, pc, st, site)
            self.inlined.add(target)
            if target in self.by_summary:
                r = self.instantiate(target, f, args, st)
                if r is not None:
                    return r, st, pc
            targs = key.rargs if fn.get('rlocal') else key.args
            sub = dict(zip(f.get('generics') or [], targs))
            v, st2, pc2 = self.run_body(f['body'], f, args, sub, pc, st, site.fid)
            return v, st2, pc2
        m = self.models.get(name)
        if m is not None:
            return self.call_model(m, key, args, pc, st, site)
        return self.opaque_call(name, key, args, pc, st, site)

    def instantiate(self, path, f, args, st):
        """the value of a call (its events are not instantiated): the summary with the arguments put in; None when it has to be inlined"""
        if path not in self.generic:
            self.generic[path] = None
            tys = [self.p.tkey(t) for t in f['body']['locals'][1:f['body']['argc'] + 1]]
            if not f.get('generics') and not any('&mut ' in t or 'dyn ' in t or 'impl ' in t for t in tys):
                syms = [mk('sym', 'arg%d:%s' % (i, path)) for i in range(len(tys))]
                stack, self.stack = self.stack, []
                try:
                    v, st2, pc2 = self.run_fn(path, syms, fid=path + '@summary')
                finally:
                    self.stack = stack
                if pc2 is TRUE and not self.unfinished(v):
                    self.generic[path] = (v, syms)
        g = self.generic[path]
        if g is None:
            return None
        vals = [self.full_deref(a, st) for a in args]
        if any(self.unfinished(a) for a in vals):
            return None
        return Subst(self, dict(zip(g[1], vals)))(g[0])

    def unfinished(self, v):
        seen, todo = set(), [v]
        while todo:
            t = todo.pop()
            if id(t) in seen:
                continue
            seen.add(id(t))
            if t.k in ('fold', 'foldat', 'loopvar', 'ref', 'clos', 'fn', 'callout', 'bot', 'uninit', 'itermut', 'iter'):
                return True
            if t.k == 'ite':
                todo += [u for u in t.a[0].t if isinstance(u, V)]
            todo += list(subterms(t))
        return False

    def inline_derived(self, f):
        """derived impls worth analysing: equality of field-less enums"""
        if f['name'] == 'eq':
            t = self.p.types[f['impl_self']]
            a = self.p.adts.get(t.get('path'))
            return bool(a and all(not v['fields'] for v in a['variants']))
        return f['name'] == 'default'

    def call_model(self, m, key, args, pc, st, site):
        ctx = Ctx()
        ctx.e, ctx.key, ctx.pc, ctx.st, ctx.site = self, key, pc, st, site
        v = m(ctx, *args)
        return v, ctx.st, ctx.pc

    def boundary_name(self, key, target):
        if target in self.boundary:
            return target
        fn = key.fn
        tr = fn.get('trait')
        if tr and (tr, fn['name']) in self.boundary:
            return tr.split('::')[-1] + '::' + fn['name']
        return None

    def opaque_call(self, name, key, args, pc, st, site):
        st = st.copy()
        vals = tuple(self.full_deref(a, st) for a in args)
        targs = key.self_args() if key is not None else ()
        r = mk('call', name, targs, vals)
        havoc = False
        for i, a in enumerate(args):
            for l in leaves(a):
                if l.k == 'ref':
                    self.write_cell(st, l.a[0], l.a[1], mk('callout', name, i, targs, vals))
                    havoc = True
        self.opaque.setdefault(name, set()).add(site.fr.fn['path'] if site and site.fr else '?')
        self.event(site.fr, site.bb, 'call:' + name, pc, line=site.line, args=vals, result=r, key=key, havoc=havoc)
        return r, st, pc

    # ------------------------------------------------------------ loops
    def handle_loop(self, fr, h, nodes, pc, st, rets):
        lid = '%s@L%d%s' % (fr.fid, h, self.rnd)
        # 1. bounded loops over literal sequences are unrolled
        un = self.try_unroll(fr, h, nodes, pc, st, rets)
        if un is not None:
            return un

        def body(hs):
            r2 = []
            exits, backs = self.run_region(fr, h, nodes, [(pc, hs)], h, r2)
            if r2:
                for (p2, s2) in r2:
                    exits.append((h, 'ret', p2, s2))
            if backs:
                bpc, bst = self.merge_states([(p2, s2) for (_, _, p2, s2) in backs], fr.fid,
                                             fr.body['live'][h] | fr.body['addr'])
            else:
                bpc, bst = FALSE, None
            return exits, bpc, bst
        outs = self.summarise(lid, pc, st, body, fr.fn['path'])
        res = []
        for (src, dst, p2, s2) in outs:
            if dst == 'ret':
                rets.append((p2, s2))
            else:
                res.append((src, dst, p2, s2))
        return res

    def summarise(self, lid, pc, st, body, where):
        """generic loop summary.  body(header_state) -> (exits, back_pc, back_state)"""
        M = {}      # (cell, path) set of widened places
        for rnd in range(24):
            hs, lv = self.widen_state(lid, st, M)
            exits, bpc, bst = body(hs)
            if bst is None:
                # never loops back
                return exits
            grown = False
            for cell, hv in hs.items():
                bv = bst.get(cell)
                if bv is None or bv is hv:
                    continue
                bv = restrict(bv, bpc)
                for path in self.diff_paths(hv, bv, ()):
                    if not any(path[:len(q)] == q for q in M.get(cell, ())):
                        # drop longer paths under this one
                        M[cell] = {q for q in M.get(cell, set()) if q[:len(path)] != path} | {path}
                        grown = True
            if not grown:
                break
        else:
            raise AnalysisError('loop summary did not stabilise: ' + lid)
        lp = Loop(lid)
        lp.where = where
        lp.bpc = bpc
        self.loops[lid] = lp
        # iterators advanced by the loop
        lp.iters = []
        for cell, paths in M.items():
            for path in paths:
                init = self.at_path(st.get(cell), path)
                hv = self.at_path(hs[cell], path)
                bv = restrict(self.at_path(bst[cell], path), bpc)
                lp.vars[(cell, path)] = (init, bv, hv)
                if hv.k == 'iter':
                    lp.coll = hv.a[0]
                    lp.elname = lid + '|' + key_str((cell, path))
                    steps = {l.a[1][2] if l.k == 'iter' and isinstance(l.a[1], tuple) else None for l in leaves(bv)}
                    lp.iters.append(((cell, path), hv.a[0], lp.elname, steps))
                elif hv.k == 'itermut':
                    lp.coll = self.full_deref(hv.a[0], st)
                    lp.elname = lid + '|' + key_str((cell, path))
                    lp.iters.append(((cell, path), lp.coll, lp.elname, {1}))
        # closed forms
        repl = {}
        lp.folds = {}
        flags = self.first_round_flags(lp)
        for key, (init, bv, hv) in lp.vars.items():
            if hv.k != 'loopvar':
                continue
            lp.folds[key_str(key)] = (init, bv, hv)
            if flags and hv not in flags:
                bv = Subst(self, flags)(bv)
            cf = self.closed_form(lp, init, bv, hv)
            if cf is None:
                cf = mk('fold', lid, key_str(key))
            repl[hv] = cf
        outs = []
        n = len(exits)
        at = atom('exit', lid, n, dom=tuple(range(n))) if n > 1 else None
        sb = Subst(self, repl)
        lp.exits = []
        lp.natural = None
        for i, (src, dst, p2, s2) in enumerate(exits):
            rp = restrict(p2, pc)
            early = self.early_exit(lp, rp)
            lp.exits.append((rp, src, dst, early))
            if n > 1:
                po = and_(pc, switch(at, {k: TRUE if k == i else FALSE for k in range(n)}))
            else:
                po = pc
            s3 = State()
            sub = sb
            if early:
                sub = Subst(self, {hv: mk('foldat', lid, key_str(key), i) for key, (init, bv, hv) in lp.vars.items()
                                   if hv.k == 'loopvar'})
            for cell, v in s2.items():
                s3[cell] = self.leave_iter(lp, sub(restrict(v, p2)), early, i)
            # elements modified in place
            for key, (init, bv, hv) in lp.vars.items():
                if hv.k == 'itermut':
                    mc = ('mut:' + lid + key_str(key), 0)
                    if early:
                        raise AnalysisError('early exit from a mutating loop in ' + where)
                    base = self.full_deref(hv.a[0], st)
                    if mc in bst:
                        nv = restrict(bst[mc], bpc)
                        el = mk('elem', lid + '|' + key_str(key), 0)
                        new = self.many('v', el, base, mk('seq', 'v', (('one', nv),)))
                        self.write_cell(s3, hv.a[0].a[0], hv.a[0].a[1], new)
                    s3.pop(mc, None)
            outs.append((src, dst, po, s3))
        lp.back_pc = bpc
        lp.pc = pc
        return outs

    def first_round_flags(self, lp):
        """variables every round sets to the same constant, by position in the loop"""
        if len(lp.iters) != 1 or lp.iters[0][3] != {1}:
            return {}
        a = atom('val', mk('idx', mk('elem', lp.elname, 0)))
        return {hv: switch(a, {0: init}, bv) for init, bv, hv in lp.vars.values()
                if hv.k == 'loopvar' and bv.k == 'c' and bv.a[0] == 'b' and init.k == 'c' and init.a[0] == 'b'}

    def leave_iter(self, lp, v, early, i):
        """an iterator the loop advanced, seen from behind the loop: what it still has to produce"""
        if v.k not in ('iter', 'ite'):
            return v

        def f(l):
            if l.k == 'iter' and isinstance(l.a[1], tuple) and l.a[1][1] == lp.id:
                if len(lp.iters) == 1 and not early:
                    return mk('iter', EMPTY, 0)
                coll, pos = l.a
                return mk('iter', mk('call', 'rest_in_loop', (pos[1], pos[3], str(pos[2]), str(i)), (coll,)), 0)
            return l
        return map_leaves(v, f)

    def early_exit(self, lp, p):
        """can this exit be taken while the driving iterator still has elements?"""
        if not lp.iters:
            return True
        for _, _, elname, _ in lp.iters:
            nm = elname.split('|', 1)[1]
            a = atom('more', lp.id, nm, 0, dom=(0, 1))
            done = switch(a, {0: TRUE, 1: FALSE})
            if and_(p, not_(done)) is FALSE:
                return False
        return True

    def at_path(self, v, path):
        for e in path:
            if v.k == 'adt':
                v = v.a[2][e]
            elif v.k == 'tuple':
                v = v.a[0][e]
            else:
                raise AnalysisError('at_path')
        return v

    def set_path(self, v, path, new):
        if not path:
            return new
        e = path[0]
        if v.k == 'adt':
            fs = list(v.a[2])
            fs[e] = self.set_path(fs[e], path[1:], new)
            return mk('adt', v.a[0], v.a[1], tuple(fs))
        fs = list(v.a[0])
        fs[e] = self.set_path(fs[e], path[1:], new)
        return mk('tuple', tuple(fs))

    def diff_paths(self, a, b, path):
        if a is b:
            return
        if a.k == 'adt' and b.k == 'adt' and a.a[0] == b.a[0] and a.a[1] == b.a[1] \
                and len(self.p.adts.get(a.a[0], {'variants': [0, 0]})['variants']) == 1:
            for i, (x, y) in enumerate(zip(a.a[2], b.a[2])):
                yield from self.diff_paths(x, y, path + (i,))
            return
        if a.k == 'tuple' and b.k == 'tuple' and len(a.a[0]) == len(b.a[0]):
            for i, (x, y) in enumerate(zip(a.a[0], b.a[0])):
                yield from self.diff_paths(x, y, path + (i,))
            return
        if a.k in ('iter', 'itermut') and b.k == a.k and a.a[0] is b.a[0] and isinstance(a.a[1], tuple) and isinstance(b.a[1], tuple) \
                and a.a[1][1] == b.a[1][1]:
            return   # the same symbolic iterator, further along
        if a.k == 'iter' and b.k == 'ite' and all(
                l.k == 'iter' and l.a[0] is a.a[0] and isinstance(l.a[1], tuple) and isinstance(a.a[1], tuple)
                and l.a[1][1] == a.a[1][1] for l in leaves(b)):
            return
        yield path

    def widen_state(self, lid, st, M):
        hs = st.copy()
        lv = {}
        for cell, paths in M.items():
            v = hs.get(cell)
            if v is None:
                continue
            for path in sorted(paths):
                init = self.at_path(v, path)
                nm = key_str((cell, path))
                if init.k == 'ite' and all(l.k == 'iter' and not isinstance(l.a[1], tuple) for l in leaves(init) if l is not BOT):
                    new = mk('iter', norm(map_leaves(init, self.rest_of)), ('L', lid, 0, nm))
                elif init.k == 'iter':
                    new = mk('iter', self.rest_of(init), ('L', lid, 0, nm))
                elif init.k == 'itermut':
                    new = mk('itermut', init.a[0], ('L', lid, 0, nm))
                else:
                    new = mk('loopvar', lid, nm)
                v = self.set_path(v, path, new)
                lv[(cell, path)] = new
            hs[cell] = v
        return hs, lv

    def rest_of(self, it):
        """the collection an iterator still has to produce"""
        coll, pos = it.a
        if isinstance(pos, tuple):
            return mk('call', 'rest_in_loop', (pos[1], pos[3], str(pos[2])), (coll,))
        return self.stdmodel.p_rest(self, (), coll, cint(pos))

    def closed_form(self, lp, init, bv, L):
        """append-only accumulators become `init ++ for elem in coll: ...`"""
        ok = [True]

        def strip(l):
            if l is L:
                return mk('seq', '?', ())
            if l.k == 'seq' and l.a[1] and l.a[1][0] == ('splice', L):
                rest = mk('seq', l.a[0], l.a[1][1:]) if l.a[0] == 'v' else seq('s', l.a[1][1:])
                return rest
            ok[0] = False
            return l
        suffix = map_leaves(bv, strip)
        if not ok[0] or lp.coll is None:
            return None
        kinds = {l.a[0] for l in leaves(suffix) if l.k == 'seq' and l.a[0] != '?'}
        for l in leaves(suffix):
            if l.k != 'seq':
                kinds.add('s')
        kind = kinds.pop() if len(kinds) == 1 else 'v'
        empty = EMPTY if kind == 'v' else cstr('')
        suffix = map_leaves(suffix, lambda l: empty if l.k == 'seq' and l.a[0] == '?' else l)
        if mentions(suffix, lambda x: x is L or (x.k == 'loopvar' and x.a[0] == lp.id)):
            return None
        # exactly one element consumed per round
        if len(lp.iters) != 1 or lp.iters[0][3] != {1}:
            return None
        if self.opaque_iters(lp, suffix):
            return None
        el = mk('elem', lp.elname, 0)
        suffix = restrict(suffix, switch(atom('more', lp.id, lp.elname.split('|', 1)[1], 0, dom=(0, 1)), {0: FALSE, 1: TRUE}))
        suffix = self.on_latch(lp, suffix)
        if suffix is None:
            return None
        sg = segs_of(init, kind) + segs_of(self.many(kind, el, lp.coll, norm(suffix)), kind)
        return norm(seq(kind, sg))

    def on_latch(self, lp, v):
        """v as it is when the loop goes round: nested loops have then left by their ordinary exit"""
        if v.k == 'seq':
            out = []
            for s in v.a[1]:
                if s[0] == 'splice' and s[1].k == 'ite':
                    x = self.on_latch(lp, restrict(s[1], lp.bpc))
                    if x is None:
                        return None
                    out.append(('splice', x))
                else:
                    out.append(s)
            return seq(v.a[0], out)
        for a in sorted((a for a in atoms_of(v, deep=False) if a.kind == 'exit' and a.t[0] in self.loops
                         and a.t[0] != lp.id), key=lambda a: a.order):
            try:
                v = drop_atom(v, a)
            except Conflict:
                return None
        return v

    def opaque_iters(self, lp, v):
        def bad(x):
            return x.k == 'iter' and isinstance(x.a[1], tuple) and x.a[1][1] == lp.id
        return mentions(v, bad)

    comp = None
    opener = None

    def subst(self, m):
        if self.comp is not None:
            return self.comp(m)
        return Subst(self, m)

    def open(self, el, body):
        o = mk('elem', 'open', self.fresh())
        return o, Subst(self, {el: o}, renaming=True)(body)

    def bdepth(self, v):
        m = self._bd
        r = m.get(v)
        if r is not None:
            return r
        m[v] = 0
        r = 0
        if v.k == 'seq':
            for s in v.a[1]:
                if s[0] == 'many':
                    r = max(r, s[1].a[1] if s[1].a[0] == 'B' else 0, self.bdepth(s[2]), self.bdepth(s[3]))
                else:
                    r = max(r, self.bdepth(s[1]))
        elif v.k == 'ite':
            a, cs, d = v.a
            for t in a.t:
                if isinstance(t, V):
                    r = max(r, self.bdepth(t))
            for _, x in cs:
                r = max(r, self.bdepth(x))
            if d is not None:
                r = max(r, self.bdepth(d))
        else:
            for y in subterms(v):
                r = max(r, self.bdepth(y))
        m[v] = r
        return r

    def many(self, kind, el, coll, body):
        """`for el in coll: body` as a sequence value, with fusion"""
        empty = EMPTY if kind == 'v' else cstr('')
        if all(l is empty for l in leaves(body)):
            return empty
        if coll.k == 'seq' and not (len(coll.a[1]) == 1 and coll.a[1][0][0] == 'many'):
            ix = mk('idx', el)
            if mentions(body, lambda x: x is ix):
                if not all(s[0] == 'one' for s in coll.a[1]):
                    return self.close(kind, el, coll, body)
                out = []
                for i, s in enumerate(coll.a[1]):
                    out.append(('splice', self.subst({ix: cint(i), el: s[1]})(body)))
                return seq(kind, out)
        if coll.k == 'seq':
            out = []
            for s in coll.a[1]:
                if s[0] == 'one':
                    out.append(('splice', self.subst({el: s[1]})(body)))
                elif s[0] == 'many':
                    if mentions(body, lambda x, ix=mk('idx', el): x is ix) and \
                            not all(self.stdmodel.one_elem(l) for l in leaves(s[3]) if l is not BOT):
                        return self.close(kind, el, coll, body)
                    o, inner = self.open(s[1], s[3])
                    b2 = Subst(self, {mk('idx', el): mk('idx', o)})(body)
                    out.extend(segs_of(self.many(kind, o, s[2], self.many_in(kind, el, inner, b2)), kind))
                else:
                    out.extend(segs_of(self.many_splice(kind, el, s[1], body), kind))
            return seq(kind, out)
        if coll.k == 'ite':
            return self.many_splice(kind, el, coll, body)
        if kind == 'v' and body.k == 'seq' and body.a[1] == (('one', el),):
            return seq('v', [('splice', coll)])
        if kind == 's' and body is el:
            return mk('call', 'concat', (), (coll,))
        if self.opener is not None and coll.k in ('call', 'fld'):
            x = self.opener(coll)
            if x is not None:
                return self.many(kind, el, x, body)
        return self.close(kind, el, coll, body)

    def close(self, kind, el, coll, body):
        b = mk('elem', 'B', 1 + max(self.bdepth(body), 0))
        if el is not b:
            body = Subst(self, {el: b}, renaming=True)(body)
        return mk('seq', kind, (('many', b, coll, body),))

    def many_in(self, kind, el, inner, body):
        return norm(map_leaves(inner, lambda l: self.many(kind, el, l, body)))

    def many_splice(self, kind, el, v, body):
        if v.k == 'ite':
            return norm(map_leaves(v, lambda l: self.many(kind, el, l, body)))
        return self.many(kind, el, v, body)

    def try_unroll(self, fr, h, nodes, pc, st, rets):
        """loops driven by an iterator over a literal sequence"""
        lits = {}
        for cell, v in st.items():
            if v.k == 'iter' and isinstance(v.a[1], int) and v.a[0].k == 'seq' and v.a[0].a[1] \
                    and all(s[0] == 'one' for s in v.a[0].a[1]):
                lits[cell] = v
            elif v.k == 'itermut' and isinstance(v.a[1], int):
                base = self.full_deref(v.a[0], st)
                if base.k == 'seq' and base.a[1] and all(s[0] == 'one' for s in base.a[1]):
                    lits[cell] = v
        if not lits:
            return None
        outs = []
        cur_pc, cur = pc, st
        saved = dict(self.events)
        r_all = []
        base = fr.fid
        old_rnd = self.rnd
        for rnd in range(130):
            r2 = []
            self.rnd = old_rnd + '#%d' % rnd
            exits, backs = self.run_region(fr, h, nodes, [(cur_pc, cur)], h, r2)
            outs += exits
            r_all += r2
            self.rnd = old_rnd
            if not backs:
                rets += r_all
                return outs
            cur_pc, cur2 = self.merge_states([(p2, s2) for (_, _, p2, s2) in backs], fr.fid,
                                             fr.body['live'][h] | fr.body['addr'])
            adv = any(cur2.get(cell) is not None and cur2[cell].k in ('iter', 'itermut') and isinstance(cur2[cell].a[1], int)
                      and cur2[cell].a[1] == v.a[1] + rnd + 1 for cell, v in lits.items())
            if not adv:
                self.events = saved
                return None
            cur = cur2
        self.events = saved
        return None


def cast(ty, l):
    if l.k == 'c' and l.a[0] in ('i', 'b', 'ch'):
        n = l.a[1]
        if ty == 'char':
            return c('ch', n)
        m = re.match(r'([iu])(\d+|size)$', ty)
        if m:
            w = 64 if m.group(2) == 'size' else int(m.group(2))
            n &= (1 << w) - 1
            if m.group(1) == 'i' and n >> (w - 1):
                n -= 1 << w
        return cint(n)
    return mk('call', 'as', (ty,), (l,))


def key_str(key):
    cell, path = key
    return '%s:_%s%s' % (cell[0][-60:] if isinstance(cell[0], str) else cell[0], cell[1], ''.join('.%d' % p for p in path))


def field_of(base, vi, fi):
    while vi is None and base.k == 'upd' and base.a[1].startswith("('f', "):
        if base.a[1] == "('f', %d)" % fi:
            return base.a[2]
        base = base.a[0]
    return mk('fld', base, vi, fi)


class Frame:
    pass


class Site:
    fr = None
    bb = None
    line = None
    fid = ''
    dty = None


class Ctx:
    pass


class FnKey:
    _memo = {}

    @staticmethod
    def get(fn, args, rargs, prog, sub):
        k = (fn['path'], fn.get('res'), args, rargs)
        r = FnKey._memo.get(k)
        if r is None:
            r = FnKey()
            r.fn, r.args, r.rargs = fn, args, rargs
            r.short = short_callee(fn)
            r.local = None
            if fn.get('trait') and not fn.get('rlocal') and args:
                r.local = prog.impls.get((fn['trait'], args[0], fn['name']))
                if r.local is None:
                    t = args[0]
                    while t.startswith('&'):
                        t = t[1:]
                        if t.startswith('mut '):
                            t = t[4:]
                    if fn['name'] in ('eq', 'ne'):
                        r.local = prog.impls.get((fn['trait'], t, fn['name']))
            FnKey._memo[k] = r
        return r

    def self_args(self):
        return self.args

    def __repr__(self):
        return self.fn['path'] + '<' + ','.join(self.args) + '>'


class Subst:
    """replace terms inside a value and re-simplify"""

    def __init__(self, eng, m, atom_rules=None, call_rule=None, renaming=False):
        self.e = eng
        self.renaming = renaming    # only bound elements are given other names: nothing inside loops can change its shape
        self.m = m
        self.memo = {}
        self.call_rule = call_rule
        self.atom_rule = atom_rules

    def __call__(self, v):
        r = self.memo.get(v)
        if r is not None:
            return r
        r = self._go(v)
        self.memo[v] = r
        return r

    def _tup(self, a):
        return tuple(self(x) if isinstance(x, V) else self._tup(x) if isinstance(x, tuple) else x for x in a)

    def _go(self, v):
        if v in self.m:
            return self.m[v]
        k = v.k
        if k in ('c', 'sym', 'fn', 'bot', 'absent', 'bytes', 'elem', 'loopvar', 'fold', 'zst', 'constop', 'constadt', 'uninit'):
            return v
        if k == 'ite':
            a, cs, d = v.a
            sel = self.atom_value(a)
            raw = dict(cs)

            def pick(l):
                if l is BOT:
                    return BOT
                if l.k == 'c':
                    x = raw.get(l.a[1], d)
                    return self(x) if x is not None else BOT
                raise AnalysisError('pick')
            if isinstance(sel, Atom):
                cases = {kk: self(x) for kk, x in cs}
                dd = self(d) if d is not None else None
                return norm(switch(sel, cases, dd))
            if sel.k != 'ite':
                return pick(sel)
            return norm(map_leaves(sel, pick))
        if k == 'fld':
            return self._fld(self(v.a[0]), v.a[1], v.a[2])
        if k == 'seq':
            kind = v.a[0]
            out = []
            for s in v.a[1]:
                if s[0] == 'one':
                    out.append(('one', self(s[1])))
                elif s[0] == 'splice':
                    out.append(('splice', self(s[1])))
                elif self.renaming:
                    out.append(('many', s[1], self(s[2]), self(s[3])))
                else:
                    o, b = self.e.open(s[1], s[3])
                    x = self.e.many(kind, o, self(s[2]), self(b))
                    out.extend(segs_of(x, kind))
            return seq(kind, out)
        if k == 'call':
            args = self._tup(v.a[2])
            return self.e.stdmodel.recall(self.e, v.a[0], v.a[1], args, self.call_rule)
        if k == 'not':
            return not_(self(v.a[0]))
        if k == 'upd' and v.a[1].startswith("('f', "):
            fi, new = int(v.a[1][6:-1]), self(v.a[2])

            def put(l):
                if l.k == 'adt':
                    fs = list(l.a[2])
                    fs[fi] = new
                    return mk('adt', l.a[0], l.a[1], tuple(fs))
                return mk('upd', l, v.a[1], new)
            return norm(map_leaves(self(v.a[0]), put))
        if k == 'at':
            b, ix = self(v.a[0]), self(v.a[1])
            if b is v.a[0] and ix is v.a[1]:
                return v
            if ix.k == 'c' and any(l.k == 'seq' for l in leaves(b)):
                return self.e.stdmodel.at(self.e, b, ix.a[1])
            return self.e.project(b, ('i', ix), State())
        return norm(mk(k, *self._tup(v.a)))

    def _fld(self, base, vi, fi):
        def f(l):
            if l.k == 'adt':
                if vi is not None and l.a[1] != vi:
                    return BOT
                return l.a[2][fi] if fi < len(l.a[2]) else BOT
            if l.k == 'tuple':
                return l.a[0][fi]
            return field_of(l, vi, fi)
        return norm(map_leaves(base, f))

    def atom_value(self, a):
        """value selecting the branch (diagram with constant leaves), or an Atom when unchanged"""
        if self.atom_rule is not None:
            r = self.atom_rule(a, self)
            if r is not None:
                return r
        if not any(isinstance(t, V) for t in a.t):
            return a
        ts = [self(t) if isinstance(t, V) else t for t in a.t]
        if all(x is y for x, y in zip(ts, a.t)):
            return a
        e = self.e
        if a.kind == 'disc':
            def f(l):
                if l.k == 'adt':
                    return cint(l.a[1])
                return switch(atom('disc', l, dom=a.dom), {k: cint(k) for k in a.dom})
            return map_leaves(ts[0], f)
        if a.kind == 'val':
            if a.dom == (0, 1):
                return map_leaves(as_bool(ts[0]), lambda l: cint(1) if l is TRUE else cint(0) if l is FALSE else l)

            # open domain: map each leaf
            return _open_select(ts[0])
        if a.kind == 'eq':
            return map_leaves(e.eq(ts[0], ts[1]), _b2i)
        if a.kind == 'lt':
            return map_leaves(e.binop('Lt', ts[0], ts[1]), _b2i)
        if a.kind == 'empty':
            return map_leaves(e.stdmodel.is_empty_of(e, ts[0]), _b2i)
        if a.kind == 'has' and isinstance(ts[0], V):
            o = e.stdmodel.has_at(e, ts[0], ts[1])[0]
            return e.stdmodel.rebuild(e, o, {0: lambda x: cint(0), 1: lambda x: cint(1)})
        at = atom(a.kind, *ts, dom=a.dom)
        return at


def _b2i(l):
    return cint(1) if l is TRUE else cint(0) if l is FALSE else l


def _open_select(v):
    if v.k == 'c':
        return v
    if v.k != 'ite':
        return atom('val', v)
    # every leaf constant: fine; otherwise keep one opaque leaf per branch
    ls = leaves(v)
    if all(l.k == 'c' or l is BOT for l in ls):
        return v
    return atom('val', v)
