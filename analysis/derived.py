"""C17: conversion through serde, equality and copies cover every part of the values.

The code the derive macros generate (or hand-written impls) is summarised like any other: which name every field and variant is
written under (serialize), which name is read as which field or variant (the field visitor), which fields eq looks at and what
clone puts into the copy.  Names and fields have to match up."""
from common import *
from compose import *
from numbers_ import opaque, all_terms
from roundtrip import vague
import re

TAGGED = re.compile(r'^Serializer::serialize_(unit|newtype|tuple|struct)_variant$')
SKIP_OK = re.compile(r'^(Option|Vec|String|str|slice)::')


def run(rep, prog):
    S = Summaries(prog, set())
    ser = {prog.tkey(f['impl_self']): p for p, f in prog.fns.items() if f.get('impl_trait') == 'serde::Serialize' and p.endswith('::serialize') and f['kind'] == 'AssocFn' and f.get('impl_self') is not None}
    de = {prog.tkey(f['impl_self']): p for p, f in prog.fns.items() if f.get('impl_trait') == 'serde::Deserialize' and p.endswith('::deserialize') and f['kind'] == 'AssocFn' and '__Field' not in prog.tkey(f['impl_self'])}
    ns = nf = 0
    for ty in sorted(ser):
        a = prog.adts.get(ty)
        key = ty.replace(CR, '') + ': serde'
        if a is None or ty not in de:
            rep.undecided(key, 'not both written and read')
            continue
        try:
            k = pairing(rep, S, prog, key, ty, a, ser[ty], de[ty])
            if k:
                ns += 1
                nf += k
        except AnalysisError as ex:
            rep.undecided(key, str(ex))
    for p, f in sorted(prog.fns.items()):
        tr = f.get('impl_trait')
        if tr in ('std::cmp::PartialEq', 'std::clone::Clone', 'std::hash::Hash') and p.endswith(('::eq', '::clone', '::hash')) and f.get('impl_self') is not None:
            ty = prog.tkey(f['impl_self'])
            if ty not in prog.adts or '__' in ty:
                continue
            what = 'equality' if p.endswith('::eq') else 'copy' if p.endswith('::clone') else 'hash'
            key = '%s: %s' % (ty.replace(CR, ''), what)
            if f.get('derived'):
                rep.ok(key, 'derived by the compiler over all fields')
                continue
            try:
                if what == 'hash':
                    hashing(rep, prog, key, p, f)
                    continue
                (equality if what == 'equality' else copy_)(rep, S, prog, key, ty, prog.adts[ty], p, f)
            except AnalysisError as ex:
                rep.undecided(key, str(ex))
    rep.put('types_with_serde', ns)
    rep.put('names_paired', nf)


def site(f):
    return '%s:%s' % (f['file'], f['line'])


def reads(S, prog, dep):
    """name -> index of the field or variant it is read as"""
    for p, f in prog.fns.items():
        if p.startswith('%s<%s::__FieldVisitor as ' % (CR, dep.replace(CR, ''))) and p.endswith('::visit_str'):
            v, a, _, _ = S.get(p, ['visitor', 'name'])
            out = {}

            def go(v, nm):
                if v.k == 'ite':
                    at, cs, d = v.a
                    if at.kind == 'val' and at.t[0] is a[1]:
                        for k, x in cs:
                            if nm is None or nm == k:
                                go(x, k)
                        if d is not None and (nm is None or nm not in [k for k, _ in cs]):
                            go(d, nm)
                        return
                    raise AnalysisError('the names are told apart in an unknown way')
                if v.k == 'adt' and v.a[1] == 0 and 'Result' in str(v.a[0]):
                    w = v.a[2][0]
                    if w.k == 'ite':
                        go(w, nm)
                    elif w.k == 'adt':
                        out[nm] = (w.a[1], len(w.a[2]))
                elif v.k == 'adt':
                    out[nm] = (v.a[1], len(v.a[2]))
            go(v, None)
            rest = out.pop(None, None)
            return out, rest
    return None, None


def pairing(rep, S, prog, key, ty, a, sp, dp):
    f = prog.fns[sp]
    if prog.fns[dp].get('derived') is False and not any(q.startswith(CR + '<' + dp.replace(CR, '') + '::__') for q in prog.fns):
        rep.undecided(key, 'read by hand-written code')
        return 0
    v, args, pc, ev = S.get(sp, ['self', 'serializer'])
    me = args[0]
    e = S.e
    names, rest = reads(S, prog, dp)
    at = site(f)
    if any('__SerializeWith' in q or '__DeserializeWith' in q for q in prog.adts if q.startswith(dp) or q.startswith(sp)):
        rep.undecided(key, 'some fields are written or read with functions of their own')
        return 0
    if a['kind'] == 'enum':
        return enum(rep, S, prog, key, a, v, me, names, rest, at)
    fields = a['variants'][0]['fields']
    if not fields:
        rep.ok(key, 'no fields')
        return 0
    evs = [x for x in ev if x['kind'] == 'call:SerializeStruct::serialize_field']
    if not evs:
        if any('serialize_newtype_struct' in x['kind'] or x['kind'] == 'call:Serialize::serialize' for x in ev) and len(fields) == 1:
            rep.ok(key, 'the single field stands for the whole')
            return 1
        rep.undecided(key, 'not written field by field')
        return 0
    if names is None:
        rep.undecided(key, 'no names are read')
        return 0
    fine = lambda at_, sub: cint(0) if at_.kind == 'disc' and at_.t[0].k == 'call' and str(at_.t[0].a[0]).startswith(('Serialize', 'SerializeStruct')) else None
    written, cond = {}, {}
    for x in evs:
        nm, val = x['args'][1], x['args'][2]
        i = None
        for j, fl in enumerate(fields):
            if val is e.fld(me, None, j) or val.k == 'fld' and val.a[0] is me and val.a[2] == j:
                i = j
        if nm.k != 'c':
            rep.undecided(key, 'a name is not constant')
            return 0
        if i is None:
            rep.undecided(key, 'under "%s" %s is written' % (nm.a[1], show(val)[:100]))
            return 0
        written.setdefault(i, []).append(nm.a[1])
        cond[i] = Subst(e, {}, fine)(x['pc'])
    used = {}
    good = 0
    for i, fl in enumerate(fields):
        if i not in written:
            rep.bad(key, 'the field %s is not written' % fl['name'], at)
            return 0
        nm = written[i][0]
        if nm in used:
            rep.bad(key, 'the fields %s and %s are written under the same name "%s"' % (fields[used[nm]]['name'], fl['name'], nm), at)
            return 0
        used[nm] = i
        if nm not in names:
            rep.bad(key, 'the field %s is written as "%s", but no such name is read' % (fl['name'], nm), at)
            return 0
    idx = [names[written[i][0]][0] for i in range(len(fields))]
    if len(set(idx)) != len(idx):
        rep.bad(key, 'two fields are read from the same name', at)
        return 0
    if f.get('derived') and prog.fns[dp].get('derived') and idx != list(range(len(fields))):
        i = next(i for i in range(len(fields)) if idx[i] != i)
        rep.bad(key, 'the field %s is written as "%s", which is read as the field %s' % (fields[i]['name'], written[i][0], fields[idx[i]]['name'] if idx[i] < len(fields) else '?'), at)
        return 0
    for i, fl in enumerate(fields):
        if cond[i] is TRUE:
            good += 1
            continue
        # left out in some cases: what is read then?
        mf = missing(prog, dp, written[i][0])
        left = [x for x in atoms_of(cond[i])]
        tyk = prog.tkey(fl['ty']) if 'ty' in fl else ''
        if mf is True and not tyk.startswith('std::option::Option<'):
            rep.bad(key, 'the field %s is left out in some cases (%s), but reading requires it' % (fl['name'], show(cond[i])[:150]), at)
            return 0
        if len(left) == 1 and left[0].kind in ('disc', 'empty') and mentions(left[0].t[0], lambda t: t is me):
            good += 1
            continue
        rep.undecided(key, 'the field %s is left out in some cases (%s)' % (fl['name'], show(cond[i])[:150]))
        return 0
    rep.ok(key, '%d fields written and read under the same names' % good)
    return good


def missing(prog, dp, name):
    """whether reading asks for the field when it is absent"""
    for p, f in prog.fns.items():
        if p.startswith('%s<%s::__Visitor' % (CR, dep_(dp))) and p.endswith('::visit_map'):
            for b in f['body']['blocks']:
                t = b['t']
                if t['k'] == 'call' and t['f'].get('c', {}).get('fn', {}).get('path', '').endswith('missing_field'):
                    for o in t['a']:
                        c_ = o.get('c')
                        if c_ and name in json.dumps(c_, ensure_ascii=False):
                            return True
            return False
    return None


def dep_(dp):
    return dp.replace(CR, '')


def enum(rep, S, prog, key, a, v, me, names, rest, at):
    vs = a['variants']
    e = S.e
    out = {}
    untagged = {}
    for k, va in enumerate(vs):
        x = Subst(e, {}, lambda at_, sub: cint(k) if at_.kind == 'disc' and at_.t[0] is me else None)(v)
        cs = [t for t in all_terms(x) if t.k == 'call' and TAGGED.match(str(t.a[0]))]
        if not cs:
            if any(t.k == 'call' and re.search(r'(Serialize::serialize|serialize_unit)$', str(t.a[0])) for t in all_terms(x)):
                untagged[k] = tuple(prog.tkey(fl['ty']) for fl in va['fields'])
                continue
            if any(t.k == 'call' and str(t.a[0]).endswith('Error::custom') for t in all_terms(x)):
                rep.bad(key, 'the variant %s cannot be written' % va['name'], at)
                return 0
            rep.undecided(key, 'the variant %s is written in an unknown way' % va['name'])
            return 0
        nm = cs[0].a[2][3]
        if nm.k != 'c':
            rep.undecided(key, 'a name is not constant')
            return 0
        if len(cs[0].a[2]) > 4 and not any(mentions(y, lambda t: t is me) for y in cs[0].a[2][4:]):
            rep.bad(key, 'the content of the variant %s is not written' % va['name'], at)
            return 0
        out[k] = nm.a[1]
    if untagged:
        seen = {}
        for k, t in untagged.items():
            if t in seen:
                rep.bad(key, 'the variants %s and %s are written in the same way' % (vs[seen[t]]['name'], vs[k]['name']), at)
                return 0
            seen[t] = k
        rep.undecided(key, 'the variants are written without their names')
        return 0
    if len(set(out.values())) != len(out):
        rep.bad(key, 'two variants are written under the same name', at)
        return 0
    if names is None:
        rep.undecided(key, 'no names are read')
        return 0
    for k, nm in out.items():
        if nm not in names and rest is not None and rest[0] == k and rest[0] < len(vs):
            continue
        if nm not in names:
            rep.bad(key, 'the variant %s is written as "%s", but no such name is read' % (vs[k]['name'], nm), at)
            return 0
        if names[nm][0] != k:
            rep.bad(key, 'the variant %s is written as "%s", which is read as %s' % (vs[k]['name'], nm, vs[names[nm][0]]['name'] if names[nm][0] < len(vs) else '?'), at)
            return 0
    rep.ok(key, '%d variants written and read under the same names' % len(out))
    return len(out)


def equality(rep, S, prog, key, ty, a, p, f):
    v, args, pc, ev = S.get(p, ['self', 'other'])
    if a['kind'] == 'enum':
        rep.undecided(key, 'compared by hand-written code')
        return
    if vague(v):
        rep.undecided(key, 'the comparison is %s' % show(v)[:150])
        return
    e = S.e
    me, other = args[:2]
    fields = a['variants'][0]['fields']

    def same(eqs):
        """with the pairs of fields set equal or different"""
        def rule(at_, sub):
            if at_.kind == 'eq':
                for i, val in eqs.items():
                    x, y = e.fld(me, None, i), e.fld(other, None, i)
                    if set(map(id, at_.t)) == {id(x), id(y)}:
                        return cint(val)
            return None
        return Subst(e, {}, rule)(v)

    for i, fl in enumerate(fields):
        r = same({i: 0})
        if r is FALSE:
            continue
        x, y = e.fld(me, None, i), e.fld(other, None, i)
        us = [at_ for at_ in atoms_of(r) if any(isinstance(t, V) and (mentions(t, lambda u: u is x) or mentions(t, lambda u: u is y)) for t in at_.t)]
        if unclear(r):
            rep.undecided(key, 'how %s is compared is unclear' % fl['name'])
            return
        whole = [at_ for at_ in atoms_of(r) if any(t is me or t is other for t in at_.t if isinstance(t, V))]
        if whole or any(not lossy(at_, x, y) for at_ in us):
            if fl.get('ty') is not None and prog.tkey(fl['ty']) == 'bool' and not whole and all(t is x or t is y for at_ in us for t in at_.t):
                if bools(e, v, x, y):
                    continue
                rep.bad(key, 'values that differ in %s only can be equal' % fl['name'], site(f))
                return
            rep.undecided(key, 'how %s is compared is unclear' % fl['name'])
            return
        rep.bad(key, 'values that differ in %s only can be equal%s' % (fl['name'], ' (%s)' % show(us[0])[:200] if us else ''), site(f))
        return
    r = Subst(e, {}, lambda at_, sub: cint(1) if at_.kind == 'eq' and any(set(map(id, at_.t)) == {id(e.fld(me, None, i)), id(e.fld(other, None, i))} for i in range(len(fields))) else None)(v)
    r = Subst(e, {other: me})(r)
    if r is FALSE:
        rep.bad(key, 'a value does not equal itself', site(f))
    elif r is not TRUE:
        rep.undecided(key, 'whether a value equals itself is unclear (%s)' % show(r)[:150])
    else:
        rep.ok(key, 'hand-written; every field is compared')


def unclear(r):
    """the result, or a condition, comes out of something not understood"""
    def leafs(x):
        if x.k == 'ite':
            for _, y in x.a[1]:
                yield from leafs(y)
            if x.a[2] is not None:
                yield from leafs(x.a[2])
        else:
            yield x
    return any(l.k != 'c' for l in leafs(r)) or any(at_.kind not in ('eq', 'val', 'empty', 'disc', 'lt', 'le') for at_ in atoms_of(r))


LOSSY = re.compile(r'^(len|trim|trim_start|trim_end|str_trim|to_lowercase|to_uppercase|is_empty|empty|first|last)$|::(trim|trim_start|trim_end|to_lowercase|to_uppercase|len|is_empty|first|last|eq_ignore_ascii_case)$')


def lossy(at_, x, y):
    """the atom sees x and y only through functions that forget something"""
    if at_.kind in ('empty', 'disc') and not (at_.kind == 'disc' and False):
        return all(t is x or t is y for t in at_.t if isinstance(t, V))

    def go(t):
        if t is x or t is y:
            return False
        if not isinstance(t, V):
            return True
        if t.k == 'call' and LOSSY.search(str(t.a[0])):
            return True
        if t.k == 'call' or t.k == 'fld' or t.k in ('adt', 'tuple'):
            return all(go(u) for u in parts(t))
        return not (mentions(t, lambda u: u is x) or mentions(t, lambda u: u is y))
    return all(go(t) for t in at_.t)


def parts(t):
    for p in t.a:
        if isinstance(p, V):
            yield p
        elif isinstance(p, (tuple, list)):
            for q in p:
                if isinstance(q, V):
                    yield q


def bools(e, v, x, y):
    """v is false whenever the two bools differ"""
    for b in (0, 1):
        r = Subst(e, {}, lambda at_, sub: cint(b) if at_.kind == 'val' and at_.t[0] is x else cint(1 - b) if at_.kind == 'val' and at_.t[0] is y else cint(0) if at_.kind == 'eq' and set(map(id, at_.t)) == {id(x), id(y)} else None)(v)
        if r is not FALSE:
            return False
    return True


def hashing(rep, prog, key, p, f):
    """equal values are hashed alike: only the value goes in"""
    for b in f['body']['blocks']:
        for st in b['s']:
            js = json.dumps(st)
            if 'PointerExpose' in js or 'expose' in js.lower():
                rep.bad(key, 'the address of the value is hashed', site(f))
                return
        t = b['t']
        if t['k'] == 'call':
            nm = str((t['f'].get('c') or {}).get('fn', {}).get('path', ''))
            if re.search(r'time::|thread::|RandomState|std::ptr|fmt::Pointer|rand::', nm):
                rep.bad(key, 'hashes something other than the value (%s)' % nm, site(f))
                return
    rep.ok(key, 'hand-written; nothing but the value goes in')


def copy_(rep, S, prog, key, ty, a, p, f):
    v, args, pc, ev = S.get(p, ['self'])
    me = args[0]
    if v is me:
        rep.ok(key, 'the value itself')
        return
    if a['kind'] == 'enum':
        want = switch(atom('disc', me, dom=tuple(range(len(a['variants'])))), {k: mk('adt', ty, k, tuple(S.e.fld(me, k, j) for j in range(len(x['fields'])))) for k, x in enumerate(a['variants'])})
    else:
        want = mk('adt', ty, 0, tuple(S.e.fld(me, None, j) for j in range(len(a['variants'][0]['fields']))))
    P = Prover(S.e)
    if P.eq(v, want):
        rep.ok(key, 'hand-written; every field is copied')
    elif vague(v) or opaque(S.e, v):
        rep.undecided(key, 'the copy is %s' % show(v)[:150])
    else:
        q, x, y, facts = P.fail
        rep.bad(key, 'the copy has %s in place of %s (at %s)' % (show(x)[:150], show(y)[:150], q), site(f))
