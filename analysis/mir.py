"""plain views of the exported MIR: calls, constants, places"""
CR = 'japanese_law_xml_schema::'


def fn_of(o):
    """the function a constant operand names"""
    c = o.get('c') if isinstance(o, dict) else None
    return c.get('fn') if c else None


def callee(t):
    """(path as resolved, declared path) of a call terminator; None for calls through values"""
    fn = fn_of(t['f'])
    if fn is None:
        return None
    return fn.get('res') or fn['path']


def operands_of(r):
    k = r['k']
    if k in ('use', 'cast', 'repeat'):
        return [r['o']] if 'o' in r else []
    if k == 'un':
        return [r['a']]
    if k == 'bin':
        return [r['a'], r['b']]
    if k == 'agg':
        return r['ops']
    return []


def bodies(fn):
    yield fn['body']
    for p in fn['promoted']:
        yield p


def constants(body):
    """every constant operand with its line"""
    for bb in body['blocks']:
        if bb.get('cl'):
            continue
        for s in bb['s']:
            if s.get('k') == '=':
                for o in operands_of(s['r']):
                    if isinstance(o, dict) and 'c' in o:
                        yield o['c'], s.get('ln')
        t = bb['t']
        if t['k'] == 'call':
            for o in t['a'] + [t['f']]:
                if 'c' in o:
                    yield o['c'], t.get('ln')


def calls(body):
    for i, bb in enumerate(body['blocks']):
        if not bb.get('cl') and bb['t']['k'] == 'call':
            yield i, bb['t']


def closures(body):
    for bb in body['blocks']:
        if bb.get('cl'):
            continue
        for s in bb['s']:
            if s.get('k') == '=' and s['r']['k'] == 'agg' and s['r'].get('closure'):
                yield s['r']['closure']


def short(p):
    return p.replace(CR, '')


def is_local(p):
    return p.startswith(CR) or p.startswith('<' + CR) or (p.startswith('<') and CR in p.split(' as ')[0])


def impls_called(prog):
    """declared trait method -> local implementations"""
    r = {}
    for f in prog.fns.values():
        if f.get('impl_trait') and f['kind'] == 'AssocFn':
            r.setdefault(f['impl_trait'] + '::' + f['name'], []).append(f['path'])
    return r


BEHIND = {'parse': 'std::str::FromStr::from_str', 'to_string': 'std::fmt::Display::fmt', 'into': 'std::convert::From::from',
          'try_into': 'std::convert::TryFrom::try_from', 'collect': 'std::iter::FromIterator::from_iter', 'eq': 'std::cmp::PartialEq::eq',
          'ne': 'std::cmp::PartialEq::eq', 'clone': 'std::clone::Clone::clone', 'new_display': 'std::fmt::Display::fmt',
          'new_debug': 'std::fmt::Debug::fmt', 'default': 'std::default::Default::default'}


def behind(prog, f, by_trait):
    """implementations in the crate that a library function calls for the types it is used with"""
    m = BEHIND.get(f['name'])
    n = f.get('res') or f['path']
    if not m or n in prog.fns:
        return
    for a in (f.get('rargs') or []) + (f.get('args') or []):
        if isinstance(a, int):
            k = prog.tkey(a).lstrip('&')
            if CR in k:
                for p in by_trait.get(m, ()):
                    if prog.tkey(prog.fns[p]['impl_self']) == k:
                        yield p


def edges(prog, fn, by_trait):
    """functions of the crate that `fn` can call (closures and function values count as called)"""
    out = set()
    for b in bodies(fn):
        for c, _ in constants(b):
            f = c.get('fn')
            if not f:
                continue
            n = f.get('res') or f['path']
            out |= set(behind(prog, f, by_trait))
            if n in prog.fns:
                out.add(n)
            elif f.get('trait'):
                for p in by_trait.get(f['trait'] + '::' + f['name'], ()):
                    if not prog.fns[p].get('derived'):
                        out.add(p)
        for q in closures(b):
            if q in prog.fns:
                out.add(q)
    return out


def reachable(prog, roots):
    by_trait = impls_called(prog)
    seen, todo = set(), [r for r in roots if r in prog.fns]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += edges(prog, prog.fns[x], by_trait) - seen
    return seen
