"""C10: reading and writing never panic.

Every function the entry points can reach is summarised (value-flow over its MIR, all paths joined); every place where it
can panic -- unwrap/expect, indexing and slicing, arithmetic and bounds assertions, diverging calls -- carries the
condition under which it does.  The condition has to be unsatisfiable."""
from common import *
from compose import *
from roundtrip import RT, vague, loops_lost

ENTRIES = {'parse_xml': ['xml'], 'parse_xml_file': ['path'], 'to_xml': ['law'], 'write_file': ['law', 'w']}
# library functions that panic for some arguments and are not modelled with the condition
PARTIAL = set('''Vec::swap_remove Vec::insert String::insert String::remove str::split_at Vec::split_off String::split_off
String::insert_str slice::split_at slice::copy_from_slice slice::clone_from_slice slice::chunks slice::chunks_exact slice::windows
slice::swap Vec::drain String::drain String::replace_range Iterator::step_by char::from_digit char::to_digit slice::split_at_mut
Vec::splice RefCell::borrow RefCell::borrow_mut slice::rotate_left slice::rotate_right usize::pow u32::pow u64::pow i32::pow
Iterator::sum Iterator::product str::repeat usize::ilog10 usize::ilog2 u32::ilog10 usize::div_euclid Mutex::lock IndexMut::index_mut
char::from_u32_unchecked slice::get_unchecked Option::unwrap_unchecked process::exit process::abort Iterator::nth_back'''.split())
IGNORED = {'assert:other'}      # null/alignment checks the compiler adds to raw accesses of Box


def sites(ev):
    for x in ev:
        k = x['kind']
        if k in IGNORED:
            continue
        if k.startswith('panic:') or k.startswith('assert:'):
            yield x, k
        elif k.startswith('call:') and k[5:] in PARTIAL:
            yield x, 'call of %s' % k[5:]


def subjects(v):
    """the inputs a test is about"""
    out = set()

    def f(t):
        if t.k in ('fld', 'sym', 'elem', 'at', 'fold') or (t.k == 'call' and t.a[0] == 'hget'):
            out.add(t)
            return False
        return False
    mentions(v, f)
    return out


def paths(v, want=TRUE, limit=200):
    """some path of tests to the leaf `want`"""
    st = [(v, ())]
    seen = set()
    while st and limit:
        x, p = st.pop()
        if x is want:
            return p
        if x.k != 'ite' or x in seen:
            continue
        seen.add(x)
        a, cs, d = x.a
        for kk, y in cs:
            st.append((y, p + ((a, kk),)))
        if d is not None:
            st.append((d, p + ((a, 'other'),)))
    return None


def const_range(r):
    """a range with a constant bound other than 0"""
    return r.k == 'adt' and all(f.k == 'c' for f in r.a[2]) and any(f.a[1] for f in r.a[2])


def aware(a, s):
    """a test that may say something about the characters of s, not only about how many bytes it has"""
    if a.kind == 'empty':
        return False
    for t in a.t:
        if isinstance(t, V) and mentions(t, lambda y: y in subjects(s) or y is s):
            if not lengths(t, s):
                return True
    return False


def lengths(t, s):
    """s occurs in t only below its length"""
    if t is s:
        return False
    if t.k == 'call' and t.a[0] == 'len':
        return True

    def go(a):
        for y in a:
            if isinstance(y, V):
                if not lengths(y, s):
                    return False
            elif isinstance(y, tuple) and not go(y):
                return False
        return True
    return go(t.a)


def is_local(s):
    return s.startswith(CR) or s.startswith('<' + CR)


def judge(x, what, paths=None):
    """(status, text)"""
    pc = x['pc']
    if what.startswith('call of'):
        return 'undecided', 'condition of %s is not modelled' % what
    feas = paths is not None
    p = (paths or globals()['paths'])(pc)
    if p is None and feas:
        return 'ok', ''
    if p is None:
        return ('undecided', 'condition %s' % show(pc)[:200]) if pc is not FALSE else ('ok', '')
    text = 'when ' + '; '.join('%r=%s' % z for z in p)[:600] if p else 'on every path that gets there'
    if any(a.kind in ('exit', 'more') or any(isinstance(t, V) and vague(t) for t in a.t) for a, _ in p):
        return 'undecided', text
    # a test on the same value that the analysis cannot relate to the failing one
    if p:
        last = p[-1][0]
        mine = set()
        for t in last.t:
            if isinstance(t, V):
                mine |= {s for s in subjects(t) if s.k != 'sym'}
    for arg in x.get('args') or ():
        if isinstance(arg, V):
            if vague(arg):
                return 'undecided', text
            if what == 'panic:range' and x.get('of', '').split('::')[-1] in ('str', 'String') and const_range(x['args'][1]) and not any(
                    aware(a, arg) for a, _ in p):
                continue            # the length alone does not say where characters end
            if what in ('panic:index', 'panic:range') and any(a.t and any(isinstance(t, V) and mentions(t, lambda y: y in subjects(arg) and y.k != 'sym') for t in a.t)
                                                              for a, _ in p):
                return 'undecided', text
    return 'bad', text


ELEMENT, NODE = 'xmltree::Element', 'xmltree::XMLNode'


def shapes(el):
    """elements with few children, otherwise unknown"""
    def node(n):
        return mk('adt', NODE, 0, (mk('sym', n),))

    def text(n):
        return mk('adt', NODE, 3, (mk('sym', n),))
    for name, ks in (('no children', []), ('one child element', [node('child')]), ('a text as only child', [text('text')]),
                     ('two child elements', [node('child1'), node('child2')])):
        fs = [mk('fld', el, None, i) for i in range(6)]
        fs[KIDS] = seq('v', [('one', k) for k in ks])
        yield name, mk('adt', ELEMENT, 0, tuple(fs))


def shaped(S, x, a):
    """the condition of a panic, for elements of a few shapes"""
    for el in a:
        if el.k != 'sym' or not el.a[0].startswith('element:'):
            continue
        for name, g in shapes(el):
            try:
                pc = Comp(S, {el: g}, None, {})(x['pc'])
            except AnalysisError:
                continue
            p = paths(pc)
            if p is None or any(z.kind in ('exit', 'more') or any(isinstance(t, V) and vague(t) for t in z.t) for z, _ in p):
                continue
            return 'for an element with %s %s' % (name, 'when ' + '; '.join('%r=%s' % z for z in p)[:500])
    return None


def run(rep, prog):
    R = RT(prog)
    S = R.S
    roots = []
    for ty, how in R.obligations():
        if how == FC:
            continue
        ms = R.types[ty]
        for m in ('parser', 'to_xml_element', 'to_xml_element_with_name'):
            if m in ms:
                roots.append((ms[m], ['element'] if m == 'parser' else ['self'] if m == 'to_xml_element' else ['self', 'name']))
    done = {r for r, _ in roots}
    for ty, ms in sorted(R.types.items()):
        for m in ('parser', 'to_xml_element', 'to_xml_element_with_name'):
            if m in ms and ms[m] not in done:
                done.add(ms[m])
                roots.append((ms[m], ['element'] if m == 'parser' else ['self'] if m == 'to_xml_element' else ['self', 'name']))
    for n, a in ENTRIES.items():
        roots.append((CR + n, a))
    for (tr, ty, m), path in sorted(prog.impls.items()):
        if tr.endswith('io::Write') and ty.startswith(CR):
            roots.append((path, None))
    queue = list(roots)
    seen = {r for r, _ in queue}
    nsites = npan = 0
    external = set()
    while queue:
        path, args = queue.pop(0)
        fn = prog.fns.get(path)
        if fn is None:
            rep.undecided(path, 'entry point is gone')
            continue
        where = prog.loc(fn)
        key = short(path)
        try:
            v, a, pc, ev = S.get(path, args or ['a%d' % i for i in range(fn['body']['argc'])])
        except AnalysisError as ex:
            rep.undecided(key, str(ex))
            continue
        for x in ev:
            if x['kind'].startswith('call:'):
                n = x['kind'][5:]
                if n.startswith('rec:'):
                    n = n[4:]
                if n in prog.fns and n not in seen:
                    seen.add(n)
                    queue.append((n, None))
                elif n not in prog.fns:
                    external.add(n)
        bad = und = None
        for x, what in sites(ev):
            npan += 1
            st, text = judge(x, what)
            at = '%s:%s' % (x['file'], x['line'])
            det = '%s in %s can panic %s' % (what, short(x['fn']), text)
            if st == 'undecided' and not what.startswith('call of'):
                text2 = shaped(S, x, a)
                if text2:
                    st, det = 'bad', '%s in %s can panic %s' % (what, short(x['fn']), text2)
            if st == 'bad' and bad is None:
                bad = (det, at)
            elif st == 'undecided' and und is None:
                und = det + ' at ' + at
        if bad:
            rep.bad(key, *bad)
        elif und:
            rep.undecided(key, und)
        else:
            rep.ok(key, 'no reachable panic (%d call sites)' % len(ev))
    rep.put('functions_summarised', len(S.memo))
    rep.put('functions_inlined', len(S.e.inlined))
    rep.put('panic_sites_reached', npan)
    rep.put('library_calls_taken_as_total', sorted(x for x in external if x not in PARTIAL)[:60])


def short(p):
    return p.replace(CR, '')
