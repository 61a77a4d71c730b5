"""C11: strings and files give the same laws and the same XML, and failures are reported.

The four entry points are summarised as terms over the library calls they make (opening and reading the file, parsing XML,
writing an element), with the reader and the writer of Law as boundary.  The terms are compared with each other and with what
the entry points are to do; the sink behind the string form is summarised with its state before and after."""
from common import *
from compose import *
from engine import State
from numbers_ import opaque, all_terms
from roundtrip import vague
import re
from stdmodel import okv, errv

WRITE = re.compile(r'^Element::(write|write_with_config)$')
READ_ALL = re.compile(r'^(Read::read_to_end|Read::read_to_string|fs::read|fs::read_to_string|std::fs::read|std::fs::read_to_string)$')
PARTIAL = re.compile(r'^Read::(read|take|read_exact|bytes)$')
OPEN = re.compile(r'^(File::open|fs::read|fs::read_to_string|std::fs::read|std::fs::read_to_string|OpenOptions::open)$')
BUFFERED = re.compile(r'^(BufReader|BufWriter|LineWriter)::(new|with_capacity)$')
CHANGED = re.compile(r'(^|::)(trim\w*|replace\w*|strip_\w+|to_\w*case|lines|chars|split\w*|retain|filter|truncate|pop|drain)$')
CHANGED_IN = re.compile(CHANGED.pattern + r'|(^|::)from_utf8_lossy(_owned)?$')
MUST = re.compile(r'^(Element::(parse|parse_with_config|write|write_with_config)|File::open|Read::read_to_end|Read::read_to_string|fs::read|std::fs::read|fs::read_to_string|'
                  r'str::from_utf8|String::from_utf8|from_utf8|.*Parser>::parser)$')


def run(rep, prog):
    bd = {p for p, f in prog.fns.items() if str(f.get('impl_trait', '')).endswith(('parser::Parser', 'to_xml::ToXmlElement', 'to_xml::ToXmlElementWithName'))
          and p.rsplit('::', 1)[-1] in ('parser', 'to_xml_element', 'to_xml_element_with_name')}
    S = Summaries(prog, bd)
    got = {}
    for name, args in (('parse_xml', ['xml']), ('parse_xml_file', ['path']), ('to_xml', ['law']), ('write_file', ['law', 'w'])):
        try:
            if CR + name not in prog.fns:
                rep.undecided(name, 'function missing')
                continue
            v, a, pc, ev = S.get(CR + name, args)
            got[name] = (expanded(S.e, v), a, pc, ev)
        except AnalysisError as ex:
            rep.undecided(name, str(ex))
    for name in got:
        attempt(rep, name + ': failures are reported', lambda: failures(rep, S.e, prog, name, got[name]))
    if 'parse_xml' in got:
        attempt(rep, 'parse_xml: result', lambda: parse(rep, S.e, prog, got['parse_xml']))
    if 'parse_xml_file' in got and 'parse_xml' in got:
        attempt(rep, 'parse_xml_file: result', lambda: parse_file(rep, S.e, prog, got['parse_xml_file'], got['parse_xml']))
    if 'to_xml' in got and 'write_file' in got:
        attempt(rep, 'to_xml and write_file', lambda: both(rep, S.e, prog, got['to_xml'], got['write_file']))
        attempt(rep, 'to_xml: result', lambda: text(rep, S.e, prog, got['to_xml']))
        attempt(rep, 'write_file: result', lambda: sink(rep, S.e, prog, got['write_file']))
    for p, f in sorted(prog.fns.items()):
        if f.get('impl_trait') == 'std::io::Write' and p.endswith(('>::write', '>::write_all', '>::write_str')):
            attempt(rep, short(p), lambda: sink_impl(rep, S.e, prog, p))


def expanded(e, v):
    """results handed on unchanged, as their two cases"""
    def f(l):
        if l.k == 'call' and MUST.match(str(l.a[0])):
            return switch(atom('disc', l, dom=(0, 1)), {0: okv(e.fld(l, 0, 0)), 1: errv(ERR)})
        return l
    return norm(map_leaves(v, f))


def short(p):
    return p.replace(CR, '')


def attempt(rep, key, f):
    try:
        f()
    except AnalysisError as ex:
        rep.undecided(key, str(ex))


def where(prog, p):
    f = prog.fns[p]
    return '%s:%s' % (f['file'], f['line'])


def calls_of(v, rx):
    return {t for t in all_terms(v) if t.k == 'call' and rx.match(str(t.a[0]))}


def is_err(l):
    return l is ERR or l.k == 'adt' and 'Result' in str(l.a[0]) and l.a[1] == 1


def paths(v, facts=()):
    if v.k == 'ite':
        a, cs, d = v.a
        for k, x in cs:
            yield from paths(x, facts + ((a, k),))
        if d is not None:
            yield from paths(d, facts + ((a, OTHER),))
    else:
        yield v, facts


def failures(rep, e, prog, name, s):
    """every failing step makes the call fail"""
    v, args, pc, ev = s
    key = name + ': failures are reported'
    n = 0
    seen = set()
    for l, facts in paths(v):
        for a, k in facts:
            if a.kind == 'disc' and a.t[0].k == 'call' and MUST.match(str(a.t[0].a[0])):
                seen.add(a.t[0])
                n += 1
                if k == 1 and not is_err(l):
                    rep.bad(key, 'although %s fails, %s succeeds with %s' % (show(a.t[0])[:120], name, show(l)[:200]), where(prog, CR + name))
                    return
    for x in ev:
        r = x.get('result')
        if r is not None and isinstance(r, V) and r.k == 'call' and MUST.match(str(r.a[0])) and r not in seen:
            if any(l.k == 'adt' and l.a[1] == 0 and mentions(l, lambda t: t is r or t.k == 'callout' and t.a[0] == r.a[0]) for l, _ in paths(v)):
                rep.bad(key, 'a failure of %s is turned into a success' % show(r)[:200], '%s:%s' % (x['file'], x.get('line')))
            elif mentions(v, lambda t: t is r):
                rep.undecided(key, 'the result of %s is used in an unknown way' % r.a[0])
            else:
                rep.bad(key, 'the result of %s is ignored: its failure is not reported' % show(r)[:200], '%s:%s' % (x['file'], x.get('line')))
            return
    if n == 0:
        rep.undecided(key, 'no step that can fail was recognised')
        return
    rep.ok(key, '%d failing steps on the paths of %s' % (n, name))


def through(e, v, f):
    """v with calls rewritten bottom-up"""
    class R(Subst):
        def _go(self, x):
            r = Subst._go(self, x)
            y = f(r)
            return r if y is None else y
    return R(e, {})(v)


def parse(rep, e, prog, s):
    v, args, pc, ev = s
    ps = calls_of(v, re.compile('^Element::(parse|parse_with_config)$'))
    key = 'parse_xml: result'
    if not ps:
        rep.undecided(key, 'the XML parser is not called in a known way')
        return
    for p in ps:
        if p.a[2][0] is not args[0]:
            if mentions(p.a[2][0], lambda t: t is args[0]) and not any(t.k in ('call', 'callout') and CHANGED_IN.search(str(t.a[0])) for t in all_terms(p.a[2][0])):
                rep.undecided(key, 'the document is prepared by %s' % show(p.a[2][0])[:200])
            else:
                rep.bad(key, 'what is parsed is %s in place of the document' % show(p.a[2][0])[:200], where(prog, CR + 'parse_xml'))
            return
    lawful(rep, e, prog, key, v, 'parse_xml')


def lawful(rep, e, prog, key, v, name):
    oks = [l for l, _ in paths(v) if not is_err(l)]
    for l in oks:
        x = l.a[2][0] if l.k == 'adt' else l
        y = x
        while y.k in ('fld',):
            y = y.a[0]
        if y.k == 'call' and str(y.a[0]).endswith('Law as parser::Parser>::parser'):
            d = y.a[2][0]
            while d.k == 'fld':
                d = d.a[0]
            if d.k == 'call' and str(d.a[0]).startswith('Element::parse'):
                continue
            rep.undecided(key, 'the law is read from %s' % show(y)[:200])
            return
        if mentions(x, lambda t: t.k == 'call' and str(t.a[0]).endswith('Law as parser::Parser>::parser')) and x.k in ('upd', 'adt') and not vague(x):
            rep.bad(key, 'the result is %s in place of the law read from the document' % show(x)[:300], where(prog, CR + name))
        else:
            rep.undecided(key, 'the result is %s' % show(x)[:200])
        return
    rep.ok(key, 'the result of the reader of Law for the parsed document, %d successful paths' % len(oks))


def parse_file(rep, e, prog, s, t):
    v, args, pc, ev = s
    key = 'parse_xml_file: result'
    at = where(prog, CR + 'parse_xml_file')
    for o in calls_of(v, OPEN):
        p = o.a[2][-1]
        while p.k == 'call' and re.match('^(Path::new|PathBuf::from|to_string|convert|as_ref|String::from)$', str(p.a[0])):
            p = p.a[2][0]
        if p is not args[0]:
            if not opaque(e, p) and not vague(p) and not mentions(p, lambda t: t.k == 'call' and not CHANGED_IN.search(str(t.a[0]))):
                rep.bad(key, 'the file opened is %s in place of the given path' % show(p)[:200], at)
            else:
                rep.undecided(key, 'the file opened is %s' % show(p)[:200])
            return
    part = calls_of(v, PARTIAL)
    if part and not any(x.k == 'call' and x.a[0] in ('iterated',) for x in all_terms(v)):
        rep.bad(key, 'only a part of the file is read: %s' % show(sorted(part, key=show)[0])[:200], at)
        return
    bytes_ = t[1][0]

    found = []

    def f(x):
        if x.k == 'callout' and READ_ALL.match(str(x.a[0])):
            init = x.a[3][-1]
            found.append(init)
            return bytes_
        if x.k == 'fld' and x.a[0].k == 'call' and re.match('^(std::)?fs::read(_to_string)?$', str(x.a[0].a[0])):
            found.append(None)
            return bytes_
        if x.k == 'call' and str(x.a[0]).startswith('Element::parse') and reader(x.a[2][0]):
            found.append(None)
            return mk('call', x.a[0], t_targs(t[0], x), (bytes_,) + x.a[2][1:])
        if x.k == 'call' and x.a[0] in ('as_bytes', 'as_slice', 'deref', 'as_ref', 'String::as_bytes', 'str::as_bytes') and x.a[2][0] is bytes_:
            return bytes_
        return None
    through(e, v, f)
    if not found:
        rep.undecided(key, 'the reading of the file was not recognised')
        return
    for i in found:
        if i is not None and not (i.k == 'seq' and not i.a[1] or i.k == 'c' and i.a[1] == ''):
            rep.bad(key, 'the content of the file is added to %s' % show(i)[:200], at)
            return
    # the part after reading
    fine = lambda a, sub: cint(0) if a.kind == 'disc' and a.t[0].k == 'call' and (OPEN.match(str(a.t[0].a[0])) or READ_ALL.match(str(a.t[0].a[0]))) else None
    w = through(e, Subst(e, {}, fine)(v), f)
    P = Prover(e)
    if P.eq(w, t[0]):
        rep.ok(key, 'the bytes of the file at the path are handed to the same steps as in parse_xml (%d comparisons)' % P.n)
    elif vague(w) or strange(w) or not calls_of(w, re.compile('^Element::parse')):
        rep.undecided(key, 'cannot compare %s with %s' % (show(w)[:150], show(t[0])[:150]))
    else:
        p, x, y, facts = P.fail
        rep.bad(key, 'for a file the result is %s, for the same bytes %s (case %s)' % (show(x)[:200], show(y)[:200], describe(facts)[:200]), at)


def strange(w):
    """calls the comparison knows nothing about"""
    return any(t.k in ('call', 'callout') and not (MUST.match(str(t.a[0])) or OPEN.match(str(t.a[0])) or READ_ALL.match(str(t.a[0])) or CHANGED_IN.search(str(t.a[0])) or str(t.a[0]).endswith('to_xml_element')) for t in all_terms(w))


def t_targs(v, x):
    for t in all_terms(v):
        if t.k == 'call' and t.a[0] == x.a[0]:
            return t.a[1]
    return x.a[1]


def reader(x):
    while True:
        if x.k == 'fld':
            x = x.a[0]
        elif x.k == 'call' and BUFFERED.match(str(x.a[0])):
            x = x.a[2][-1]
        else:
            break
    return x.k == 'call' and bool(re.match('^File::open$', str(x.a[0])))


def writes(v, ev):
    out = []
    for x in ev:
        r = x.get('result')
        if isinstance(r, V) and r.k == 'call' and WRITE.match(str(r.a[0])) and r not in out:
            out.append(r)
    return out


def config(r):
    return r.a[2][2] if len(r.a[2]) > 2 else mk('call', 'EmitterConfig::new', (), ())


def both(rep, e, prog, a, b):
    key = 'to_xml and write_file'
    wa, wb = writes(a[0], a[3]), writes(b[0], b[3])
    if len(wa) != 1 or len(wb) != 1:
        if len(wa) == 1 and not wb:
            # through the string form
            if any(isinstance(x.get('result'), V) and str(x.get('kind', '')).endswith('::to_xml') for x in b[3]):
                rep.undecided(key, 'write_file uses to_xml')
                return
        rep.undecided(key, 'the element is written %d and %d times' % (len(wa), len(wb)))
        return
    ren = Subst(e, {a[1][0]: b[1][0]})
    x, y = ren(wa[0].a[2][0]), wb[0].a[2][0]
    for nm, t in (('to_xml', x), ('write_file', y)):
        if not (t.k == 'call' and str(t.a[0]).endswith('Law as to_xml::ToXmlElement>::to_xml_element') and t.a[2][0] is b[1][0]):
            if mentions(t, lambda u: u is b[1][0]) and (strange(t) and t.k != 'upd' or vague(t)):
                rep.undecided(key, 'the element %s writes is %s' % (nm, show(t)[:200]))
            else:
                rep.bad(key, 'the element %s writes is %s in place of the element of the law' % (nm, show(t)[:200]), where(prog, CR + nm))
            return
    ca, cb = ren(config(wa[0])), config(wb[0])
    for c_ in (ca, cb):
        for t in all_terms(c_):
            if t.k == 'call' and str(t.a[0]).endswith('perform_escaping') and t.a[2][1] is FALSE:
                rep.bad(key, 'markup characters in texts are written without escaping', where(prog, CR + 'to_xml'))
                return
    if ca is not cb:
        if settings(ca) is None or settings(cb) is None:
            rep.undecided(key, 'cannot compare the settings %s and %s' % (show(ca)[:150], show(cb)[:150]))
        elif settings(ca) != settings(cb):
            rep.bad(key, 'the string is written with the settings %s, the file with %s' % (show(ca)[:150], show(cb)[:150]), where(prog, CR + 'write_file'))
        else:
            rep.ok(key, 'same element, same settings')
        return
    rep.ok(key, 'both write the element of the law with the settings %s' % show(ca)[:150])


def settings(x):
    out = {}
    while True:
        if x.k == 'call' and re.match('^EmitterConfig::(new|default)$', str(x.a[0])) or x.k == 'call' and x.a[0] == 'default':
            return out
        if x.k == 'call' and str(x.a[0]).startswith('EmitterConfig::') and len(x.a[2]) == 2:
            out.setdefault(x.a[0], x.a[2][1])
            x = x.a[2][0]
            continue
        return None


def text(rep, e, prog, s):
    """the string is what was written, from its beginning"""
    v, args, pc, ev = s
    key = 'to_xml: result'
    at = where(prog, CR + 'to_xml')
    ws = writes(v, ev)
    if len(ws) != 1:
        rep.undecided(key, 'the element is written %d times' % len(ws))
        return
    init = ws[0].a[2][1]
    empty = lambda x: x.k == 'c' and x.a == ('s', '') or x.k == 'seq' and not x.a[1] or x.k == 'adt' and len(x.a[2]) == 1 and empty(x.a[2][0])
    wrap = init
    while wrap.k == 'call' and BUFFERED.match(str(wrap.a[0])):
        wrap = wrap.a[2][-1]
    n = 0
    for l, facts in paths(v):
        if is_err(l):
            continue
        n += 1
        x = l.a[2][0] if l.k == 'adt' else l
        y = x
        while y.k == 'fld' or y.k == 'call' and re.match(r'^(str::from_utf8|String::from_utf8|from_utf8|String::from_utf8_lossy|to_string|into_inner|convert|String::from_utf8_unchecked)$', str(y.a[0])):
            y = y.a[0] if y.k == 'fld' else y.a[2][0]
        if y.k == 'callout' and WRITE.match(str(y.a[0])):
            continue
        touched = any(t.k in ('call', 'callout') and CHANGED.search(str(t.a[0])) for t in all_terms(x)) or x.k == 'seq' or x.k == 'c'
        if touched and not vague(x):
            rep.bad(key, 'the string is %s in place of what was written' % show(x)[:300], at)
        else:
            rep.undecided(key, 'the string is %s' % show(x)[:200])
        return
    if not empty(wrap):
        if wrap.k in ('c', 'seq', 'adt') and not opaque(e, wrap):
            rep.bad(key, 'the string already holds %s before writing' % show(wrap)[:200], at)
        elif not (wrap.k == 'call' and re.match(r'^(String|Vec)::(new|with_capacity)|Cursor::new$', str(wrap.a[0]))):
            rep.undecided(key, 'the string starts as %s' % show(wrap)[:200])
        else:
            rep.ok(key, 'what was written')
        return
    rep.ok(key, 'the string is what was written to an empty one, %d successful paths' % n)


def sink(rep, e, prog, s):
    """the element goes to the given writer, and nothing is left in a buffer"""
    v, args, pc, ev = s
    key = 'write_file: result'
    at = where(prog, CR + 'write_file')
    ws = writes(v, ev)
    if len(ws) != 1:
        rep.undecided(key, 'the element is written %d times' % len(ws))
        return
    w = ws[0].a[2][1]
    buffered = False
    while w.k == 'call' and BUFFERED.match(str(w.a[0])):
        buffered, w = True, w.a[2][-1]
    if w is not args[1]:
        out = [x for x in ev if isinstance(x.get('result'), V) and x['result'].k == 'call' and re.search(r'(^|::)(write|write_all|write_fmt)$', str(x['result'].a[0])) and x['result'].a[2][0] is args[1]]
        if len(out) == 1:
            r = out[0]['result']
            y = r.a[2][1]
            while y.k == 'fld' or y.k == 'call' and re.match(r'^(str::as_bytes|String::as_bytes|as_bytes|as_ref|deref|String::from_utf8|str::from_utf8|to_string)$', str(y.a[0])):
                y = y.a[0] if y.k == 'fld' else y.a[2][0]
            if not (y.k == 'callout' and WRITE.match(str(y.a[0]))):
                if strange(y):
                    rep.undecided(key, 'what is written is %s' % show(y)[:200])
                else:
                    rep.bad(key, 'what is written is %s in place of the XML of the law' % show(y)[:200], at)
            elif str(r.a[0]).endswith('::write'):
                rep.bad(key, 'a single call of write may write only a part of the XML', at)
            elif not any(a.kind == 'disc' and a.t[0] is r for _, fs in paths(v) for a, _ in fs):
                rep.bad(key, 'a failure of the writer is not reported', at)
            else:
                rep.ok(key, 'the XML of the law goes to the given writer')
            return
        rep.undecided(key, 'the element is written to %s' % show(w)[:200])
        return
    if buffered:
        fl = [x for x in ev if isinstance(x.get('result'), V) and x['result'].k == 'call' and re.search(r'(^|::)(flush|into_inner)$', str(x['result'].a[0]))]
        if not any(mentions(v, lambda t: t is x['result']) or any(a.kind == 'disc' and a.t[0] is x['result'] for _, fs in paths(v) for a, _ in fs) for x in fl):
            rep.bad(key, 'the writer is buffered, but a failure of writing out the buffer is not reported', at)
            return
    for l, facts in paths(v):
        if is_err(l):
            continue
        if not any(a.kind == 'disc' and a.t[0] is ws[0] and k == 0 for a, k in facts) and not mentions(l, lambda t: t is ws[0]):
            rep.bad(key, 'success is reported although nothing was written (case %s)' % describe(dict(facts))[:200], at)
            return
    rep.ok(key, 'the element of the law goes to the given writer')


def sink_impl(rep, e, prog, p):
    """a writer of the crate keeps everything it accepts"""
    f = prog.fns[p]
    key = short(p)
    st = State()
    st['self'] = mk('sym', 'before')
    buf = mk('sym', 'buf')
    v, st2, pc = e.run_fn(p, [mk('ref', 'self', ()), buf], st=st)
    after = e.full_deref(st2['self'], st2)
    at = '%s:%s' % (f['file'], f['line'])
    n = 0

    def same_text(x):
        while x.k == 'fld' and x.a[0].k == 'call':
            x = x.a[0]
        return x.k == 'call' and re.match(r'^(str::from_utf8|String::from_utf8|from_utf8|String::from_utf8_lossy|str::from_utf8_unchecked|to_string|convert|to_vec)$', str(x.a[0])) and same_text(x.a[2][0]) or x is buf

    for facts, r, s in together(v, after):
        if is_err(r):
            continue
        n += 1
        r = Subst(e, {}, lambda a, sub: cint(facts[a]) if a in facts and isinstance(facts[a], int) else None)(r)
        if not one_case(rep, key, at, p, facts, r, s, same_text):
            return
    rep.ok(key, 'everything accepted is appended unchanged (%d successful cases)' % n)


def together(v, w):
    for r, f in paths(v):
        if r is BOT:
            continue
        known = dict(f)
        for s, g in paths(w):
            facts = dict(known)
            if s is not BOT and all(facts.setdefault(a, k) == k for a, k in g):
                yield facts, r, s


def one_case(rep, key, at, p, facts, r, s, same_text):
    if s.k == 'upd' and s.a[0].k == 'sym':
        new = s.a[2]
    elif s.k == 'adt' and len(s.a[2]) == 1:
        new = s.a[2][0]
    else:
        new = s
    if new is mk('sym', 'before'):
        if any(a.kind == 'empty' and k == 1 for a, k in facts.items()):
            return True
        rep.bad(key, 'writing succeeds, but what was written is not kept (case %s)' % describe(facts)[:200], at)
        return False
    sg = new.a[1] if new.k == 'seq' else ()
    if len(sg) == 2 and all(x[0] == 'splice' for x in sg) and sg[0][1].k in ('fld', 'sym') and same_text(sg[1][1]):
        cnt = r.a[2][0] if r.k == 'adt' and r.a[2] else None
        if cnt is not None and cnt.k == 'call' and cnt.a[0] == 'len' and same_text(cnt.a[2][0]) or p.endswith('write_all'):
            return True
        rep.undecided(key, 'the number of bytes written is %s' % (cnt and show(cnt)[:150]))
        return False
    if any(t.k in ('call', 'callout') and CHANGED.search(str(t.a[0])) for t in all_terms(new)) or any(x[0] == 'splice' and x[1].k == 'c' for x in sg) or sg and same_text(sg[0][1]):
        rep.bad(key, 'the state after writing is %s: what was written is not added as it is (case %s)' % (show(new)[:200], describe(facts)[:200]), at)
    else:
        rep.undecided(key, 'the state after writing is %s' % show(new)[:200])
    return False
