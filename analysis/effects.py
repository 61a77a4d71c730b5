"""C13: the library has no effects beyond its arguments.

Effect analysis over the call graph of the MIR: every function the exported API can reach is scanned for calls and constants
that print, read the environment, the clock, random numbers or other files, start threads or processes, or touch state that
outlives the call.  Opening a file is allowed only on the way from parse_xml_file, with the path it was given."""
from common import *
from mir import *
import re

BAD = [
    (r'^std::io::(stdio::)?_e?print$', 'prints to standard output or error'),
    (r'^std::io::(stdio::)?(stdout|stderr|stdin|read_to_string|copy)$', 'uses the standard streams'),
    (r'std::io::(Stdout|Stderr|Stdin)\b', 'uses the standard streams'),
    (r'^std::env::', 'consults the environment'),
    (r'^std::process::', 'starts or ends a process'),
    (r'^std::(net|os)::|^std::thread::(?!LocalKey|local)', 'uses the network, the operating system or threads'),
    (r'std::time::(Instant|SystemTime)', 'consults the clock'),
    (r'^koyomi::.*(now|today)', 'consults the clock'),
    (r'^(chrono|time|rand|getrandom|libc|log|tracing)::', 'consults the clock, random numbers, the system or a logger'),
    (r'RandomState|std::random', 'uses random numbers'),
    (r'std::panic::(set_hook|take_hook|catch_unwind)', 'changes panic handling'),
    (r'std::sync::atomic::.*(fetch_|store|swap|compare_exchange)', 'changes state that outlives the call'),
    (r'std::thread::LocalKey', 'uses state that outlives the call'),
    (r'std::backtrace::', 'captures a backtrace'),
]
FILE = [(r'std::fs::', 'file access'), (r'std::path::.*::(exists|is_file|is_dir|metadata|read_dir|canonicalize)$', 'file access')]
READS = re.compile(r"^std::fs::(File::open|read|read_to_string|File::metadata|OpenOptions::(new|read|open))$|<(&)?std::fs::File as std::io::Read>::|"
                   r"^std::io::(BufReader|Read|BufRead)")
HASHED = re.compile(r'std::collections::(HashMap|HashSet)(::<[^:]*>)?::(iter|iter_mut|keys|values|values_mut|drain|into_keys|into_values|retain)$|'
                    r'(HashMap|HashSet)<.*> as .*IntoIterator>|hash_(map|set)::\w+<.*as std::iter::Iterator')
ORDERED = re.compile(r'Vec::<.*>::(push|extend|insert|append)$|String::(push|push_str|insert_str)$|Extend<.*>::extend$|::write_fmt$|write_str$|'
                     r'Iterator::(collect|fold|next|last|nth|find|find_map|for_each|position|reduce)$')
SORTS = re.compile(r'::(sort|sort_by|sort_by_key|sort_unstable\w*|min|max|min_by\w*|max_by\w*|sum|product|count|all|any|len)$|BTree|BinaryHeap')
FILE_ENTRY = CR + 'parse_xml_file'


def scan(fn):
    """(kind, text, line) for every effect in the function"""
    for b in bodies(fn):
        for c, ln in constants(b):
            f = c.get('fn')
            if f:
                names = [x for x in (f.get('res'), f['path']) if x]
                for n in names:
                    if is_local(n):
                        continue
                    if READS.search(n):
                        yield 'read', n, ln
                        break
                    hit = next((t for p, t in BAD if re.search(p, n)), None)
                    if hit:
                        yield 'bad', '%s (%s)' % (hit, n), ln
                        break
                    if any(re.search(p, n) for p, _ in FILE):
                        yield 'bad', 'touches files (%s)' % n, ln
                        break
                    if HASHED.search(n):
                        yield 'hash', n, ln
                        break
            if c.get('static'):
                yield 'static', (c['static'], c['ty']), ln


def run(rep, prog):
    exported = [p for p, f in prog.fns.items() if f.get('exported') and f['kind'] in ('Fn', 'AssocFn')]
    impls = [p for p, f in prog.fns.items() if f.get('impl_trait') and f['kind'] == 'AssocFn']
    live = reachable(prog, exported + impls)
    by_trait = impls_called(prog)
    # functions that run on behalf of something else than parse_xml_file
    others = reachable(prog, [p for p in exported + impls if p != FILE_ENTRY])
    ncalls = 0
    ext = set()
    for p in sorted(live):
        fn = prog.fns[p]
        if fn['kind'] == 'Const':
            continue
        key = short(p)
        bad = und = None
        n = 0
        for b in bodies(fn):
            for _, t in calls(b):
                n += 1
                q = callee(t)
                if q and not is_local(q):
                    ext.add(q)
        ncalls += n
        for kind, text, ln in scan(fn):
            at = '%s:%s' % (fn['file'], ln)
            if kind == 'bad':
                bad = bad or ('%s %s' % (key, text), at)
            elif kind == 'read' and p in others:
                bad = bad or ('%s reads a file (%s) although only parse_xml_file may' % (key, text), at)
            elif kind == 'hash' and order_matters(fn):
                bad = bad or ('%s builds its result in the unspecified order of a hash map (%s)' % (key, text), at)
            elif kind == 'hash':
                und = und or 'iterates over a hash map in an unspecified order (%s) at %s' % (text, at)
            elif kind == 'static':
                if static_kind(prog, fn, *text):
                    bad = bad or ('%s keeps state between calls in %s' % (key, short(text[0])), at)
        if fn.get('derived') and not bad and not und:
            continue
        if bad:
            rep.bad(key, *bad)
        elif und:
            rep.undecided(key, und)
        else:
            rep.ok(key, '%d calls' % n)
    rep.put('functions_scanned', len(live))
    rep.put('call_sites', ncalls)
    rep.put('library_functions_called', len(ext))
    rep.put('exported_entry_points', len(exported))


def order_matters(fn):
    """the function collects or appends in iteration order and neither sorts nor only counts"""
    names = {n for b in bodies(fn) for c, _ in constants(b) if c.get('fn') for n in (c['fn'].get('res'), c['fn']['path']) if n}
    return any(ORDERED.search(n) for n in names) and not any(SORTS.search(n) for n in names)


def static_kind(prog, fn, path, ty):
    """whether the static can carry something from one call to the next"""
    f = prog.fns.get(path)
    k = prog.tkey(f['body']['locals'][0]) if f else prog.tkey(ty)
    if prog.tkey(ty).startswith('*') or re.search(r'std::sync::atomic::Atomic|std::cell::(Cell|RefCell|UnsafeCell)|Mutex|RwLock|mpsc', k):
        return True
    if re.search(r'OnceLock|OnceCell', k):
        # filled from what the call was given
        for b in bodies(fn):
            for _, t in calls(b):
                q = callee(t) or ''
                if re.search(r'Once(Lock|Cell)::<T>::set$', q):
                    return True
                if re.search(r'Once(Lock|Cell)::<T>::get_or(_try)?_init$', q) and any(
                        s.get('k') == '=' and s['r']['k'] == 'agg' and s['r'].get('ak') == 'closure' and s['r']['ops'] for bb in b['blocks'] for s in bb['s']):
                    return True
    return False
