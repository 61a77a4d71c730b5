"""Transfer functions for the library callees the crate uses (and their usual replacements).

Two tables: MODELS are called during the analysis (they may change the state and the path
condition); PURE re-evaluates a pure library operation when its arguments become known
(summary application)."""
import re
from domain import *
import domain

OPT = 'std::option::Option'
RES = 'std::result::Result'
CF = 'std::ops::ControlFlow'
MODELS = {}
PURE = {}


def some(x):
    return mk('adt', OPT, 1, (x,))


NONE = mk('adt', OPT, 0, ())


def okv(x):
    return mk('adt', RES, 0, (x,))


def errv(x):
    return mk('adt', RES, 1, (x,))


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def pure(name):
    def d(f):
        PURE[name] = f
        return f
    return d


def call(name, targs, *args):
    return mk('call', name, tuple(targs), tuple(args))


def fd(ctx, v):
    return ctx.e.full_deref(v, ctx.st)


def dist(f, *args):
    """apply f to leaves of the arguments"""
    n = 1
    for a in args:
        if a.k == 'ite':
            n *= len(leaves(a))
    if n > 400:
        return f(*args)

    def go(i, acc):
        if i == len(args):
            return f(*acc)
        return map_leaves(args[i], lambda l: go(i + 1, acc + [l]))
    return norm_(go(0, []))


def norm_(v):
    import engine
    return engine.norm(v)


def apply(e, name, targs, args):
    f = PURE.get(name)
    if f is None:
        return dist(lambda *a: mk('call', name, targs, tuple(a)), *args)
    return f(e, targs, *args)


def recall(e, name, targs, args, rule=None):
    if rule is not None:
        def g(*a):
            r = rule(e, name, targs, a)
            if r is not None:
                return r
            f = PURE.get(name)
            if f is not None:
                return f(e, targs, *a)
            return mk('call', name, targs, tuple(a))
        return dist(g, *args)
    return apply(e, name, targs, args)


# ------------------------------------------------------------------ options and results

def opt_disc(t):
    return atom('disc', t, dom=(0, 1))


def is_var(v, path, var):
    """boolean diagram: v is variant `var` of a two-variant type"""
    def f(l):
        if l.k == 'adt':
            return TRUE if l.a[1] == var else FALSE
        return switch(opt_disc(l), {var: TRUE, 1 - var: FALSE})
    return map_leaves(v, f)


def payload(e, v, var):
    def f(l):
        if l.k == 'adt':
            return l.a[2][0] if l.a[1] == var and l.a[2] else BOT
        return e.fld(l, var, 0)
    return norm_(map_leaves(v, f))


def rebuild(e, v, cases):
    """cases: {variant: fn(payload)->value}; leafwise"""
    def f(l):
        if l.k == 'adt':
            x = l.a[2][0] if l.a[2] else None
            return cases[l.a[1]](x)
        return switch(opt_disc(l), {k: g(e.fld(l, k, 0)) for k, g in cases.items()})
    return map_leaves(v, f)


def kind_of_self(ctx, v):
    a = ctx.key.args[0] if ctx.key.args else ''
    a = a.lstrip('&')
    if a.startswith('mut '):
        a = a[4:]
    if ctx.key.fn.get('trait') is None:
        p = ctx.key.fn['path']
        return OPT if 'option::Option' in p else RES
    if a.startswith(OPT):
        return OPT
    if a.startswith(RES):
        return RES
    if a.startswith(CF):
        return CF
    for l in leaves(v):
        if l.k == 'adt':
            return l.a[0]
    return RES


@model('Try::branch')
def m_branch(ctx, v):
    v = fd(ctx, v)
    e = ctx.e
    if kind_of_self(ctx, v) == OPT:
        return rebuild(e, v, {1: lambda x: mk('adt', CF, 0, (x,)), 0: lambda x: mk('adt', CF, 1, (NONE,))})
    return rebuild(e, v, {0: lambda x: mk('adt', CF, 0, (x,)), 1: lambda x: mk('adt', CF, 1, (errv(err_of(ctx, ctx.key.args[0], x)),))})


@model('FromResidual::from_residual')
def m_residual(ctx, v):
    v = fd(ctx, v)
    a0, a1 = ctx.key.args[0], ctx.key.args[1] if len(ctx.key.args) > 1 else ''
    if a0.startswith(OPT):
        return NONE

    def tail(s):
        # error type of Result<T,E>
        d = 0
        s = s[s.index('<') + 1:-1] if '<' in s else s
        for i, ch in enumerate(s):
            if ch in '<([':
                d += 1
            elif ch in '>)]':
                d -= 1
            elif ch == ',' and d == 0:
                return s[i + 1:]
        return s
    same = tail(a0) == tail(a1)

    def f(l):
        if l.k == 'adt' and l.a[0] == RES:
            x = l.a[2][0]
        else:
            x = ctx.e.fld(l, 1, 0)
        if tail(a0) == ctx.e.err_type:
            return errv(mk('sym', 'ERR'))
        return errv(x if same else call('From::from', (tail(a0), tail(a1)), x))
    return map_leaves(v, f)


@model('Try::from_output')
def m_from_output(ctx, v):
    return okv(v) if ctx.key.args[0].startswith(RES) else some(v)


def err_of(ctx, ty, x):
    """values of the crate's error type are not distinguished"""
    return mk('sym', 'ERR') if ctx.e.err_type in ty.rsplit(',', 1)[-1] else x


def sub_site(site, tag):
    import engine
    s = engine.Site()
    s.fr, s.bb, s.line, s.dty = site.fr, site.bb, site.line, site.dty
    s.fid = site.fid + '.' + tag
    return s


def call_when(ctx, cond, f, args, tag='f'):
    """call f(args) on the paths where cond holds; returns its value (meaningful there only)"""
    if cond is FALSE or cond is BOT:
        return BOT
    e = ctx.e
    p1 = and_(ctx.pc, cond)
    if p1 is FALSE:
        return BOT
    r, st1, p2 = e.call_value(f, args, p1, ctx.st, sub_site(ctx.site, tag))
    p0 = and_(ctx.pc, not_(cond))
    if p0 is FALSE:
        ctx.st, ctx.pc = st1, p2
        return r
    if p2 is FALSE:
        ctx.pc = p0
        return BOT
    if p2 is p1 and same_state(st1, ctx.st):
        return r
    ctx.pc, ctx.st = e.merge_states([(p2, st1), (p0, ctx.st)], None, None)
    return r


def same_state(a, b):
    if a is b:
        return True
    for k, v in b.items():
        if a.get(k) is not v:
            return False
    return True


def sel(cond, x, y):
    if x is BOT:
        return y
    if y is BOT:
        return x
    return norm_(ite(cond, x, y))


def on(ctx, v, kind):
    """(condition that v carries its main payload, payload)"""
    var = 1 if kind == OPT else 0
    return is_var(v, kind, var), payload(ctx.e, v, var)


def wrap(kind, x):
    return some(x) if kind == OPT else okv(x)


def failed(ctx, v, kind):
    """the value re-typed on its failing side"""
    if kind == OPT:
        return NONE
    return errv(payload(ctx.e, v, 1))


def wrap_t(kind, x):
    if x is BOT:
        return BOT
    return wrap(kind, x)


@model('Option::map', 'Result::map')
def m_map(ctx, v, f):
    v = fd(ctx, v)
    k = kind_of_self(ctx, v)
    cond, x = on(ctx, v, k)
    r = call_when(ctx, cond, f, [x])
    if k == OPT:
        return sel(cond, wrap_t(k, r), NONE)
    return sel(cond, wrap_t(k, r), errv(payload(ctx.e, v, 1)) if cond is not TRUE else BOT)


@model('Option::and_then', 'Result::and_then')
def m_and_then(ctx, v, f):
    v = fd(ctx, v)
    k = kind_of_self(ctx, v)
    cond, x = on(ctx, v, k)
    r = call_when(ctx, cond, f, [x])
    return sel(cond, r, BOT if cond is TRUE else failed(ctx, v, k))


@model('Option::filter')
def m_ofilter(ctx, v, f):
    v = fd(ctx, v)
    cond, x = on(ctx, v, OPT)
    r = call_when(ctx, cond, f, [x])
    if r is BOT:
        return NONE
    return sel(and_(cond, as_bool(r)), v, NONE)


@model('Option::is_some_and', 'Result::is_ok_and')
def m_is_some_and(ctx, v, f):
    v = fd(ctx, v)
    k = kind_of_self(ctx, v)
    cond, x = on(ctx, v, k)
    r = call_when(ctx, cond, f, [x])
    return FALSE if r is BOT else and_(cond, as_bool(r))


@model('Option::is_none_or')
def m_is_none_or(ctx, v, f):
    v = fd(ctx, v)
    cond, x = on(ctx, v, OPT)
    r = call_when(ctx, cond, f, [x])
    return TRUE if r is BOT else or_(not_(cond), as_bool(r))


@model('Result::map_err')
def m_map_err(ctx, v, f):
    v = fd(ctx, v)
    cond = is_var(v, RES, 1)
    r = call_when(ctx, cond, f, [payload(ctx.e, v, 1)])
    return sel(cond, BOT if r is BOT else errv(r), okv(payload(ctx.e, v, 0)))


@model('Result::or_else', 'Option::or_else')
def m_or_else(ctx, v, f):
    v = fd(ctx, v)
    k = kind_of_self(ctx, v)
    cond, x = on(ctx, v, k)
    r = call_when(ctx, not_(cond), f, [] if k == OPT else [payload(ctx.e, v, 1)])
    return sel(cond, wrap(k, x), r)


@model('Option::or', 'Result::or')
def m_or(ctx, v, w):
    v = fd(ctx, v)
    k = kind_of_self(ctx, v)
    cond, x = on(ctx, v, k)
    return sel(cond, v, fd(ctx, w))


@model('Option::and', 'Result::and')
def m_and(ctx, v, w):
    v = fd(ctx, v)
    k = kind_of_self(ctx, v)
    cond, x = on(ctx, v, k)
    return sel(cond, fd(ctx, w), failed(ctx, v, k))


@model('Option::xor')
def m_xor(ctx, v, w):
    v, w = fd(ctx, v), fd(ctx, w)
    a, b = is_var(v, OPT, 1), is_var(w, OPT, 1)
    return sel(and_(a, not_(b)), v, sel(and_(b, not_(a)), w, NONE))


@model('Option::zip')
def m_zip_opt(ctx, v, w):
    v, w = fd(ctx, v), fd(ctx, w)
    c = and_(is_var(v, OPT, 1), is_var(w, OPT, 1))
    return sel(c, some(mk('tuple', (payload(ctx.e, v, 1), payload(ctx.e, w, 1)))), NONE)


@model('Option::is_some')
def m_is_some(ctx, v):
    return is_var(fd(ctx, v), OPT, 1)


@model('Option::is_none')
def m_is_none(ctx, v):
    return is_var(fd(ctx, v), OPT, 0)


@model('Result::is_ok')
def m_is_ok(ctx, v):
    return is_var(fd(ctx, v), RES, 0)


@model('Result::is_err')
def m_is_err(ctx, v):
    return is_var(fd(ctx, v), RES, 1)


@model('Result::ok')
def m_ok(ctx, v):
    return rebuild(ctx.e, fd(ctx, v), {0: some, 1: lambda x: NONE})


@model('Result::err')
def m_err(ctx, v):
    return rebuild(ctx.e, fd(ctx, v), {1: some, 0: lambda x: NONE})


@model('Option::ok_or')
def m_ok_or(ctx, v, er):
    er = fd(ctx, er)
    return rebuild(ctx.e, fd(ctx, v), {1: okv, 0: lambda x: errv(er)})


@model('Option::ok_or_else')
def m_ok_or_else(ctx, v, f):
    v = fd(ctx, v)
    cond, x = on(ctx, v, OPT)
    r = call_when(ctx, not_(cond), f, [])
    return sel(cond, okv(x), BOT if r is BOT else errv(r))


def panic_unless(ctx, cond, what):
    bad = and_(ctx.pc, not_(cond))
    ctx.e.event(ctx.site.fr, ctx.site.bb, 'panic:' + what, bad, line=ctx.site.line, args=(), sub=ctx.site.fid)
    ctx.pc = and_(ctx.pc, cond)


@model('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect')
def m_unwrap(ctx, v, *msg):
    v = fd(ctx, v)
    k = kind_of_self(ctx, v)
    cond, x = on(ctx, v, k)
    panic_unless(ctx, cond, k.split('::')[-1] + '::unwrap')
    return x


@model('Result::unwrap_err', 'Result::expect_err')
def m_unwrap_err(ctx, v, *msg):
    v = fd(ctx, v)
    panic_unless(ctx, is_var(v, RES, 1), 'Result::unwrap_err')
    return payload(ctx.e, v, 1)


@model('Option::unwrap_or', 'Result::unwrap_or')
def m_unwrap_or(ctx, v, d):
    v = fd(ctx, v)
    cond, x = on(ctx, v, kind_of_self(ctx, v))
    return sel(cond, x, fd(ctx, d))


@model('Option::unwrap_or_else', 'Result::unwrap_or_else')
def m_unwrap_or_else(ctx, v, f):
    v = fd(ctx, v)
    k = kind_of_self(ctx, v)
    cond, x = on(ctx, v, k)
    r = call_when(ctx, not_(cond), f, [] if k == OPT else [payload(ctx.e, v, 1)])
    return sel(cond, x, r)


def default_of(ty):
    ty = ty.lstrip('&')
    if ty in ('std::string::String', 'str'):
        return cstr('')
    if ty.startswith('std::vec::Vec'):
        return EMPTY
    if ty == 'bool':
        return FALSE
    if ty.startswith(OPT):
        return NONE
    if ty and ty[0] in 'iu' and ty[1:] in ('8', '16', '32', '64', '128', 'size'):
        return cint(0)
    if ty.startswith('std::collections::HashMap'):
        return mk('map', ())
    return call('default', (ty,))


@model('Option::unwrap_or_default', 'Result::unwrap_or_default')
def m_unwrap_or_default(ctx, v):
    v = fd(ctx, v)
    cond, x = on(ctx, v, kind_of_self(ctx, v))
    return sel(cond, x, default_of(ctx.key.args[0]))


@model('Default::default')
def m_default(ctx):
    return default_of(ctx.key.args[0])


@model('Option::map_or', 'Result::map_or')
def m_map_or(ctx, v, d, f):
    v = fd(ctx, v)
    cond, x = on(ctx, v, kind_of_self(ctx, v))
    r = call_when(ctx, cond, f, [x])
    return sel(cond, r, fd(ctx, d))


@model('Option::map_or_else', 'Result::map_or_else')
def m_map_or_else(ctx, v, d, f):
    v = fd(ctx, v)
    k = kind_of_self(ctx, v)
    cond, x = on(ctx, v, k)
    r = call_when(ctx, cond, f, [x], 'a')
    r2 = call_when(ctx, not_(cond), d, [] if k == OPT else [payload(ctx.e, v, 1)], 'b')
    return sel(cond, r, r2)


@model('Option::as_ref', 'Result::as_ref', 'Option::as_deref', 'Result::as_deref', 'Option::cloned', 'Option::copied',
       'Result::cloned', 'Result::copied', 'Option::iter_value')
def m_id1(ctx, v):
    return fd(ctx, v)


@model('Option::as_mut', 'Option::as_deref_mut')
def m_as_mut(ctx, v):
    # reference into the payload
    if v.k == 'ref':
        cur = fd(ctx, v)
        return rebuild(ctx.e, cur, {1: lambda x: some(mk('ref', v.a[0], v.a[1] + (('d', 1), ('f', 0)))), 0: lambda x: NONE})
    return v


@model('Option::take', 'mem::take')
def m_take(ctx, r):
    v = fd(ctx, r)
    if r.k == 'ref':
        nm = ctx.key.short
        new = NONE if nm == 'Option::take' else default_of(ctx.key.args[0])
        ctx.st = ctx.st.copy()
        ctx.e.write_cell(ctx.st, r.a[0], r.a[1], new)
    return v


@model('mem::replace', 'Option::replace')
def m_replace_mem(ctx, r, new):
    v = fd(ctx, r)
    if r.k == 'ref':
        ctx.st = ctx.st.copy()
        ctx.e.write_cell(ctx.st, r.a[0], r.a[1], some(new) if ctx.key.short == 'Option::replace' else new)
    return v


@model('Option::insert', 'Option::get_or_insert')
def m_oinsert(ctx, r, new):
    v = fd(ctx, r)
    nv = some(new)
    if ctx.key.short == 'Option::get_or_insert':
        nv = sel(is_var(v, OPT, 1), v, nv)
    ctx.st = ctx.st.copy()
    ctx.e.write_cell(ctx.st, r.a[0], r.a[1], nv)
    return mk('ref', r.a[0], r.a[1] + (('d', 1), ('f', 0)))


@model('Option::transpose')
def m_transpose(ctx, v):
    v = fd(ctx, v)
    e = ctx.e
    return norm_(rebuild(e, v, {0: lambda x: okv(NONE), 1: lambda x: rebuild(e, x, {0: lambda y: okv(some(y)), 1: errv})}))


@model('Result::transpose')
def m_rtranspose(ctx, v):
    v = fd(ctx, v)
    e = ctx.e
    return rebuild(e, v, {1: lambda x: some(errv(x)), 0: lambda x: rebuild(e, x, {1: lambda y: some(okv(y)), 0: lambda y: NONE})})


@model('Option::flatten')
def m_oflatten(ctx, v):
    return rebuild(ctx.e, fd(ctx, v), {0: lambda x: NONE, 1: lambda x: x})


@model('bool::then_some')
def m_then_some(ctx, b, x):
    return sel(as_bool(fd(ctx, b)), some(x), NONE)


@model('bool::then')
def m_then(ctx, b, f):
    b = as_bool(fd(ctx, b))
    r = call_when(ctx, b, f, [])
    return NONE if r is BOT else sel(b, some(r), NONE)


@model('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def m_callfn(ctx, f, args):
    args = fd(ctx, args)
    r, ctx.st, ctx.pc = ctx.e.call_value(f, list(args.a[0]), ctx.pc, ctx.st, sub_site(ctx.site, 'call'))
    return r


# ------------------------------------------------------------------ comparison and identity

@model('PartialEq::eq')
def m_eq(ctx, a, b):
    return ctx.e.eq(fd(ctx, a), fd(ctx, b))


@model('PartialEq::ne')
def m_ne(ctx, a, b):
    return not_(ctx.e.eq(fd(ctx, a), fd(ctx, b)))


@model('Iterator::eq')
def m_itereq(ctx, a, b):
    return ctx.e.eq(fd(ctx, as_coll(ctx, a)), fd(ctx, as_coll(ctx, b)))


@model('Iterator::ne')
def m_iterne(ctx, a, b):
    return not_(ctx.e.eq(fd(ctx, as_coll(ctx, a)), fd(ctx, as_coll(ctx, b))))


@model('str::eq_ignore_ascii_case')
def m_eqi(ctx, a, b):
    return as_bool(call('eq_ignore_ascii_case', (), fd(ctx, a), fd(ctx, b)))


@model('PartialOrd::lt')
def m_lt(ctx, a, b):
    return ctx.e.binop('Lt', fd(ctx, a), fd(ctx, b))


@model('PartialOrd::gt')
def m_gt(ctx, a, b):
    return ctx.e.binop('Gt', fd(ctx, a), fd(ctx, b))


@model('PartialOrd::le')
def m_le(ctx, a, b):
    return ctx.e.binop('Le', fd(ctx, a), fd(ctx, b))


@model('PartialOrd::ge')
def m_ge(ctx, a, b):
    return ctx.e.binop('Ge', fd(ctx, a), fd(ctx, b))


@model('Add::add')
def m_add(ctx, a, b):
    a, b = fd(ctx, a), fd(ctx, b)
    if ctx.key.args and 'String' in ctx.key.args[0]:
        return concat('s', a, b)
    return ctx.e.binop('Add', a, b)


@model('Sub::sub')
def m_sub(ctx, a, b):
    return ctx.e.binop('Sub', fd(ctx, a), fd(ctx, b))


@model('Not::not')
def m_not(ctx, a):
    return not_(as_bool(fd(ctx, a)))


@model('AddAssign::add_assign')
def m_add_assign(ctx, r, b):
    a, b = fd(ctx, r), fd(ctx, b)
    v = concat('s', a, b) if ctx.key.args and 'String' in ctx.key.args[0] else ctx.e.binop('Add', a, b)
    ctx.st = ctx.st.copy()
    ctx.e.write_cell(ctx.st, r.a[0], r.a[1], v)
    return UNIT


@model('Clone::clone', 'Deref::deref', 'AsRef::as_ref', 'Borrow::borrow', 'ToOwned::to_owned', 'String::as_str', 'Vec::as_slice',
       'slice::to_vec', 'String::into_boxed_str', 'str::into_string', 'hint::must_use', 'slice::into_vec', 'String::into_bytes',
       'Box::new', 'Box::into_inner', 'Cow::into_owned', 'str::as_bytes', 'String::as_bytes', 'str::to_owned', 'AsDisplay::as_display',
       'convert::identity', 'slice::as_slice', 'Match::into', 'Rc::new', 'Arc::new', 'Vec::into_boxed_slice', 'str::as_str',
       'mem::ManuallyDrop::new', 'String::from_str_value', 'hint::black_box', 'Option::as_slice')
def m_ident(ctx, v, *r):
    return fd(ctx, v)


@model('mem::drop', 'mem::forget', 'Vec::reserve', 'String::reserve', 'Vec::shrink_to_fit', 'String::shrink_to_fit', 'HashMap::reserve')
def m_unit(ctx, *a):
    return UNIT


@model('DerefMut::deref_mut', 'AsMut::as_mut', 'Vec::as_mut_slice', 'BorrowMut::borrow_mut')
def m_identref(ctx, v, *r):
    return v


STRINGY = ('std::string::String', 'str', 'char', '&str', 'std::boxed::Box<str>')


def unref(t):
    while t.startswith('&'):
        t = t[1:]
        if t.startswith('mut '):
            t = t[4:]
    return t


@model('Into::into', 'From::from')
def m_into(ctx, v):
    v = fd(ctx, v)
    a = ctx.key.args
    if ctx.key.short == 'From::from':
        dst, src = a[0], a[1]
    else:
        src, dst = a[0], a[1]
    s, d = unref(src), unref(dst)
    if s == d:
        return v
    if s in STRINGY and d in STRINGY:
        return to_string(ctx.e, (s,), v)
    if d.startswith(OPT) and not s.startswith(OPT):
        return some(v)
    if s in STRINGY and ('Box<str>' in d or 'Cow' in d or 'Rc<str>' in d):
        return v
    # the crate's own conversion
    t = None
    for f in ctx.e.p.fns.values():
        if f.get('impl_trait') == 'std::convert::From' and f['name'] == 'from' and not f.get('derived') \
                and ctx.e.p.tkey(f['impl_self']) == d and f.get('impl_trait_args') \
                and any(ctx.e.p.tkey(x) in (src, s) for x in f['impl_trait_args']):
            t = f
    if t is not None:
        r, ctx.st, ctx.pc = ctx.e.run_body(t['body'], t, [v], {}, ctx.pc, ctx.st, ctx.site.fid + '.from')
        return r
    return dist(lambda x: call('convert', (s, d), x), v)


@model('TryFrom::try_from', 'TryInto::try_into')
def m_try_from(ctx, v):
    v = fd(ctx, v)
    a = ctx.key.args
    if ctx.key.short == 'TryFrom::try_from':
        dst, src = a[0], a[1]
    else:
        src, dst = a[0], a[1]
    return dist(lambda x: call('try_convert', (unref(src), unref(dst)), x), v)


@pure('to_string')
def to_string(e, targs, v):
    ty = unref(targs[0]) if targs else '?'

    def f(l):
        if ty in ('std::string::String', 'str'):
            return l
        if ty == 'char':
            if l.k == 'c':
                return cstr(chr(l.a[1]))
            return seq('s', [('one', l)])
        if l.k == 'c':
            if l.a[0] == 's':
                return l
            if ty == 'bool':
                return cstr('true' if l.a[1] else 'false')
            if l.a[0] == 'i':
                return cstr(str(l.a[1]))
        return call('to_string', (ty,), l)
    if ty == 'bool':
        return map_leaves(as_bool(v), f)
    return map_leaves(v, f)


@model('ToString::to_string')
def m_to_string(ctx, v):
    v = fd(ctx, v)
    return to_string(ctx.e, (ctx.key.args[0],), v)


# ------------------------------------------------------------------ formatting

@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex')
def m_fmtarg(ctx, v):
    kind = ctx.key.short.split('_', 1)[1]
    return call('fmtarg', (kind, ctx.key.args[0] if ctx.key.args else '?'), fd(ctx, v))


@model('Arguments::from_str', 'Arguments::new_const')
def m_arg_str(ctx, v):
    v = fd(ctx, v)
    return v


@model('Arguments::new')
def m_arguments(ctx, tmpl, args):
    tmpl, args = fd(ctx, tmpl), fd(ctx, args)
    if tmpl.k == 'c' and tmpl.a[0] == 's':
        bs = tmpl.a[1].encode('utf-8', 'surrogateescape')
    elif tmpl.k == 'bytes':
        bs = bytes(tmpl.a[0])
    elif tmpl.k == 'seq':
        bs = bytes(s[1].a[1] for s in tmpl.a[1])
    else:
        return call('format', (), tmpl, args)
    al = [s[1] for s in args.a[1]] if args.k == 'seq' else []
    out = []
    i = n = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(('splice', cstr(bs[i:i + b].decode())))
            i += b
        elif b == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(('splice', cstr(bs[i:i + ln].decode())))
            i += ln
        elif b == 0xC0:
            out.append(('splice', show_arg(ctx.e, al[n])))
            n += 1
        elif b & 0xC0 == 0xC0:
            # placeholder with options
            opts = []
            if b & 1:
                opts.append(bs[i:i + 4])
                i += 4
            if b & 2:
                opts.append(bs[i:i + 2])
                i += 2
            if b & 4:
                opts.append(bs[i:i + 2])
                i += 2
            if b & 8:
                n = bs[i] | bs[i + 1] << 8
                i += 2
            a = al[n]
            n += 1
            if opts and b & 7:
                out.append(('splice', call('fmt_opts', (repr(opts),), a)))
            else:
                out.append(('splice', show_arg(ctx.e, a)))
        else:
            return call('format', (), tmpl, args)
    return seq('s', out)


def show_arg(e, a):
    if a.k == 'call' and a.a[0] == 'fmtarg':
        kind, ty = a.a[1]
        if kind == 'display':
            return to_string(e, (ty,), a.a[2][0])
        return call('debug', (ty, kind), a.a[2][0])
    return call('fmt', (), a)


@model('fmt::format', 'fmt::format_inner')
def m_format(ctx, v):
    return fd(ctx, v)


# ------------------------------------------------------------------ strings

@pure('trim')
def p_trim(e, t, v):
    def f(s):
        if s.k == 'c':
            return cstr(s.a[1].strip())
        if s.k == 'call' and s.a[0] == 'trim':
            return s
        return call('trim', (), s)
    return map_leaves(v, f)


@model('str::trim')
def m_trim(ctx, v):
    return p_trim(ctx.e, (), fd(ctx, v))


def strfun(name, rust, fold):
    @pure(name)
    def p(e, t, *args):
        def f(*a):
            if all(x.k == 'c' for x in a):
                r = fold(*[chr(x.a[1]) if x.a[0] == 'ch' else x.a[1] for x in a])
                if r is not None:
                    return r
            return mk('call', name, tuple(t), tuple(a))
        return dist(f, *args)

    for r in rust:
        @model(r)
        def m(ctx, *args):
            return p(ctx.e, (), *[char_set(ctx, fd(ctx, a)) if i == 1 else fd(ctx, a) for i, a in enumerate(args)])


def char_set(ctx, p):
    """a test of characters that is true for a few given ones, as the list of them"""
    if p.k not in ('clos', 'fn'):
        return p
    el = mk('elem', 'chartest', 0)
    r = call_when(ctx, TRUE, p, [el], 'pat')
    if r.k == 'ite' and r.a[0].kind == 'val' and r.a[0].t == (el,) and r.a[2] is FALSE and all(x in (TRUE, FALSE) for _, x in r.a[1]):
        return mk('seq', 'v', tuple(('one', c('ch', k)) for k, x in sorted(r.a[1]) if x is TRUE))
    return p


def b(x):
    return TRUE if x else FALSE


def boolfun(name, rust, fold):
    @pure(name)
    def p(e, t, *args):
        def f(*a):
            if all(x.k == 'c' for x in a):
                return b(fold(*[chr(x.a[1]) if x.a[0] == 'ch' else x.a[1] for x in a]))
            return as_bool(mk('call', name, tuple(t), tuple(a)))
        return dist(f, *args)

    for r in rust:
        @model(r)
        def m(ctx, *args):
            return p(ctx.e, (), *[char_set(ctx, fd(ctx, a)) if i == 1 else fd(ctx, a) for i, a in enumerate(args)])


boolfun('contains', ['str::contains'], lambda s, p: p in s)
boolfun('starts_with', ['str::starts_with'], lambda s, p: s.startswith(p))
boolfun('ends_with', ['str::ends_with'], lambda s, p: s.endswith(p))
strfun('trim_start', ['str::trim_start'], lambda s: cstr(s.lstrip()))
strfun('trim_end', ['str::trim_end'], lambda s: cstr(s.rstrip()))
strfun('replace', ['str::replace'], lambda s, p, q: cstr(s.replace(p, q)))
strfun('to_lowercase', ['str::to_lowercase', 'str::to_ascii_lowercase'], lambda s: cstr(s.lower()))
strfun('to_uppercase', ['str::to_uppercase', 'str::to_ascii_uppercase'], lambda s: cstr(s.upper()))
strfun('strip_prefix', ['str::strip_prefix'], lambda s, p: some(cstr(s[len(p):])) if s.startswith(p) else NONE)
strfun('strip_suffix', ['str::strip_suffix'], lambda s, p: some(cstr(s[:-len(p)])) if s.endswith(p) and p else NONE)
strfun('split', ['str::split'], lambda s, p: mk('seq', 'v', tuple(('one', cstr(x)) for x in s.split(p))))
strfun('split_terminator', ['str::split_terminator'], lambda s, p: mk('seq', 'v', tuple(('one', cstr(x)) for x in (s.split(p)[:-1] if s.endswith(p) or not s else s.split(p)))))
strfun('rsplit', ['str::rsplit'], lambda s, p: mk('seq', 'v', tuple(('one', cstr(x)) for x in reversed(s.split(p)))))
strfun('splitn', ['str::splitn'], lambda s, n, p: mk('seq', 'v', tuple(('one', cstr(x)) for x in s.split(p, n - 1))) if n else EMPTY)
strfun('rsplitn', ['str::rsplitn'], lambda s, n, p: mk('seq', 'v', tuple(('one', cstr(x)) for x in reversed(s.rsplit(p, n - 1)))) if n else EMPTY)
strfun('rsplit_once', ['str::rsplit_once'],
       lambda s, p: some(mk('tuple', tuple(cstr(x) for x in s.rsplit(p, 1)))) if p in s else NONE)
strfun('lines', ['str::lines'], lambda s: mk('seq', 'v', tuple(('one', cstr(x)) for x in s.splitlines())))
strfun('chars', ['str::chars'], lambda s: mk('seq', 'v', tuple(('one', c('ch', ord(x))) for x in s)))
strfun('split_once', ['str::split_once'],
       lambda s, p: some(mk('tuple', tuple(cstr(x) for x in s.split(p, 1)))) if p in s else NONE)
boolfun('is_ascii_digit', ['char::is_ascii_digit'], lambda s: s in '0123456789')


for _n in ('split', 'lines', 'chars', 'split_terminator', 'rsplit', 'splitn', 'rsplitn'):
    def _mkit(n, inner):
        def m(ctx, *a):
            return mk('iter', inner(ctx, *a), 0)
        return m
    MODELS['str::' + _n] = _mkit(_n, MODELS['str::' + _n])


@pure('parse')
def p_parse(e, t, v):
    ty = t[0] if t else '?'

    def f(s):
        if s.k == 'c' and s.a[0] == 's':
            x = s.a[1]
            if ty == 'bool':
                if x in ('true', 'false'):
                    return okv(TRUE if x == 'true' else FALSE)
                return errv(call('parse_error', (ty,), s))
            if ty in ('usize', 'u32', 'u64', 'i32', 'i64', 'u8', 'u16'):
                y = x[1:] if x[:1] == '+' else x
                if y.isascii() and y.isdigit():
                    return okv(cint(int(y)))
                return errv(call('parse_error', (ty,), s))
        if ty == 'std::string::String':
            return okv(s)
        if s.k == 'call' and s.a[0] == 'to_string' and s.a[1] == (ty,):
            return okv(s.a[2][0])
        return call('parse', (ty,), s)
    return map_leaves(v, f)


@model('str::parse')
def m_parse(ctx, v):
    v = fd(ctx, v)
    ty = ctx.key.args[0]
    t = ctx.e.p.impls.get(('std::str::FromStr', ty, 'from_str'))
    if t is not None:
        f = ctx.e.p.fns[t]
        r, ctx.st, ctx.pc = ctx.e.run_body(f['body'], f, [v], {}, ctx.pc, ctx.st, ctx.site.fid + '.fromstr')
        return r
    return p_parse(ctx.e, (ty,), v)


@model('FromStr::from_str')
def m_from_str(ctx, v):
    return p_parse(ctx.e, (ctx.key.args[0],), fd(ctx, v))


@model('String::new')
def m_snew(ctx, *a):
    return cstr('')


@model('String::with_capacity')
def m_swc(ctx, *a):
    return cstr('')


def upd_ref(ctx, r, f):
    st = ctx.st = ctx.st.copy()
    e = ctx.e
    if r.k == 'ref':
        old = fd(ctx, r)
        e.write_cell(st, r.a[0], r.a[1], f(old))
        return
    if r.k == 'ite':
        # may refer to different cells
        def g(l):
            if l.k == 'ref':
                cond = map_leaves(r, lambda x: TRUE if x is l else FALSE)
                old = e.full_deref(l, st)
                e.write_cell(st, l.a[0], l.a[1], norm_(ite(cond, f(old), old)))
        for l in leaves(r):
            g(l)
        return
    raise_(ctx, 'mutation through unknown reference ' + show(r)[:80])


def raise_(ctx, msg):
    import engine
    raise engine.AnalysisError('%s in %s' % (msg, ctx.site.fr.fn['path']))


@model('String::push_str')
def m_push_str(ctx, r, x):
    x = fd(ctx, x)
    upd_ref(ctx, r, lambda old: concat('s', old, x))
    return UNIT


@model('String::push')
def m_push_ch(ctx, r, x):
    x = fd(ctx, x)
    upd_ref(ctx, r, lambda old: concat('s', old, seq('s', [('one', x)]) if x.k != 'ite' else
                                       map_leaves(x, lambda l: seq('s', [('one', l)]))))
    return UNIT


@model('Write::write_str', 'Write::write_fmt')
def m_write_str(ctx, r, x):
    x = fd(ctx, x)
    cur = fd(ctx, r)
    if cur.k in ('seq', 'c', 'loopvar', 'ite'):
        upd_ref(ctx, r, lambda old: concat('s', old, x))
        return okv(UNIT)
    return ctx.e.opaque_value(ctx, 'write_str', r, x)


def is_empty_of(e, v):
    def f(l):
        if l.k == 'c' and l.a[0] == 's':
            return b(l.a[1] == '')
        if l.k == 'map':
            return b(not l.a[0])
        if l.k == 'seq':
            r = TRUE
            for s in l.a[1]:
                if s[0] == 'one':
                    return FALSE
                if s[0] == 'splice':
                    r = and_(r, is_empty_of(e, s[1]))
                else:
                    if all(nonempty(x) for x in leaves(s[3]) if x is not BOT):
                        r = and_(r, is_empty_of(e, s[2]))
                    else:
                        one = mk('seq', l.a[0], (s,))
                        r = and_(r, switch(atom('empty', one, dom=(0, 1)), {0: FALSE, 1: TRUE}))
            return r
        if l.k == 'call' and l.a[0] == 'to_string' and l.a[1] and l.a[1][0] in NUMBERS:
            return FALSE
        if l.k == 'call' and l.a[0] == 'split':
            return FALSE        # splitting a string yields at least one piece
        return switch(atom('empty', l, dom=(0, 1)), {0: FALSE, 1: TRUE})
    return map_leaves(v, f)


NUMBERS = {'usize', 'u8', 'u16', 'u32', 'u64', 'u128', 'isize', 'i8', 'i16', 'i32', 'i64', 'i128', 'bool', 'char'}


def nonempty(l):
    if l.k == 'c':
        return l.a[1] != ''
    return l.k == 'seq' and any(s[0] == 'one' or (s[0] == 'splice' and s[1].k == 'c' and s[1].a[1] != '') for s in l.a[1])


def len_of(e, v):
    def f(l):
        if l.k == 'c' and l.a[0] == 's':
            return cint(len(l.a[1].encode()))
        if l.k == 'seq' and l.a[0] == 'v' and all(s[0] == 'one' for s in l.a[1]):
            return cint(len(l.a[1]))
        return call('len', (), l)
    return map_leaves(v, f)


@pure('len')
def p_len(e, t, v):
    return len_of(e, v)


@model('Vec::len', 'slice::len', 'str::len', 'String::len', 'ExactSizeIterator::len', 'HashMap::len')
def m_len(ctx, v):
    return len_of(ctx.e, as_coll(ctx, fd(ctx, v)))


@model('Vec::is_empty', 'slice::is_empty', 'str::is_empty', 'String::is_empty', 'HashMap::is_empty')
def m_is_empty(ctx, v):
    return is_empty_of(ctx.e, fd(ctx, v))


# ------------------------------------------------------------------ vectors

@model('Vec::new', 'Vec::with_capacity')
def m_vnew(ctx, *a):
    return EMPTY


@model('Vec::push')
def m_push(ctx, r, x):
    upd_ref(ctx, r, lambda old: concat('v', old, mk('seq', 'v', (('one', x),))))
    return UNIT


@model('Vec::insert')
def m_vinsert(ctx, r, i, x):
    i = fd(ctx, i)
    if i.k == 'c' and i.a[1] == 0:
        upd_ref(ctx, r, lambda old: concat('v', mk('seq', 'v', (('one', x),)), old))
    else:
        ctx.e.event(ctx.site.fr, ctx.site.bb, 'panic:index', ctx.pc, line=ctx.site.line, args=(fd(ctx, r), i), sub=ctx.site.fid)
        upd_ref(ctx, r, lambda old: call('inserted', (), old, i, x))
    return UNIT


@model('Vec::append')
def m_append(ctx, r, o):
    x = fd(ctx, o)
    upd_ref(ctx, r, lambda old: concat('v', old, x))
    if o.k == 'ref':
        ctx.st = ctx.st.copy()
        ctx.e.write_cell(ctx.st, o.a[0], o.a[1], EMPTY)
    return UNIT


def in_place(name):
    """order or number of elements changed in place"""
    def f(ctx, r, *a):
        def g(old):
            def h(l):
                if l.k == 'seq' and all(s[0] == 'one' for s in l.a[1]):
                    if len(l.a[1]) < 2:
                        return l
                    if name == 'rev':
                        return seq(l.a[0], tuple(reversed(l.a[1])))
                if name == 'rev' and l.k == 'call' and l.a[0] == 'rev':
                    return l.a[2][0]
                return call(name, (), l)
            return norm_(map_leaves(old, h))
        upd_ref(ctx, r, g)
        return UNIT
    return f


for _n, _ps in (('rev', ['slice::reverse']), ('sorted', ['slice::sort', 'slice::sort_unstable', 'slice::sort_by', 'slice::sort_by_key', 'slice::sort_unstable_by', 'slice::sort_unstable_by_key', 'slice::sort_by_cached_key']), ('dedup', ['Vec::dedup', 'Vec::dedup_by', 'Vec::dedup_by_key'])):
    model(*_ps)(in_place(_n))


def end_mut(name, at):
    def f(ctx, r):
        v = fd(ctx, r)
        if r.k == 'ref' and v.k == 'seq' and all(s[0] == 'one' for s in v.a[1]):
            n = len(v.a[1])
            return some(mk('ref', r.a[0], tuple(r.a[1]) + (('i', cint(at % n)),))) if n else NONE
        out, ctx.st, ctx.pc = ctx.e.opaque_call(name, ctx.key, (r,), ctx.pc, ctx.st, ctx.site)
        return out
    model(name)(f)


end_mut('slice::first_mut', 0)
end_mut('slice::last_mut', -1)


@model('Vec::extend_from_slice')
def m_extend_slice(ctx, r, o):
    x = fd(ctx, o)
    upd_ref(ctx, r, lambda old: concat('v', old, x))
    return UNIT


@model('Extend::extend')
def m_extend(ctx, r, it):
    x = as_coll(ctx, fd(ctx, it))
    cur = fd(ctx, r)
    if any(l.k == 'map' for l in leaves(cur)):
        def ins(m):
            for s in segs_of(x):
                if s[0] == 'one' and s[1].k == 'tuple':
                    m = hinsert(ctx.e, (), m, s[1].a[0][0], s[1].a[0][1])
                elif s[0] == 'splice' and s[1].k == 'ite':
                    def g(l, m=m):
                        for q in segs_of(l):
                            if q[0] == 'one' and q[1].k == 'tuple':
                                m = hinsert(ctx.e, (), m, q[1].a[0][0], q[1].a[0][1])
                            else:
                                m = call('hextend', (), m, l)
                        return m
                    m = norm_(map_leaves(s[1], g))
                else:
                    m = call('hextend', (), m, x)
            return m
        upd_ref(ctx, r, ins)
        return UNIT
    kind = 's' if ctx.key.args[0] == 'std::string::String' else 'v'
    if kind == 's':
        x = concat_str(ctx.e, x)
    upd_ref(ctx, r, lambda old: concat(kind, old, x))
    return UNIT


@model('Vec::clear', 'String::clear')
def m_clear(ctx, r):
    upd_ref(ctx, r, lambda old: EMPTY if ctx.key.short == 'Vec::clear' else cstr(''))
    return UNIT


@model('Vec::pop')
def m_pop(ctx, r):
    v = fd(ctx, r)
    e = ctx.e

    def parts(l):
        if l.k == 'seq':
            if not l.a[1]:
                return NONE, l
            s = l.a[1][-1]
            if s[0] == 'one':
                return some(s[1]), mk('seq', 'v', l.a[1][:-1])
        return call('last', (), l), call('droplast', (), l)
    upd_ref(ctx, r, lambda old: map_leaves(old, lambda l: parts(l)[1]))
    return map_leaves(v, lambda l: parts(l)[0])


@model('Vec::remove')
def m_remove(ctx, r, i):
    v, i = fd(ctx, r), fd(ctx, i)
    if i.k != 'c':
        ctx.e.event(ctx.site.fr, ctx.site.bb, 'panic:index', ctx.pc, line=ctx.site.line, args=(v, i), sub=ctx.site.fid)
        upd_ref(ctx, r, lambda old: call('removed', (), old, i))
        return dist(lambda x, y: mk('at', x, y), v, i)
    n = i.a[1]
    o, x = has_at(ctx.e, v, n)
    panic_unless(ctx, is_var(o, OPT, 1), 'index')
    upd_ref(ctx, r, lambda old: p_rest(ctx.e, (), old, cint(1)) if n == 0 else call('removed', (), old, i))
    return x


@model('slice::first')
def m_first(ctx, v):
    v = fd(ctx, v)
    return first_of(ctx.e, v)


def first_of(e, v):
    h = not_(is_empty_of(e, v))
    return sel(h, BOT if h is FALSE else some(at(e, v, 0)), NONE) if h is not TRUE else some(at(e, v, 0))


@model('slice::split_first')
def m_split_first(ctx, v):
    v = fd(ctx, v)
    h = not_(is_empty_of(ctx.e, v))
    if h is FALSE:
        return NONE
    pair = mk('tuple', (at(ctx.e, v, 0), p_rest(ctx.e, (), v, cint(1))))
    return some(pair) if h is TRUE else sel(h, some(pair), NONE)


@model('slice::last')
def m_last(ctx, v):
    v = fd(ctx, v)
    return p_last(ctx.e, (), v)


@pure('last')
def p_last(e, t, v):
    def f(l):
        if l.k == 'seq':
            if not l.a[1]:
                return NONE
            if l.a[1][-1][0] == 'one':
                return some(l.a[1][-1][1])
        return call('last', (), l)
    return map_leaves(v, f)


@model('slice::get')
def m_get(ctx, v, i):
    v, i = fd(ctx, v), fd(ctx, i)
    if i.k == 'c':
        return has_at(ctx.e, v, i.a[1])[0]
    return dist(lambda x, y: call('get', (), x, y), v, i)


def bare_type(t):
    while t.startswith('&'):
        t = t[1:]
        t = t[4:] if t.startswith('mut ') else t
    return t


@pure('as')
def p_as(e, t, v):
    return map_leaves(v, lambda l: __import__('engine').cast(t[0], l))


@pure('char::from_u32')
def p_from_u32(e, t, v):
    def f(l):
        if l.k == 'c' and l.a[0] == 'i':
            n = l.a[1]
            return some(c('ch', n)) if 0 <= n < 0xd800 or 0xe000 <= n < 0x110000 else NONE
        return call('char::from_u32', (), l)
    return map_leaves(v, f)


for _op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
    def _arith(e, t, x, y, op=_op):
        return e.binop(op, x, y)
    PURE[_op] = _arith


def _overflow(op):
    def f(e, t, x, y):
        def g(a, b):
            if a.k == 'c' and b.k == 'c' and op == 'Sub':
                return TRUE if a.a[1] < b.a[1] else FALSE
            if a.k == 'c' and b.k == 'c' and 0 <= (a.a[1] + b.a[1] if op == 'Add' else a.a[1] * b.a[1]) < 1 << 31:
                return FALSE
            return call('overflow_' + op, (), a, b)
        return dist(g, x, y)
    return f


for _op in ('Add', 'Sub', 'Mul'):
    PURE['overflow_' + _op] = _overflow(_op)


def _checked(ty, op):
    name = '%s::checked_%s' % (ty, op)
    hi = 1 << (64 if ty == 'usize' else int(ty[1:]))

    def f(e, t, x, y):
        def g(a, b):
            if a.k == 'c' and b.k == 'c' and a.a[0] == b.a[0] == 'i':
                try:
                    r = {'add': lambda p, q: p + q, 'sub': lambda p, q: p - q, 'mul': lambda p, q: p * q, 'div': lambda p, q: p // q, 'rem': lambda p, q: p % q}[op](a.a[1], b.a[1])
                except ZeroDivisionError:
                    return NONE
                return some(cint(r)) if 0 <= r < hi else NONE
            return call(name, (), a, b)
        return dist(g, x, y)
    PURE[name] = f
    MODELS[name] = lambda ctx, x, y: f(ctx.e, (), fd(ctx, x), fd(ctx, y))


for _ty in ('usize', 'u64', 'u32', 'u16', 'u8'):
    for _op in ('add', 'sub', 'mul', 'div', 'rem'):
        _checked(_ty, _op)


@model('char::from_u32')
def m_from_u32(ctx, v):
    return p_from_u32(ctx.e, (), fd(ctx, v))


@model('Index::index')
def m_index(ctx, v, i):
    v, i = fd(ctx, v), fd(ctx, i)
    ty = ctx.key.args[0]
    if 'Captures' in ty:
        ctx.e.event(ctx.site.fr, ctx.site.bb, 'panic:capture', ctx.pc, line=ctx.site.line, args=(v, i), sub=ctx.site.fid)
        return dist(lambda x, y: call('cap_index', (), x, y), v, i)
    if 'HashMap' in ty:
        g = hget(ctx.e, (), v, i)
        panic_unless(ctx, is_var(g, OPT, 1), 'HashMap::index')
        return payload(ctx.e, g, 1)
    if i.k == 'adt':
        if 'RangeFull' not in str(i.a[0]):
            ctx.e.event(ctx.site.fr, ctx.site.bb, 'panic:range', ctx.pc, line=ctx.site.line, args=(v, i), sub=ctx.site.fid, of=bare_type(ty))
        if 'RangeFrom' in i.a[0] and i.a[2][0].k == 'c' and not re.search(r'(^|\W)(str|String)$', ty):
            return p_rest(ctx.e, (), v, i.a[2][0])
        return dist(lambda x, y: call('range', (), x, y), v, i)
    if i.k == 'c':
        o, x = has_at(ctx.e, v, i.a[1])
        panic_unless(ctx, is_var(o, OPT, 1), 'index')
        return x
    ctx.e.event(ctx.site.fr, ctx.site.bb, 'panic:index', ctx.pc, line=ctx.site.line, args=(v, i), sub=ctx.site.fid)
    return dist(lambda x, y: mk('at', x, y), v, i)


def at(e, coll, n):
    return has_at(e, coll, n)[1]


def has_at(e, coll, n):
    """(Option value of element n, element value)"""
    def f(l):
        if l.k != 'seq':
            if l.k == 'c' and l.a[0] == 's':
                return NONE
            x = mk('at', l, cint(n))
            if l.k == 'call' and l.a[0] == 'rest':
                base, off = l.a[2]
                return f2(base, off.a[1] + n)
            return f2(l, n)
        i = 0
        for ix, s in enumerate(l.a[1]):
            if s[0] == 'one':
                if i == n:
                    return some(s[1])
                i += 1
            elif s[0] == 'splice' and s[1].k == 'ite':
                rest = l.a[1][ix + 1:]
                return map_leaves(s[1], lambda y: has_at(e, seq('v', segs_of(y) + list(rest)), n - i)[0])
            elif s[0] == 'splice' and s[1].k == 'seq':
                return f(seq('v', list(l.a[1])))
            else:
                rest = l.a[1][ix:]
                base = seq('v', list(rest)) if ix else l
                if n - i == 0:
                    if s[0] == 'splice':
                        em = is_empty_of(e, s[1])
                        y = some(mk('at', s[1], cint(0)))
                        if em is FALSE:
                            return y
                        nxt = has_at(e, seq('v', list(l.a[1][ix + 1:])), 0)[0]
                        return ite(em, nxt, y)
                    em = is_empty_of(e, mk('seq', 'v', (s,)))
                    # head of a mapped collection
                    if all(one_elem(x) for x in leaves(s[3]) if x is not BOT):
                        import engine
                        hd = has_at(e, s[2], 0)[0]
                        body = map_leaves(s[3], lambda x: x.a[1][0][1])
                        y = rebuild(e, hd, {0: lambda x: BOT, 1: lambda x: some(e.subst({s[1]: x})(body))})
                    else:
                        y = some(mk('at', mk('seq', 'v', (s,)), cint(0)))
                    nxt = has_at(e, seq('v', list(l.a[1][ix + 1:])), 0)[0]
                    return ite(em, nxt, y)
                return f2(base, n - i)
        return NONE

    def f2(l, m):
        if m == 0:
            em = is_empty_of(e, l)
            return ite(em, NONE, some(mk('at', l, cint(0))))
        return switch(atom('has', l, m, dom=(0, 1)), {0: NONE, 1: some(mk('at', l, cint(m)))})
    o = norm_(map_leaves(coll, f))
    return o, payload(e, o, 1)


def one_elem(x):
    return x.k == 'seq' and len(x.a[1]) == 1 and x.a[1][0][0] == 'one'


@pure('rest')
def p_rest(e, t, coll, off):
    def f(l):
        n = off.a[1]
        if n == 0:
            return l
        if l.k == 'call' and l.a[0] == 'rest':
            return f_(l.a[2][0], l.a[2][1].a[1] + n)
        if l.k != 'seq':
            return call('rest', (), l, cint(n))
        sg = list(l.a[1])
        while n and sg:
            s = sg[0]
            if s[0] == 'one':
                sg = sg[1:]
                n -= 1
            elif s[0] == 'splice' and s[1].k == 'ite':
                rest = sg[1:]
                k = n
                return map_leaves(s[1], lambda y: p_rest(e, (), seq('v', segs_of(y) + list(rest)), cint(k)))
            else:
                # the first segment may be empty
                head = s[1] if s[0] == 'splice' else mk('seq', 'v', (s,))
                em = is_empty_of(e, head)
                tail = seq('v', sg[1:])
                if n == 1:
                    return ite(em, p_rest(e, (), tail, cint(1)) if sg[1:] else EMPTY,
                               seq('v', [('splice', call('rest', (), head, cint(1)))] + sg[1:]))
                return call('rest', (), seq('v', sg), cint(n))
        return seq('v', sg)

    def f_(l, n):
        return call('rest', (), l, cint(n))
    return norm_(map_leaves(coll, f))


# vec![..]
@model('Box::new_uninit')
def m_new_uninit(ctx):
    ctx.st = ctx.st.copy()
    cell = ('heap:' + ctx.site.fid + ctx.e.rnd, 0)
    ctx.st[cell] = mk('uninit', 'heap')
    return mk('ref', cell, ())


@model('boxed::box_assume_init_into_vec_unsafe', 'Box::assume_init')
def m_into_vec(ctx, v):
    v = fd(ctx, v)

    def f(l):
        while l.k == 'upd' and root_uninit(l.a[0]) and l.a[1].startswith("('f',"):
            l = l.a[2]
        return l
    return map_leaves(v, f)


def root_uninit(v):
    while v.k == 'fld':
        v = v.a[0]
    return v.k == 'uninit'


@model('vec::from_elem')
def m_from_elem(ctx, x, n):
    if n.k == 'c' and n.a[1] <= 64:
        return mk('seq', 'v', tuple(('one', x) for _ in range(n.a[1])))
    return call('from_elem', (), x, n)


@pure('concat')
def concat_str(e, *a):
    """sequence of strings -> string"""
    v = a[-1]

    def f(l):
        if l.k != 'seq':
            return call('concat', (), l)
        out = []
        for s in l.a[1]:
            if s[0] == 'one':
                x = s[1]
                out.append(('one', x) if x.k == 'c' and x.a[0] == 'ch' else ('splice', x))
            elif s[0] == 'splice':
                out.append(('splice', concat_str(e, s[1])))
            else:
                out.extend(segs_of(e.many('s', s[1], s[2], norm_(map_leaves(s[3], lambda y: concat_str(e, y)))), 's'))
        return seq('s', out)
    return map_leaves(v, f)


PURE['concat'] = lambda e, t, v: concat_str(e, v)


@pure('join')
def p_join(e, t, v, sep):
    def f(l, s):
        if s.k == 'c' and s.a[1] == '':
            return concat_str(e, l)
        if l.k == 'seq' and all(x[0] == 'one' for x in l.a[1]):
            out = []
            for i, x in enumerate(l.a[1]):
                if i:
                    out.append(('splice', s))
                out.append(('splice', x[1]))
            return seq('s', out)
        return call('join', (), l, s)
    return dist(f, v, sep)


@model('slice::join')
def m_join(ctx, v, sep):
    return p_join(ctx.e, (), fd(ctx, v), fd(ctx, sep))


@model('slice::concat')
def m_concat(ctx, v):
    v = fd(ctx, v)
    if any(t.startswith('std::vec::Vec') or t.startswith('[') for t in ctx.key.args):
        el = mk('elem', 'concat', 0)
        return ctx.e.many('v', el, v, mk('seq', 'v', (('splice', el),)))
    return concat_str(ctx.e, v)


@model('slice::contains')
def m_scontains(ctx, v, x):
    v, x = fd(ctx, v), fd(ctx, x)
    if v.k == 'seq' and all(s[0] == 'one' for s in v.a[1]):
        r = FALSE
        for s in v.a[1]:
            r = or_(r, ctx.e.eq(s[1], x))
        return r
    return as_bool(call('contains', (), v, x))


# ------------------------------------------------------------------ maps

@pure('hget')
def hget(e, t, m, k):
    def f(mm, kk):
        if mm.k == 'map':
            for q, x in mm.a[0]:
                if q is kk:
                    return map_leaves(x, lambda l: NONE if l is ABSENT else some(l))
            if kk.k == 'c':
                return NONE if all(q.k == 'c' for q, _ in mm.a[0]) else call('hget', (), mm, kk)
            if not mm.a[0]:
                return NONE
        if mm.k == 'call' and mm.a[0] == 'hinsert' and kk.k == 'c':
            b_, q, x = mm.a[2]
            r = e.eq(q, kk)
            if r is FALSE:
                return f(b_, kk)
        return call('hget', (), mm, kk)
    return dist(f, m, k)


@pure('hinsert')
def hinsert(e, t, m, k, v):
    def f(mm, kk):
        if mm.k == 'map' and kk.k == 'c' and all(q.k == 'c' for q, _ in mm.a[0]):
            d = dict(mm.a[0])
            d[kk] = v
            return mk('map', tuple(sorted(d.items(), key=lambda z: z[0].a[1])))
        return call('hinsert', (), mm, kk, v)
    return dist(f, m, k)


@model('HashMap::get')
def m_hget(ctx, m, k):
    return hget(ctx.e, (), fd(ctx, m), fd(ctx, k))


@model('HashMap::get_key_value')
def m_hgkv(ctx, m, k):
    k = fd(ctx, k)
    return rebuild(ctx.e, hget(ctx.e, (), fd(ctx, m), k), {0: lambda x: NONE, 1: lambda x: some(mk('tuple', (k, x)))})


@model('HashMap::contains_key')
def m_hck(ctx, m, k):
    return is_var(hget(ctx.e, (), fd(ctx, m), fd(ctx, k)), OPT, 1)


@model('HashMap::insert')
def m_hinsert(ctx, r, k, v):
    k, v = fd(ctx, k), fd(ctx, v)
    old = hget(ctx.e, (), fd(ctx, r), k)
    upd_ref(ctx, r, lambda m: hinsert(ctx.e, (), m, k, v))
    return old


@model('HashMap::remove')
def m_hremove(ctx, r, k):
    k = fd(ctx, k)
    old = hget(ctx.e, (), fd(ctx, r), k)

    def f(mm):
        if mm.k == 'map' and k.k == 'c':
            return mk('map', tuple((q, x) for q, x in mm.a[0] if q is not k))
        return call('hremove', (), mm, k)
    upd_ref(ctx, r, lambda m: norm_(map_leaves(m, f)))
    return old


@model('HashMap::new', 'HashMap::with_capacity')
def m_hnew(ctx, *a):
    return mk('map', ())


# ------------------------------------------------------------------ iterators

def as_iter(ctx, v):
    """an iterator value for anything iterable"""
    def f(l):
        if l.k == 'iter':
            return l
        if l.k == 'ref':
            cur = ctx.e.full_deref(l, ctx.st)
            if cur.k == 'iter':
                return l
            return mk('itermut', l, 0)
        if l.k in ('imap', 'ifilter', 'iflat', 'ienum', 'iskip', 'itake', 'ichain', 'izip', 'irev', 'ifmap', 'itakew', 'iskipw', 'imapw'):
            return mk('iter', as_coll(ctx, l), 0)
        if l.k == 'itermut':
            return l
        if l.k == 'adt' and l.a[0] == OPT or (l.k != 'seq' and 'option::Option' in (ctx.key.args[0] if ctx.key.args else '')):
            return mk('iter', opt_coll(ctx.e, l), 0)
        if l.k == 'adt' and l.a[0].endswith('ops::Range'):
            lo, hi = l.a[2]
            if lo.k == 'c' and hi.k == 'c' and hi.a[1] - lo.a[1] <= 128:
                return mk('iter', mk('seq', 'v', tuple(('one', cint(i)) for i in range(lo.a[1], hi.a[1]))), 0)
            return mk('iter', call('range', (), lo, hi), 0)
        if l.k == 'adt' and 'RangeFrom' in l.a[0]:
            return mk('iter', call('rangefrom', (), *l.a[2]), 0)
        return mk('iter', l, 0)
    if v.k == 'ite' and all(l.k in ('seq', 'fld', 'call', 'sym') for l in leaves(v)):
        return mk('iter', v, 0)
    return map_leaves(v, f)


def opt_coll(e, v):
    return rebuild(e, v, {0: lambda x: EMPTY, 1: lambda x: mk('seq', 'v', (('one', x),))})


ADAPT = ('imap', 'ifilter', 'iflat', 'ienum', 'iskip', 'itake', 'ichain', 'izip', 'irev', 'ifmap', 'itakew', 'iskipw', 'imapw')


def as_coll(ctx, v, tag=''):
    """the sequence an iterable still has to produce (adaptors evaluated)"""
    e = ctx.e

    def f(l):
        if l.k == 'iter':
            return e.rest_of(l)
        if l.k == 'itermut':
            return e.full_deref(l.a[0], ctx.st)
        if l.k == 'ref':
            cur = e.full_deref(l, ctx.st)
            # by_ref: consuming
            return as_coll(ctx, cur)
        if l.k in ADAPT:
            inner = as_coll(ctx, l.a[0])
            return adapt(ctx, l, inner)
        if l.k == 'adt' and l.a[0] == OPT:
            return opt_coll(e, l)
        if l.k == 'adt' and l.a[0].endswith('ops::Range'):
            return as_coll(ctx, as_iter(ctx, l))
        return l
    return norm_(map_leaves(v, f))


def adapt(ctx, l, inner):
    e = ctx.e
    k = l.a[0] and l.k
    if k == 'ienum':
        el = mk('elem', 'enum', e.fresh())
        if inner.k == 'seq' and all(s[0] == 'one' for s in inner.a[1]):
            return mk('seq', 'v', tuple(('one', mk('tuple', (cint(i), s[1]))) for i, s in enumerate(inner.a[1])))
        return e.many('v', el, inner, mk('seq', 'v', (('one', mk('tuple', (mk('idx', el), el))),)))
    if k == 'irev':
        if inner.k == 'seq' and all(s[0] == 'one' for s in inner.a[1]):
            return mk('seq', 'v', tuple(reversed(inner.a[1])))
        return call('rev', (), inner)
    if k == 'iskip':
        if l.a[1].k == 'c':
            return p_rest(e, (), inner, l.a[1])
        return call('skip', (), inner, l.a[1])
    if k == 'itake':
        if inner.k == 'seq' and all(s[0] == 'one' for s in inner.a[1]) and l.a[1].k == 'c':
            return mk('seq', 'v', inner.a[1][:l.a[1].a[1]])
        return call('take', (), inner, l.a[1])
    if k == 'ichain':
        return concat('v', inner, as_coll(ctx, l.a[1]))
    if k == 'izip':
        o = as_coll(ctx, l.a[1])
        if o.k == 'call' and o.a[0] == 'rangefrom' and o.a[2][0].k == 'c':
            el = mk('elem', 'zip', e.fresh())
            i = mk('idx', el)
            if o.a[2][0].a[1]:
                i = e.binop('Add', i, o.a[2][0])
            return e.many('v', el, inner, mk('seq', 'v', (('one', mk('tuple', (el, i))),)))
        return call('zip', (), inner, o)
    # closures
    fn = l.a[1]
    if inner.k == 'seq' and all(s[0] == 'one' for s in inner.a[1]) and len(inner.a[1]) <= 64:
        out = []
        for i, s in enumerate(inner.a[1]):
            old = e.rnd
            e.rnd = old + '#%d' % i
            r = call_when(ctx, TRUE, fn, [s[1]], k)
            e.rnd = old
            out += segs_of(adapt_body(ctx, k, s[1], r))
        return seq('v', out)
    el = mk('elem', 'it:' + ctx.site.fid[-80:], e.fresh())
    st0, pc0 = ctx.st, ctx.pc
    r = call_when(ctx, TRUE, fn, [el], k)
    if not same_state(ctx.st, st0):
        # the closure has effects: summarise it as a loop
        ctx.st, ctx.pc = st0, pc0
        acc = ('acc:' + ctx.site.fid, 0)
        st = ctx.st.copy()
        st[acc] = EMPTY
        ctx.st = st

        def step(c2, x):
            r2 = call_when(c2, TRUE, fn, [x], k)
            c2.st = c2.st.copy()
            c2.st[acc] = concat('v', c2.st[acc], adapt_body(c2, k, x, r2))
        run_loop(ctx, inner, step)
        return ctx.st[acc]
    if k in ('itakew', 'iskipw', 'imapw'):
        return call(k, (), inner, r, el)
    ctx.pc = pc0 if ctx.pc is not FALSE else pc0
    return e.many('v', el, inner, adapt_body(ctx, k, el, r))


def adapt_body(ctx, k, el, r):
    if r is BOT:
        return BOT
    if k == 'imap':
        return mk('seq', 'v', (('one', r),))
    if k == 'ifilter':
        return ite(as_bool(r), mk('seq', 'v', (('one', el),)), EMPTY)
    if k == 'ifmap':
        return opt_coll(ctx.e, r)
    if k == 'iflat':
        return as_coll(ctx, r)
    return r


def run_loop(ctx, coll, step, tag='loop'):
    """generic internal iteration with effects, summarised like a source loop"""
    e = ctx.e
    itc = ('it:' + ctx.site.fid + tag, 0)
    st = ctx.st.copy()
    st[itc] = mk('iter', coll, 0)
    lid = ctx.site.fid + '@' + tag + e.rnd
    import engine

    def body(hs):
        c2 = engine.Ctx()
        c2.e, c2.key, c2.pc, c2.st, c2.site = e, ctx.key, ctx.pc, hs, ctx.site
        o = next_of(c2, mk('ref', itc, ()))
        more = is_var(o, OPT, 1)
        x = payload(e, o, 1)
        exits = []
        p0 = and_(ctx.pc, not_(more))
        if p0 is not FALSE:
            exits.append(('it', 'done', p0, c2.st))
        c2.pc = and_(c2.pc, more)
        if c2.pc is FALSE:
            return exits, FALSE, None
        brk = step(c2, x)
        if brk is not None:
            cond, val = brk
            pb = and_(c2.pc, cond)
            if pb is not FALSE:
                s2 = c2.st.copy()
                s2[('brk:' + ctx.site.fid + tag, 0)] = val
                exits.append(('it', 'break', pb, s2))
            c2.pc = and_(c2.pc, not_(cond))
        if c2.pc is FALSE:
            return exits, FALSE, None
        return exits, c2.pc, c2.st
    if coll.k == 'seq' and all(s[0] == 'one' for s in coll.a[1]) and len(coll.a[1]) <= 64:
        # literal: run it
        outs = []
        cur, pc = st, ctx.pc
        old = e.rnd
        for i in range(len(coll.a[1]) + 1):
            e.rnd = old + '#%d' % i
            save = ctx.pc
            ctx.pc = pc
            ex, bpc, bst = body(cur)
            ctx.pc = save
            outs += ex
            if bst is None:
                break
            cur, pc = bst, bpc
        e.rnd = old
    else:
        outs = e.summarise(lid, ctx.pc, st, body, ctx.site.fr.fn['path'])
    done = [(p, s) for (_, l, p, s) in outs if l == 'done']
    brk = [(p, s) for (_, l, p, s) in outs if l == 'break']
    rb = None
    cond = FALSE
    val = BOT
    if brk:
        for p, s in brk:
            cond = or_(cond, p)
        bp, bs = e.merge_states(brk, None, None)
        val = bs[('brk:' + ctx.site.fid + tag, 0)]
    ctx.pc, ctx.st = e.merge_states(done + brk, None, None)
    st = ctx.st.copy()
    st.pop(itc, None)
    st.pop(('brk:' + ctx.site.fid + tag, 0), None)
    ctx.st = st
    return restrict(cond, ctx.pc), val


def next_of(ctx, r, peek=False):
    """Iterator::next on a reference to an iterator cell (or on a plain value)"""
    e = ctx.e
    cur = fd(ctx, r)
    if cur.k in ADAPT or cur.k == 'seq':
        cur = as_iter(ctx, cur)

    def f(l):
        """(option, new iterator)"""
        if l.k == 'itermut':
            tgt, pos = l.a
            base = e.full_deref(tgt, ctx.st)
            if base.k == 'seq' and all(s[0] == 'one' for s in base.a[1]) and isinstance(pos, int):
                if pos >= len(base.a[1]):
                    return NONE, l
                return some(mk('ref', tgt.a[0], tgt.a[1] + (('ci', pos, 0, False),))), mk('itermut', tgt, pos + 1)
            if isinstance(pos, tuple):
                lid, nm = pos[1], pos[3]
                el = mk('elem', lid + '|' + nm, 0)
                cell = ('mut:' + lid + nm, 0)
                ctx.st = ctx.st.copy()
                ctx.st[cell] = el
                return (switch(atom('more', lid, nm, 0, dom=(0, 1)), {0: NONE, 1: some(mk('ref', cell, ()))}),
                        mk('itermut', tgt, ('L', lid, pos[2] + 1, nm)))
            cell = ('mut1:' + ctx.site.fid, 0)
            o = has_at(e, base, pos)
            ctx.st = ctx.st.copy()
            ctx.st[cell] = o[1]
            return rebuild(e, o[0], {0: lambda x: NONE, 1: lambda x: some(mk('ref', cell, ()))}), mk('itermut', tgt, pos + 1)
        if l.k != 'iter':
            o = call('next', (), l)
            return o, call('advanced', (), l)
        coll, pos = l.a
        if isinstance(pos, int):
            return has_at(e, coll, pos)[0], mk('iter', coll, pos + 1)
        _, lid, n, nm = pos
        el = mk('elem', lid + '|' + nm, n)
        return switch(atom('more', lid, nm, n, dom=(0, 1)), {0: NONE, 1: some(el)}), mk('iter', coll, ('L', lid, n + 1, nm))
    if cur.k == 'ite':
        prs = {l: f(l) for l in leaves(cur)}
        o = norm_(map_leaves(cur, lambda l: prs[l][0]))
        nw = norm_(map_leaves(cur, lambda l: prs[l][1]))
    else:
        o, nw = f(cur)
    if not peek and r.k == 'ref':
        tgt = r
        # a reference to a reference to the iterator
        while True:
            inner = e.read_cell(ctx.st, tgt.a[0], tgt.a[1])
            if inner.k == 'ref':
                tgt = inner
            else:
                break
        ctx.st = ctx.st.copy()
        e.write_cell(ctx.st, tgt.a[0], tgt.a[1], nw)
    return norm_(o)


@model('Iterator::next', 'Peekable::next')
def m_next(ctx, r):
    return next_of(ctx, r)


@model('Peekable::peek')
def m_peek(ctx, r):
    return next_of(ctx, r, True)


@model('Iterator::nth')
def m_nth(ctx, r, n):
    cur = fd(ctx, r)
    if n.k == 'c' and cur.k == 'iter' and n.a[1] < 16:
        o = NONE
        for i in range(n.a[1] + 1):
            o = next_of(ctx, r)
        return o
    return call('nth', (), cur, n)


@model('IntoIterator::into_iter', 'slice::iter', 'Vec::into_iter', 'Vec::drain_all', 'Option::iter', 'Option::into_iter', 'HashMap::iter',
       'Iterator::peekable', 'Iterator::fuse', 'Iterator::cloned', 'Iterator::copied', 'Iterator::by_ref', 'Iterator::into_iter')
def m_into_iter(ctx, v):
    if ctx.key.short == 'Iterator::by_ref':
        return v
    if ctx.key.short == 'IntoIterator::into_iter' and ctx.key.args[0].startswith('&mut '):
        if v.k == 'ref':
            cur = fd(ctx, v)
            if cur.k in ('iter', 'itermut'):
                return v
            return mk('itermut', v, 0)
    v = fd(ctx, v)
    if ctx.key.short in ('Option::iter', 'Option::into_iter') or (ctx.key.short == 'IntoIterator::into_iter'
                                                                 and unref(ctx.key.args[0]).startswith(OPT)):
        return mk('iter', opt_coll(ctx.e, v), 0)
    return as_iter(ctx, v)


@model('slice::iter_mut', 'Vec::iter_mut')
def m_iter_mut(ctx, r):
    return mk('itermut', r, 0) if r.k == 'ref' else mk('iter', r, 0)


@model('Vec::retain')
def m_retain(ctx, r, f):
    kept = as_coll(ctx, mk('ifilter', mk('iter', fd(ctx, r), 0), f))
    upd_ref(ctx, r, lambda old: kept)
    return UNIT


@model('Vec::drain')
def m_drain(ctx, r, rng):
    v = fd(ctx, r)
    if rng.k == 'adt' and rng.a[0].endswith('RangeFull'):
        upd_ref(ctx, r, lambda o: EMPTY)
        return mk('iter', v, 0)
    raise_(ctx, 'Vec::drain')


def adaptor(kind):
    def m(ctx, it, *a):
        it = fd(ctx, it) if it.k != 'ref' else it
        base = it
        if kind in ('ienum', 'irev'):
            return mk(kind, base)
        return mk(kind, base, a[0])
    return m


for _n, _k in (('map', 'imap'), ('filter', 'ifilter'), ('flat_map', 'iflat'), ('enumerate', 'ienum'), ('skip', 'iskip'),
               ('take', 'itake'), ('chain', 'ichain'), ('zip', 'izip'), ('rev', 'irev'), ('filter_map', 'ifmap'),
               ('take_while', 'itakew'), ('skip_while', 'iskipw'), ('map_while', 'imapw')):
    MODELS['Iterator::' + _n] = adaptor(_k)


@model('Iterator::flatten')
def m_flatten(ctx, it):
    x = as_coll(ctx, fd(ctx, it))
    el = mk('elem', 'flat', ctx.e.fresh())
    ty = ctx.key.args[0]
    body = mk('seq', 'v', (('splice', el),))
    # flattening options?
    opt = 'Option' in ty
    if opt:
        body = opt_coll(ctx.e, el)
    return mk('iter', ctx.e.many('v', el, x, body), 0)


@model('Iterator::inspect')
def m_inspect(ctx, it, f):
    return it


@model('Iterator::collect', 'FromIterator::from_iter')
def m_collect(ctx, it, *a):
    if ctx.key.short == 'Iterator::collect':
        ty = ctx.key.args[1] if len(ctx.key.args) > 1 else ''
    else:
        ty = ctx.key.args[0]
    coll = as_coll(ctx, it if it.k == 'ref' else fd(ctx, it))
    if it.k == 'ref':
        ctx.st = ctx.st.copy()
        ctx.e.write_cell(ctx.st, it.a[0], it.a[1], mk('iter', EMPTY, 0))
    return collect_into(ctx, coll, ty)


def collect_into(ctx, coll, ty):
    e = ctx.e
    if ty.startswith('std::string::String'):
        return concat_str(e, coll)
    if ty.startswith(RES) or ty.startswith(OPT):
        kind = RES if ty.startswith(RES) else OPT
        inner = ty[ty.index('<') + 1:]
        acc = ('acc:' + ctx.site.fid + e.rnd, 0)
        ctx.st = ctx.st.copy()
        ctx.st[acc] = EMPTY

        def step(c2, x):
            good = is_var(x, kind, 1 if kind == OPT else 0)
            y = payload(e, x, 1 if kind == OPT else 0)
            if good is not FALSE:
                c2.st = c2.st.copy()
                c2.st[acc] = concat('v', c2.st[acc], mk('seq', 'v', (('one', y),)))
            if good is TRUE:
                return None
            return not_(good), (NONE if kind == OPT else errv(payload(e, x, 1)))
        cond, val = run_loop(ctx, coll, step, 'collect')
        lst = ctx.st[acc]
        ctx.st = ctx.st.copy()
        ctx.st.pop(acc)
        if inner.startswith('std::string::String'):
            lst = concat_str(e, lst)
        elif inner.startswith('()'):
            lst = UNIT
        if val is BOT:
            return wrap(kind, lst)
        return sel(cond, val, wrap(kind, lst))
    if ty.startswith('std::collections::HashMap'):
        if coll.k == 'seq':
            m = mk('map', ())
            for s in coll.a[1]:
                if s[0] == 'one' and s[1].k == 'tuple':
                    m = hinsert(e, (), m, *s[1].a[0])
                else:
                    return call('hcollect', (), coll)
            return m
        return call('hcollect', (), coll)
    return coll


@model('Iterator::for_each')
def m_for_each(ctx, it, f):
    coll = as_coll(ctx, it if it.k == 'ref' else fd(ctx, it))

    def step(c2, x):
        call_when(c2, TRUE, f, [x], 'each')
    run_loop(ctx, coll, step, 'each')
    return UNIT


@model('Iterator::try_for_each')
def m_try_for_each(ctx, it, f):
    e = ctx.e
    coll = as_coll(ctx, fd(ctx, it))

    def step(c2, x):
        r = call_when(c2, TRUE, f, [x], 'each')
        good = is_var(r, RES, 0)
        if good is TRUE:
            return None
        return not_(good), errv(payload(e, r, 1))
    cond, val = run_loop(ctx, coll, step, 'each')
    return okv(UNIT) if val is BOT else sel(cond, val, okv(UNIT))


@model('Iterator::fold', 'Iterator::try_fold')
def m_fold(ctx, it, init, f):
    e = ctx.e
    coll = as_coll(ctx, fd(ctx, it))
    acc = ('acc:' + ctx.site.fid + e.rnd, 0)
    ctx.st = ctx.st.copy()
    ctx.st[acc] = init
    tr = ctx.key.short.endswith('try_fold')

    def step(c2, x):
        r = call_when(c2, TRUE, f, [c2.st[acc], x], 'fold')
        c2.st = c2.st.copy()
        if tr:
            good = is_var(r, RES, 0)
            if good is not FALSE:
                c2.st[acc] = payload(e, r, 0)
            if good is TRUE:
                return None
            return not_(good), errv(payload(e, r, 1))
        c2.st[acc] = r
    cond, val = run_loop(ctx, coll, step, 'fold')
    v = ctx.st[acc]
    ctx.st = ctx.st.copy()
    ctx.st.pop(acc)
    if tr:
        return okv(v) if val is BOT else sel(cond, val, okv(v))
    return v


def search(ctx, it, f, hit, miss, found):
    """find-like loops: found(c2,x,r) -> (cond, value)"""
    coll = as_coll(ctx, fd(ctx, it))

    def step(c2, x):
        r = call_when(c2, TRUE, f, [x], 'find')
        return found(c2, x, r)
    cond, val = run_loop(ctx, coll, step, 'find')
    return miss if val is BOT else sel(cond, val, miss)


@model('Iterator::any')
def m_any(ctx, it, f):
    return search(ctx, it, f, None, FALSE, lambda c2, x, r: (as_bool(r), TRUE))


@model('Iterator::all')
def m_all(ctx, it, f):
    return search(ctx, it, f, None, TRUE, lambda c2, x, r: (not_(as_bool(r)), FALSE))


@model('Iterator::find')
def m_find(ctx, it, f):
    return search(ctx, it, f, None, NONE, lambda c2, x, r: (as_bool(r), some(x)))


@model('Iterator::find_map')
def m_find_map(ctx, it, f):
    return search(ctx, it, f, None, NONE, lambda c2, x, r: (is_var(r, OPT, 1), r))


@model('Iterator::position')
def m_position(ctx, it, f):
    return search(ctx, it, f, None, NONE, lambda c2, x, r: (as_bool(r), some(mk('idx', x))))


@model('Iterator::count')
def m_count(ctx, it):
    return len_of(ctx.e, as_coll(ctx, fd(ctx, it)))


@model('Iterator::last')
def m_ilast(ctx, it):
    return p_last(ctx.e, (), as_coll(ctx, fd(ctx, it)))


@model('Iterator::sum')
def m_sum(ctx, it):
    return call('sum', (), as_coll(ctx, fd(ctx, it)))


@model('Iterator::max', 'Iterator::min')
def m_max(ctx, it):
    return call(ctx.key.short, (), as_coll(ctx, fd(ctx, it)))


# ------------------------------------------------------------------ xml

@model('Element::new')
def m_enew(ctx, name):
    name = fd(ctx, name)
    return mk('adt', 'xmltree::Element', 0, (NONE, NONE, NONE, name, mk('map', ()), EMPTY))


@model('Element::get_child')
def m_get_child(ctx, el, name):
    el, name = fd(ctx, el), fd(ctx, name)
    e = ctx.e
    kids = e.project(el, ('f', 5), ctx.st)
    xn = e.p.adts['xmltree::XMLNode']
    ix = [i for i, v in enumerate(xn['variants']) if v['name'] == 'Element'][0]
    dom = tuple(range(len(xn['variants'])))

    def step(c2, x):
        dv = e.discr(x, dom)
        ise = map_leaves(dv, lambda l: b(l.a[1] == ix))
        child = e.project(e.project(x, ('d', ix), c2.st), ('f', 0), c2.st)
        nm = e.project(child, ('f', 3), c2.st)
        cond = and_(ise, e.eq(nm, name))
        return cond, some(child)
    cond, val = run_loop(ctx, kids, step, 'child')
    return NONE if val is BOT else sel(cond, val, NONE)


@model('XMLNode::as_element')
def m_as_element(ctx, n):
    n = fd(ctx, n)
    e = ctx.e
    xn = e.p.adts['xmltree::XMLNode']
    ix = [i for i, v in enumerate(xn['variants']) if v['name'] == 'Element'][0]
    dom = tuple(range(len(xn['variants'])))
    dv = e.discr(n, dom)
    ise = map_leaves(dv, lambda l: b(l.a[1] == ix))
    return sel(ise, some(e.project(e.project(n, ('d', ix), ctx.st), ('f', 0), ctx.st)), NONE)


@model('XMLNode::as_text')
def m_as_text(ctx, n):
    n = fd(ctx, n)
    e = ctx.e
    xn = e.p.adts['xmltree::XMLNode']
    ix = [i for i, v in enumerate(xn['variants']) if v['name'] == 'Text'][0]
    dom = tuple(range(len(xn['variants'])))
    dv = e.discr(n, dom)
    ise = map_leaves(dv, lambda l: b(l.a[1] == ix))
    return sel(ise, some(e.project(e.project(n, ('d', ix), ctx.st), ('f', 0), ctx.st)), NONE)


# ------------------------------------------------------------------ regex

@model('Match::as_str')
def m_match_str(ctx, m):
    return dist(lambda x: call('match_str', (), x), fd(ctx, m))


@model('Regex::captures')
def m_captures(ctx, r, s):
    return dist(lambda a, x: call('captures', (), a, x), fd(ctx, r), fd(ctx, s))


@model('Regex::is_match')
def m_is_match(ctx, r, s):
    return dist(lambda a, x: as_bool(call('is_match', (), a, x)), fd(ctx, r), fd(ctx, s))


@model('Regex::new')
def m_rnew(ctx, s):
    s = fd(ctx, s)
    return call('regex', (), s)


@model('Captures::name', 'Captures::get')
def m_cap_name(ctx, c_, n):
    return dist(lambda a, x: call('cap_name', (), a, x), fd(ctx, c_), fd(ctx, n))


@model('LazyLock::force', 'OnceLock::get_or_init', 'LazyLock::deref')
def m_lazy(ctx, v, *f):
    return fd(ctx, v)


@model('LazyLock::new', 'Lazy::new')
def m_lazynew(ctx, f):
    r, ctx.st, ctx.pc = ctx.e.call_value(f, [], ctx.pc, ctx.st, sub_site(ctx.site, 'lazy'))
    return r


@model('From::from<Vec>')
def m_dummy(ctx, v):
    return v


@model('slice::from_ref', 'array::from_ref')
def m_from_ref(ctx, x):
    return mk('seq', 'v', (('one', fd(ctx, x)),))
