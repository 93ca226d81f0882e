"""Models of library operations.  Each takes (interp, state, args, call) and returns [(state, 'ret'|'panic', value)],
or None when it does not apply (the call is then an unknown external operation)."""
from domain import *
from facts import subst, unify
import interp as IP
from interp import intern, subst_atom
import regexlang

ABSENT = ('ABSENT',)
M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def ret(st, v):
    return [(st, 'ret', v)]


def val(I, st, a):
    """the value behind a reference (one level)"""
    if a[0] == 'R':
        return I.load(st, a[1], a[2])
    if a[0] == 'S' or (a[0] == 'A' and a[1] in ('Guard',)):
        r, p = I.deref(st, a)
        return I.load(st, r, p)
    return a


def full(I, st, a, n=8):
    """look through references completely"""
    while n and (a[0] == 'R' or (a[0] == 'S' and a[2] is not None and a[2][0] in ('ref', 'ptr'))):
        r, p = I.deref(st, a)
        a = I.load(st, r, p)
        n -= 1
    return a


def loc(I, st, a):
    """(root, proj) of a reference"""
    if a[0] == 'R':
        return a[1], a[2]
    return I.deref(st, a)


def typed(v, ty):
    if v[0] == 'S' and v[2] is None and ty is not None:
        t = ty
        return ('S', v[1], t)
    return v


def pty(ty):
    while ty is not None and ty[0] in ('ref', 'ptr'):
        ty = ty[2]
    return ty


def targ(ty, i=0):
    ty = pty(ty)
    if ty is not None and ty[0] == 'adt' and len(ty[2]) > i:
        return ty[2][i]
    return None


def deep_place(I, st, a):
    """place of the innermost non-reference value"""
    r, p = loc(I, st, a)
    for _ in range(8):
        v = I.load(st, r, p)
        if v[0] == 'R':
            r, p = v[1], v[2]
        elif v[0] == 'S' and v[2] is not None and v[2][0] in ('ref', 'ptr'):
            r, p = I.deref(st, v)
        else:
            break
    return r, p


def cases(I, st, v, ty):
    v = typed(v, ty)
    r = I.split(st, v)
    if r is None:
        # unknown enum: fork on opaque predicates
        return None
    return r


def pred_fork(st, p):
    out = []
    for s in st.assume(p, True):
        out.append((s, True))
    for s in st.assume(p, False):
        out.append((s, False))
    return out


# ------------------------------------------------------------------------------------------------ Option/Result
def opt(I, st, v, ty):
    """[(state, None | payload)]"""
    cs = cases(I, st, v, ty)
    if cs is None:
        p = ('p', ('isvar', v, 1))
        return [(s, ('S', ('vf', v, 'Some', 0), targ(ty)) if b else None) for s, b in pred_fork(st, p)]
    return [(s, f[0] if vi == 1 else None) for s, vi, f in cs]


def res(I, st, v, ty):
    """[(state, is_ok, payload)]"""
    cs = cases(I, st, v, ty)
    if cs is None:
        p = ('p', ('isvar', v, 0))
        return [(s, b, ('S', ('vf', v, 'Ok' if b else 'Err', 0), targ(ty, 0 if b else 1))) for s, b in pred_fork(st, p)]
    return [(s, vi == 0, f[0]) for s, vi, f in cs]


def callv(I, st, f, args, c, dty=None):
    c2 = IP.Call()
    c2.frame, c2.sub, c2.line = c.frame, c.sub, c.line
    c2.dty = dty
    c2.atys = [I.type_of(st, a) for a in args]
    c2.info, c2.name, c2.gargs = None, '', ()
    return I.call_value(st, f, args, c2)


def opt_method(name):
    def d(f):
        def g(I, st, args, c):
            out = []
            for s, x in opt(I, st, args[0], c.atys[0]):
                out += f(I, s, x, args[1:], c)
            return out
        M["Option::" + name] = g
        return f
    return d


def unwrap_dty(c):
    return targ(c.dty)


@opt_method("map")
def _(I, s, x, a, c):
    if x is None:
        return ret(s, I.none)
    return I.bind(callv(I, s, a[0], [x], c, targ(c.dty)), lambda s2, r: ret(s2, I.some(r)))


@opt_method("and_then")
def _(I, s, x, a, c):
    if x is None:
        return ret(s, I.none)
    return callv(I, s, a[0], [x], c, c.dty)


@opt_method("filter")
def _(I, s, x, a, c):
    if x is None:
        return ret(s, I.none)
    out = []
    for s2, k, b in callv(I, s, a[0], [I.const_ref(x)], c, ('prim', 'bool')):
        if k != 'ret':
            out.append((s2, k, b))
            continue
        for s3, t in pred_fork(s2, b[1] if b[0] == 'b' else ('p', b)):
            out += ret(s3, I.some(x) if t else I.none)
    return out


@opt_method("is_none")
def _(I, s, x, a, c):
    return ret(s, ('b', x is None))


@opt_method("is_some")
def _(I, s, x, a, c):
    return ret(s, ('b', x is not None))


for _n, _f in (("is_none", 0), ("is_some", 1)):
    def _mk(vi):
        def g(I, st, args, c):
            v = typed(full(I, st, args[0]), pty(c.atys[0]))
            return ret(st, ('b', I.is_variant(v, vi)))
        return g
    M["Option::" + _n] = _mk(_f)
for _n, _f in (("is_ok", 0), ("is_err", 1)):
    def _mk(vi):
        def g(I, st, args, c):
            v = typed(full(I, st, args[0]), pty(c.atys[0]))
            return ret(st, ('b', I.is_variant(v, vi)))
        return g
    M["Result::" + _n] = _mk(_f)


@opt_method("ok_or")
def _(I, s, x, a, c):
    return ret(s, I.ok(x) if x is not None else I.err(a[0]))


@opt_method("ok_or_else")
def _(I, s, x, a, c):
    if x is not None:
        return ret(s, I.ok(x))
    return I.bind(callv(I, s, a[0], [], c, targ(c.dty, 1)), lambda s2, r: ret(s2, I.err(r)))


@opt_method("or")
def _(I, s, x, a, c):
    return ret(s, I.some(x) if x is not None else a[0])


@opt_method("or_else")
def _(I, s, x, a, c):
    if x is not None:
        return ret(s, I.some(x))
    return callv(I, s, a[0], [], c, c.dty)


@opt_method("and")
def _(I, s, x, a, c):
    return ret(s, I.none if x is None else a[0])


@opt_method("unwrap")
def _(I, s, x, a, c):
    if x is None:
        return I.panic(s, 'unwrap of None')
    return ret(s, x)


@opt_method("expect")
def _(I, s, x, a, c):
    if x is None:
        return I.panic(s, 'expect of None')
    return ret(s, x)


@opt_method("unwrap_or")
def _(I, s, x, a, c):
    return ret(s, x if x is not None else a[0])


@opt_method("unwrap_or_else")
def _(I, s, x, a, c):
    if x is not None:
        return ret(s, x)
    return callv(I, s, a[0], [], c, c.dty)


@opt_method("unwrap_or_default")
def _(I, s, x, a, c):
    if x is not None:
        return ret(s, x)
    return ret(s, default(I, c.dty))


@opt_method("map_or")
def _(I, s, x, a, c):
    if x is None:
        return ret(s, a[0])
    return callv(I, s, a[1], [x], c, c.dty)


@opt_method("map_or_else")
def _(I, s, x, a, c):
    if x is None:
        return callv(I, s, a[0], [], c, c.dty)
    return callv(I, s, a[1], [x], c, c.dty)


@opt_method("is_some_and")
def _(I, s, x, a, c):
    if x is None:
        return ret(s, ('b', False))
    return callv(I, s, a[0], [x], c, c.dty)


@opt_method("is_none_or")
def _(I, s, x, a, c):
    if x is None:
        return ret(s, ('b', True))
    return callv(I, s, a[0], [x], c, c.dty)


@opt_method("cloned")
def _(I, s, x, a, c):
    return ret(s, I.none if x is None else I.some(clone_val(I, s, val(I, s, x))))


@opt_method("copied")
def _(I, s, x, a, c):
    return ret(s, I.none if x is None else I.some(val(I, s, x)))


@opt_method("flatten")
def _(I, s, x, a, c):
    return ret(s, I.none if x is None else x)


@opt_method("zip")
def _(I, s, x, a, c):
    if x is None:
        return ret(s, I.none)
    return [(s2, 'ret', I.none if y is None else I.some(('T', (x, y)))) for s2, y in opt(I, s, a[0], None)]


@opt_method("into_iter")
def _(I, s, x, a, c):
    return ret(s, It('seq', ('q', () if x is None else (('e', x),)), I0, 'val'))


@opt_method("transpose")
def _(I, s, x, a, c):
    if x is None:
        return ret(s, I.ok(I.none))
    out = []
    for s2, ok, v in res(I, s, x, None if c.dty is None else
                         ('adt', I.RESULT, (targ(targ(c.dty, 0)) or ('other', '?'), targ(c.dty, 1) or ('other', '?')))):
        out += ret(s2, I.ok(I.some(v)) if ok else I.err(v))
    return out


def opt_ref(I, st, a, ty, inner=None):
    """Option<T> behind a reference -> Option<&T>"""
    r, p = deep_place(I, st, a)
    v = typed(I.load(st, r, p), pty(ty))
    out = []
    if v[0] == 'S' and (v[2] is None or I.split(st, v) is None):
        for s, b in pred_fork(st, ('p', ('isvar', v, 1))):
            out.append((s, ('R', r, p + (('f', 0, 1),)) if b else None))
        return out
    for s, vi, f in I.split(st, v):
        if v[0] == 'U':
            s = s.copy()
            I.store(s, r, p, ('A', I.OPTION, vi, f))
        out.append((s, ('R', r, p + (('f', 0, 1),)) if vi == 1 else None))
    return out


@model("Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut", "Option::iter")
def _(I, st, args, c):
    out = []
    for s, x in opt_ref(I, st, args[0], c.atys[0]):
        if x is not None and 'deref' in c.name:
            x = auto_deref(I, s, x)
        if c.name.endswith('iter'):
            out += ret(s, It('seq', ('q', () if x is None else (('e', x),)), I0, 'val'))
        else:
            out += ret(s, I.none if x is None else I.some(x))
    return out


@model("Option::take")
def _(I, st, args, c):
    st = st.copy()
    r, p = loc(I, st, args[0])
    v = typed(I.load(st, r, p), pty(c.atys[0]))
    I.store(st, r, p, I.none)
    return ret(st, v)


@model("Option::replace")
def _(I, st, args, c):
    st = st.copy()
    r, p = loc(I, st, args[0])
    v = typed(I.load(st, r, p), pty(c.atys[0]))
    I.store(st, r, p, I.some(args[1]))
    return ret(st, v)


@model("Option::insert")
def _(I, st, args, c):
    st = st.copy()
    r, p = loc(I, st, args[0])
    I.store(st, r, p, I.some(args[1]))
    return ret(st, ('R', r, p + (('f', 0, 1),)))


@model("Option::get_or_insert_with", "Option::get_or_insert")
def _(I, st, args, c):
    out = []
    r, p = loc(I, st, args[0])
    v = typed(I.load(st, r, p), pty(c.atys[0]))
    for s, x in opt(I, st, v, pty(c.atys[0])):
        if x is not None:
            out += ret(s, ('R', r, p + (('f', 0, 1),)))
            continue

        def put(s2, y):
            s2 = s2.copy()
            I.store(s2, r, p, I.some(y))
            return ret(s2, ('R', r, p + (('f', 0, 1),)))
        if c.name.endswith('with'):
            out += I.bind(callv(I, s, args[1], [], c, None), put)
        else:
            out += put(s, args[1])
    return out


def res_method(name):
    def d(f):
        def g(I, st, args, c):
            out = []
            for s, ok, x in res(I, st, args[0], c.atys[0]):
                out += f(I, s, ok, x, args[1:], c)
            return out
        M["Result::" + name] = g
        return f
    return d


@res_method("map")
def _(I, s, ok, x, a, c):
    if not ok:
        return ret(s, I.err(x))
    return I.bind(callv(I, s, a[0], [x], c, targ(c.dty)), lambda s2, r: ret(s2, I.ok(r)))


@res_method("map_err")
def _(I, s, ok, x, a, c):
    if ok:
        return ret(s, I.ok(x))
    return I.bind(callv(I, s, a[0], [x], c, targ(c.dty, 1)), lambda s2, r: ret(s2, I.err(r)))


@res_method("and_then")
def _(I, s, ok, x, a, c):
    return ret(s, I.err(x)) if not ok else callv(I, s, a[0], [x], c, c.dty)


@res_method("and")
def _(I, s, ok, x, a, c):
    return ret(s, I.err(x)) if not ok else ret(s, a[0])


@res_method("or_else")
def _(I, s, ok, x, a, c):
    return ret(s, I.ok(x)) if ok else callv(I, s, a[0], [x], c, c.dty)


@res_method("ok")
def _(I, s, ok, x, a, c):
    return ret(s, I.some(x) if ok else I.none)


@res_method("err")
def _(I, s, ok, x, a, c):
    return ret(s, I.none if ok else I.some(x))


@res_method("unwrap")
def _(I, s, ok, x, a, c):
    return ret(s, x) if ok else I.panic(s, 'unwrap of Err')


@res_method("expect")
def _(I, s, ok, x, a, c):
    return ret(s, x) if ok else I.panic(s, 'expect of Err')


@res_method("unwrap_err")
def _(I, s, ok, x, a, c):
    return ret(s, x) if not ok else I.panic(s, 'unwrap_err of Ok')


@res_method("expect_err")
def _(I, s, ok, x, a, c):
    return ret(s, x) if not ok else I.panic(s, 'expect_err of Ok')


@res_method("unwrap_or")
def _(I, s, ok, x, a, c):
    return ret(s, x if ok else a[0])


@res_method("unwrap_or_else")
def _(I, s, ok, x, a, c):
    return ret(s, x) if ok else callv(I, s, a[0], [x], c, c.dty)


@res_method("unwrap_or_default")
def _(I, s, ok, x, a, c):
    return ret(s, x if ok else default(I, c.dty))


@res_method("map_or")
def _(I, s, ok, x, a, c):
    return callv(I, s, a[1], [x], c, c.dty) if ok else ret(s, a[0])


@res_method("map_or_else")
def _(I, s, ok, x, a, c):
    return callv(I, s, a[1] if ok else a[0], [x], c, c.dty)


@res_method("is_ok_and")
def _(I, s, ok, x, a, c):
    return callv(I, s, a[0], [x], c, c.dty) if ok else ret(s, ('b', False))


@res_method("transpose")
def _(I, s, ok, x, a, c):
    if not ok:
        return ret(s, I.some(I.err(x)))
    return [(s2, 'ret', I.none if y is None else I.some(I.ok(y))) for s2, y in opt(I, s, x, None)]


@model("Result::as_ref", "Result::as_mut")
def _(I, st, args, c):
    r, p = deep_place(I, st, args[0])
    v = typed(I.load(st, r, p), pty(c.atys[0]))
    cs = I.split(st, v)
    if cs is None:
        return None
    return [(s, 'ret', ('A', I.RESULT, vi, (('R', r, p + (('f', 0, vi),)),))) for s, vi, f in cs]


@model("bool::then")
def _(I, st, args, c):
    out = []
    for s, b in pred_fork(st, args[0][1] if args[0][0] == 'b' else ('p', args[0])):
        if b:
            out += I.bind(callv(I, s, args[1], [], c, targ(c.dty)), lambda s2, r: ret(s2, I.some(r)))
        else:
            out += ret(s, I.none)
    return out


@model("bool::then_some")
def _(I, st, args, c):
    return [(s, 'ret', I.some(args[1]) if b else I.none)
            for s, b in pred_fork(st, args[0][1] if args[0][0] == 'b' else ('p', args[0]))]


@model("Try::branch")
def _(I, st, args, c):
    v = typed(args[0], c.atys[0])
    cs = I.split(st, v)
    if cs is None:
        return None
    out = []
    key = v[1] if v[0] == 'A' else (v[2][1] if v[0] == 'S' else None)
    if v[0] == 'U':
        key = v[1][0][1]
    for s, vi, f in cs:
        if key == I.OPTION:
            out += ret(s, ('A', I.CF, 0, f) if vi == 1 else ('A', I.CF, 1, (I.none,)))
        elif key == I.POLL:
            if vi == 1:
                out += ret(s, ('A', I.CF, 0, (I.pending,)))
            else:
                for s2, ok, x in res(I, s, f[0], targ(c.atys[0])):
                    out += ret(s2, ('A', I.CF, 0, (I.ready(x),)) if ok else ('A', I.CF, 1, (I.err(x),)))
        else:
            out += ret(s, ('A', I.CF, 0, f) if vi == 0 else ('A', I.CF, 1, (I.err(f[0]),)))
    return out


@model("Try::from_output")
def _(I, st, args, c):
    t = c.dty
    return ret(st, I.some(args[0]) if t and t[0] == 'adt' and t[1] == I.OPTION else I.ok(args[0]))


@model("FromResidual::from_residual")
def _(I, st, args, c):
    t = c.dty
    if t is not None and t[0] == 'adt' and t[1] == I.OPTION:
        return ret(st, I.none)
    out = []
    for s, ok, x in res(I, st, args[0], c.atys[0]):
        if ok:
            continue
        src = targ(c.atys[0], 1)
        dst = targ(c.dty, 1)
        if t is not None and t[0] == 'adt' and t[1] == I.POLL:
            dst = targ(targ(c.dty), 1)
        out += I.bind(convert(I, s, x, src, dst, c),
                      lambda s2, r: ret(s2, I.err(r) if not (t and t[0] == 'adt' and t[1] == I.POLL)
                                        else I.ready(I.err(r))))
    return out


def convert(I, st, x, src, dst, c):
    """From::from between src and dst"""
    if src == dst or src is None or dst is None:
        return ret(st, x)
    cand = []
    for b in I.prog.impls.get(("From", "from"), []):
        m = {}
        if unify(b["impl_self"], dst, m) and b["sig"][0]:
            pt = b["sig"][0][0]
            m2 = dict(m)
            if pt[0] == 'param':
                cand.append((2, b, m2))
            elif match_ty(pt, src, m2):
                cand.append((0, b, m2))
    if cand:
        cand.sort(key=lambda z: z[0])
        _, b, m = cand[0]
        csub = tuple(sorted((k, v) for k, v in m.items() if v != ('param', k)))
        return I.enter(b, csub, [x], st, c)
    dn = I.tyname(dst) if hasattr(I, 'tyname') else I.prog.tyname(dst)
    d = pty(dst)
    s = pty(src)
    if is_text(I, d) and is_text(I, s):
        if d is not None and d[0] == 'adt' and d[1] == I.COW:
            return ret(st, ('A', I.COW, 0, (x,)) if src[0] == 'ref' else ('A', I.COW, 1, (x,)))
        return ret(st, ('q', I.as_segs(st, full(I, st, x))))
    if dst[0] == 'prim' and src[0] == 'prim' and x[0] == 'i':
        return ret(st, x)
    if dst[0] == 'adt' and dst[1] == I.OPTION and targ(dst) == src:
        return ret(st, I.some(x))
    if dst[0] == 'adt' and I.adt_name(dst[1]) == 'String' and src == ('prim', 'char') and x[0] == 'i':
        return ret(st, ('q', (char_seg(x),)))
    if dst[0] == 'adt' and I.elem_ty(dst) is not False and I.elem_ty(s) is not False and I.adt_name(dst[1]) in ('Vec', 'VecDeque', 'String', 'Box'):
        return ret(st, ('q', I.as_segs(st, full(I, st, x))))
    return ret(st, ('S', ('from', x, dst), dst))


def match_ty(p, t, m):
    if p[0] == 'param':
        if p[1] in m and m[p[1]] != t:
            return False
        m[p[1]] = t
        return True
    if p[0] != t[0]:
        return False
    if p[0] == 'adt':
        return p[1] == t[1] and len(p[2]) == len(t[2]) and all(match_ty(a, b, m) for a, b in zip(p[2], t[2]))
    if p[0] in ('ref', 'ptr'):
        return match_ty(p[2], t[2], m)
    return p == t


def is_text(I, t):
    if t is None:
        return False
    if t == ('str',):
        return True
    if t[0] == 'adt':
        n = I.adt_name(t[1])
        if n in ('String', 'Utf8Bytes'):
            return True
        if n in ('Cow', 'Box', 'Arc', 'Rc') and t[2]:
            return is_text(I, t[2][0])
    return False


@model("Into::into", "From::from")
def _(I, st, args, c):
    src = c.atys[0]
    dst = c.dty
    if src is not None and src == dst:
        return ret(st, args[0])
    if src is not None and dst is not None and dst[0] == 'adt' and dst[1] == I.OPTION and targ(dst) == src:
        return ret(st, I.some(args[0]))
    if src is not None and src[0] == 'param':
        return pure(I, st, args, c)
    if dst is not None and dst[0] == 'param':
        return pure(I, st, args, c)
    return convert(I, st, args[0], src, dst, c)


@model("TryFrom::try_from", "TryInto::try_into")
def _(I, st, args, c):
    d = targ(c.dty)
    if args[0][0] == 'i' and d and d[0] == 'prim' and d[1] in PRIM_RANGE:
        lo, hi = PRIM_RANGE[d[1]]
        src = c.atys[0]
        if src is not None and src[0] == 'prim' and src[1] in PRIM_RANGE and lo <= PRIM_RANGE[src[1]][0] and PRIM_RANGE[src[1]][1] <= hi:
            return ret(st, I.ok(args[0]))
        p = pand(pge(ladd(args[0], I_(-lo))), pge(ladd(lscale(args[0], -1), I_(hi))))
        return [(s, 'ret', I.ok(args[0]) if b else I.err(('S', ('tryfrom', args[0]), targ(c.dty, 1))))
                for s, b in pred_fork(st, p)]
    return None


def I_(n):
    return ('i', n, NOFS)


I0 = I_(0)
I1 = I_(1)


def pure(I, st, args, c):
    """unknown operation without effects: named by its arguments only"""
    fz = intern(tuple(I.freeze(st, a) for a in args))
    return ret(st, I.sym(('fn', c.name, fz), c.dty))


def default(I, ty):
    if ty is None:
        return ('S', ('default',), None)
    if ty[0] == 'prim':
        return ('b', False) if ty[1] == 'bool' else I_(0)
    if ty[0] == 'tuple':
        return ('T', tuple(default(I, t) for t in ty[1]))
    if I.elem_ty(ty) is not False:
        return ('q', ())
    if ty[0] == 'adt':
        if ty[1] == I.OPTION:
            return I.none
        n = I.adt_name(ty[1])
        if n in ('HashMap', 'BTreeMap', 'HashSet'):
            return ('A', 'Map', 0, (None, (), ty[2][1] if len(ty[2]) > 1 else None))
    return ('S', ('default', ty), ty)


@model("Default::default")
def _(I, st, args, c):
    return ret(st, default(I, c.dty))


# ------------------------------------------------------------------------------------------- references, cells
def auto_deref(I, st, x):
    """&String/&Vec/&Box/&Cow -> reference to the contents"""
    r, p = loc(I, st, x)
    v = I.load(st, r, p)
    if v[0] == 'A' and v[1] == I.COW:
        if v[2] == 0:
            return auto_deref(I, st, v[3][0]) if v[3][0][0] == 'R' else v[3][0]
        return auto_deref(I, st, ('R', r, p + (('f', 0, 1),)))
    if v[0] == 'R':
        return v
    if v[0] == 'A' and v[1] == 'Guard':
        return v[3][0]
    if v[0] == 'S' and v[2] is not None and v[2][0] == 'adt':
        n = I.adt_name(v[2][1])
        if n == 'Cow':
            return ('R', ('D', ('cow', v[1]), v[2][2][0] if v[2][2] else None), ())
        if n in ('Arc', 'Box', 'Rc', 'Pin', 'MutexGuard', 'RefMut', 'Ref'):
            rr, pp = I.deref(st, v)
            return ('R', rr, pp)
    if v[0] == 'S' and v[2] is not None and v[2][0] == 'ref':
        rr, pp = I.deref(st, v)
        return ('R', rr, pp)
    return ('R', r, p)


@model("Deref::deref", "DerefMut::deref_mut")
def _(I, st, args, c):
    t = pty(c.atys[0])
    a = args[0]
    if t is not None and t[0] == 'param':
        return pure(I, st, args, c)
    if t is not None and t[0] == 'adt' and t[1] == I.COW:
        # force a decision only if needed
        r, p = loc(I, st, a)
        v = I.load(st, r, p)
        if v[0] == 'S' and v[2] is not None:
            # contents are the text whatever the form
            return ret(st, ('R', ('D', ('cow', v[1]), v[2][2][0] if v[2][2] else None), ()))
    return ret(st, auto_deref(I, st, a))


@model("AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "String::as_str", "String::as_mut_str", "Vec::as_slice",
       "Vec::as_mut_slice", "String::as_bytes", "str::as_bytes", "Box::as_ref", "[T]::as_ref", "Cow::as_ref",
       "Arc::as_ref", "String::as_mut_vec", "Vec::leak", "str::as_str", "Box::leak")
def _(I, st, args, c):
    t = pty(c.atys[0])
    if c.name == 'Box::leak':
        st = st.copy()
        st.event('leak', I.freeze(st, args[0], 8))
    if t is not None and t[0] == 'param':
        return pure(I, st, args, c)
    a = args[0]
    for _ in range(4):
        b = auto_deref(I, st, a)
        if b == a:
            break
        a = b
    return ret(st, a)


@model("Arc::new", "Rc::new", "Box::new", "Box::pin", "Pin::from", "Box::from")
def _(I, st, args, c):
    st = st.copy()
    return ret(st, I.alloc(st, 'box', args[0]))


@model("Pin::new", "Pin::new_unchecked", "Pin::as_mut", "Pin::get_mut", "Pin::get_unchecked_mut", "Pin::into_inner",
       "hint::must_use", "convert::identity", "IntoFuture::into_future", "async_await::assert_unpin",
       "async_await::assert_fused_future", "async_await::assert_fused_stream", "FutureExt::boxed",
       "FutureExt::boxed_local", "Pin::as_ref", "StreamExt::boxed", "Cow::from", "hint::black_box", "Box::into_pin",
       "Pin::set_unused", "async_await::assert_fused", "Box::into_inner", "Arc::clone")
def _(I, st, args, c):
    if c.name == "Arc::clone":
        return ret(st, val(I, st, args[0]))
    if c.name == "Pin::as_mut":
        v = val(I, st, args[0])
        return ret(st, v if v[0] == 'R' else args[0])
    return ret(st, args[0])


@model("Arc::ptr_eq")
def _(I, st, args, c):
    return ret(st, ('b', I.val_eq(st, val(I, st, args[0]), val(I, st, args[1]))))


@model("mem::drop", "drop")
def _(I, st, args, c):
    return [(s, 'ret', UNIT) for s in I.drop_value(st, args[0], c.atys[0])]


@model("mem::forget", "ManuallyDrop::new", "Box::into_raw", "Arc::into_raw")
def _(I, st, args, c):
    st = st.copy()
    st.event('leak', I.freeze(st, args[0], 8))
    if c.name == 'mem::forget':
        return ret(st, UNIT)
    return ret(st, args[0]) if c.name == 'ManuallyDrop::new' else I.unknown(st, args, c, c.name)


@model("FutureExt::remote_handle")
def _(I, st, args, c):
    h = ('A', 'Handle', 0, (I.freeze(st, args[0], 1)[1], task_ty(I, args[0])))
    return ret(st, ('T', (('A', 'Remote', 0, (args[0],)), h)))


@model("mem::take")
def _(I, st, args, c):
    st = st.copy()
    r, p = loc(I, st, args[0])
    v = typed(I.load(st, r, p), pty(c.atys[0]))
    t = pty(c.atys[0])
    if t is not None and t[0] == 'adt':
        bs = [b for b in I.prog.impls.get(("Default", "default"), []) if b["impl_self"][1] == t[1]]
        if bs:
            return I.bind(I.enter(bs[0], (), [], st, c), lambda s, d: (I.store(s, r, p, d), ret(s, v))[1])
    I.store(st, r, p, default(I, t))
    return ret(st, v)


@model("mem::replace")
def _(I, st, args, c):
    st = st.copy()
    r, p = loc(I, st, args[0])
    v = typed(I.load(st, r, p), pty(c.atys[0]))
    I.store(st, r, p, args[1])
    return ret(st, v)


@model("mem::swap")
def _(I, st, args, c):
    st = st.copy()
    r, p = loc(I, st, args[0])
    r2, p2 = loc(I, st, args[1])
    a, b = I.load(st, r, p), I.load(st, r2, p2)
    I.store(st, r, p, b)
    I.store(st, r2, p2, a)
    return ret(st, UNIT)


def clone_val(I, st, v):
    return v


@model("Clone::clone", "ToOwned::to_owned", "Clone::clone_from")
def _(I, st, args, c):
    t = c.atys[0]
    inner = t[2] if t is not None and t[0] == 'ref' else t
    if inner is not None and inner[0] == 'param':
        return pure(I, st, args, c)
    v = typed(val(I, st, args[0]), inner)
    if inner is not None and I.elem_ty(inner) is not False or c.name == "ToOwned::to_owned" and (
            inner is None or inner[0] not in ('adt', 'tuple', 'prim', 'ref') or v[0] in 'qL'):
        v = full(I, st, v)
        return ret(st, v if v[0] == 'A' and v[1] == I.COW else ('q', I.as_segs(st, v)))
    return ret(st, v)


@model("Cow::into_owned", "Cow::to_mut_unused")
def _(I, st, args, c):
    return ret(st, ('q', I.as_segs(st, full(I, st, args[0]))))


@model("Cow::is_borrowed", "Cow::is_owned")
def _(I, st, args, c):
    return None


@model("RefCell::new", "Mutex::new", "Cell::new", "RwLock::new")
def _(I, st, args, c):
    return ret(st, ('A', c.name.split('::')[0], 0, (args[0],)))


def inner_name(I, ty):
    t = targ(ty)
    return I.prog.tyname(t) if t is not None else '?'


def take_guard(I, st, args, c, kind):
    st = st.copy()
    r, p = deep_place(I, st, args[0])
    lk = (kind, inner_name(I, c.atys[0]), r, p)
    if lk in st.locks:
        st.event('relock', lk)
    st.event('lock', lk)
    st.locks = st.locks + (lk,)
    return st, ('A', 'Guard', 0, (('R', r, p + (('in',),)), lk))


@model("Mutex::lock", "RwLock::write", "RwLock::read")
def _(I, st, args, c):
    st, g = take_guard(I, st, args, c, 'mutex')
    return ret(st, I.ok(g))


@model("Mutex::try_lock")
def _(I, st, args, c):
    s2, g = take_guard(I, st, args, c, 'mutex')
    return ret(s2, I.ok(g)) + ret(st, I.err(('S', ('would block',), None)))


@model("Mutex::get_mut", "RefCell::get_mut")
def _(I, st, args, c):
    r, p = deep_place(I, st, args[0])
    x = ('R', r, p + (('in',),))
    return ret(st, I.ok(x) if c.name.startswith('Mutex') else x)


@model("RefCell::borrow_mut", "RefCell::borrow")
def _(I, st, args, c):
    r, p = deep_place(I, st, args[0])
    lk = ('cell', inner_name(I, c.atys[0]), r, p)
    if lk in st.locks:
        return I.panic(st, 'RefCell already borrowed')
    st, g = take_guard(I, st, args, c, 'cell')
    return ret(st, g)


# ---------------------------------------------------------------------------------------------------- equality
@model("PartialEq::eq", "PartialEq::ne")
def _(I, st, args, c):
    a, b = full(I, st, args[0]), full(I, st, args[1])
    a, b = typed(a, pty(c.atys[0])), typed(b, pty(c.atys[1]))
    p = eq_pred(I, st, a, b, pty(c.atys[0]))
    return ret(st, ('b', p if c.name.endswith('eq') else pnot(p)))


def eq_pred(I, st, a, b, ty):
    if a[0] == 'U' or b[0] == 'U':
        return ('p', ('eq',) + tuple(sorted((I.freeze(st, a), I.freeze(st, b)), key=repr)))
    for x in (a, b):
        if x[0] == 'A' and x[1] == I.COW or (x[0] == 'S' and x[2] is not None and is_text(I, x[2])):
            return I.seq_eq(st, I.as_segs(st, text_of(I, st, a)), I.as_segs(st, text_of(I, st, b)))
    if a[0] == 'q' or b[0] == 'q':
        return I.seq_eq(st, I.as_segs(st, a), I.as_segs(st, b))
    return I.val_eq(st, a, b)


def text_of(I, st, v):
    v = full(I, st, v)
    if v[0] == 'A' and v[1] == I.COW:
        return text_of(I, st, v[3][0])
    if v[0] == 'S' and v[2] is not None and v[2][0] == 'adt' and v[2][1] == I.COW:
        return ('S', ('*', ('cow', v[1])), ('str',))
    return v


@model("PartialOrd::le", "PartialOrd::lt", "PartialOrd::ge", "PartialOrd::gt")
def _(I, st, args, c):
    t = pty(c.atys[0])
    tn = I.prog.tyname(t) if t else ''
    if tn in ('Level', 'LevelFilter'):
        return ret(st, ('b', ('noise', c.line)))
    a, b = full(I, st, args[0]), full(I, st, args[1])
    if a[0] == 'i' and b[0] == 'i':
        op = c.name.split('::')[1]
        d = {'lt': ladd(lsub(b, a), I_(-1)), 'le': lsub(b, a), 'gt': ladd(lsub(a, b), I_(-1)), 'ge': lsub(a, b)}[op]
        return ret(st, ('b', pge(d)))
    return pure(I, st, args, c)


@model("cmp::min", "Ord::min")
def _(I, st, args, c):
    a, b = args
    if a[0] == 'i' and b[0] == 'i':
        return [(s, 'ret', a if t else b) for s, t in pred_fork(st, pge(lsub(b, a)))]
    return None


@model("cmp::max", "Ord::max")
def _(I, st, args, c):
    a, b = args
    if a[0] == 'i' and b[0] == 'i':
        return [(s, 'ret', a if t else b) for s, t in pred_fork(st, pge(lsub(a, b)))]
    return None


def int_method(op):
    def g(I, st, args, c):
        a, b = args[0], args[1]
        if a[0] != 'i' or b[0] != 'i':
            return None
        t = c.atys[0]
        lo, hi = PRIM_RANGE.get(t[1], (0, 2**64 - 1))
        r = ladd(a, b) if op.endswith('add') else lsub(a, b) if op.endswith('sub') else None
        if r is None:
            return None
        p = pand(pge(ladd(r, I_(-lo))), pge(ladd(lscale(r, -1), I_(hi))))
        if op.endswith('add') and all(small_atom(x) or I.is_counter(x) for x, _ in r[2]):
            p = pge(ladd(r, I_(-lo)))
        out = []
        for s, b2 in pred_fork(st, p):
            if op.startswith('checked'):
                out += ret(s, I.some(r) if b2 else I.none)
            elif op.startswith('saturating'):
                out += ret(s, r if b2 else I_(hi if op.endswith('add') else lo))
            elif op.startswith('wrapping'):
                out += ret(s, r if b2 else I.sym(('wrap', op, a, b), t))
        return out
    return g


for _t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'num'):
    for _o in ('checked_add', 'checked_sub', 'saturating_add', 'saturating_sub', 'wrapping_add', 'wrapping_sub'):
        M[_t + '::' + _o] = int_method(_o)


# ------------------------------------------------------------------------------------------------ sequences
def seqv(I, st, a):
    """segments of the text / vector behind a reference or value"""
    v = full(I, st, a)
    for _ in range(4):
        if v[0] == 'A' and v[1] == 'Guard':
            v = full(I, st, v[3][0])
        else:
            break
    return I.as_segs(st, text_of(I, st, v) if (v[0] == 'A' and v[1] == I.COW) or
                     (v[0] == 'S' and v[2] is not None and v[2][0] == 'adt' and v[2][1] == I.COW) else v)


def seqplace(I, st, a):
    r, p = deep_place(I, st, a)
    v = I.load(st, r, p)
    if v[0] == 'A' and v[1] == 'Guard':
        return seqplace(I, st, v[3][0])
    return r, p


def modest(I, st, n):
    """a number bounded by a constant or by the length of something"""
    if n[0] != 'i':
        return n[0] != 'S'
    if st.bounds(n)[1] <= 1 << 20:
        return True
    n1 = ladd(n, I_(-(1 << 16)))
    if all(a[0] == 'len' and 0 < k <= 8 for a, k in n[2]):
        return True
    seen = set()
    for f in st.ge:
        for a, _ in f[2]:
            if a[0] == 'len' and a not in seen:
                seen.add(a)
                if st.entails_ge(lsub(('i', 0, frozenset([(a, 1)])), n1)):
                    return True
    return False


def sized(I, st, n, c, what='alloc'):
    """outcomes of asking for room (or rounds) for n items: none, unless the check at hand wants to know (hook 'sized')"""
    h = I.hooks.get('sized')
    if h is None or n is None:
        return []
    if n[0] == 'S' and n[2] is not None and n[2][0] == 'prim':
        n = I.sym(n[1], n[2])
    ok = modest(I, st, n)
    h(I, st, n, c, what, ok)
    return [] if ok or what != 'alloc' else [(st.copy(), 'panic', ('capacity overflow', c.name))]


@model("String::new", "Vec::new", "VecDeque::new", "Vec::with_capacity", "String::with_capacity",
       "VecDeque::with_capacity")
def _(I, st, args, c):
    return ret(st, ('q', ())) + (sized(I, st, args[0], c) if args else [])


@model("String::len", "str::len", "Vec::len", "[T]::len", "VecDeque::len", "Match::len_unused")
def _(I, st, args, c):
    return ret(st, I.segs_len(seqv(I, st, args[0])))


@model("String::is_empty", "str::is_empty", "Vec::is_empty", "[T]::is_empty", "VecDeque::is_empty")
def _(I, st, args, c):
    return ret(st, ('b', peq0(I.segs_len(seqv(I, st, args[0])))))


def seq_store(I, st, a, segs):
    st = st.copy()
    r, p = seqplace(I, st, a)
    I.store(st, r, p, ('q', I.norm_segs(segs)))
    return st


def elem_seg(v):
    if v[0] == 'i' and not v[2] and 0 <= v[1] < 256:
        return ('lit', bytes([v[1]]))
    return ('e', v)


@model("Vec::push", "VecDeque::push_back")
def _(I, st, args, c):
    s = seqv(I, st, args[0])
    return ret(seq_store(I, st, args[0], s + (elem_seg(args[1]),)), UNIT)


def char_seg(v):
    if v[0] == 'i' and not v[2]:
        return ('lit', chr(v[1]).encode())
    return ('disp', 'char', v)


@model("String::push")
def _(I, st, args, c):
    s = seqv(I, st, args[0])
    return ret(seq_store(I, st, args[0], s + (char_seg(args[1]),)), UNIT)


@model("String::push_str", "Vec::extend_from_slice")
def _(I, st, args, c):
    s = seqv(I, st, args[0])
    return ret(seq_store(I, st, args[0], s + seqv(I, st, args[1])), UNIT)


@model("Vec::append")
def _(I, st, args, c):
    s, t = seqv(I, st, args[0]), seqv(I, st, args[1])
    st = seq_store(I, st, args[0], s + t)
    return ret(seq_store(I, st, args[1], ()), UNIT)


@model("String::clear", "Vec::clear", "VecDeque::clear")
def _(I, st, args, c):
    return ret(seq_store(I, st, args[0], ()), UNIT)


@model("String::truncate", "Vec::truncate")
def _(I, st, args, c):
    s = seqv(I, st, args[0])
    n = I.segs_len(s)
    out = []
    for s2, b in pred_fork(st, pge(lsub(n, args[1]))):
        if not b:
            out += ret(s2, UNIT)
        else:
            out += ret(seq_store(I, s2, args[0], I.seq_slice(s2, s, I0, args[1])), UNIT)
    return out


@model("Vec::resize_with", "Vec::resize")
def _(I, st, args, c):
    s = seqv(I, st, args[0])
    n = I.segs_len(s)
    out = sized(I, st, args[1], c)
    for s2, b in pred_fork(st, pge(lsub(n, args[1]))):
        if b:
            out += ret(seq_store(I, s2, args[0], I.seq_slice(s2, s, I0, args[1])), UNIT)
        else:
            if c.name.endswith('with'):
                for s3, k, v in callv(I, s2, args[2], [], c, None):
                    if k == 'ret':
                        out += ret(seq_store(I, s3, args[0], s + (('star', ('resize', n, args[1]), ((('e', v),),)),)), UNIT)
                    else:
                        out.append((s3, k, v))
            else:
                out += ret(seq_store(I, s2, args[0], s + (('star', ('resize', n, args[1]), ((('e', args[2]),),)),)), UNIT)
    return out


@model("Vec::insert", "VecDeque::push_front", "String::insert", "String::insert_str")
def _(I, st, args, c):
    s = seqv(I, st, args[0])
    i = args[1] if 'insert' in c.name else I0
    x = args[-1]
    seg = (char_seg(x),) if c.name == 'String::insert' else seqv(I, st, x) if c.name == 'String::insert_str' \
        else (elem_seg(x),)
    n = I.segs_len(s)
    out = []
    for s2, b in pred_fork(st, pge(lsub(n, i))):
        if not b:
            out += I.panic(s2, 'insertion index out of bounds')
            continue
        out += ret(seq_store(I, s2, args[0], I.seq_slice(s2, s, I0, i) + seg + I.seq_slice(s2, s, i, n)), UNIT)
    return out


@model("Vec::pop", "VecDeque::pop_back", "VecDeque::pop_front")
def _(I, st, args, c):
    s = seqv(I, st, args[0])
    n = I.segs_len(s)
    out = []
    for s2, b in pred_fork(st, peq0(n)):
        if b:
            out += ret(s2, I.none)
            continue
        front = c.name.endswith('front')
        i = I0 if front else ladd(n, I_(-1))
        e = I.seq_at(s2, ('q', s), i)
        rest = I.seq_slice(s2, s, I1, n) if front else I.seq_slice(s2, s, I0, i)
        out += ret(seq_store(I, s2, args[0], rest), I.some(e))
    return out


@model("Vec::remove", "Vec::swap_remove", "VecDeque::remove")
def _(I, st, args, c):
    s = seqv(I, st, args[0])
    n = I.segs_len(s)
    i = args[1]
    out = []
    for s2, b in pred_fork(st, pge(ladd(lsub(n, i), I_(-1)))):
        if not b:
            out += I.panic(s2, 'removal index out of bounds')
            continue
        e = I.seq_at(s2, ('q', s), i)
        rest = I.seq_slice(s2, s, I0, i) + I.seq_slice(s2, s, ladd(i, I1), n)
        if c.name == "Vec::swap_remove":
            rest = (('star', ('swap_remove', s, i), (s,)),)
        out += ret(seq_store(I, s2, args[0], rest), e)
    return out


@model("[T]::first", "[T]::get", "[T]::last", "[T]::get_mut", "[T]::first_mut", "[T]::last_mut", "VecDeque::get",
       "VecDeque::front", "VecDeque::back", "[T]::get_unchecked", "Vec::first", "str::get")
def _(I, st, args, c):
    r, p = seqplace(I, st, args[0])
    segs = seqv(I, st, args[0])
    n = I.segs_len(segs)
    m = c.name.split('::')[1].replace('_mut', '')
    if m in ('first', 'front'):
        i = I0
    elif m in ('last', 'back'):
        i = ladd(n, I_(-1))
    else:
        i = args[1]
    if i[0] == 'i':
        out = []
        for s, b in pred_fork(st, pge(ladd(lsub(n, i), I_(-1)))):
            out += ret(s, I.some(('R', r, p + (('idx', i, targ2(I, c.atys[0])),))) if b else I.none)
        return out
    rg = range_of(I, st, i, n)
    if rg is None:
        return None
    lo, hi = rg
    out = []
    ok = pand(pge(lsub(hi, lo)), pge(lsub(n, hi)))
    for s, b in pred_fork(st, ok):
        if not b:
            out += ret(s, I.none)
            continue
        if c.name == 'str::get' and not (boundary(I, s, segs, lo, n) and boundary(I, s, segs, hi, n)):
            out += ret(s, I.none)
        out += ret(s, I.some(('R', r, p + (('sl', lo, hi),))))
    return out


def targ2(I, ty):
    e = I.elem_ty(pty(ty)) if ty is not None else None
    return e if e else None


def range_of(I, st, v, n):
    v = full(I, st, v)
    if v[0] == 'S' and v[2] is not None and v[2][0] == 'adt':
        v = I.expand(v)
    if v[0] != 'A':
        return None
    name = I.adt_name(v[1])
    f = v[3]
    if name == 'Range':
        return f[0], f[1]
    if name == 'RangeFrom':
        return f[0], n
    if name == 'RangeTo':
        return I0, f[0]
    if name == 'RangeFull':
        return I0, n
    if name == 'RangeInclusive' and len(f) >= 2:
        return f[0], ladd(f[1], I1)
    if name == 'RangeToInclusive':
        return I0, ladd(f[0], I1)
    return None


def boundary(I, st, segs, pos, n):
    """is pos known to be a character boundary of the text segs?"""
    if pos == I0 or pos == n:
        return True
    if st.decide(peq0(pos)) is True or st.decide(peq0(lsub(n, pos))) is True:
        return True
    # walk over segments
    off = pos
    for s in segs:
        ln = I.seg_len(s)
        if off == I0:
            return True
        if s[0] == 'lit' and is_const(off) and off[1] <= len(s[1]):
            return off[1] == len(s[1]) or (s[1][off[1]] & 0xc0) != 0x80
        if s[0] == 'sub':
            ap = ladd(s[2], off)
            if known_boundary(I, st, s[1], ap):
                return True
            # the character before or after is known to be ascii
            prev = ('byte', s[1], ladd(ap, I_(-1)))
            if st.range_of(prev)[1] < 128 and (is_const(ladd(off, I_(-1))) or True):
                return True
            nxt = ('byte', s[1], ap)
            if st.range_of(nxt)[1] < 128:
                return True
            return False
        off = lsub(off, ln)
    return False


def known_boundary(I, st, term, pos):
    """is pos a character boundary of this very text?"""
    if (term, pos) in I.hooks.get('boundaries', ()) or pos == I0:
        return True
    for a, c in pos[2]:
        if c != 1 or not isinstance(a, tuple) or not a:
            continue
        if a[0] == 'len' and a[1] == term and pos == atom(a):
            return True
        if a[0] in ('capstart', 'capend', 'rawoff', 'chw'):
            # a boundary of the sub-text which starts at base
            base = a[-1]
            if isinstance(base, tuple) and len(base) == 2 and base[0] == term and base[1] == lsub(pos, atom(a)):
                return True
    return False


def named(c, name):
    """the same call site under another name"""
    import copy
    d = copy.copy(c)
    d.name = name
    return d


@model("Index::index", "IndexMut::index_mut")
def _(I, st, args, c):
    t = pty(c.atys[0])
    if t is not None and t[0] == 'param':
        return pure(I, st, args, c)
    if t is not None and t[0] == 'adt' and I.adt_name(t[1]) in ('HashMap', 'BTreeMap', 'Map'):
        r, p = deep_place(I, st, args[0])
        key = mapkey(I, st, args[1])
        out = []
        for s, b in map_has(I, st, r, p, key, t):
            out += ret(s, ('R', r, p + (('mv', key, targ(t, 1)),))) if b else I.panic(s, 'map index')
        return out
    if t is not None and t[0] == 'adt' and I.adt_name(t[1]) == 'Value':
        return None
    if t is not None and t[0] == 'adt' and I.adt_name(t[1]) == 'Captures':
        out = []
        got = M["Captures::get"](I, st, args, named(c, 'Captures::get' if args[1][0] == 'i' else 'Captures::name'))
        if got is None:
            return None
        for s, k, v in got:
            if k == 'ret' and v == I.none:
                out += I.panic(s, 'no such capture')
            elif k == 'ret':
                tq, lo, hi = v[3][0][3]
                out += ret(s, I.const_ref(('q', I.seq_slice(s, tq[1], lo, hi))))
            else:
                out.append((s, k, v))
        return out
    r, p = seqplace(I, st, args[0])
    segs = seqv(I, st, args[0])
    n = I.segs_len(segs)
    i = args[1]
    out = []
    if i[0] == 'i':
        for s, b in pred_fork(st, pge(ladd(lsub(n, i), I_(-1)))):
            out += ret(s, ('R', r, p + (('idx', i, targ2(I, t)),))) if b else I.panic(s, 'index out of bounds')
        return out
    rg = range_of(I, st, i, n)
    if rg is None:
        return None
    lo, hi = rg
    text = is_text(I, t)
    for s, b in pred_fork(st, pand(pge(lsub(hi, lo)), pge(lsub(n, hi)))):
        if not b:
            out += I.panic(s, 'slice range out of bounds')
            continue
        if text:
            bad = [x for x in (lo, hi) if not boundary(I, s, segs, x, n)]
            if bad:
                out += I.panic(s, 'slice not at a character boundary')
        out += ret(s, ('R', r, p + (('sl', lo, hi),)))
    return out


@model("[T]::to_vec", "ToString::to_string", "String::into_bytes", "String::into_boxed_str", "Vec::into_boxed_slice",
       "str::to_owned", "String::from", "str::into_string", "[T]::into_vec", "str::to_string", "str::into_boxed_bytes",
       "slice::into_vec", "[T]::concat_unused", "Vec::from")
def _(I, st, args, c):
    v = full(I, st, args[0])
    t = pty(c.atys[0])
    if c.name == "ToString::to_string" and not is_text(I, t):
        return ret(st, ('q', disp_segs(I, st, v, 'display', t)))
    if t is not None and t[0] == 'param':
        return pure(I, st, args, c)
    return ret(st, ('q', seqv(I, st, args[0])))


@model("boxed::box_assume_init_into_vec_unsafe")
def _(I, st, args, c):
    v = full(I, st, args[0])
    for _ in range(4):
        if v[0] == 'A' and v[1] == '?' and v[3]:
            # the payload of the (manually dropped, maybe uninitialised) box
            v = v[3][-1]
    return ret(st, v) if v[0] == 'q' else None


@model("Box::new_uninit", "Box::write", "Box::assume_init")
def _(I, st, args, c):
    if c.name == "Box::new_uninit":
        st = st.copy()
        return ret(st, I.alloc(st, 'box', MOVED))
    if c.name == "Box::write":
        st = st.copy()
        r, p = loc(I, st, args[0])
        I.store(st, r, p, args[1])
    return ret(st, args[0])


@model("String::from_utf8_unchecked", "str::from_utf8_unchecked", "String::from_utf8_lossy")
def _(I, st, args, c):
    st = st.copy()
    segs = seqv(I, st, args[0])
    st.event('utf8', c.name, segs, I.frames[-1].body["path"])
    if c.name.startswith('str'):
        return ret(st, args[0])
    return ret(st, ('q', segs))


@model("String::from_utf8", "str::from_utf8")
def _(I, st, args, c):
    segs = seqv(I, st, args[0])
    if text_segs(I, st, segs):
        return ret(st, I.ok(('q', segs) if c.name.startswith('String') else args[0]))
    out = []
    for s, b in pred_fork(st, ('p', ('utf8', segs))):
        out += ret(s, I.ok(('q', segs) if c.name.startswith('String') else args[0]) if b
                   else I.err(('S', ('utf8err', segs), targ(c.dty, 1))))
    return out


def text_segs(I, st, segs, d=4):
    """were all parts produced as text?"""
    for s in segs:
        if s[0] == 'lit':
            try:
                s[1].decode()
            except UnicodeDecodeError:
                return False
        elif s[0] == 'disp':
            # formatted text, or bytes written by the JSON serializer
            if s[1] not in ('char', 'dec', 'display', 'debug', 'json', 'jsonatt', 'jsonpart', 'url', 'text'):
                return False
        elif s[0] == 'sub':
            if s[1] not in I.texts or not known_boundary(I, st, s[1], s[2]) or not known_boundary(I, st, s[1], s[3]):
                return False
        elif s[0] == 'e':
            if s[1][0] != 'i' or st.bounds(s[1])[1] > 127:
                return False
        else:
            return False
    return True


@model("str::as_ptr", "[T]::as_ptr", "Vec::as_ptr", "String::as_ptr")
def _(I, st, args, c):
    segs = seqv(I, st, args[0])
    if len(segs) == 1 and segs[0][0] == 'sub':
        return ret(st, ('P', segs[0][1], segs[0][2]))
    return ret(st, ('S', ('ptr', segs), c.dty))


@model("str::parse", "FromStr::from_str")
def _(I, st, args, c):
    segs = seqv(I, st, args[0])
    t = targ(c.dty)
    if t is not None and t[0] == 'adt' and I.prog.adtname(t) == 'Url':
        return M["Url::parse"](I, st, args, c)
    p = ('p', ('parses', I.prog.tyname(t) if t else '?', segs))
    out = []
    for s, b in pred_fork(st, p):
        out += ret(s, I.ok(I.sym(('parse', segs), t)) if b else I.err(('S', ('parseerr', segs), targ(c.dty, 1))))
    return out


@model(*[t + "::from_str_radix" for t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'u128', 'i128', 'num')])
def _(I, st, args, c):
    if args[1] != I_(10):
        return None
    return M["str::parse"](I, st, args[:1], c)


@model("str::starts_with", "str::ends_with", "[T]::starts_with")
def _(I, st, args, c):
    segs = seqv(I, st, args[0])
    pat = args[1]
    pv = full(I, st, pat)
    if pv[0] == 'i':
        lit = (char_seg(pv),)
    elif pv[0] in ('C', 'F'):
        return pure(I, st, args, c)
    else:
        lit = seqv(I, st, pat)
    n, m = I.segs_len(segs), I.segs_len(lit)
    out = []
    for s, b in pred_fork(st, pge(lsub(n, m))):
        if not b:
            out += ret(s, ('b', False))
        else:
            part = I.seq_slice(s, segs, I0, m) if c.name.endswith('starts_with') else I.seq_slice(s, segs, lsub(n, m), n)
            out += ret(s, ('b', I.seq_eq(s, part, lit)))
    return out


@model("str::strip_prefix", "str::strip_suffix", "[T]::strip_prefix")
def _(I, st, args, c):
    segs = seqv(I, st, args[0])
    r, p = seqplace(I, st, args[0])
    pv = full(I, st, args[1])
    if pv[0] in ('C', 'F'):
        return None
    lit = (char_seg(pv),) if pv[0] == 'i' else seqv(I, st, args[1])
    n, m = I.segs_len(segs), I.segs_len(lit)
    pre = c.name.endswith('prefix')
    out = []
    for s, b in pred_fork(st, pge(lsub(n, m))):
        if not b:
            out += ret(s, I.none)
            continue
        part = I.seq_slice(s, segs, I0, m) if pre else I.seq_slice(s, segs, lsub(n, m), n)
        for s2, e in pred_fork(s, I.seq_eq(s, part, lit)):
            out += ret(s2, I.some(('R', r, p + (('sl', m, n) if pre else ('sl', I0, lsub(n, m)),))) if e else I.none)
    return out


@model("[T]::split_first", "[T]::split_last")
def _(I, st, args, c):
    segs = seqv(I, st, args[0])
    r, p = seqplace(I, st, args[0])
    n = I.segs_len(segs)
    out = []
    for s, b in pred_fork(st, peq0(n)):
        if b:
            out += ret(s, I.none)
        elif c.name.endswith('first'):
            out += ret(s, I.some(('T', (('R', r, p + (('idx', I0),)), ('R', r, p + (('sl', I1, n),))))))
        else:
            l = ladd(n, I_(-1))
            out += ret(s, I.some(('T', (('R', r, p + (('idx', l),)), ('R', r, p + (('sl', I0, l),))))))
    return out


@model("[T]::split_at", "str::split_at", "[T]::split_at_mut")
def _(I, st, args, c):
    segs = seqv(I, st, args[0])
    r, p = seqplace(I, st, args[0])
    n = I.segs_len(segs)
    out = []
    for s, b in pred_fork(st, pge(lsub(n, args[1]))):
        if not b:
            out += I.panic(s, 'split_at out of bounds')
            continue
        if c.name.startswith('str') and not boundary(I, s, segs, args[1], n):
            out += I.panic(s, 'split_at not at a character boundary')
        out += ret(s, ('T', (('R', r, p + (('sl', I0, args[1]),)), ('R', r, p + (('sl', args[1], n),)))))
    return out


@model("str::is_char_boundary")
def _(I, st, args, c):
    segs = seqv(I, st, args[0])
    if boundary(I, st, segs, args[1], I.segs_len(segs)):
        return ret(st, ('b', True))
    return ret(st, ('b', ('p', ('boundary', segs, args[1]))))


@model("Vec::split_off", "String::split_off")
def _(I, st, args, c):
    s = seqv(I, st, args[0])
    n = I.segs_len(s)
    out = []
    for s2, b in pred_fork(st, pge(lsub(n, args[1]))):
        if not b:
            out += I.panic(s2, 'split_off out of bounds')
            continue
        tail = I.seq_slice(s2, s, args[1], n)
        out += ret(seq_store(I, s2, args[0], I.seq_slice(s2, s, I0, args[1])), ('q', tail))
    return out


@model("Vec::drain", "String::drain")
def _(I, st, args, c):
    s = seqv(I, st, args[0])
    n = I.segs_len(s)
    rg = range_of(I, st, args[1], n)
    if rg is None:
        return None
    lo, hi = rg
    out = []
    for s2, b in pred_fork(st, pand(pge(lsub(hi, lo)), pge(lsub(n, hi)))):
        if not b:
            out += I.panic(s2, 'drain range out of bounds')
            continue
        mid = I.seq_slice(s2, s, lo, hi)
        s3 = seq_store(I, s2, args[0], I.seq_slice(s2, s, I0, lo) + I.seq_slice(s2, s, hi, n))
        out += ret(s3, It('seq', ('q', mid), I0, 'val'))
    return out


# ------------------------------------------------------------------------------------------------------ iterators
def It(kind, *f):
    return ('A', 'It', 0, (kind,) + f)


@model("[T]::iter", "[T]::iter_mut", "Vec::iter", "VecDeque::iter", "VecDeque::iter_mut")
def _(I, st, args, c):
    r, p = seqplace(I, st, args[0])
    return ret(st, It('seq', ('R', r, p), I0, 'ref'))


@model("IntoIterator::into_iter")
def _(I, st, args, c):
    a = args[0]
    t = c.atys[0]
    if t is not None and t[0] == 'param':
        # any caller-supplied collection: its items, in its order
        return ret(st, It('seq', ('S', ('items', a[1] if a[0] == 'S' else a), ('slice', targ_item(I, c))), I0, 'val'))
    if a[0] == 'A' and a[1] == 'It':
        return ret(st, a)
    v = full(I, st, a)
    if t is not None and t[0] == 'ref':
        if v[0] == 'A' and v[1] == 'It':
            return ret(st, a)
        if I.elem_ty(pty(t)) is not False:
            r, p = seqplace(I, st, a)
            return ret(st, It('seq', ('R', r, p), I0, 'ref'))
        return ret(st, a) if I.adt_of(st, a) is None else None
    if a[0] == 'q' or (t is not None and I.elem_ty(t) is not False):
        return ret(st, It('seq', a if a[0] == 'q' else ('q', I.as_segs(st, a)), I0, 'val'))
    if t is not None and t[0] == 'adt':
        if t[1] == I.OPTION:
            return M["Option::into_iter"](I, st, args, c)
        n = I.adt_name(t[1])
        if n in ('HashMap', 'BTreeMap', 'Map', 'HashSet'):
            return None
    return ret(st, a)


ITEM_TY = {}


def targ_item(I, c):
    return ITEM_TY.get('item')


@model("str::bytes")
def _(I, st, args, c):
    return ret(st, It('seq', ('q', seqv(I, st, args[0])), I0, 'val'))


@model("str::chars", "str::char_indices")
def _(I, st, args, c):
    segs = I.norm_segs(seqv(I, st, args[0]))
    it = It('chars', segs, I0)
    return ret(st, it if c.name.endswith('chars') else It('char_indices', it))


def next_char(I, st, it, segs, pos):
    """the next character of a text: a single byte below 128, or a longer sequence"""
    n = I.segs_len(segs)
    out = []
    for s, b in pred_fork(st, pge(ladd(lsub(n, pos), I_(-1)))):
        if not b:
            out.append((s, it, None))
            continue
        if is_const(pos) and segs and segs[0][0] == 'lit' and pos[1] < len(segs[0][1]):
            ch = segs[0][1][pos[1]:pos[1] + 4].decode(errors='ignore')[:1]
            s = s.copy()
            s.fresh('conc_iter')
            out.append((s, It('chars', segs, I_(pos[1] + len(ch.encode()))), I_(ord(ch))))
            continue
        x = I.seq_at(s, ('q', segs), pos)
        if x[0] != 'i':
            s = s.copy()
            v = atom(('chr', segs, pos))
            w = atom(('chw', (segs, pos)))
            s = (s.add_ge(lsub(lsub(n, pos), w)) or [s])[0].copy()
            out.append((s, It('chars', segs, ladd(pos, w)), v))
            continue
        for s2, a in pred_fork(s, pge(lsub(I_(127), x))):
            if a:
                out.append((s2, It('chars', segs, ladd(pos, I1)), x))
                continue
            s2 = s2.copy()
            base = (segs[0][1], ladd(segs[0][2], pos)) if len(segs) == 1 and segs[0][0] == 'sub' else (segs, pos)
            v, w = atom(('chr', base)), atom(('chw', base))
            s2.rng = dict(s2.rng)
            s2.rng[('chr', base)] = (128, 0x10ffff)
            s2.rng[('chw', base)] = (2, 4)
            r = s2.add_ge(lsub(lsub(n, pos), w))
            s2 = (r[0] if r else s2).copy()
            out.append((s2, It('chars', segs, ladd(pos, w)), v))
    return out


@model("Chars::as_str", "CharIndices::as_str_unused")
def _(I, st, args, c):
    v = full(I, st, args[0])
    if v[0] != 'A' or v[1] != 'It' or v[3][0] != 'chars':
        return None
    segs = v[3][1]
    return ret(st, I.const_ref(('q', I.seq_slice(st, segs, v[3][2], I.segs_len(segs)))))


def char_like(I, st, v, ty):
    v = full(I, st, v)
    return v if v[0] == 'i' else None


@model("char::len_utf8")
def _(I, st, args, c):
    v = full(I, st, args[0])
    if v[0] != 'i':
        return None
    if is_const(v):
        return ret(st, I_(len(chr(v[1]).encode())))
    for a, k in v[2]:
        if a[0] == 'chr' and v == atom(a):
            return ret(st, atom(('chw', a[1])))
    out = []
    for s, b in pred_fork(st, pge(lsub(I_(127), v))):
        if b:
            out += ret(s, I1)
            continue
        for s2, b2 in pred_fork(s, pge(lsub(I_(0x7ff), v))):
            if b2:
                out += ret(s2, I_(2))
                continue
            for s3, b3 in pred_fork(s2, pge(lsub(I_(0xffff), v))):
                out += ret(s3, I_(3) if b3 else I_(4))
    return out


def in_ranges(I, st, v, ranges, c):
    """is the integer v in one of the closed ranges?"""
    out = []
    pend = [st]
    for lo, hi in ranges:
        nxt = []
        for s in pend:
            for s2, b in pred_fork(s, pand(pge(lsub(v, I_(lo))), pge(lsub(I_(hi), v)))):
                if b:
                    out += ret(s2, ('b', True))
                else:
                    nxt.append(s2)
        pend = nxt
    return out + [x for s in pend for x in ret(s, ('b', False))]


CLASSES = {'is_ascii': [(0, 127)], 'is_ascii_digit': [(48, 57)], 'is_ascii_lowercase': [(97, 122)], 'is_ascii_uppercase': [(65, 90)],
           'is_ascii_alphabetic': [(65, 90), (97, 122)], 'is_ascii_alphanumeric': [(48, 57), (65, 90), (97, 122)],
           'is_ascii_control': [(0, 31), (127, 127)], 'is_ascii_whitespace': [(9, 10), (12, 13), (32, 32)], 'is_ascii_graphic': [(33, 126)]}
for _n in CLASSES:
    def _mkc(n):
        def g(I, st, args, c):
            v = full(I, st, args[0])
            return in_ranges(I, st, v, CLASSES[n], c) if v[0] == 'i' else None
        return g
    M['char::' + _n] = M['u8::' + _n] = _mkc(_n)


@model("char::to_digit")
def _(I, st, args, c):
    v, radix = full(I, st, args[0]), args[1]
    if v[0] != 'i' or radix != I_(10):
        return None
    out = []
    for s, b in pred_fork(st, pand(pge(lsub(v, I_(48))), pge(lsub(I_(57), v)))):
        out += ret(s, I.some(lsub(v, I_(48))) if b else I.none)
    return out


@model("[T]::concat", "[T]::join")
def _(I, st, args, c):
    sep = seqv(I, st, args[1]) if len(args) > 1 and full(I, st, args[1])[0] != 'i' else (char_seg(args[1]),) if len(args) > 1 else ()
    out = ()
    for i, s in enumerate(I.as_segs(st, full(I, st, args[0]))):
        if s[0] != 'e':
            return None
        out += (sep if i else ()) + seqv(I, st, s[1])
    return ret(st, ('q', I.norm_segs(out)))


@model("Add::add", "AddAssign::add_assign")
def _(I, st, args, c):
    # text + text
    t = pty(c.atys[0])
    if t is None or not is_text(I, t):
        if c.name == "Add::add" and args[0][0] == 'i' and args[1][0] == 'i':
            return ret(st, ladd(args[0], args[1]))
        return None
    if c.name == "AddAssign::add_assign":
        return ret(seq_store(I, st, args[0], seqv(I, st, args[0]) + seqv(I, st, args[1])), UNIT)
    return ret(st, ('q', I.norm_segs(seqv(I, st, args[0]) + seqv(I, st, args[1]))))


@model("iter::once", "iter::empty", "iter::repeat", "sources::once", "sources::empty", "once::once", "empty::empty", "repeat::repeat")
def _(I, st, args, c):
    k = c.name.split('::')[1]
    return ret(st, It('done') if k == 'empty' else It(k, args[0]))


@model("Vec::reserve", "Vec::reserve_exact", "Vec::shrink_to_fit", "String::reserve", "String::reserve_exact", "String::shrink_to_fit", "VecDeque::reserve", "HashMap::reserve",
       "HashMap::shrink_to_fit", "VecDeque::shrink_to_fit")
def _(I, st, args, c):
    return ret(st, UNIT) + (sized(I, st, args[1], c) if len(args) > 1 else [])


@model("Vec::splice")
def _(I, st, args, c):
    s = seqv(I, st, args[0])
    n = I.segs_len(s)
    rg = range_of(I, st, args[1], n)
    if rg is None or is_lazy(I, st, args[2]):
        return None
    new = items_of(I, st, args[2], c.atys[2])
    if new is None:
        return None
    lo, hi = rg
    out = []
    for s2, b in pred_fork(st, pand(pge(lsub(hi, lo)), pge(lsub(n, hi)))):
        if not b:
            out += I.panic(s2, 'splice range out of bounds')
            continue
        mid = I.seq_slice(s2, s, lo, hi)
        s3 = seq_store(I, s2, args[0], I.seq_slice(s2, s, I0, lo) + new + I.seq_slice(s2, s, hi, n))
        out += ret(s3, It('seq', ('q', mid), I0, 'val'))
    return out


def is_lazy(I, st, a):
    return a[0] == 'A' and a[1] == 'It' and a[3][0] not in ('seq', 'once', 'done')


def few(it):
    """the items of an iterator over explicitly given ones, or None"""
    if it[0] != 'A' or it[1] != 'It':
        return None
    if it[3][0] == 'once':
        return [it[3][1]]
    if it[3][0] == 'done':
        return []
    if it[3][0] == 'chain':
        x, y = few(it[3][1]), few(it[3][2])
        return None if x is None or y is None else x + y
    return None


def items_of(I, st, a, ty):
    """segments of all items of a simple collection or iterator"""
    if a[0] == 'A' and a[1] == 'It':
        k = a[3][0]
        if k == 'once':
            return (elem_seg(a[3][1]),)
        if k == 'done':
            return ()
        if k == 'seq' and a[3][3] == 'val':
            segs = I.as_segs(st, a[3][1])
            return I.seq_slice(st, segs, a[3][2], I.segs_len(segs))
        if k in ('copied', 'cloned') and a[3][1][0] == 'A' and a[3][1][1] == 'It' and a[3][1][3][0] == 'seq':
            f = a[3][1][3]
            segs = I.as_segs(st, f[1])
            # bytes are their own clones
            if all(g[0] in ('lit', 'sub') and (g[0] == 'lit' or g[4] is None) for g in segs):
                return I.seq_slice(st, segs, f[2], I.segs_len(segs))
        if k == 'chain':
            x, y = (items_of(I, st, z, None) if not (z[0] == 'S') else None for z in a[3][1:3])
            return None if x is None or y is None else x + y
        return None
    if a[0] == 'A' and a[1] == I.OPTION:
        return () if a[2] == 0 else (elem_seg(a[3][0]),)
    if a[0] == 'q' or (ty is not None and ty[0] != 'ref' and I.elem_ty(ty) is not False):
        return I.as_segs(st, a)
    return None


@model("[T]::copy_from_slice", "[T]::clone_from_slice")
def _(I, st, args, c):
    a, b = seqv(I, st, args[0]), seqv(I, st, args[1])
    out = []
    for s, e in pred_fork(st, peq0(lsub(I.segs_len(a), I.segs_len(b)))):
        if e:
            out += ret(seq_store(I, s, args[0], b), UNIT)
        else:
            out += I.panic(s, 'copy_from_slice with different lengths')
    return out


@model("[T]::contains")
def _(I, st, args, c):
    segs = I.as_segs(st, full(I, st, args[0]))
    x = full(I, st, args[1])
    if not all(s[0] in ('e', 'lit') for s in segs):
        return None
    els = []
    for s in segs:
        els += [I_(k) for k in s[1]] if s[0] == 'lit' else [full(I, st, s[1])]
    out = []
    pend = [st]
    for e in els:
        nxt = []
        for s in pend:
            for s2, b in pred_fork(s, I.val_eq(s, e, x)):
                if b:
                    out += ret(s2, ('b', True))
                else:
                    nxt.append(s2)
        pend = nxt
    return out + [y for s in pend for y in ret(s, ('b', False))]


@model("str::find")
def _(I, st, args, c):
    segs = seqv(I, st, args[0])
    pv = full(I, st, args[1])
    n = I.segs_len(segs)
    lit = (char_seg(pv),) if pv[0] == 'i' else None
    if lit is None or not is_const(pv) or pv[1] > 127:
        return None
    t = ('find', segs, lit)
    out = []
    for s, b in pred_fork(st, ('p', t)):
        if not b:
            out += ret(s, I.none)
            continue
        i = atom(t)
        s = s.copy()
        for l in (i, ladd(lsub(n, i), I_(-1))):
            r = s.add_ge(l)
            s = (r[0] if r else s).copy()
        x = I.seq_at(s, ('q', segs), i)
        if x[0] == 'i':
            for s2 in s.assume(peq0(lsub(x, pv))):
                out += ret(s2, I.some(i))
        else:
            out += ret(s, I.some(i))
    return out


@model("str::split_once")
def _(I, st, args, c):
    r, p = seqplace(I, st, args[0])
    segs = seqv(I, st, args[0])
    n = I.segs_len(segs)
    out = []
    got = M["str::find"](I, st, args, c)
    if got is None:
        return None
    for s, k, v in got:
        if v == I.none:
            out += ret(s, I.none)
        else:
            i = v[3][0]
            out += ret(s, I.some(('T', (('R', r, p + (('sl', I0, i),)), ('R', r, p + (('sl', ladd(i, I1), n),))))))
    return out


@model("Iterator::map", "Iterator::skip", "Iterator::copied", "Iterator::cloned", "Iterator::enumerate", "Iterator::rev",
       "Iterator::chain", "Iterator::zip", "Iterator::filter", "Iterator::take", "Iterator::by_ref", "Iterator::fuse",
       "Iterator::inspect", "Iterator::filter_map", "Iterator::peekable")
def _(I, st, args, c):
    k = c.name.split('::')[1]
    a = args[0]
    if k in ('by_ref',):
        return ret(st, a)
    if a[0] == 'A' and a[1] != 'It' and I.adt_of(st, a) is None:
        return None
    if k == 'fuse':
        return ret(st, a)
    if k == 'skip' and a[0] == 'A' and a[1] == 'It' and a[3][0] == 'seq' and args[1][0] == 'i':
        n = I.segs_len(I.as_segs(st, a[3][1]))
        np = ladd(a[3][2], args[1])
        return [(s, 'ret', It('seq', a[3][1], np if b else n, a[3][3])) for s, b in pred_fork(st, pge(lsub(n, np)))]
    if k == 'rev':
        return ret(st, It('rev', a)) if rev_base(a) else None
    extra = tuple(args[1:])
    if k == 'enumerate':
        extra = (I0,)
    return ret(st, It(k, a, *extra))


def rev_base(a):
    return a[0] == 'A' and a[1] == 'It' and a[3][0] == 'seq'


def all_items(I, st, a, c):
    """the items of an iterator or collection with a few known items, if taking them does nothing else"""
    if a[0] == 'q':
        a = It('seq', a, I0, 'val')
    if a[0] == 'R':
        r, p = seqplace(I, st, a)
        a = It('seq', ('R', r, p), I0, 'ref')
    out = []
    while a[0] == 'A' and a[1] == 'It' and len(out) < 16:
        try:
            rs = list(it_next(I, st, a, c))
        except TypeError:
            return None
        if len(rs) != 1 or len(rs[0][0].ev) != len(st.ev):
            return None
        st, a, x = rs[0]
        if x is None:
            return out
        out.append(x)
    return None


def it_next(I, st, it, c, itemty=None):
    """[(state, new iterator, None | item | ('panic', info))]"""
    if it[0] == 'R':
        # by reference: advance the iterator in place
        out = []
        v = I.load(st, it[1], it[2])
        for s, n, x in it_next(I, st, v, c, itemty):
            s = s.copy()
            I.store(s, it[1], it[2], n)
            out.append((s, it, x))
        return out
    if it[0] == 'A' and it[1] == 'It':
        k = it[3][0]
        f = it[3]
        if k == 'seq':
            src, pos, mode = f[1], f[2], f[3]
            segs = I.as_segs(st, src)
            n = I.segs_len(segs)
            out = []
            for s, b in pred_fork(st, pge(ladd(lsub(n, pos), I_(-1)))):
                if not b:
                    if 'seqend' in I.hooks:
                        s = s.copy()
                        I.hooks['seqend'](s, segs)
                    out.append((s, it, None))
                    continue
                s = s.copy()
                if is_const(pos) and is_const(n):
                    s.fresh('conc_iter')
                if mode == 'ref':
                    if src[0] == 'R':
                        x = ('R', src[1], src[2] + (('idx', pos),))
                    else:
                        x = I.const_ref(I.seq_at(s, src, pos))
                else:
                    x = I.seq_at(s, ('q', segs), pos)
                out.append((s, It('seq', src, ladd(pos, I1), mode), x))
            return out
        if k == 'rev':
            inner = f[1]
            src, pos, mode = inner[3][1], inner[3][2], inner[3][3]
            segs = I.as_segs(st, src)
            n = I.segs_len(segs)
            done = f[2] if len(f) > 2 else I0
            idx = ladd(lsub(n, done), I_(-1))
            out = []
            for s, b in pred_fork(st, pge(lsub(idx, pos))):
                if not b:
                    out.append((s, it, None))
                    continue
                s = s.copy()
                if is_const(idx):
                    s.fresh('conc_iter')
                x = ('R', src[1], src[2] + (('idx', idx),)) if mode == 'ref' and src[0] == 'R' \
                    else I.seq_at(s, ('q', segs), idx)
                out.append((s, It('rev', inner, ladd(done, I1)), x))
            return out
        out = []
        if k in ('map', 'inspect'):
            for s, n, x in it_next(I, st, f[1], c):
                if x is None or x[0] == 'panic':
                    out.append((s, It(k, n, f[2]), x))
                    continue
                if k == 'inspect':
                    for s2, kk, r in callv(I, s, f[2], [I.const_ref(x)], c, UNITTY):
                        out.append((s2, It(k, n, f[2]), x if kk == 'ret' else ('panic', r)))
                    continue
                s = s.copy()
                cell = I.alloc(s, 'mapf', f[2]) if f[2][0] == 'C' else f[2]
                for s2, kk, r in callv(I, s, cell, [x], c, itemty):
                    g = I.load(s2, cell[1], cell[2]) if cell[0] == 'R' and f[2][0] == 'C' else f[2]
                    if cell[0] == 'R' and f[2][0] == 'C':
                        s2 = s2.copy()
                        s2.mem.pop(cell[1], None)
                    out.append((s2, It(k, n, g if g != MOVED else f[2]), r if kk == 'ret' else ('panic', r)))
            return out
        if k in ('copied', 'cloned'):
            for s, n, x in it_next(I, st, f[1], c):
                out.append((s, It(k, n), x if x is None or x[0] == 'panic' else val(I, s, x)))
            return out
        if k == 'enumerate':
            for s, n, x in it_next(I, st, f[1], c):
                if x is None or x[0] == 'panic':
                    out.append((s, It(k, n, f[2]), x))
                else:
                    out.append((s, It(k, n, ladd(f[2], I1)), ('T', (f[2], x))))
            return out
        if k == 'entries':
            # the entries of a map: the values in some order, each with its key
            for s, n, x in it_next(I, st, f[1], c):
                if x is None or x[0] == 'panic':
                    out.append((s, It(k, n, f[2], f[3]), x))
                else:
                    out.append((s, It(k, n, f[2], f[3]), ('T', (I.const_ref(I.sym((f[2], f[1][3][2]), f[3])), x))))
            return out
        if k == 'chars':
            return next_char(I, st, it, f[1], f[2])
        if k == 'once':
            return [(st, It('done'), f[1])]
        if k == 'done':
            return [(st, it, None)]
        if k == 'repeat':
            return [(st, it, clone_val(I, st, f[1]))]
        if k == 'char_indices':
            return [(s, It(k, n), x if x is None else ('T', (f[1][3][2], x))) for s, n, x in it_next(I, st, f[1], c)]
        if k == 'zip':
            b2 = f[2]
            if not (b2[0] == 'A' and b2[1] == 'It'):
                b2 = It('seq', ('q', I.as_segs(st, b2)), I0, 'ref' if f[2][0] == 'R' else 'val') \
                    if f[2][0] in ('q', 'R') else b2
            for s, n, x in it_next(I, st, f[1], c):
                if x is None or x[0] == 'panic':
                    out.append((s, It(k, n, b2), x))
                    continue
                for s2, n2, y in it_next(I, s, b2, c):
                    out.append((s2, It(k, n, n2), y if y is None or y[0] == 'panic' else ('T', (x, y))))
            return out
        if k == 'chain':
            b2 = f[2]
            if not (b2[0] == 'A' and b2[1] == 'It'):
                if b2[0] == 'A' and b2[1] == I.OPTION:
                    b2 = It('seq', ('q', () if b2[2] == 0 else (('e', b2[3][0]),)), I0, 'val')
                else:
                    b2 = It('seq', b2 if b2[0] in ('q', 'R') else ('q', I.as_segs(st, b2)), I0, 'ref' if b2[0] == 'R' else 'val')
            for s, n, x in it_next(I, st, f[1], c):
                if x is None:
                    out += it_next(I, s, b2, c)
                else:
                    out.append((s, It(k, n, b2), x))
            return out
        if k == 'take':
            if f[1][0] == 'A' and (f[1][1] == 'It' and f[1][3][0] in ('repeat', 'repeat_with', 'cycle') or
                                   f[1][1] in I.prog.adts and I.adt_name(f[1][1]) == 'RangeFrom'):
                sized(I, st, f[2], c, 'rounds')
            for s, b in pred_fork(st, pge(ladd(f[2], I_(-1)))):
                if not b:
                    out.append((s, it, None))
                    continue
                for s2, n, x in it_next(I, s, f[1], c):
                    out.append((s2, It(k, n, ladd(f[2], I_(-1))), x))
            return out
        if k == 'skip':
            # unknown base: skip one by one is not representable; give up order
            pass
    if it[0] == 'A' and it[1] in I.prog.adts and I.adt_name(it[1]) in ('Range', 'RangeFrom') and it[3][0][0] == 'i':
        lo = it[3][0]
        hi = it[3][1] if len(it[3]) > 1 else None
        out = []
        if hi is not None:
            sized(I, st, hi, c, 'rounds')
        for s, b in (pred_fork(st, pge(ladd(lsub(hi, lo), I_(-1)))) if hi is not None else [(st, True)]):
            if not b:
                out.append((s, it, None))
                continue
            s = s.copy()
            if is_const(lo) and (hi is None or is_const(hi)):
                s.fresh('conc_iter')
            out.append((s, ('A', it[1], 0, (ladd(lo, I1),) + ((hi,) if hi is not None else ())), lo))
        return out
    # user iterator or unknown
    s = st.copy()
    n = s.fresh('next')
    ty = itemty
    v = ('item', 'next', n, intern((I.freeze(st, it),)))
    if it[0] == 'A' and it[1] in I.prog.adts and I.prog.adts[it[1]]["local"]:
        bs = [b for b in I.prog.impls.get(("Iterator", "next"), []) if b["impl_self"][1] == it[1]]
        if bs:
            cell = I.alloc(s, 'iter', it)
            out = []
            for s2, kk, r in I.run(bs[0], (), [cell], s):
                if kk != 'ret':
                    out.append((s2, it, ('panic', r)))
                    continue
                for s3, x in opt(I, s2, r, None):
                    out.append((s3, I.load(s3, cell[1], ()), x))
            return out
    return [(a, it, I.sym(v, ty) if b else None) for a, b in pred_fork(s, ('p', ('more', n, v[3])))]


UNITTY = ('tuple', ())


@model("Iterator::next", "DoubleEndedIterator::next_back")
def _(I, st, args, c):
    if c.name.endswith('next_back'):
        return None
    r, p = deep_place(I, st, args[0])
    it = I.load(st, r, p)
    t = pty(c.atys[0])
    if it[0] == 'S':
        return None
    if it[0] == 'A' and it[1] != 'It' and it[1] not in I.prog.adts:
        return None
    out = []
    for s, n, x in it_next(I, st, it, c, targ(c.dty)):
        s = s.copy()
        I.store(s, r, p, n)
        if x is not None and x[0] == 'panic':
            out.append((s, 'panic', x[1]))
        else:
            out += ret(s, I.none if x is None else I.some(x))
    return out


def iterate(I, st, it, c, name, body, itemty=None):
    """run body(state, item) -> [(state, 'cont'|'exit'|'panic', v)] for every item.
    Returns [(state, 'done'|'exit'|'panic', v)]"""
    st = st.copy()
    filters = []
    while it[0] == 'A' and it[1] == 'It' and it[3][0] in ('filter', 'filter_map'):
        filters.append((it[3][0], it[3][2]))
        it = it[3][1]
    cell = I.alloc(st, 'iterate', it)
    k0 = st.fresh(('iterate', name))
    name = ('iterate', name, k0)

    def once(s):
        out = []
        for s2, n, x in it_next(I, s, I.load(s, cell[1], ()), c, itemty):
            s2 = s2.copy()
            I.store(s2, cell[1], (), n)
            if x is None:
                out.append(('done', s2, None))
            elif x[0] == 'panic':
                out.append(('panic', s2, x[1]))
            else:
                for s3, kk, v in filtered(s2, x, list(filters)):
                    out.append(('back' if kk == 'cont' else kk, s3, v))
        return out

    def filtered(s, x, fs):
        if not fs:
            return body(s, x)
        kind, f = fs.pop()
        out = []
        s = s.copy()
        g = I.alloc(s, 'flt', f) if f[0] == 'C' else f
        for s2, kk, r in callv(I, s, g, [I.const_ref(x) if kind == 'filter' else x], c, ('prim', 'bool') if kind == 'filter' else ('adt', I.OPTION, (itemty,))):
            if kk != 'ret':
                out.append((s2, kk, r))
            elif kind == 'filter':
                for s3, b in pred_fork(s2, r[1] if r[0] == 'b' else ('p', r)):
                    out += filtered(s3, x, list(fs)) if b else [(s3, 'cont', None)]
            else:
                for s3, y in opt(I, s2, r, None):
                    out += [(s3, 'cont', None)] if y is None else filtered(s3, y, list(fs))
        return out
    outs = []
    entries = [st]
    widen = []
    for _ in range(12):
        nxt = []
        for s in entries:
            c0 = s.cnt.get('conc_iter', 0)
            backs = []
            for kk, s2, v in once(s.copy()):
                if kk == 'back':
                    backs.append(s2)
                else:
                    outs.append((kk, s2, v))
            if backs and ('unroll' in I.hooks or all(b.cnt.get('conc_iter', 0) > c0 for b in backs)):
                nxt += backs
            elif backs:
                widen.append((s, backs))
        entries = list({s.key(): s for s in nxt}.values())
        if not entries:
            break
    for s in entries:
        widen.append((s, [s]))
    for s, backs in widen:
        outs += I.fix(name + (len(widen),), s, backs, once)
    res_ = []
    for kk, s, v in outs:
        s = s.copy()
        s.mem.pop(cell[1], None)
        res_.append((s, kk, v))
    return res_


def it_of(I, st, v, ty):
    return v


def site(I, c):
    fr = I.frames[-1]
    return (fr.body["path"], c.name, len(I.frames))


@model("Iterator::for_each")
def _(I, st, args, c):
    st = st.copy()
    f = I.alloc(st, 'fe', args[1])

    def body(s, x):
        return [(s2, 'cont' if k == 'ret' else k, r) for s2, k, r in callv(I, s, f, [x], c, UNITTY)]
    out = []
    for s, k, v in iterate(I, st, args[0], c, site(I, c), body):
        out.append((s, 'ret', UNIT) if k == 'done' else (s, k, v))
    return out


@model("Iterator::collect", "FromIterator::from_iter", "Iterator::try_for_each", "Extend::extend", "Vec::extend",
       "Iterator::all", "Iterator::any", "Iterator::count", "Iterator::last", "Iterator::find", "Iterator::find_map",
       "Iterator::fold", "Iterator::try_fold", "Iterator::position", "Iterator::nth")
def _(I, st, args, c):
    m = c.name.split('::')[1]
    it = args[0]
    st = st.copy()
    if m == 'extend':
        base = seqv(I, st, args[0])
        it = args[1]
        if not (it[0] == 'A' and it[1] == 'It'):
            if it[0] == 'q' or it[0] == 'R' or (c.atys[1] and I.elem_ty(pty(c.atys[1])) is not False):
                v = full(I, st, it)
                return ret(seq_store(I, st, args[0], base + I.as_segs(st, v)), UNIT)
    if m == 'extend' and it[0] == 'A' and it[1] == 'It' and it[3][0] == 'seq' and \
            (I.elem_ty(pty(c.atys[0])) is None or (I.elem_ty(pty(c.atys[0])) or ('',))[0] == 'prim'):
        segs = I.as_segs(st, it[3][1])
        if 'seqend' in I.hooks:
            I.hooks['seqend'](st, segs)
        return ret(seq_store(I, st, args[0], base + I.seq_slice(st, segs, it[3][2], I.segs_len(segs))), UNIT)
    if m in ('collect', 'from_iter') and c.dty is not None and c.dty[0] == 'adt' and \
            I.adt_name(c.dty[1]) in ('Vec', 'VecDeque', 'Box') and I.elem_ty(c.dty) is not False and it[0] == 'A' and it[1] == 'It':
        segs = items_of(I, st, it, None)
        if segs is not None:
            return ret(st, ('q', I.norm_segs(segs)))      # the same sequence, yet to be gone through
    if m == 'extend' and it[0] == 'A' and it[1] == 'It' and it[3][0] in ('chain', 'once', 'copied', 'cloned', 'seq') and \
            I.elem_ty(pty(c.atys[0])) is not False and I.adt_name((pty(c.atys[0]) + ('',))[1]) in ('Vec', 'VecDeque'):
        segs = items_of(I, st, it, None)
        if segs is not None:
            if 'seqend' in I.hooks:
                I.hooks['seqend'](st, segs)
            return ret(seq_store(I, st, args[0], base + segs), UNIT)
    tt = c.dty if m != 'extend' else pty(c.atys[0])
    if m in ('collect', 'from_iter', 'extend') and tt is not None and tt[0] == 'adt' and I.adt_name(tt[1]) == 'String' and \
            it[0] == 'A' and it[1] == 'It':
        # a few pieces of text or characters
        xs = few(it)
        if xs is not None:
            new = base if m == 'extend' else ()
            for x in xs:
                new += (char_seg(x),) if x[0] == 'i' else I.as_segs(st, full(I, st, x))
            new = I.norm_segs(new)
            return ret(seq_store(I, st, args[0], new), UNIT) if m == 'extend' else ret(st, ('q', new))
        if it[3][0] == 'chars' and it[3][2] == I0:
            new = I.norm_segs((base if m == 'extend' else ()) + it[3][1])
            return ret(seq_store(I, st, args[0], new), UNIT) if m == 'extend' else ret(st, ('q', new))
    if m in ('collect', 'from_iter', 'extend'):
        t = c.dty if m != 'extend' else pty(c.atys[0])
        item_t = (I.elem_ty(t) or ('prim', 'u8')) if m == 'extend' and t is not None else None
        acc = I.alloc(st, 'acc', ('q', base if m == 'extend' else ()))
        wrap = None
        if m != 'extend' and t is not None and t[0] == 'adt' and t[1] in (I.RESULT, I.OPTION):
            wrap = t[1]
            inner = targ(t)
        else:
            inner = t
        unit = inner is not None and inner == UNITTY
        if not unit and m != 'extend' and inner is not None and I.elem_ty(inner) is False:
            return None

        def push(s, x):
            if unit:
                return [(s, 'cont', None)]
            s = s.copy()
            v = I.load(s, acc[1], ())
            if item_t is not None and x[0] == 'R' and item_t[0] not in ('ref', 'ptr'):
                x = full(I, s, x)
            if inner is not None and inner[0] == 'adt' and I.adt_name(inner[1]) == 'String':
                g = (char_seg(x),) if x[0] == 'i' else I.as_segs(s, full(I, s, x))
            else:
                g = (elem_seg(x),)
            I.store(s, acc[1], (), ('q', I.norm_segs(v[1] + g)))
            return [(s, 'cont', None)]

        def body(s, x):
            if wrap == I.RESULT:
                out = []
                for s2, ok, y in res(I, s, x, c_item(I, c)):
                    out += push(s2, y) if ok else [(s2, 'exit', I.err(y))]
                return out
            if wrap == I.OPTION:
                out = []
                for s2, y in opt(I, s, x, None):
                    out += push(s2, y) if y is not None else [(s2, 'exit', I.none)]
                return out
            return push(s, x)
        out = []
        for s, k, v in iterate(I, st, it, c, site(I, c), body):
            if k == 'done':
                r = UNIT if unit else I.load(s, acc[1], ())
                s.mem.pop(acc[1], None)
                if m == 'extend':
                    out += ret(seq_store(I, s, args[0], r[1]), UNIT)
                elif wrap == I.RESULT:
                    out += ret(s, I.ok(r))
                elif wrap == I.OPTION:
                    out += ret(s, I.some(r))
                else:
                    out += ret(s, r)
            elif k == 'exit':
                s.mem.pop(acc[1], None)
                out += ret(s, v)
            else:
                out.append((s, k, v))
        return out
    if m == 'try_for_each':
        f = I.alloc(st, 'fe', args[1])

        def body(s, x):
            out = []
            for s2, k, r in callv(I, s, f, [x], c, c.dty):
                if k != 'ret':
                    out.append((s2, k, r))
                    continue
                for s3, ok, y in res(I, s2, r, c.dty):
                    out.append((s3, 'cont', None) if ok else (s3, 'exit', I.err(y)))
            return out
        return [(s, 'ret', I.ok(UNIT)) if k == 'done' else (s, 'ret', v) if k == 'exit' else (s, k, v)
                for s, k, v in iterate(I, st, it, c, site(I, c), body)]
    if m in ('all', 'any'):
        f = I.alloc(st, 'fe', args[1])

        def body(s, x):
            out = []
            for s2, k, r in callv(I, s, f, [x], c, ('prim', 'bool')):
                if k != 'ret':
                    out.append((s2, k, r))
                    continue
                for s3, b in pred_fork(s2, r[1] if r[0] == 'b' else ('p', r)):
                    out.append((s3, 'cont', None) if b == (m == 'all') else (s3, 'exit', None))
            return out
        return [(s, 'ret', ('b', m == 'all')) if k == 'done' else (s, 'ret', ('b', m != 'all')) if k == 'exit'
                else (s, k, v) for s, k, v in iterate(I, st, it, c, site(I, c), body)]
    if m in ('fold', 'try_fold'):
        acc = I.alloc(st, 'acc', args[1])
        f = I.alloc(st, 'fe', args[2])
        w = c.dty if m == 'try_fold' else None
        if w is not None and not (w[0] == 'adt' and w[1] in (I.RESULT, I.OPTION)):
            return None

        def body(s, x):
            out = []
            s = s.copy()
            a = I.load(s, acc[1], ())
            I.store(s, acc[1], (), MOVED)
            for s2, k, r in callv(I, s, f, [a, x], c, c.dty):
                if k != 'ret':
                    out.append((s2, k, r))
                    continue
                s2 = s2.copy()
                if w is None:
                    I.store(s2, acc[1], (), r)
                    out.append((s2, 'cont', None))
                    continue
                for s3, ok, y in (res(I, s2, r, w) if w[1] == I.RESULT else [(q, y is not None, y) for q, y in opt(I, s2, r, w)]):
                    s3 = s3.copy()
                    if ok:
                        I.store(s3, acc[1], (), y)
                        out.append((s3, 'cont', None))
                    else:
                        out.append((s3, 'exit', I.err(y) if w[1] == I.RESULT else I.none))
            return out
        out = []
        for s, k, v in iterate(I, st, it, c, site(I, c), body):
            if k == 'done':
                a = I.load(s, acc[1], ())
                out.append((s, 'ret', a if w is None else I.ok(a) if w[1] == I.RESULT else I.some(a)))
            else:
                out.append((s, 'ret' if k == 'exit' else k, v))
        return out
    if m in ('find', 'find_map', 'position', 'count', 'last', 'nth'):
        cell = I.alloc(st, 'pos', I0 if m in ('position', 'count') else I.none if m == 'last' else args[1])

        def body(s, x):
            s = s.copy()
            if m == 'count':
                I.store(s, cell[1], (), ladd(I.load(s, cell[1], ()), I1))
                return [(s, 'cont', None)]
            if m == 'last':
                I.store(s, cell[1], (), I.some(x))
                return [(s, 'cont', None)]
            if m == 'nth':
                k = I.load(s, cell[1], ())
                out = []
                for s2, b in pred_fork(s, peq0(k)):
                    s2 = s2.copy()
                    if not b:
                        I.store(s2, cell[1], (), ladd(k, I_(-1)))
                    out.append((s2, 'exit', I.some(x)) if b else (s2, 'cont', None))
                return out
            out = []
            f = I.alloc(s, 'fe', args[1])
            a = I.const_ref(x) if m == 'find' else x
            for s2, k, r in callv(I, s, f, [a], c, c.dty if m == 'find_map' else ('prim', 'bool')):
                if k != 'ret':
                    out.append((s2, k, r))
                    continue
                if m == 'find_map':
                    for s3, y in opt(I, s2, r, c.dty):
                        out.append((s3, 'cont', None) if y is None else (s3, 'exit', I.some(y)))
                    continue
                for s3, b in pred_fork(s2, r[1] if r[0] == 'b' else ('p', r)):
                    s3 = s3.copy()
                    if m == 'position':
                        i = I.load(s3, cell[1], ())
                        if b:
                            out.append((s3, 'exit', I.some(i)))
                        else:
                            I.store(s3, cell[1], (), ladd(i, I1))
                            out.append((s3, 'cont', None))
                    else:
                        out.append((s3, 'exit', I.some(x)) if b else (s3, 'cont', None))
            return out
        if it[0] == 'R' and m not in ('count', 'last'):
            pass
        out = []
        for s, k, v in iterate(I, st, it, c, site(I, c), body):
            if k == 'done':
                out.append((s, 'ret', I.load(s, cell[1], ()) if m in ('count', 'last') else I.none))
            else:
                out.append((s, 'ret' if k == 'exit' else k, v))
        return out
    return None


def c_item(I, c):
    t = c.dty
    return t


# ------------------------------------------------------------------------------------------------------ formatting
@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex")
def _(I, st, args, c):
    how = c.name.split('new_')[1]
    v = full(I, st, args[0])
    segs = disp_segs(I, st, v, how, pty(c.atys[0]))
    return ret(st, ('A', 'FmtArg', 0, (('q', segs),)))


def disp_segs(I, st, v, how, ty=None):
    if how == 'display':
        if v[0] == 'A' and v[1] == I.COW:
            return disp_segs(I, st, full(I, st, v[3][0]), how)
        if v[0] == 'q' or (v[0] == 'S' and v[2] is not None and (is_text(I, v[2]))):
            return I.as_segs(st, text_of(I, st, v))
        if v[0] == 'i':
            if ty == ('prim', 'char'):
                return (char_seg(v),)
            if is_const(v):
                return (('lit', str(v[1]).encode()),)
            return (('disp', 'dec', v),)
        if v[0] == 'A' and v[1] == 'Url':
            return (('disp', 'url', I.freeze(st, v)),)
        if v[0] == 'A' and v[1] == 'FmtArgs':
            return v[3][0][1]
    return (('disp', how, I.freeze(st, v)),)


@model("Arguments::new", "Arguments::from_str", "Arguments::new_const", "Arguments::new_v1", "Arguments::from_str_nonconst")
def _(I, st, args, c):
    if len(args) == 1:
        return ret(st, ('A', 'FmtArgs', 0, (('q', seqv(I, st, args[0])),)))
    t = seqv(I, st, args[0])
    av = full(I, st, args[1])
    avs = []
    for s in I.as_segs(st, av):
        if s[0] == 'e':
            avs.append(full(I, st, s[1]))
        else:
            avs.append(None)
    if not (len(t) <= 1 and all(s[0] == 'lit' for s in t)):
        return ret(st, ('A', 'FmtArgs', 0, (('q', (('disp', 'fmt', I.freeze(st, ('T', tuple(args)))),)),)))
    b = t[0][1] if t else b''
    segs = ()
    i = 0
    k = 0
    ok = True
    while i < len(b):
        x = b[i]
        if x == 0:
            break
        if x < 0x80:
            segs += (('lit', b[i + 1:i + 1 + x]),)
            i += 1 + x
        elif x == 0x80:
            n = b[i + 1] | (b[i + 2] << 8)
            segs += (('lit', b[i + 3:i + 3 + n]),)
            i += 3 + n
        elif x == 0xC0:
            if k >= len(avs) or avs[k] is None or avs[k][0] != 'A' or avs[k][1] != 'FmtArg':
                ok = False
                break
            segs += avs[k][3][0][1]
            k += 1
            i += 1
        elif x == 0xC8 or (x & 0xC0) == 0xC0:
            # placeholder with options; only the argument index is understood
            flags = x & 0x3f
            i += 1
            opaque = False
            idx = k
            if flags & 1:
                i += 4
                opaque = True
            if flags & 2:
                i += 2
                opaque = True
            if flags & 4:
                i += 2
                opaque = True
            if flags & 8:
                idx = b[i] | (b[i + 1] << 8)
                i += 2
            if idx >= len(avs) or avs[idx] is None:
                ok = False
                break
            if opaque:
                segs += (('disp', 'spec', avs[idx]),)
            else:
                segs += avs[idx][3][0][1]
            k = idx + 1
        else:
            ok = False
            break
    if not ok:
        segs = (('disp', 'fmt', (b, tuple(avs))),)
    return ret(st, ('A', 'FmtArgs', 0, (('q', I.norm_segs(segs)),)))


@model("fmt::format", "ToString::to_string_unused")
def _(I, st, args, c):
    v = args[0]
    if v[0] == 'A' and v[1] == 'FmtArgs':
        return ret(st, v[3][0])
    return None


def writer_of(I, st, a):
    """where bytes written to this writer go: ('vec', place) | ('cur', place of cursor) | None"""
    r, p = loc(I, st, a) if a[0] != 'A' else (None, None)
    if r is None:
        return None
    for _ in range(6):
        v = I.load(st, r, p)
        if v[0] == 'R':
            r, p = v[1], v[2]
            continue
        if v[0] == 'A' and v[1] == 'Cursor':
            return ('cur', r, p, v)
        if v[0] == 'q':
            return ('vec', r, p, v)
        if v[0] == 'S' and v[2] is not None:
            if v[2][0] == 'ref':
                r, p = I.deref(st, v)
                continue
            if I.elem_ty(v[2]) is not False:
                return ('vec', r, p, v)
        return None
    return None


def do_write(I, st, w, segs):
    """append segs to the writer; returns state or None"""
    st = st.copy()
    if w[0] == 'vec':
        I.store(st, w[1], w[2], ('q', I.cat(I.as_segs(st, w[3]), segs)))
        return st
    cur = I.load(st, w[1], w[2])
    inner, pos = cur[3]
    if inner[0] == 'R' or inner[0] == 'S':
        r, p = loc(I, st, inner)
        r, p = deep_place(I, st, inner)
        old = I.as_segs(st, I.load(st, r, p))
    else:
        r, p = None, None
        old = I.as_segs(st, inner)
    n = I.segs_len(old)
    if st.decide(peq0(lsub(n, pos))) is True:
        new = I.cat(old, segs)
    else:
        # overwrites the middle of the buffer
        st.event('overwrite', n, pos)
        new = (('star', ('overwrite', old, pos), (segs,)),)
    npos = ladd(pos, I.segs_len(I.norm_segs(segs)))
    if r is not None:
        I.store(st, r, p, ('q', new))
        I.store(st, w[1], w[2], ('A', 'Cursor', 0, (inner, npos)))
    else:
        I.store(st, w[1], w[2], ('A', 'Cursor', 0, (('q', new), npos)))
    return st


@model("Write::write_fmt", "Write::write_all", "Write::write_str", "Write::write_char", "Write::write")
def _(I, st, args, c):
    w = writer_of(I, st, args[0])
    if w is None:
        return None
    if c.name.endswith('fmt'):
        v = args[1]
        if not (v[0] == 'A' and v[1] == 'FmtArgs'):
            return None
        segs = v[3][0][1]
    elif c.name.endswith('char'):
        segs = (char_seg(args[1]),)
    else:
        segs = seqv(I, st, args[1])
    s = do_write(I, st, w, segs)
    return ret(s, I.ok(I.segs_len(segs) if c.name == 'Write::write' else UNIT))


@model("Cursor::new")
def _(I, st, args, c):
    return ret(st, ('A', 'Cursor', 0, (args[0], I0)))


@model("Cursor::set_position")
def _(I, st, args, c):
    st = st.copy()
    r, p = loc(I, st, args[0])
    v = I.load(st, r, p)
    if v[0] != 'A' or v[1] != 'Cursor':
        return None
    I.store(st, r, p, ('A', 'Cursor', 0, (v[3][0], args[1])))
    return ret(st, UNIT)


@model("Cursor::position")
def _(I, st, args, c):
    v = val(I, st, args[0])
    return ret(st, v[3][1]) if v[0] == 'A' and v[1] == 'Cursor' else None


@model("Cursor::into_inner", "Cursor::get_ref", "Cursor::get_mut")
def _(I, st, args, c):
    v = full(I, st, args[0])
    if v[0] == 'A' and v[1] == 'Cursor':
        return ret(st, v[3][0])
    return None


@model("log::max_level", "__private_api::loc", "log::logger", "__private_api::enabled", "log::STATIC_MAX_LEVEL")
def _(I, st, args, c):
    return ret(st, ('S', ('log', c.name), c.dty) if c.dty != ('prim', 'bool') else ('b', ('noise', c.line)))


@model("__private_api::log", "log::log")
def _(I, st, args, c):
    return ret(st, UNIT)


def fmt_res(I, st, args, c):
    return ret(st, I.sym(('fmtres', c.name), c.dty))


for _n in ("write_fmt", "write_str", "debug_c_like_enum_write_str", "debug_struct_field1_finish",
           "debug_struct_field2_finish", "debug_struct_field3_finish", "debug_struct_field4_finish",
           "debug_struct_field5_finish", "debug_struct_fields_finish", "debug_tuple_field1_finish",
           "debug_tuple_field2_finish", "debug_tuple_field3_finish", "write_char", "pad", "alternate"):
    def _mk(n):
        def g(I, st, args, c):
            st = st.copy()
            st.event('fmt', n, intern(tuple(I.freeze(st, a) for a in args[1:])))
            return ret(st, I.sym(('fmtres', n, st.fresh('fmtres')), c.dty))
        return g
    M["Formatter::" + _n] = _mk(_n)


@model("Display::fmt", "Debug::fmt")
def _(I, st, args, c):
    st = st.copy()
    v = full(I, st, args[0])
    st.event('fmt', c.name, intern((I.freeze(st, v),)))
    return ret(st, I.sym(('fmtres', c.name, st.fresh('fmtres')), c.dty))


@model("intrinsics::discriminant_value", "mem::discriminant")
def _(I, st, args, c):
    v = full(I, st, args[0])
    return ret(st, I.discr(st, typed(v, pty(c.atys[0])), pty(c.atys[0])))


@model("intrinsics::unreachable")
def _(I, st, args, c):
    return []


# ---------------------------------------------------------------------------------------------------------- maps
def mapkey(I, st, k):
    v = full(I, st, k)
    if v[0] == 'i':
        return v
    if v[0] == 'T':
        return v
    return ('q', I.norm_segs(I.as_segs(st, text_of(I, st, v))))


def map_at(I, st, r, p, ty):
    v = I.load(st, r, p)
    if v[0] == 'S':
        return I.as_map(v, targ(ty, 1) if targ(ty, 1) is not None else VALUE_TY.get('Value'))
    if v[0] == 'A' and v[1] == 'Map':
        return v
    return ('A', 'Map', 0, (('map', v), (), targ(ty, 1)))


VALUE_TY = {}


def map_has(I, st, r, p, key, ty):
    """[(state, present?)]; resolves the key against the entries written so far"""
    m = map_at(I, st, r, p, ty)
    out = []
    pend = [st]
    for k, x in m[3][1]:
        nxt = []
        for s in pend:
            e = I.val_eq(s, k, key)
            for s2, b in pred_fork(s, e):
                if b:
                    out.append((s2, x != ABSENT))
                else:
                    nxt.append(s2)
        pend = nxt
    for s in pend:
        if m[3][0] is None or known_empty(I, s, m, key):
            out.append((s, False))
        else:
            for s2, b in pred_fork(s, ('p', ('has', m[3][0], base_key(I, s, m, key)))):
                out.append((s2, b))
    return out


def known_empty(I, s, m, key):
    """the map was found to have no entries but those removed since"""
    for q, val in s.pred.items():
        if val and q[0] == 'p' and isinstance(q[1], tuple) and q[1][:2] == ('mapempty', m[3][0]):
            if all(k == key or s.decide(I.val_eq(s, k, key)) is not None for k in q[1][2]):
                return not any(k == key or s.decide(I.val_eq(s, k, key)) is True for k in q[1][2])
    return False


def norm_entry(I, st, r, p, key, ty):
    """key as written in the overlay, if an entry is known to be equal"""
    m = map_at(I, st, r, p, ty)
    for k, x in m[3][1]:
        if k == key or st.decide(I.val_eq(st, k, key)) is True:
            return k
    return base_key(I, st, m, key)


def base_key(I, st, m, key):
    """an equal key the underlying map was asked about before"""
    if m[3][0] is None:
        return key
    for q in st.pred:
        if q[0] == 'p' and isinstance(q[1], tuple) and q[1][:2] == ('has', m[3][0]) and q[1][2] != key and \
                q[1][2][0] == key[0] and st.decide(I.val_eq(st, q[1][2], key)) is True:
            return q[1][2]
    return key


@model("HashMap::new", "BTreeMap::new", "HashMap::with_capacity", "Map::new")
def _(I, st, args, c):
    return ret(st, ('A', 'Map', 0, (None, (), targ(c.dty, 1)))) + (sized(I, st, args[0], c) if args else [])


@model("vec::from_elem", "str::repeat", "[T]::repeat")
def _(I, st, args, c):
    n = args[1]
    bad = sized(I, st, n, c)
    one = (('e', args[0]),) if c.name == 'vec::from_elem' else seqv(I, st, args[0])
    if n[0] != 'i':
        return None if not bad else bad + ret(st, I.sym(('ret', c.name, st.fresh(c.name), I.freeze(st, args[0])), c.dty))
    if is_const(n) and n[1] <= 64:
        return ret(st, ('q', I.norm_segs(one * n[1])))
    if c.name == 'vec::from_elem':
        # the same element n times
        out = []
        for s in st.assume(pge(n)):
            out += ret(s, ('q', I.norm_segs((('comp', ('fill', intern((I.freeze(st, args[0]),))), args[0], I0, n),))))
        return bad + out
    return bad + ret(st, ('q', (('star', ('resize', I0, n), (one,)),)))


@model("HashMap::get", "HashMap::get_mut", "BTreeMap::get", "BTreeMap::get_mut", "Map::get", "Map::get_mut")
def _(I, st, args, c):
    t = pty(c.atys[0])
    r, p = deep_place(I, st, args[0])
    key = mapkey(I, st, args[1])
    vt = targ(t, 1) or VALUE_TY.get('Value')
    out = []
    for s, b in map_has(I, st, r, p, key, t):
        k2 = norm_entry(I, s, r, p, key, t)
        s = s.copy()
        if s.mem.get(r) is None or I.load(s, r, p)[0] == 'S':
            pass
        out += ret(s, I.some(('R', r, p + (('mv', k2, vt),))) if b else I.none)
    return out


@model("HashMap::contains_key", "BTreeMap::contains_key", "Map::contains_key")
def _(I, st, args, c):
    r, p = deep_place(I, st, args[0])
    key = mapkey(I, st, args[1])
    return [(s, 'ret', ('b', b)) for s, b in map_has(I, st, r, p, key, pty(c.atys[0]))]


def map_write(I, st, r, p, key, x, t):
    st = st.copy()
    m = map_at(I, st, r, p, t)
    I.store(st, r, p, I.map_put(st, m, key, x))
    return st


@model("HashMap::insert", "BTreeMap::insert", "Map::insert")
def _(I, st, args, c):
    t = pty(c.atys[0])
    r, p = deep_place(I, st, args[0])
    key = mapkey(I, st, args[1])
    out = []
    for s, b in map_has(I, st, r, p, key, t):
        k2 = norm_entry(I, s, r, p, key, t)
        old = I.some(I.load(s, r, p + (('mv', k2, targ(t, 1)),))) if b else I.none
        s2 = map_write(I, s, r, p, k2, args[2], t)
        out += ret(s2, old)
    return out


@model("HashMap::remove", "BTreeMap::remove", "Map::remove", "HashMap::remove_entry")
def _(I, st, args, c):
    t = pty(c.atys[0])
    r, p = deep_place(I, st, args[0])
    key = mapkey(I, st, args[1])
    out = []
    for s, b in map_has(I, st, r, p, key, t):
        k2 = norm_entry(I, s, r, p, key, t)
        if not b:
            out += ret(s, I.none)
            continue
        x = I.load(s, r, p + (('mv', k2, targ(t, 1)),))
        x = ('T', (k2, x)) if c.name.endswith('entry') else x
        out += ret(map_write(I, s, r, p, k2, ABSENT, t), I.some(x))
    return out


@model("HashMap::clear", "BTreeMap::clear")
def _(I, st, args, c):
    st = st.copy()
    t = pty(c.atys[0])
    r, p = deep_place(I, st, args[0])
    I.store(st, r, p, ('A', 'Map', 0, (None, (), targ(t, 1))))
    return ret(st, UNIT)


@model("HashMap::is_empty", "BTreeMap::is_empty", "Map::is_empty", "HashMap::len", "BTreeMap::len", "Map::len")
def _(I, st, args, c):
    t = pty(c.atys[0])
    r, p = deep_place(I, st, args[0])
    m = map_at(I, st, r, p, t)
    base, es, _ = m[3]
    if c.name.endswith('len'):
        if base is None:
            return ret(st, ('i', sum(1 for k, x in es if x != ABSENT), NOFS))
        return ret(st, I.sym(('maplen', base, intern((I.freeze(st, m),))), c.dty))
    if any(x != ABSENT for k, x in es):
        return ret(st, ('b', False))
    if base is None:
        return ret(st, ('b', True))
    gone = [k for k, x in es]
    for q, val in st.pred.items():
        if val and q[0] == 'p' and isinstance(q[1], tuple) and q[1][:2] == ('has', base) and \
                not any(q[1][2] == k or st.decide(I.val_eq(st, q[1][2], k)) is True for k in gone):
            if all(st.decide(I.val_eq(st, q[1][2], k)) is False for k in gone):
                return ret(st, ('b', False))
    return ret(st, ('b', ('p', ('mapempty', base, tuple(gone)))))


def entry_of(I, c, occupied, e):
    """the case of an entry enum"""
    h = c.dty[1]
    vs = I.prog.adts[h]["variants"]
    i = [x[0] for x in vs].index('Occupied' if occupied else 'Vacant')
    return ('A', h, i, (e,))


@model("HashMap::entry", "BTreeMap::entry", "Map::entry")
def _(I, st, args, c):
    t = pty(c.atys[0])
    r, p = deep_place(I, st, args[0])
    key = mapkey(I, st, args[1])
    if c.dty is None or c.dty[0] != 'adt' or c.dty[1] not in I.prog.adts:
        return None
    out = []
    for s, b in map_has(I, st, r, p, key, t):
        k2 = norm_entry(I, s, r, p, key, t)
        out += ret(s, entry_of(I, c, b, ('A', 'OccEntry' if b else 'VacEntry', 0, (('R', r, p), k2, t))))
    return out


def the_entry(I, st, v):
    """(place, key, type, occupied?) of an entry in any of its forms"""
    while v[0] == 'R':
        v = I.load(st, v[1], v[2])
    if v[0] == 'A' and v[1] not in ('OccEntry', 'VacEntry') and len(v[3]) == 1:
        v = v[3][0]
    if v[0] != 'A' or v[1] not in ('OccEntry', 'VacEntry'):
        return None
    (_, r, p), key, t = v[3]
    return r, p, key, t, v[1] == 'OccEntry'


@model("Entry::or_insert_with", "Entry::or_insert", "Entry::or_default", "Entry::or_insert_with_key", "Entry::insert_entry",
       "VacantEntry::insert", "OccupiedEntry::into_mut", "OccupiedEntry::get_mut", "OccupiedEntry::get")
def _(I, st, args, c):
    e = the_entry(I, st, args[0])
    if e is None or c.name.endswith('insert_entry'):
        return None
    r, p, key, t, b = e
    ref = ('R', r, p + (('mv', key, targ(t, 1)),))
    if b:
        return ret(st, ref)

    def put(s2, x):
        return ret(map_write(I, s2, r, p, key, x, t), ref)
    if c.name.endswith('insert'):
        return put(st, args[1])
    if c.name.endswith('default'):
        vt = targ(t, 1)
        bs = [x for x in I.prog.impls.get(("Default", "default"), [])
              if vt is not None and vt[0] == 'adt' and x["impl_self"][1] == vt[1]]
        if bs:
            return I.bind(I.enter(bs[0], (), [], st, c), put)
        return put(st, default(I, vt))
    return I.bind(callv(I, st, args[1], [], c, targ(t, 1)), put)


@model("Entry::and_modify")
def _(I, st, args, c):
    e = the_entry(I, st, args[0])
    if e is None:
        return None
    r, p, key, t, b = e
    if not b:
        return ret(st, args[0])
    ref = ('R', r, p + (('mv', key, targ(t, 1)),))
    return I.bind(callv(I, st, args[1], [ref], c, UNIT_TY), lambda s, _: ret(s, args[0]))


UNIT_TY = ('tuple', ())


@model("OccupiedEntry::insert", "OccupiedEntry::remove", "OccupiedEntry::remove_entry")
def _(I, st, args, c):
    e = the_entry(I, st, args[0])
    if e is None:
        return None
    r, p, key, t, b = e
    old = I.load(st, r, p + (('mv', key, targ(t, 1)),))
    st = map_write(I, st, r, p, key, args[1] if c.name.endswith('insert') else ABSENT, t)
    return ret(st, ('T', (key, old)) if c.name.endswith('entry') else old)


@model("Entry::key", "OccupiedEntry::key", "VacantEntry::key", "VacantEntry::into_key")
def _(I, st, args, c):
    e = the_entry(I, st, args[0])
    if e is None:
        return None
    return ret(st, e[2] if c.name.endswith('into_key') else ('R', ('K', e[2]), ()))


# ------------------------------------------------------------------------------------------------- cells, atomics
@model("AtomicU64::new", "AtomicUsize::new", "AtomicU32::new", "AtomicBool::new", "Atomic::new")
def _(I, st, args, c):
    return ret(st, ('A', 'Atomic', 0, (args[0],)))


@model("Cell::get", "Cell::set", "Cell::replace", "Cell::take",
       *(x + '::' + y for x in ("AtomicU64", "AtomicUsize", "AtomicU32", "AtomicBool", "Atomic")
         for y in ("load", "store", "swap", "fetch_add", "fetch_sub", "get_mut", "into_inner")))
def _(I, st, args, c):
    op = c.name.split('::')[-1]
    st = st.copy()
    if op == 'into_inner':
        return ret(st, args[0][3][0]) if args[0][0] == 'A' else None
    r, p = deep_place(I, st, args[0])
    p = p + (('in',),)
    if op == 'get_mut':
        return ret(st, ('R', r, p))
    old = I.load(st, r, p)
    if old[0] == 'S' and old[2] is None:
        return None
    if op == 'fetch_add':
        I.store(st, r, p, ladd(old, args[1]))
    elif op == 'fetch_sub':
        I.store(st, r, p, lsub(old, args[1]))
    elif op in ('store', 'set', 'swap', 'replace'):
        I.store(st, r, p, args[1])
    elif op == 'take':
        I.store(st, r, p, default(I, c.dty))
    return ret(st, UNIT if op in ('store', 'set') else old)


@model("Map::values_mut", "HashMap::values_mut", "Map::values", "Map::iter", "Map::iter_mut", "HashMap::values", "HashMap::iter", "HashMap::iter_mut",
       "BTreeMap::iter", "BTreeMap::iter_mut", "BTreeMap::values", "BTreeMap::values_mut")
def _(I, st, args, c):
    t = pty(c.atys[0])
    r, p = deep_place(I, st, args[0])
    v = I.load(st, r, p)
    term = v[1] if v[0] == 'S' else ('map', v)
    vt = targ(t, 1) or VALUE_TY.get('Value')
    # the values as a sequence; writes through them stay in a separate cell
    root = ('D', ('mapvals', term), ('slice', vt))
    vals = It('seq', ('R', root, ()), I0, 'ref')
    return ret(st, It('entries', vals, ('mapkey', term), targ(t, 0)) if 'iter' in c.name else vals)


# --------------------------------------------------------------------------------------------------------- regex
@model("Regex::new")
def _(I, st, args, c):
    segs = seqv(I, st, args[0])
    if all(s[0] == 'lit' for s in segs):
        pat = b''.join(s[1] for s in segs).decode()
        info = regexlang.compile(pat)
        if info is not None:
            return ret(st, I.ok(('A', 'Regex', 0, (pat,))))
        return ret(st, I.err(('S', ('regexerr', pat), targ(c.dty, 1))))
    return None


@model("Lazy::get", "LazyLock::force", "LazyLock::deref", "OnceLock::get_or_init", "Lazy::force")
def _(I, st, args, c):
    out = []
    for s, k, v in callv(I, State(), args[1], [], c, None):
        if k == 'ret':
            out.append((st, 'ret', I.const_ref(I.deep(s, v))))
        else:
            out.append((st, k, v))
    return out


@model("Regex::captures", "Regex::is_match", "Regex::captures_at")
def _(I, st, args, c):
    re = full(I, st, args[0])
    if re[0] != 'A' or re[1] != 'Regex':
        return None
    pat = re[3][0]
    segs = I.norm_segs(seqv(I, st, args[1]))
    out = []
    st = st.copy()
    st.event('regex', pat, segs)
    info = regexlang.compile(pat)
    for s, b in pred_fork(st, ('p', ('rematch', pat, segs))):
        if b and info is not None:
            s = re_facts(I, s, info, segs, 0, I0, I.segs_len(segs))
            if s is None:
                continue
        if c.name.endswith('is_match'):
            out += ret(s, ('b', b))
        else:
            out += ret(s, I.some(('A', 'Caps', 0, (pat, ('q', segs)))) if b else I.none)
    return out


def re_facts(I, s, info, segs, g, lo, hi):
    """what follows from group g matching from lo to hi; None if it cannot"""
    L = info.lengths(g)
    s = s.copy()
    l = ladd(lsub(hi, lo), I_(-L[0]))
    if s.decide(pge(l)) is False:
        return None
    if not s.entails_ge(l):
        r = s.add_ge(l)
        s = (r[0] if r else s).copy()
    if g == 0 and not info.anchored_start:
        return s
    fb = info.first_bytes(g)
    if L[0] > 0 and fb is not None and len(segs) == 1 and segs[0][0] == 'sub':
        a = ('byte', segs[0][1], ladd(segs[0][2], lo))
        old = s.rng.get(a)
        mn, mx = min(fb), max(fb)
        if old:
            ne = s.ne.get(a, ())
            fb = {x for x in fb if old[0] <= x <= old[1] and x not in ne}
            if not fb:
                return None
            mn, mx = min(fb), max(fb)
        s.rng = dict(s.rng)
        s.rng[a] = (mn, mx)
        miss = frozenset(x for x in range(mn, mx) if x not in fb)
        if miss:
            s.ne = dict(s.ne)
            s.ne[a] = miss
    return s


def base_of(segs):
    if len(segs) == 1 and segs[0][0] == 'sub':
        return (segs[0][1], segs[0][2])
    return (segs, I0)


def cap_span(I, info, pat, g, segs):
    """where group g lies in the text segs it was matched in"""
    n = I.segs_len(segs)
    b = base_of(segs)
    f0 = info.fixed_start(g)
    lo = I_(f0) if f0 is not None else atom(('capstart', pat, g, b))
    f1 = info.fixed_end(g)
    L = info.lengths(g)
    if g == 0:
        hi = n if info.anchored_end else atom(('capend', pat, g, b))
    elif f1 is not None:
        hi = ladd(n, I_(-f1))
    elif L[0] == L[1]:
        hi = ladd(lo, I_(L[0]))
    else:
        hi = atom(('capend', pat, g, b))
    return lo, hi


@model("Captures::get", "Captures::name")
def _(I, st, args, c):
    caps = full(I, st, args[0])
    if caps[0] != 'A' or caps[1] != 'Caps':
        return None
    pat, tq = caps[3]
    segs = tq[1]
    info = regexlang.compile(pat)
    if c.name.endswith('name'):
        nm = seqv(I, st, args[1])
        g = info.names.get(b''.join(s[1] for s in nm if s[0] == 'lit').decode())
        if g is None:
            return ret(st, I.none)
    else:
        if not is_const(args[1]):
            return None
        g = args[1][1]
    if g > info.ngroups:
        return ret(st, I.none)
    conds = info.conds(g)         # optional nodes that must take part
    out = []
    pend = [st]
    for cn in conds:
        nxt = []
        for s in pend:
            for s2, b in pred_fork(s, ('p', ('capopt', pat, cn, segs))):
                if b:
                    nxt.append(s2)
                else:
                    out += ret(s2, I.none)
        pend = nxt
    b = base_of(segs)
    for s in pend:
        s = s.copy()
        n = I.segs_len(segs)
        lo, hi = cap_span(I, info, pat, g, segs)
        L = info.lengths(g)
        for l in (lsub(n, hi), ladd(lsub(hi, lo), I_(-L[0])), lo):
            if not s.entails_ge(l):
                r = s.add_ge(l)
                s = (r[0] if r else s).copy()
        s = re_facts(I, s, info, segs, g, lo, hi)
        if s is None:
            continue
        out += ret(s, I.some(('A', 'Match', 0, (tq, lo, hi))))
    return out


@model("Captures::len")
def _(I, st, args, c):
    caps = full(I, st, args[0])
    if caps[0] != 'A' or caps[1] != 'Caps':
        return None
    return ret(st, I_(regexlang.compile(caps[3][0]).ngroups + 1))


@model("Match::as_str", "Match::range", "Match::start", "Match::end", "Match::len", "Match::is_empty")
def _(I, st, args, c):
    m = full(I, st, args[0])
    if m[0] != 'A' or m[1] != 'Match':
        return None
    tq, lo, hi = m[3]
    k = c.name.split('::')[1]
    if k == 'start':
        return ret(st, lo)
    if k == 'end':
        return ret(st, hi)
    if k == 'len':
        return ret(st, lsub(hi, lo))
    if k == 'is_empty':
        return ret(st, ('b', peq0(lsub(hi, lo))))
    if k == 'range':
        return ret(st, ('A', I.RANGE, 0, (lo, hi)))
    return ret(st, I.const_ref(('q', I.seq_slice(st, tq[1], lo, hi))))


# ----------------------------------------------------------------------------------------------------- serde_json
def raw_ax(a):
    if isinstance(a, tuple) and a and a[0] == 'rawoff':
        _, which, src, i, base = a
        s = atom(('rawoff', 's', src, i, base))
        e = atom(('rawoff', 'e', src, i, base))
        lo, hi = src[2], src[3]
        return [lsub(e, s), lsub(lsub(hi, lo), e), lsub(lsub(hi, lo), s), s]
    if isinstance(a, tuple) and a and a[0] == 'len':
        return []
    return []


AXIOMS.append(raw_ax)


@model("serde_json::from_str", "serde_json:de::from_str", "de::from_str",
       "serde_json::from_slice", "serde_json:de::from_slice", "de::from_slice")
def _(I, st, args, c):
    segs = I.norm_segs(seqv(I, st, args[0]))
    t = targ(c.dty)
    st = st.copy()
    st.event('json', I.prog.tyname(t) if t else '?', segs)
    e = t
    out = []
    for s, b in pred_fork(st, ('p', ('json', I.prog.tyname(t) if t else '?', segs))):
        if not b:
            out += ret(s, I.err(I.sym(('jsonerr', segs), targ(c.dty, 1))))
            continue
        if t is not None and t[0] == 'adt' and I.adt_name(t[1]) == 'Vec' and t[2] and t[2][0][0] == 'ref' \
                and I.prog.adtname(t[2][0][2]) == 'RawValue' and len(segs) == 1 and segs[0][0] == 'sub':
            src = segs[0]
            ca = ('cnt', ('raw', src))
            base = (src[1], src[2])
            a = atom(('rawoff', 's', src, atom(ca), base))
            z = atom(('rawoff', 'e', src, atom(ca), base))
            el = I.const_ref(('q', (('sub', src[1], ladd(src[2], a), ladd(src[2], z), None),)))
            out += ret(s, I.ok(('q', (('comp', ca, el, I0, atom(('len', ('rawvec', src)))),))))
        else:
            out += ret(s, I.ok(I.sym(('jsonval', segs), t)))
    return out


@model("RawValue::get")
def _(I, st, args, c):
    return ret(st, args[0] if args[0][0] == 'R' else I.const_ref(full(I, st, args[0])))


@model("serde_json::to_writer", "serde_json:ser::to_writer", "ser::to_writer")
def _(I, st, args, c):
    w = args[0]
    v = full(I, st, args[1])
    t = pty(c.atys[1])
    st = st.copy()
    cell = I.alloc(st, 'writer', w)
    wr = writer_of(I, st, cell)
    if wr is None:
        return None
    out = []
    fz = json_of(I, st, v)
    s1 = do_write(I, st, wr, (('disp', 'json', fz),))
    s1.mem.pop(cell[1], None)
    if is_text(I, t):
        return ret(s1, I.ok(UNIT))
    for s, b in pred_fork(st, ('p', ('serializes', fz, st.fresh('serializes')))):
        if b:
            s = do_write(I, s, wr, (('disp', 'json', fz),))
            s.mem.pop(cell[1], None)
            out += ret(s, I.ok(UNIT))
        else:
            s = do_write(I, s, wr, (('disp', 'jsonpart', fz),))
            s.mem.pop(cell[1], None)
            out += ret(s, I.err(I.sym(('sererr', fz), targ(c.dty, 1))))
    return out


def json_of(I, st, v):
    if v[0] == 'q' or (v[0] == 'S' and v[2] is not None and is_text(I, v[2])):
        return ('q', I.as_segs(st, text_of(I, st, v)))
    return I.freeze(st, v)


@model("Serializer::new", "JsonSerializer::new")
def _(I, st, args, c):
    if c.info["crate"] == 'serde_json':
        return ret(st, ('A', 'JsonSer', 0, (args[0],)))
    return None


def find_sinks(I, st, v, seen, d=8):
    """JSON writers and mutable vectors reachable from a serializer value"""
    if d == 0:
        return
    if v[0] == 'R':
        k = (v[1], v[2])
        if k in seen:
            return
        seen[k] = None
        x = I.load(st, v[1], v[2])
        if x[0] == 'A' and x[1] == 'JsonSer':
            seen[k] = 'json'
            return
        if x[0] == 'q' or (x[0] == 'S' and x[2] is not None and I.elem_ty(x[2]) is not False):
            seen[k] = 'vec'
            return
        if x[0] == 'S' and x[2] is not None and x[2][0] in ('ref',) and x[2][1]:
            r, p = I.deref(st, x)
            find_sinks(I, st, ('R', r, p), seen, d - 1)
            return
        find_sinks(I, st, x, seen, d - 1)
    elif v[0] in ('A', 'T'):
        for x in (v[3] if v[0] == 'A' else v[1]):
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                find_sinks(I, st, x, seen, d - 1)


@model("Serialize::serialize")
def _(I, st, args, c):
    t = pty(c.atys[0])
    v = full(I, st, args[0])
    ser = args[1]
    seen = {}
    find_sinks(I, st, ser, seen)
    js = [k for k, x in seen.items() if x == 'json']
    h = I.hooks.get('serialize')
    if h is not None and js:
        h(st, args, c)
    vecs = [k for k, x in seen.items() if x == 'vec']
    if not js:
        return None
    out = []
    fz = json_of(I, st, v)
    infallible = is_text(I, t)
    for s, b in ([(st, True)] if infallible else pred_fork(st, ('p', ('serializes', fz, st.fresh('serializes'))))):
        s = s.copy()
        kind = ('json' if infallible else 'jsonatt') if b else 'jsonpart'
        for r, p in js:
            cell = I.load(s, r, p)
            ref = ('R', r, p + (('f', 0, None),))
            wr = writer_of(I, s, ref)
            if wr is None:
                return None
            s = do_write(I, s, wr, (('disp', kind, fz),))
        if not infallible:
            for r, p in vecs:
                cur = I.as_segs(s, I.load(s, r, p))
                n = s.fresh('att')
                s.ev += (('attbase', fz, cur),)
                I.store(s, r, p, ('q', cur + (('star', ('att', fz, n), ((('e', ('S', ('attachment', fz, n), None)),),)),)))
        out += ret(s, I.ok(UNIT) if b else I.err(I.sym(('sererr', fz), targ(c.dty, 1))))
    return out


@model("Value::as_u64")
def _(I, st, args, c):
    v = full(I, st, args[0])
    fz = I.freeze(st, v)
    out = []
    for s, b in pred_fork(st, ('p', ('isu64', fz))):
        out += ret(s, I.some(I.sym(('u64of', fz), ('prim', 'u64'))) if b else I.none)
    return out


# -------------------------------------------------------------------------------------------- channels and futures
@model("mpsc::unbounded", "oneshot::channel", "mpsc::channel")
def _(I, st, args, c):
    st = st.copy()
    k = 'O' if 'oneshot' in c.name else ''
    n = st.fresh(('chan', k))
    fr = I.frames[-1]
    ty = c.dty
    item = None
    if ty is not None and ty[0] == 'tuple':
        item = targ(ty[1][0])
    ch = (k + 'chan', I.prog.tyname(item) if item else '?', n)
    CHAN_TY[ch] = item
    return ret(st, ('T', (('A', k + 'Tx', 0, (ch,)), ('A', k + 'Rx', 0, (ch,)))))


CHAN_TY = {}


@model("UnboundedSender::unbounded_send", "Sender::try_send")
def _(I, st, args, c):
    st = st.copy()
    tx = I.freeze(st, full(I, st, args[0]))
    if 'qsend' in I.hooks:
        I.hooks['qsend'](st)
    st.event('qsend', tx, I.freeze(st, args[1], 8), st.locks)
    return ret(st, I.sym(('sent', st.fresh('sent')), c.dty))


@model("UnboundedSender::is_closed", "Sender::is_canceled", "Sender::is_closed")
def _(I, st, args, c):
    return pure(I, st, args, c)


@model("UnboundedSender::close_channel", "UnboundedReceiver::close")
def _(I, st, args, c):
    st = st.copy()
    v = full(I, st, args[0])
    st.event('qclose', I.freeze(st, v))
    if v[0] == 'A' and v[1] == 'Rx':
        r, p = deep_place(I, st, args[0])
        I.store(st, r, p, ('A', 'Rx', 0, (v[3][0], 'closed')))
    return ret(st, UNIT)


@model("UnboundedReceiver::try_next", "Receiver::try_next", "UnboundedReceiver::try_recv")
def _(I, st, args, c):
    v = full(I, st, args[0])
    if v[0] != 'A' or v[1] != 'Rx':
        return None
    out = []
    for s, k, x in poll_next(I, st, None, v, None):
        if x[2] == 1:
            out += ret(s, I.err(I.sym(('queue empty',), targ(c.dty, 1))))
        elif c.name.endswith('try_next'):
            out += ret(s, I.ok(x[3][0]))
        else:
            out += ret(s, I.ok(x[3][0][3][0]) if x[3][0][2] == 1 else I.err(I.sym(('queue empty',), targ(c.dty, 1))))
    return out


@model("Sender::send")
def _(I, st, args, c):
    if len(args) < 2:
        return None
    st = st.copy()
    tx = I.freeze(st, full(I, st, args[0]))
    st.event('osend', tx, I.freeze(st, args[1], 8))
    return ret(st, I.sym(('osent', st.fresh('osent')), c.dty))


@model("Delay::new")
def _(I, st, args, c):
    st = st.copy()
    n = st.fresh('delay')
    st.event('newdelay', n)
    return ret(st, ('A', 'Delay', 0, (args[0], n)))


@model("Delay::reset")
def _(I, st, args, c):
    st = st.copy()
    r, p = deep_place(I, st, args[0])
    n = st.fresh('delay')
    st.event('newdelay', n)
    I.store(st, r, p, ('A', 'Delay', 0, (args[1], n)))
    return ret(st, UNIT)


@model("Duration::from_secs", "Duration::from_millis", "Duration::new", "Duration::from_secs_f64")
def _(I, st, args, c):
    return ret(st, ('A', 'Dur', 0, (c.name,) + tuple(args)))


@model("FutureExt::fuse", "StreamExt::fuse")
def _(I, st, args, c):
    if c.name.startswith('Stream'):
        return ret(st, args[0])
    return ret(st, ('A', 'Fuse', 0, (args[0],)))


@model("Fuse::terminated")
def _(I, st, args, c):
    return ret(st, ('A', 'Fuse', 0, ()))


@model("future::poll_fn", "poll_fn::poll_fn", "StreamExt::poll_fn_unused")
def _(I, st, args, c):
    return ret(st, ('A', 'PollFn', 0, (args[0],)))


@model("future::ready")
def _(I, st, args, c):
    return ret(st, ('A', 'ReadyFut', 0, (args[0],)))


@model("future::ok", "future::err")
def _(I, st, args, c):
    return ret(st, ('A', 'ReadyFut', 0, (I.ok(args[0]) if c.name == "future::ok" else I.err(args[0]),)))


@model("future::select", "select::select")
def _(I, st, args, c):
    return ret(st, ('A', 'Select', 0, (args[0], args[1])))


@model("Either::factor_first")
def _(I, st, args, c):
    v = args[0]
    if v[0] != 'A' or v[3][0][0] != 'T':
        return None
    x, y = v[3][0][1]
    return ret(st, ('T', (x, ('A', v[1], v[2], (y,)))))


@model("Message::is_text", "Message::is_binary", "Message::is_close", "Message::is_ping", "Message::is_pong")
def _(I, st, args, c):
    v = typed(full(I, st, args[0]), pty(c.atys[0]))
    h = I.adt_of(st, v)
    a = I.prog.adts.get(h) if h else None
    if a is None or a["local"]:
        return None
    name = c.name.split('_')[-1].capitalize()
    i = [x[0] for x in a["variants"]].index(name)
    return ret(st, ('b', I.is_variant(v, i)))


@model("FutureExt::map", "FutureExt::then", "TryFutureExt::map_ok", "TryFutureExt::map_err", "TryFutureExt::err_into",
       "TryFutureExt::ok_into", "TryFutureExt::and_then", "TryFutureExt::or_else", "TryFutureExt::unwrap_or_else")
def _(I, st, args, c):
    return ret(st, ('A', 'MapFut', 0, (c.name, args[0], args[1] if len(args) > 1 else None, fut_out(I, st, c, args))))


@model("TryFutureExt::into_future")
def _(I, st, args, c):
    return ret(st, args[0])


def fut_out(I, st, c, args):
    """the output type of the future something is mapped over, as far as the callback tells"""
    k = c.name.split('::')[1]
    if len(args) < 2:
        return None
    f = args[1]
    x = None
    if f[0] == 'C' and f[1] in I.prog.bodies:
        b = I.prog.bodies[f[1]]
        if b["argc"] > 1:
            x = subst(b["locals"][2], dict(f[3]))
    if k in ('map', 'then'):
        return x
    if k in ('map_ok', 'and_then'):
        return ('adt', I.RESULT, (x, None)) if x is not None else None
    return ('adt', I.RESULT, (None, x)) if x is not None else None


@model("stream::iter", "iter::iter")
def _(I, st, args, c):
    it = args[0]
    ok = False
    if it[0] == 'A' and it[1] == 'It' and it[3][0] == 'map' and is_ctor(I, it[3][2], 'Ok'):
        it, ok = it[3][1], True
    segs = items_of(I, st, it, None)
    if segs is None and it[0] == 'S' and it[2] is not None and it[2][0] == 'adt' and I.prog.adtname(it[2]) == 'Vec':
        segs = seqv(I, st, it)
    if segs is None:
        return None
    return ret(st, ('A', 'StreamIter', 0, (('q', segs), ok)))


def is_ctor(I, f, name):
    if f[0] != 'F':
        return False
    return I.prog.fninfos[f[1]]["path"].split('::')[-1] == name


@model("StreamExt::map")
def _(I, st, args, c):
    a = args[0]
    if a[0] == 'A' and a[1] == 'StreamIter' and not a[3][1] and is_ctor(I, args[1], 'Ok'):
        return ret(st, ('A', 'StreamIter', 0, (a[3][0], True)))
    return None


@model("future::get_context", "random::shuffle")
def _(I, st, args, c):
    return ret(st, UNIT if c.name == "random::shuffle" else args[0])


@model("StreamExt::next", "StreamExt::select_next_some", "TryStreamExt::try_next", "StreamExt::into_future_unused")
def _(I, st, args, c):
    if c.name not in ("StreamExt::next", "TryStreamExt::try_next"):
        return None
    r, p = deep_place(I, st, args[0])
    return ret(st, ('A', 'Next' if c.name == "StreamExt::next" else 'TryNext', 0, (('R', r, p), I.load(st, r, p)[2] if I.load(st, r, p)[0] == 'S' else None)))


@model("StreamExt::split")
def _(I, st, args, c):
    v = I.freeze(st, args[0])
    st = st.copy()
    st.event('wsplit', v)
    return ret(st, ('T', (('A', 'Sink', 0, (v,)), ('A', 'WsStream', 0, (v,)))))


@model("SplitSink::reunite", "SplitStream::reunite")
def _(I, st, args, c):
    a, b = args
    if a[0] == 'A' and b[0] == 'A' and a[3] == b[3]:
        st = st.copy()
        x = a[3][0]
        st.event('reunite', x)
        return ret(st, I.ok(x))
    return [(s, 'ret', I.ok(('S', ('reunited', a, b), targ(c.dty))) if k else I.err(('S', ('reunite',), targ(c.dty, 1))))
            for s, k in pred_fork(st, ('p', ('reunite', a, b)))]


@model("SinkExt::send", "SinkExt::feed", "SinkExt::flush", "SinkExt::close", "WebSocketStream::close",
       "SinkExt::send_all", "WebSocketStream::send")
def _(I, st, args, c):
    r, p = deep_place(I, st, args[0])
    k = c.name.split('::')[1]
    return ret(st, ('A', 'SinkFut', 0, (k, ('R', r, p)) + tuple(args[1:])))


@model("SpawnExt::spawn_with_handle", "SpawnExt::spawn", "LocalSpawnExt::spawn_local_with_handle")
def _(I, st, args, c):
    st = st.copy()
    remote = args[1][0] == 'A' and args[1][1] == 'Remote'
    task = args[1][3][0] if remote else args[1]
    st.event('spawn', c.name, task, remote or c.name.endswith('handle'))
    I.spawned.append((task, st))
    out = []
    for s, b in pred_fork(st, ('p', ('spawns', st.fresh('spawns')))):
        if b:
            out += ret(s, I.ok(('A', 'Handle', 0, (I.freeze(s, task, 1)[1], task_ty(I, task)))
                               if c.name.endswith('handle') else UNIT))
        else:
            out += ret(s, I.err(I.sym(('spawnerr',), targ(c.dty, 1))))
    return out


def task_ty(I, g):
    if g[0] == 'G':
        b = I.prog.bodies.get(g[1])
        if b:
            return subst(b["locals"][0], dict(g[3]))
    return None


@model("RemoteHandle::forget")
def _(I, st, args, c):
    st = st.copy()
    st.event('leak', I.freeze(st, args[0], 8))
    return ret(st, UNIT)


def sink_id(I, st, ref):
    v = full(I, st, ref)
    if v[0] == 'A' and v[1] in ('Sink', 'WsStream'):
        return v[3][0]
    return I.freeze(st, v)


def poll(I, st, ref, cx, c, ty):
    """poll the future at ref: [(state, kind, Poll value)]; ty is the output type if known"""
    r, p = deep_place(I, st, ref) if ref[0] in ('R', 'S') else (None, None)
    v = I.load(st, r, p) if r is not None else ref
    if v[0] == 'U' and r is not None:
        out = []
        for a in v[1]:
            s = st.copy()
            I.store(s, r, p, a)
            out += poll(I, s, ref, cx, c, ty)
        return out
    if v[0] == 'G':
        body = I.prog.bodies.get(v[1])
        if body is not None:
            if I.stack.count(v[1]) >= 2:
                raise IP.Limit("recursive async")
            out = []
            for s, k, x in I.run(body, v[3], [v, cx], st):
                out.append((s, k, I.ready(x) if k == 'ret' else x))
            return out
    if v[0] == 'A':
        k = v[1]
        if k == 'Fuse':
            if not v[3]:
                return ret(st, I.pending)
            out = []
            for s, kk, x in poll(I, st, ('R', r, p + (('f', 0, None),)), cx, c, ty):
                if kk == 'ret' and x[2] == 0:
                    s = s.copy()
                    I.store(s, r, p, ('A', 'Fuse', 0, ()))
                out.append((s, kk, x))
            return out
        if k == 'PollFn':
            f = v[3][0]
            t = ('adt', I.POLL, (ty,)) if ty is not None else None
            return callv(I, st, ('R', r, p + (('f', 0, None),)) if r is not None else f, [cx], c, t)
        if k == 'ReadyFut':
            return ret(st, I.ready(v[3][0]))
        if k == 'Select':
            e = ty[1] if ty is not None and ty[0] == 'adt' else next((h for h, a in I.prog.adts.items() if a["name"] == 'Either'), 'Either')
            out = []
            side = lambda i: ty[2][i][1][0] if ty is not None and ty[0] == 'adt' and len(ty[2]) == 2 and ty[2][i][0] == 'tuple' else None

            def at(i):
                return ('R', r, p + (('f', i, None),)) if r is not None else v[3][i]

            def rest(s, i):
                return I.load(s, r, p + (('f', i, None),)) if r is not None else v[3][i]
            for s, kk, x in poll(I, st, at(0), cx, c, side(0)):
                if kk != 'ret' or x[2] == 0:
                    out.append((s, kk, I.ready(('A', e, 0, (('T', (x[3][0], rest(s, 1))),))) if kk == 'ret' else x))
                    continue
                for s2, kk2, y in poll(I, s, at(1), cx, c, side(1)):
                    if kk2 == 'ret' and y[2] == 0:
                        y = I.ready(('A', e, 1, (('T', (y[3][0], rest(s2, 0))),)))
                    out.append((s2, kk2, y))
            return out
        if k == 'MapFut':
            op, _, f, ity = v[3]
            op = op.split('::')[1]
            out = []
            for s, kk, x in poll(I, st, ('R', r, p + (('f', 1, None),)) if r is not None else v[3][1], cx, c, ity):
                if kk != 'ret' or x[2] == 1:
                    out.append((s, kk, x))
                    continue
                x = x[3][0]
                rdy = lambda s2, y: ret(s2, I.ready(y))
                if op == 'map':
                    out += I.bind(callv(I, s, f, [x], c, ty), rdy)
                    continue
                if op in ('map_ok', 'map_err', 'unwrap_or_else'):
                    hit = 0 if op == 'map_ok' else 1
                    for s2, ok, y in res(I, s, x, ity):
                        if ok != (hit == 0):
                            out += ret(s2, I.ready(y if op == 'unwrap_or_else' else I.ok(y) if ok else I.err(y)))
                        elif op == 'unwrap_or_else':
                            out += I.bind(callv(I, s2, f, [y], c, ty), rdy)
                        else:
                            out += I.bind(callv(I, s2, f, [y], c, targ(ty, hit)),
                                          lambda s3, z: ret(s3, I.ready((I.ok if hit == 0 else I.err)(z))))
                    continue
                if op in ('then', 'and_then', 'or_else'):
                    for s2, go, y in ([(s, True, x)] if op == 'then' else
                                      [(s2, ok == (op == 'and_then'), y if ok == (op == 'and_then') else x) for s2, ok, y in res(I, s, x, ity)]):
                        if not go:
                            out += ret(s2, I.ready(y))
                            continue
                        for s3, k3, z in callv(I, s2, f, [y], c, None):
                            if k3 != 'ret':
                                out.append((s3, k3, z))
                                continue
                            s3 = s3.copy()
                            out += poll(I, s3, I.alloc(s3, 'then', z), cx, c, ty)
                    continue
                s = s.copy()
                out += ret(s, I.ready(I.sym(('ret', op, s.fresh(op), I.freeze(s, x)), ty)))
            return out
        fz = I.freeze(st, v)
        if k == 'Delay':
            return both(I, st, ('delay', fz), UNIT)
        if k == 'Next':
            src = full(I, st, v[3][0])
            return poll_next(I, st, v, src, ty)
        if k == 'TryNext':
            src = full(I, st, v[3][0])
            out = []
            ity = None
            if ty is not None and ty[0] == 'adt' and ty[1] == I.RESULT and targ(ty) is not None:
                ity = ('adt', I.OPTION, (('adt', I.RESULT, (targ(targ(ty)), targ(ty, 1))),))
            for s, kk, x in poll_next(I, st, v, src, ity):
                if kk != 'ret' or x[2] == 1:
                    out.append((s, kk, x))
                    continue
                x = x[3][0]
                if x[0] != 'A':
                    raise IP.Limit("an item of a stream of results")
                if x[2] == 0:
                    out += ret(s, I.ready(I.ok(x)))
                    continue
                for s2, ok, y in res(I, s, x[3][0], targ(ity)):
                    out += ret(s2, I.ready(I.ok(I.some(y)) if ok else I.err(y)))
            return out
        if k == 'ORx':
            ch = v[3][0]
            out = []
            s0 = st.copy()
            n = s0.fresh('recv')
            for s, kk, x in both(I, s0, ('orx', ch), None):
                if x is not None and x[0] == 'A' and x[2] == 0:
                    for s2, b in pred_fork(s, ('p', ('received', ch, n))):
                        out += ret(s2, I.ready(I.ok(I.sym(('item', 'recv', n, ch), CHAN_TY.get(ch))) if b
                                               else I.err(('S', ('canceled', ch), None))))
                else:
                    out.append((s, kk, x))
            return out
        if k == 'SinkFut':
            op, sref = v[3][0], v[3][1]
            out = []
            sid = sink_id(I, st, sref)
            for s, kk, x in both(I, st, ('sink', op, sid), None):
                if x is not None and x[0] == 'A' and x[2] == 0:
                    s = s.copy()
                    n = s.fresh('w' + op)
                    a = full(I, s, v[3][2]) if op == 'send_all' else None
                    if a is not None and a[0] == 'A' and a[1] == 'StreamIter' and a[3][1]:
                        s.event('wsink', 'send_all', sid, (a[3][0],), n)
                    else:
                        s.event('wsink', op, sid, tuple(I.freeze(s, a, 8) for a in v[3][2:]), n)
                    for s2, b in pred_fork(s, ('p', ('wok', op, n))):
                        s2 = s2.copy()
                        s2.event('wok' if b else 'werr', op, n)
                        out += ret(s2, I.ready(I.ok(UNIT) if b else
                                               I.err(I.sym(('item', 'w' + op, n, 'err'), targ(ty, 1)))))
                else:
                    out.append((s, kk, x))
            return out
        if k == 'Handle':
            out = []
            s0 = st.copy()
            n = s0.fresh('joined')
            tty = v[3][1] if v[3][1] is not None else ty
            for s, kk, x in both(I, s0, ('handle', v[3][0]), None):
                if x is not None and x[0] == 'A' and x[2] == 0:
                    out += ret(s, I.ready(I.sym(('item', 'joined', n, v[3][0]), tty)))
                else:
                    out.append((s, kk, x))
            return out
        if k in I.prog.adts and I.prog.adts[k]["local"]:
            bs = [b for b in I.prog.impls.get(("Future", "poll"), []) if b["impl_self"][1] == k]
            if bs:
                return I.run(bs[0], (), [ref, cx], st)
    fz = I.freeze(st, v)
    s0 = st.copy()
    n = s0.fresh('polled')
    out = []
    for s, kk, x in both(I, s0, ('fut', fz), None):
        if x is not None and x[0] == 'A' and x[2] == 0:
            s = s.copy()
            s.event('awaited', fz, n)
            out += ret(s, I.ready(I.sym(('item', 'polled', n, intern((fz,))), ty)))
        else:
            out.append((s, kk, x))
    return out


def both(I, st, what, v):
    """an opaque future may be ready or pending"""
    a = st.copy()
    a.event('ready', what)
    b = st.copy()
    b.event('pend', what)
    return [(a, 'ret', I.ready(v if v is not None else UNIT)), (b, 'ret', I.pending)]


def live_sender(st, ch):
    def has(x):
        if isinstance(x, tuple):
            if len(x) == 4 and x[0] == 'A' and x[1] == 'Tx' and x[3] == (ch,):
                return True
            return any(has(y) for y in x)
        return False
    return any(has(v) for v in st.mem.values())


def poll_next(I, st, fut, src, ty):
    item = targ(ty) if ty is not None else None
    out = []
    s0 = st.copy()
    if src[0] == 'A' and src[1] == 'Rx':
        ch = src[3][0]
        n = s0.fresh('qrecv')
        closed = len(src[3]) > 1
        for s, kk, x in both(I, s0, ('rx', ch), None):
            if x[2] == 1:
                if not closed:
                    out.append((s, kk, x))
                continue
            s1 = s.copy()
            s1.event('qrecv', ch, n)
            out += ret(s1, I.ready(I.some(I.sym(('item', 'qrecv', n, ch), CHAN_TY.get(ch) or item))))
            if closed or not live_sender(s, ch):
                s2 = s.copy()
                s2.event('qend', ch)
                out += ret(s2, I.ready(I.none))
        return out
    sid = src[3][0] if src[0] == 'A' and src[1] == 'WsStream' else I.freeze(st, src)
    n = s0.fresh('frame')
    for s, kk, x in both(I, s0, ('ws', sid), None):
        if x[2] == 1:
            out.append((s, kk, x))
            continue
        v = I.sym(('item', 'frame', n, intern((sid,))), ty if ty is not None else None)
        if ty is None:
            v = ('S', v[1], FRAME_TY.get('opt'))
        cs = I.split(s, v)
        if cs is None:
            s = s.copy()
            s.event('frame', sid, n)
            out += ret(s, I.ready(v))
            continue
        for s2, vi, f in cs:
            s2 = s2.copy()
            if vi == 0:
                s2.event('wsend', sid)
                out += ret(s2, I.ready(I.none))
                continue
            for s3, ok, y in res(I, s2, f[0], targ(v[2])):
                s3 = s3.copy()
                s3.event('frame' if ok else 'rderr', sid, n, y)
                out += ret(s3, I.ready(I.some(I.ok(y) if ok else I.err(y))))
    return out


FRAME_TY = {}


@model("Future::poll", "FutureExt::poll_unpin", "StreamExt::poll_next_unpin", "Stream::poll_next")
def _(I, st, args, c):
    if 'next' in c.name:
        r, p = deep_place(I, st, args[0])
        return poll_next(I, st, None, I.load(st, r, p), targ(c.dty))
    return poll(I, st, args[0], args[1] if len(args) > 1 else UNIT, c, targ(c.dty))


@model("FutureExt::now_or_never")
def _(I, st, args, c):
    st = st.copy()
    cell = I.alloc(st, 'fut', args[0])
    out = []
    for s, k, x in poll(I, st, cell, UNIT, c, targ(c.dty)):
        if k != 'ret':
            out.append((s, k, x))
            continue
        for s2, vi, f in I.split(s, x) or []:
            s2 = s2.copy()
            s2.mem.pop(cell[1], None)
            out += ret(s2, I.some(f[0]) if vi == 0 else I.none)
    return out


@model("FusedFuture::is_terminated", "FusedStream::is_terminated")
def _(I, st, args, c):
    v = full(I, st, args[0])
    if v[0] == 'A' and v[1] == 'Fuse':
        return ret(st, ('b', not v[3]))
    if v[0] == 'A' and v[1] in ('Next',):
        return ret(st, ('b', False))
    return pure(I, st, args, c)


@model("Poll::map")
def _(I, st, args, c):
    v = typed(args[0], c.atys[0])
    cs = I.split(st, v)
    if cs is None:
        return None
    out = []
    for s, vi, f in cs:
        if vi == 1:
            out += ret(s, I.pending)
        else:
            out += I.bind(callv(I, s, args[1], [f[0]], c, targ(c.dty)), lambda s2, r: ret(s2, I.ready(r)))
    return out


@model("Poll::is_ready", "Poll::is_pending")
def _(I, st, args, c):
    v = typed(full(I, st, args[0]), pty(c.atys[0]))
    return ret(st, ('b', I.is_variant(v, 0 if c.name.endswith('ready') else 1)))


# ------------------------------------------------------------------------------------------------- closures
@model("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def _(I, st, args, c):
    a = args[1]
    xs = list(a[1]) if a[0] == 'T' else [a]
    if c.atys[0] is not None and pty(c.atys[0]) is not None:
        pass
    return I.call_value(st, args[0], xs, c)


# ------------------------------------------------------------------------------------------------------------ url
SPECIAL = ('http', 'https', 'ws', 'wss')


def url_val(I, st, a):
    r, p = deep_place(I, st, a)
    v = I.load(st, r, p)
    if v[0] == 'S':
        v = ('A', 'Url', 0, (v[1], None, ()))
    return r, p, v


@model("Url::parse", "Url::from_str", "FromStr::from_str_unused")
def _(I, st, args, c):
    segs = seqv(I, st, args[0])
    st = st.copy()
    st.event('urlparse', segs)
    out = []
    for s, b in pred_fork(st, ('p', ('urlparses', segs))):
        out += ret(s, I.ok(('A', 'Url', 0, (('url', segs), None, ()))) if b else
                   I.err(I.sym(('urlerr', segs), targ(c.dty, 1))))
    return out


@model("Url::scheme")
def _(I, st, args, c):
    r, p, v = url_val(I, st, args[0])
    if v[3][1] is not None:
        return ret(st, I.const_ref(('q', v[3][1])))
    return ret(st, I.const_ref(('S', ('scheme', v[3][0]), ('str',))))


def known_scheme(I, st, v):
    segs = v[3][1]
    if segs is None:
        segs = I.as_segs(st, ('S', ('scheme', v[3][0]), ('str',)))
    if all(s[0] == 'lit' for s in segs):
        return b''.join(s[1] for s in segs).decode()
    if segs in st.seq:
        return st.seq[segs].decode()
    return None


@model("Url::set_scheme")
def _(I, st, args, c):
    st = st.copy()
    r, p, v = url_val(I, st, args[0])
    new = seqv(I, st, args[1])
    old = known_scheme(I, st, v)
    lit = b''.join(s[1] for s in new).decode() if all(s[0] == 'lit' for s in new) else None
    nv = ('A', 'Url', 0, (v[3][0], new, v[3][2]))
    # between special schemes the change always succeeds (a special URL always has a host)
    if old in SPECIAL and lit in SPECIAL:
        I.store(st, r, p, nv)
        return ret(st, I.ok(UNIT))
    out = []
    for s, b in pred_fork(st, ('p', ('set_scheme', I.freeze(st, v), new))):
        s = s.copy()
        if b:
            I.store(s, r, p, nv)
        out += ret(s, I.ok(UNIT) if b else I.err(UNIT))
    return out


@model("Url::host", "Url::host_str", "Url::has_host", "Url::domain")
def _(I, st, args, c):
    r, p, v = url_val(I, st, args[0])
    t = v[3][0]
    pr = ('p', ('hashost', t))
    if c.name == "Url::domain":
        return None
    # URLs with a special scheme always have a host
    out = []
    sch = I.as_segs(st, ('S', ('scheme', t), ('str',)))
    always = st.seq.get(sch, b'').decode() in SPECIAL
    for s, b in ([(st, True)] if always else pred_fork(st, pr)):
        if c.name == "Url::has_host":
            out += ret(s, ('b', b))
        elif not b:
            out += ret(s, I.none)
        elif c.name == "Url::host":
            out += ret(s, I.some(I.sym(('host', t), targ(c.dty))))
        else:
            out += ret(s, I.some(I.const_ref(('S', ('host_str', t), ('str',)))))
    return out


@model("Url::port_or_known_default", "Url::port")
def _(I, st, args, c):
    r, p, v = url_val(I, st, args[0])
    k = c.name.split('::')[1]
    sch = known_scheme(I, st, v)
    # the default port depends on the current scheme only through ws/http (80) and wss/https (443)
    cls = {'http': 80, 'ws': 80, 'https': 443, 'wss': 443}.get(sch)
    if k == 'port_or_known_default' and cls:
        return ret(st, I.some(I.sym(('port', v[3][0], cls), ('prim', 'u16'))))
    out = []
    for s, b in pred_fork(st, ('p', ('has' + k, I.freeze(st, v)))):
        out += ret(s, I.some(I.sym((k, I.freeze(st, v)), ('prim', 'u16'))) if b else I.none)
    return out


@model("Url::query_pairs_mut")
def _(I, st, args, c):
    r, p, v = url_val(I, st, args[0])
    return ret(st, ('A', 'QSer', 0, (('R', r, p),)))


@model("Serializer::append_pair", "Serializer::append_key_only", "Serializer::clear", "Serializer::finish",
       "Serializer::extend_pairs")
def _(I, st, args, c):
    st = st.copy()
    q = full(I, st, args[0])
    if q[0] != 'A' or q[1] != 'QSer':
        return None
    r, p, v = url_val(I, st, q[3][0])
    k = c.name.split('::')[1]
    if k == 'finish':
        return ret(st, q[3][0])
    if k == 'append_pair':
        pairs = v[3][2] + ((I.norm_segs(seqv(I, st, args[1])), I.norm_segs(seqv(I, st, args[2]))),)
    elif k == 'extend_pairs':
        xs = all_items(I, st, args[1], c)
        xs = [full(I, st, x) for x in xs] if xs is not None else None
        if xs is None or any(x[0] != 'T' or len(x[1]) != 2 for x in xs):
            pairs = v[3][2] + ((k, I.freeze(st, ('T', tuple(args[1:])))),)
        else:
            pairs = v[3][2] + tuple((I.norm_segs(seqv(I, st, x[1][0])), I.norm_segs(seqv(I, st, x[1][1]))) for x in xs)
    elif k == 'clear':
        pairs = ('cleared',)
    else:
        pairs = v[3][2] + ((k, I.freeze(st, ('T', tuple(args[1:])))),)
    I.store(st, r, p, ('A', 'Url', 0, (v[3][0], v[3][1], pairs)))
    return ret(st, args[0])


@model("Url::set_query", "Url::set_host", "Url::set_port", "Url::set_path", "Url::set_fragment", "Url::set_username",
       "Url::set_password")
def _(I, st, args, c):
    st = st.copy()
    r, p, v = url_val(I, st, args[0])
    k = c.name.split('::')[1]
    I.store(st, r, p, ('A', 'Url', 0, (v[3][0], v[3][1], v[3][2] + ((k, I.freeze(st, ('T', tuple(args[1:])))),))))
    return ret(st, I.sym(('ret', c.name, st.fresh(c.name)), c.dty) if c.dty != UNITTY else UNIT)


@model("Url::as_str", "Url::into_string", "Url::into")
def _(I, st, args, c):
    v = full(I, st, args[0])
    q = ('q', (('disp', 'url', I.freeze(st, v)),))
    return ret(st, I.const_ref(q) if c.name == 'Url::as_str' else q)


def install(I):
    I.models.update(M)
    I.spawned = []
    I.tyname = I.prog.tyname
    for h, a in I.prog.adts.items():
        if a["name"] == 'Value' and 'serde_json' in a["path"]:
            VALUE_TY['Value'] = ('adt', h, ())
    # an opaque stream of websocket frames: Option<Result<Message, Error>>
    m = e = None
    for h, a in I.prog.adts.items():
        if a["name"] == 'Message' and 'tungstenite' in a["path"]:
            m = ('adt', h, ())
        if a["name"] == 'Error' and 'tungstenite' in a["path"]:
            e = ('adt', h, ())
    FRAME_TY['msg'] = m
    FRAME_TY['err'] = e
    FRAME_TY['opt'] = ('adt', I.OPTION, (('adt', I.RESULT, (m, e)),))
