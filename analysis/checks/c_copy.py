"""C48: clones and comparisons"""
from domain import *
from facts import subst
from framework import check, view, Missing
from models import pred_fork

CRATES = ('socket_io_protocol', 'socket_io_client', 'owned_subslice')
COPIES = ('engine::Message', 'engine::Packet', 'engine::Open', 'socket::Packet', 'socket::Data', 'socket::args::Args',
          'socket::args::Arg', 'OwnedSubslice', 'callbacks::EventCallback')
COMPARED = ('engine::Message', 'engine::Packet', 'engine::Open')


def path(prog, t):
    return prog.adts[t[1]]["path"] if t is not None and t[0] == 'adt' and t[1] in prog.adts else ''


def which(prog, t, names):
    p = '::' + path(prog, t)
    for n in names:
        if p.endswith('::' + n):
            return n
    return None


def parts(I, prog, s, a, ty):
    """[(state, variant, [(field value, type)])] of a value of a type of the workspace"""
    sub = dict(zip(prog.adts[ty[1]].get("generics") or (), ty[2]))
    for vi, fs in enumerate(x[1] for x in prog.adts[ty[1]]["variants"]):
        for s2 in ([s] if len(prog.adts[ty[1]]["variants"]) == 1 else s.assume(I.is_variant(a, vi))):
            yield s2, vi, [(a[3][i] if a[0] == 'A' else I.sym_field(a, i, vi), subst(f[1], sub)) for i, f in enumerate(fs)]


def local(prog, ty):
    return ty is not None and ty[0] == 'adt' and ty[1] in prog.adts and prog.adts[ty[1]]["path"].split('::')[0] in (
        'socket_io_protocol', 'socket_io_client', 'owned_subslice') and prog.adts[ty[1]]["variants"]


def whole(s, v, I):
    for _ in range(6):
        if v[0] == 'R':
            v = I.load(s, v[1], v[2])
        elif v[0] == 'S' and v[2] is not None and v[2][0] == 'ref':
            v = I.load(s, *I.deref(s, v))
        else:
            break
    return v


def same_seq(I, s, x, y):
    """whether two sequences have the same elements; one may be the other's elements written one by one"""
    if x == y:
        return True
    if s.decide(peq0(lsub(I.segs_len(x), I.segs_len(y)))) is not True:
        return False
    if s.decide(peq0(I.segs_len(x))) is True:
        return True
    if len(y) == 1 and y[0][0] == 'comp' and y[0][3] == ('i', 0, NOFS):
        at = ('i', 0, frozenset([(y[0][1], 1)]))
        e = I.seq_at(s, ('q', x), at)
        return e is not None and I.freeze(s, whole(s, y[0][2], I)) == I.freeze(s, whole(s, e, I))
    return False


def differs(ctx, I, s, a, b, ty, at=''):
    """the part in which b is no copy of a, or None"""
    prog = ctx.prog
    if I.freeze(s, a) == I.freeze(s, b):
        return None
    if ty is not None and ty[0] == 'ref':
        return differs(ctx, I, s, whole(s, a, I), whole(s, b, I), ty[2], at)
    et = I.elem_ty(ty)
    if et is not False:
        x, y = I.norm_segs(I.as_segs(s, whole(s, a, I))), I.norm_segs(I.as_segs(s, whole(s, b, I)))
        return None if same_seq(I, s, x, y) else at
    if local(prog, ty):
        for s1, vi, fs in parts(I, prog, s, a, ty):
            for s2, vj, gs in parts(I, prog, s1, b, ty):
                if vi != vj:
                    return at + ' (another variant)'
                for k, ((x, t), (y, _)) in enumerate(zip(fs, gs)):
                    d = differs(ctx, I, s2, x, y, t, at + '.' + prog.adts[ty[1]]["variants"][vi][1][k][0])
                    if d is not None:
                        return d
        return None
    if a[0] in 'AS' and b[0] in 'AS' and ty is not None and ty[0] == 'adt' and ty[1] == I.OPTION:
        for vi in (0, 1):
            for s1 in s.assume(I.is_variant(a, vi)):
                for s2 in s1.assume(I.is_variant(b, 1 - vi)):
                    return at
                x, y = [z[3][0] if z[0] == 'A' else I.sym_field(z, 0, 1) for z in (a, b)] if vi else (0, 0)
                if vi and I.freeze(s1, x) != I.freeze(s1, y):
                    return at
        return None
    return at


def known(I, prog, s, a, ty):
    """states in which the variants of a value and its parts are known"""
    if not local(prog, ty) or prog.adtname(ty) == 'OwnedSubslice':
        return [s]
    out = []
    for s1, vi, fs in parts(I, prog, s, a, ty):
        todo = [s1]
        for x, t in fs:
            todo = [q for s2 in todo for q in known(I, prog, s2, x, t)]
        out += todo
    return out


def equal(ctx, I, s, a, b, ty):
    """[(state, whether a and b are equal)] by their contents"""
    prog = ctx.prog
    if ty[0] == 'ref':
        return equal(ctx, I, s, whole(s, a, I), whole(s, b, I), ty[2])
    if local(prog, ty) and prog.adtname(ty) != 'OwnedSubslice':
        out = []
        for s1, vi, fs in parts(I, prog, s, a, ty):
            for s2, vj, gs in parts(I, prog, s1, b, ty):
                if vi != vj:
                    out.append((s2, False))
                    continue
                todo = [s2]
                for (x, t), (y, _) in zip(fs, gs):
                    nxt = []
                    for q in todo:
                        for q2, e in equal(ctx, I, q, x, y, t):
                            if e:
                                nxt.append(q2)
                            else:
                                out.append((q2, False))
                    todo = nxt
                out += [(q, True) for q in todo]
        return out
    if ty[0] == 'prim':
        return list(pred_fork(s, peq0(lsub(a, b))))
    out = []
    for s1, x in view(ctx, I, s, a):
        for s2, y in view(ctx, I, s1, b):
            if x is not None and y is not None:
                # equal texts are equally long
                d = s2.decide(peq0(lsub(I.segs_len(x), I.segs_len(y))))
                out += [(s2, False)] if d is False else pred_fork(s2, I.seq_eq(s2, x, y))
    return out


@check('C48')
def c48(ctx):
    prog = ctx.prog
    n = set()
    for b in prog.impls.get(('Clone', 'clone'), []):
        w = b["crate"] in CRATES and which(prog, b["impl_self"], COPIES)
        if not w:
            continue
        site = ctx.site(b)
        types = [()]
        if w == 'OwnedSubslice':
            types = []
            for c in prog.find(crate='owned_subslice', name='from', self_adt='OwnedSubslice', trait='From'):
                t = subst(c["impl_self"][2][0], {g: ('prim', 'u8') for g in 'TUAE'})
                types.append(tuple((g, t) for g in b["generics"][:1]))
        for sub in types:
            ty = subst(b["locals"][1][2], dict(sub))
            I = ctx.interp()
            st = State()
            a = I.sym('self', ('ref', False, ty))
            for s, k, v in ctx.run(I, b, [a], st, sub):
                if not ctx.ob('clone', k == 'ret', w + ':panic', 'cloning %s panics: %s' % (w, v), site):
                    continue
                n.add(w)
                d = differs(ctx, I, s, I.load(s, *I.deref(s, a)), v, ty, w)
                ctx.ob('clone', d is None, w, 'a clone differs from its original in %s' % d, site, sample='%s: the same' % w)
                left = differs(ctx, I, s, I.load(s, *I.deref(s, a)), I.load(State(), *I.deref(State(), a)), ty, w)
                ctx.ob('clone', left is None, w + ':kept', 'cloning changes the original: %s' % left, site)
    for w in COPIES:
        # a type may lose its Clone, what it has has to be right
        if w in COMPARED and w not in n:
            raise Missing('Clone of ' + w)
    ctx.floor(len(n), 6, 'types with clones')
    m = set()
    for b in prog.impls.get(('PartialEq', 'eq'), []):
        w = b["crate"] in CRATES and which(prog, b["impl_self"], COMPARED)
        if not w:
            continue
        site = ctx.site(b)
        ty = b["locals"][1][2]
        I = ctx.interp()
        st = State()
        x, y = I.sym('x', b["locals"][1]), I.sym('y', b["locals"][2])
        outs = []
        for s1 in known(I, prog, st, I.load(st, *I.deref(st, x)), ty):
            for s2 in known(I, prog, s1, I.load(s1, *I.deref(s1, y)), ty):
                outs += ctx.run(I, b, [x, y], s2)
        for s, k, v in outs:
            if k != 'ret':
                # the windows of arbitrary messages may be anything
                ctx.ob('compare', 'slice' in str(v[0]), w + ':panic', 'comparing %s panics: %s' % (w, v), site)
                continue
            m.add(w)
            for s1, got in pred_fork(s, v[1] if v[0] == 'b' else ('p', v)):
                for s2, e in equal(ctx, I, s1, I.load(s1, *I.deref(s1, x)), I.load(s1, *I.deref(s1, y)), ty):
                    ctx.ob('compare', e is got, w, '%s values which are %s compare as %s' % (
                        w, 'equal' if e else 'different', 'equal' if got else 'different'), site, sample='%s: %s' % (w, e))
    for w in COMPARED:
        if w not in m:
            raise Missing('comparison of ' + w)
