"""C29: owned sub-slices"""
from domain import *
from interp import expand
from framework import check, view, Missing

CR = 'owned_subslice'
COPYING = ('clone', 'to_owned', 'to_vec', 'to_string', 'into_owned', 'collect', 'extend', 'from_iter', 'push_str',
           'copy_from_slice', 'clone_from', 'extend_from_slice', 'concat', 'repeat', 'split_off', 'drain')


def one(ctx, outs, what, site, allow=()):
    """the returning outcomes; panics must be of the allowed kinds"""
    r = []
    for s, k, v in outs:
        if k == 'ret':
            r.append((s, v))
        elif not any(a in str(v[0]) for a in allow):
            ctx.ob('no-panic', False, what, '%s can panic: %s' % (what, v), site)
    return r


@check('C29')
def c29(ctx):
    prog = ctx.prog
    new = ctx.fn(CR, 'new', 'OwnedSubslice')
    sub = ctx.fn(CR, 'subslice', 'OwnedSubslice')
    string = ('adt', prog.adt_by_name['String'][0]["hash"], ()) if 'String' in prog.adt_by_name else None
    vecs = [b["impl_self"] for b in prog.find(crate=CR, name='from', self_adt='OwnedSubslice', trait='From')]
    types = []
    for t in vecs:
        # OwnedSubslice<String>, OwnedSubslice<Vec<T>>
        inner = t[2][0]
        from facts import subst
        inner = subst(inner, {g: ('prim', 'u8') for g in 'TUAE'})
        types.append(inner)
    if len(types) < 2:
        raise Missing('conversions from String and Vec')
    R = lambda I, x: ('A', I.RANGE, 0, tuple(x))
    for S in types:
        tn = prog.tyname(S)
        subm = tuple((g, S) for g in new["generics"][:1])
        for b in prog.find(crate=CR, name='deref', self_adt='OwnedSubslice', trait='Deref') + \
                prog.find(crate=CR, name='deref_mut', self_adt='OwnedSubslice', trait='DerefMut'):
            I = ctx.interp()
            I.trace_calls = []
            site = ctx.site(b)
            bsub = tuple((g, S) for g in b["generics"][:1])
            data = ('S', 'data', S)
            a, z, c, d = [I.sym(n, ('prim', 'usize')) for n in 'azcd']
            st = State()
            n = I.segs_len(I.as_segs(st, data))
            big = ('i', 1 << 62, NOFS)
            for l in (lsub(z, a), lsub(n, z), lsub(big, n), lsub(big, c), lsub(big, d)):
                st = st.assume(pge(l))[0]
            st0 = st
            # window of a fresh slice
            for s, v in one(ctx, ctx.run(I, new, [data, R(I, (a, z))], st.copy(), subm), 'new', ctx.site(new)):
                windows(ctx, I, s, v, b, bsub, data, [(a, z, None)], site, tn + ' new+' + b["name"])
                # window of a window
                for s2, w in one(ctx, ctx.run(I, sub, [v, R(I, (c, d))], s.copy(), subm), 'subslice', ctx.site(sub)):
                    end = ladd(a, d)
                    for s3 in s2.assume(pge(lsub(z, end)), True):
                        windows(ctx, I, s3, w, b, bsub, data, [(ladd(a, c), end, None)], ctx.site(sub),
                                tn + ' subslice+' + b["name"])
                    for s3 in s2.assume(pge(lsub(z, end)), False):
                        windows(ctx, I, s3, w, b, bsub, data, [(ladd(a, c), z, None)], ctx.site(sub),
                                tn + ' subslice+' + b["name"])
            for _, p, _, ga in I.trace_calls:
                nm = p.split('::')[-1]
                t = ga[0] if ga else None
                while t is not None and t[0] == 'ref':
                    t = t[2]
                small = t is not None and (t[0] == 'prim' or prog.adtname(t) == 'Range')
                ctx.ob('no-copy', small or nm not in COPYING, 'copy:' + nm, 'taking or reading a slice calls %s' % p, site)
        # conversions
        fr = [b for b in prog.find(crate=CR, name='from', self_adt='OwnedSubslice', trait='From')
              if prog.adtname(b["impl_self"][2][0]) == prog.adtname(S)]
        for b in fr:
            I = ctx.interp()
            m = tuple((g, ('prim', 'u8')) for g in b["generics"])
            data = ('S', 'data', S)
            st = State()
            for s, v in one(ctx, ctx.run(I, b, [data], st, m), 'from', ctx.site(b)):
                for s2, segs in view(ctx, I, s, v):
                    ctx.ob('conversion', segs == I.as_segs(s2, data), tn, 'the conversion from %s shows %s' % (
                        tn, None if segs is None else [ctx.pp.seg(x) for x in segs]), ctx.site(b),
                        sample='From<%s> shows the whole' % tn)
        # comparison and formatting
        traits(ctx, S, tn, new, subm)
    ctx.assume += ['Index/IndexMut of String and Vec by a range give exactly that range',
                   'lengths and requested ranges stay below 2^62, so window arithmetic does not overflow']


def windows(ctx, I, s, v, b, bsub, data, wants, site, what):
    s = s.copy()
    r = I.alloc(s, 'slice', v)
    base = I.as_segs(s, data)[0]
    for lo, hi, _ in wants:
        n = 0
        for s2, k, x in ctx.run(I, b, [r], s, bsub):
            if k != 'ret':
                # the range may be invalid: then there is no window at all
                l = I.as_segs(s2, data)
                bad = por(pnot(pge(lsub(hi, lo))), pnot(pge(lsub(I.segs_len(l), hi))))
                text = 'character boundary' in str(x[0])
                ctx.ob('window', text or s2.decide(bad) is True, what + ':panic',
                       '%s can panic for a valid window: %s %s' % (what, x, ctx.pp.state(s2, False)), site)
                continue
            n += 1
            segs = I.as_segs(s2, I.load(s2, x[1], x[2])) if x[0] == 'R' else None
            want = I.norm_segs((('sub', base[1], lo, hi, base[4]),))
            ok = segs is not None and same(I, s2, segs, want)
            ctx.ob('window', ok, what, '%s shows %s instead of %s when %s' % (
                what, segs and [ctx.pp.seg(y) for y in segs], [ctx.pp.seg(y) for y in want], ctx.pp.state(s2, False)), site,
                sample='%s = %s' % (what, ' '.join(ctx.pp.seg(y) for y in want)))
            if b["name"] == 'deref_mut':
                ok = x[0] == 'R' and x[1] == r[1]
                ctx.ob('in-place', ok, what, '%s does not refer to the stored data: %s' % (what, ctx.pp.v(x)), site)
        ctx.ob('floor', n > 0, what, '%s never returns' % what, site)


def same(I, s, a, b):
    if a == b:
        return True
    if len(a) == 1 and len(b) == 1 and a[0][0] == 'sub' and b[0][0] == 'sub' and a[0][1] == b[0][1]:
        return s.decide(peq0(lsub(a[0][2], b[0][2]))) is True and s.decide(peq0(lsub(a[0][3], b[0][3]))) is True
    if not a and len(b) == 1 and b[0][0] == 'sub':
        return s.decide(peq0(lsub(b[0][2], b[0][3]))) is True
    return False


def traits(ctx, S, tn, new, subm):
    prog = ctx.prog
    R = lambda I, x: ('A', I.RANGE, 0, tuple(x))

    def make(I, st, name):
        data = ('S', name, S)
        lo, hi = I.sym(name + '.lo', ('prim', 'usize')), I.sym(name + '.hi', ('prim', 'usize'))
        n = I.segs_len(I.as_segs(st, data))
        for l in (lsub(hi, lo), lsub(n, hi)):
            st = st.assume(pge(l))[0]
        (s, k, v), = [o for o in ctx.run(I, new, [data, R(I, (lo, hi))], st, subm) if o[1] == 'ret']
        s = s.copy()
        base = I.as_segs(s, data)[0]
        return s, I.alloc(s, name, v), (('sub', base[1], lo, hi, base[4]),)
    eqs = [b for (t, n), bs in prog.impls.items() if t == 'PartialEq' and n == 'eq' for b in bs if b["crate"] == CR]
    nes = 0
    for b in eqs:
        I = ctx.interp()
        st = State()
        args, wins = [], []
        slot = 0
        for i in range(2):
            t = b["locals"][i + 1]
            while t[0] == 'ref':
                t = t[2]
            if t[0] == 'adt' and prog.adtname(t) == 'OwnedSubslice':
                st, r, w = make(I, st, 'xy'[i])
            else:
                r0 = ('S', 'other', ('ref', False, ('str',) if prog.adtname(S) == 'String' else ('slice', S[2][0])))
                w = I.as_segs(st, I.load(st, *I.deref(st, r0)))
                st = st.copy()
                r = I.alloc(st, 'other', r0)
            args.append(r)
            wins.append(w)
        sub = tuple((g, S) for g in b["generics"][:1])
        for s, k, v in ctx.run(I, b, args, st, sub):
            if k != 'ret':
                if 'character boundary' in str(v[0]):
                    continue
                ctx.ob('comparison', False, 'panic', 'comparing can panic %s' % (v,), ctx.site(b))
                continue
            nes += 1
            want = I.seq_eq(s, *wins)
            if v == ('b', want) or (v[0] == 'b' and v[1] in (True, False) and s.decide(want) is v[1]):
                ok = True
            else:
                ok = False
            ctx.ob('comparison', ok, b["path"].split(' for ')[0][:60], 'comparison of slices tests %s instead of %s' % (
                ctx.pp.v(v), ctx.pp.pred(want)), ctx.site(b), sample='%s: %s' % (tn, ctx.pp.pred(want)))
    ctx.ob('floor', nes >= 3, 'eq', 'fewer than 3 comparisons found')
    for tr in ('Display', 'Debug'):
        for b in prog.impls.get((tr, 'fmt'), []):
            if b["crate"] != CR:
                continue
            I = ctx.interp()
            st = State()
            st, r, w = make(I, st, 'x')
            f = I.alloc(st, 'formatter', ('S', 'formatter', None))
            sub = tuple((g, S) for g in b["generics"][:1])
            I.trace_calls = []
            seen = []
            I.hooks['fmt'] = seen
            outs = ctx.run(I, b, [r, f], st, sub)
            for s, k, v in outs:
                if k != 'ret' and 'character boundary' in str(v[0]):
                    continue
                ctx.ob('formatting', k == 'ret', tr, 'formatting can panic: %s' % (v,), ctx.site(b))
                if k == 'ret':
                    got = [e for e in s.ev if e[0] == 'fmt']
                    ok = len(got) == 1 and got[0][1] == tr + '::fmt' and expand(got[0][2]) == (('q', w),) and \
                        v[0] == 'S' and v[1][0] == 'fmtres'
                    ctx.ob('formatting', ok, tr, '%s does not format exactly the window: %s' % (
                        tr, [ctx.pp.term(e) for e in s.ev]), ctx.site(b), sample='%s formats %s' % (tr, ctx.pp.term(w)))
