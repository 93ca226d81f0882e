"""C35: the arguments of a packet, visited by index and in order, each read from its own text"""
from domain import *
from framework import check, view, Missing
from interp import Call
from models import it_next
from checks import c_packet
from checks.c_de import De
from checks.c_panic import iterator, library_iterator, anywhere

I_ = lambda n: ('i', n, NOFS)
CR = 'socket_io_protocol'


def step(ctx, I, it, st):
    """[(state, iterator, item | None | ('panic', why))] of one step of an iterator of the workspace or the library"""
    if library_iterator(I, it):
        c = Call()
        c.name, c.frame, c.sub, c.dty, c.atys, c.gargs, c.line, c.info = 'Iterator::next', None, {}, None, [], (), 0, None
        return it_next(I, st, it, c)
    b = iterator(ctx, it)
    if b is None:
        raise Missing('what visits the arguments is no known iterator')
    s = st.copy()
    r = I.alloc(s, 'theiter', it)
    out = []
    for s1, k, v in I.run(b, (), [r], s):
        n = I.load(s1, r[1], r[2])
        if k != 'ret':
            out.append((s1, n, ('panic', v)))
        else:
            out += [(s2, n, x) for s2, x in options(I, s1, v)]
    return out


def options(I, s, v):
    if v[0] == 'A' and v[1] == I.OPTION:
        return [(s, v[3][0] if v[2] == 1 else None)]
    out = []
    for vi in (0, 1):
        for s2 in s.assume(I.is_variant(v, vi)):
            out.append((s2, I.sym_field(v, 0, 1) if vi else None))
    return out


class ArgsOf:
    def __init__(self, ctx, R):
        self.ctx, self.I, self.R = ctx, R.I, R
        self.iter = ctx.fn(CR, 'iter', 'Args')
        self.empty = ctx.fn(CR, 'is_empty', 'Args')
        self.site = ctx.site(self.iter)

    def show(self, s, a):
        """text and attachments shown by an argument"""
        if a is None or a[0] != 'A':
            return a
        out = []
        for f in a[3]:
            v = view(self.ctx, self.I, s, f) if isinstance(f, tuple) else []
            t = v[0][1] if v and v[0][1] is not None else self.I.freeze(s, f)
            out.append(c_packet.strip(t) if isinstance(t, tuple) and t and isinstance(t[0], tuple) else t)
        return tuple(out)

    def same(self, s, ra, i, x, key, what):
        """the item x of a step is what get(i) gives"""
        ctx = self.ctx
        bad = isinstance(x, tuple) and x and x[0] == 'panic'
        if not ctx.ob('order', not bad, key + ':panic', '%s panics' % what, self.site):
            return
        for s1, a in self.R.arg(s, ra, i):
            if isinstance(a, tuple) and a and a[0] == 'panic' or a == 'none':
                a = None
            ctx.ob('order', (a is None) == (x is None) and (a is None or self.show(s1, a) == self.show(s1, x)), key,
                   '%s gives %s instead of %s' % (what, 'nothing' if x is None else 'another argument' if a is not None else 'an argument',
                                                  'nothing' if a is None else 'the argument at that index'), self.site,
                   sample='%s: %s' % (what, 'end' if x is None else 'argument'))

    def check(self, s, ra, n, depth):
        ctx, I = self.ctx, self.I
        for s1, k, v in I.run(self.empty, (), [ra], s):
            if not ctx.ob('empty', k == 'ret', 'panics', 'asking for arguments panics', ctx.site(self.empty)):
                continue
            p = v[1] if v[0] == 'b' else ('p', v)
            for val in (True, False):
                for s2 in s1.assume(p, val):
                    ctx.ob('empty', s2.decide(peq0(n)) is val, 'empty', 'the arguments are %s to be empty when they %s' % (
                        'said' if val else 'not said', 'may not be' if val else 'may be'), ctx.site(self.empty), sample='empty: %s' % val)
        # beyond the end
        i = I.sym('beyond', ('prim', 'usize'))
        for s1 in s.assume(pge(lsub(i, n))):
            for s2, a in self.R.arg(s1, ra, i):
                ctx.ob('beyond', a in (None, 'none'), 'get', 'there is an argument beyond the last, or asking for it panics', ctx.site(self.R.get),
                       sample='get(len..) = nothing')
        m = 0
        for s1, k, it in I.run(self.iter, (), [ra], s):
            if not ctx.ob('order', k == 'ret', 'iter:panic', 'visiting the arguments panics', self.site):
                continue
            todo = [(s1, it, 0)]
            while todo:
                s2, it2, j = todo.pop()
                self.shortcuts(s2, ra, n, it2, I_(j))
                for s3, it3, x in step(ctx, I, it2, s2):
                    m += 1
                    self.same(s3, ra, I_(j), x, 'step', 'step %d of visiting the arguments' % (j + 1))
                    if x is not None and x[0] != 'panic' and j + 1 < depth:
                        todo.append((s3, it3, j + 1))
            # and from wherever it has got to
            v, at = self.anywhere(it)
            if len(at) != 1:
                ctx.notes['later steps'] = 'only the first %d' % depth
                continue
            s2 = s1.copy()
            for q in at:
                s2 = s2.assume(pge(lsub(I_(1 << 62), q)))[0].copy()
            self.shortcuts(s2, ra, n, v, at[0])
            for s3, it3, x in step(ctx, I, v, s2):
                m += 1
                self.same(s3, ra, at[0], x, 'any', 'a later step of visiting the arguments')
                if x is not None and x[0] != 'panic':
                    # the next position is one further
                    for s4, it4, y in step(ctx, I, it3, s3):
                        self.same(s4, ra, ladd(at[0], I_(1)), y, 'next', 'the step after a step of visiting the arguments')
        return m

    def shortcuts(self, s, ra, n, it, at):
        """the operations of the iterator which its type defines itself, from a position"""
        ctx, I = self.ctx, self.I
        if it[0] != 'A' or library_iterator(I, it):
            return
        for (trait, name), bs in sorted(ctx.prog.impls.items()):
            if trait != 'Iterator' or name == 'next':
                continue
            for b in bs:
                if not (b["impl_self"] and b["impl_self"][0] == 'adt' and b["impl_self"][1] == it[1]):
                    continue
                site = ctx.site(b)
                s0 = s.copy()
                if name == 'nth':
                    by = I.sym('by', ('prim', 'usize'))
                    r = I.alloc(s0, 'theiter', it)
                    for s1 in s0.assume(pge(lsub(I_(1 << 61), by))):
                        for s2, k, v in I.run(b, (), [r, by], s1):
                            it2 = I.load(s2, r[1], r[2])
                            for s3, x in options(I, s2, v) if k == 'ret' else [(s2, ('panic', v))]:
                                self.same(s3, ra, ladd(at, by), x, 'nth', 'skipping arguments')
                                if x is not None and x[0] != 'panic':
                                    for s4, it3, y in step(ctx, I, it2, s3):
                                        self.same(s4, ra, ladd(ladd(at, by), I_(1)), y, 'nth:next', 'the step after skipping arguments')
                elif name in ('size_hint', 'count'):
                    a = it
                    if name == 'size_hint':
                        a = I.alloc(s0, 'theiter', it)
                    for s2, k, v in I.run(b, (), [a], s0):
                        if not ctx.ob('order', k == 'ret', name + ':panic', '%s of the arguments panics' % name, site):
                            continue
                        for inside in (True, False):
                            left = lsub(n, at) if inside else I_(0)
                            for s3 in s2.assume(pge(lsub(lsub(n, at), I_(1))), inside):
                                if name == 'count':
                                    ok = s3.entails_ge(lsub(v, left)) and s3.entails_ge(lsub(left, v))
                                    ctx.ob('order', ok, name, 'the arguments left are counted wrong', site, sample=name)
                                    continue
                                lo, hi = v[1]
                                for s4, h in options(I, s3, hi):
                                    ctx.ob('order', s4.entails_ge(lsub(left, lo)) and (h is None or s4.entails_ge(lsub(h, left))), name,
                                           'the number of arguments left is not within the bounds given for it', site, sample=name)
                else:
                    ctx.ob('order', False, name, '%s of the iterator over arguments is redefined in a way which is not analysed' % name, site)

    def anywhere(self, it):
        I = self.I
        if library_iterator(I, it):
            return anywhere(I, it)
        at = []
        f = list(it[3])
        for i, x in enumerate(f):
            if isinstance(x, tuple) and x[0] == 'i':
                f[i] = I.sym(('at', i), ('prim', 'usize'))
                at.append(f[i])
            elif isinstance(x, tuple) and x and x[0] == 'A' and library_iterator(I, x):
                f[i], a = anywhere(I, x, (i,))
                at += a
        return ('A', it[1], it[2], tuple(f)), at


@check('C35')
def c35(ctx):
    R, S, out = c_packet.rows(ctx)
    A = ArgsOf(ctx, R)
    depth = 5 if ctx.tier == 'thorough' else 3
    n = m = 0
    for row in out:
        if row['res'] != 'packet' or 'len' not in row['o']:
            continue
        n += 1
        m += A.check(row['s'], row['o']['argsref'], row['o']['len'], depth)
    ctx.floor(n, 5, 'packets with arguments')
    ctx.floor(m, 20, 'steps over arguments')
    # each is read from its own text
    De(ctx)
    plain(ctx)


def plain(ctx):
    """Arg::to_json_value without attachments is the JSON value of its text"""
    I = ctx.interp()
    b = ctx.fn(CR, 'to_json_value', 'Arg')
    site = ctx.site(b)
    st = State()
    arg = I.sym('self', b["locals"][1])
    root, proj = I.deref(st, arg)
    av = I.load(st, root, proj)
    want = none = None
    for i, f in enumerate(ctx.prog.adts[b["locals"][1][2][1]]["variants"][0][1]):
        if f[1][0] == 'ref':
            segs = I.as_segs(st, I.load(st, *I.deref(st, I.sym_field(av, i, 0))))
            if f[1][2] == ('str',):
                want = I.norm_segs(segs)
            elif f[1][2][0] == 'slice':
                none = peq0(I.segs_len(segs))
    if want is None or none is None:
        raise Missing('text and attachments of Arg')
    n = 0
    for s0 in st.assume(none):
        for s, k, v in ctx.run(I, b, [arg], s0):
            if not ctx.ob('plain', k == 'ret', 'panic', 'converting an argument without attachments panics', site):
                continue
            n += 1
            js = [e for e in s.ev if e[0] == 'json']
            if not ctx.ob('plain', len(js) == 1 and I.norm_segs(js[0][2]) == want, 'text', 'an argument is not converted from its text', site):
                continue
            good = s.decide(('p', ('json', js[0][1], js[0][2])))
            ok = v[0] == 'A' and v[1] == I.RESULT and v[2] == 0
            ctx.ob('plain', good is ok and (not ok or v[3][0][0] == 'S' and v[3][0][1] == ('jsonval', js[0][2])), 'value',
                   'an argument without attachments is not converted to the JSON value of its text', site, sample='text -> JSON value')
    ctx.floor(n, 2, 'conversions without attachments')
