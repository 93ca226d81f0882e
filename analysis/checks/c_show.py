"""C47: what packets and arguments print as"""
from domain import *
from framework import check, Missing
from models import writer_of, do_write, seqv, char_seg, disp_segs, ret, full, UNIT, pty
from checks.c_panic import recursive

CR = 'socket_io_protocol'
I_ = lambda n: ('i', n, NOFS)


def as_writer(I, fails):
    """formatters are text that grows; a write may fail, which is recorded"""
    def put(I, st, args, c, segs):
        w = writer_of(I, st, args)
        if w is None:
            return None
        out = ret(do_write(I, st, w, segs), I.ok(UNIT))
        if fails:
            s = st.copy()
            s.event('wfail')
            out += ret(s, I.err(('S', ('writeerror',), None)))
        return out

    def mk(n):
        def g(I, st, args, c):
            if n == 'write_fmt':
                v = full(I, st, args[1])
                if not (v[0] == 'A' and v[1] == 'FmtArgs'):
                    return None
                segs = v[3][0][1]
            elif n == 'write_char':
                segs = (char_seg(args[1]),)
            else:
                segs = seqv(I, st, args[1])
            return put(I, st, args[0], c, segs)
        return g
    for n in ('write_fmt', 'write_str', 'write_char', 'pad'):
        I.models['Formatter::' + n] = mk(n)
        I.models['Write::' + n] = mk(n)

    to_string = I.models['ToString::to_string']

    def printed(I, st, args, c):
        out = []
        for s, k, v in to_string(I, st, args, c) or ():
            s = s.copy()
            if k == 'ret' and v[0] == 'q':
                for x in v[1]:
                    if x[0] == 'disp' and x[1] == 'display':
                        # neither a JSON value nor an argument prints as nothing
                        s = s.assume(pge(ladd(I.segs_len((x,)), I_(-1))))[0]
            out.append((s, k, v))
        return out or None
    I.models['ToString::to_string'] = printed

    def show(how):
        def g(I, st, args, c):
            return put(I, st, args[1], c, disp_segs(I, st, full(I, st, args[0]), how, pty(c.atys[0])))
        return g
    I.models['Display::fmt'] = show('display')
    I.models['Debug::fmt'] = show('debug')


def run(ctx, b, args, fails=True, exact=True):
    """[(state, Ok?, segments)] of printing"""
    I = ctx.interp()
    if exact:
        # lists have a known length
        I.hooks['exact'] = lambda b: True
        I.hooks['unroll'] = True
    as_writer(I, fails)
    for o in ctx.prog.impls.get(('Display', 'fmt'), []):
        if o["crate"] == CR and o is not b:
            I.opaque[o["hash"]] = I.models['Display::fmt']       # judged on its own
    recursive(ctx, I)
    st = State()
    a = args(I, st)
    f = I.alloc(st, 'formatter', ('q', ()))
    out = []
    for s, k, v in ctx.run(I, b, [a, f], st):
        if k != 'ret':
            # the ranges of an arbitrary packet may be anything; those of a received one are right (C07)
            ok = 'slice' in str(v[0]) or v[1].endswith('Packet::data')
            ctx.ob('panic', ok, str(v[:2]), 'printing panics: %s' % (v,), ctx.site(b))
            continue
        out += [(I, s, a, r, I.norm_segs(I.as_segs(s, I.load(s, f[1], f[2])))) for s, r in verdict(I, s, v)]
    return out


def verdict(I, s, v):
    if v[0] == 'A' and v[1] == I.RESULT:
        return [(s, v[2] == 0)]
    return [(s2, vi == 0) for vi in (0, 1) for s2 in s.assume(I.is_variant(v, vi))]


def same(I, s, seg, v):
    """segment seg is the printed form of v"""
    if seg[0] != 'disp':
        return False
    if seg[1] == 'dec':
        return seg[2] == v
    return seg[2] == I.freeze(s, v) or seg[2] == v


def lits(segs):
    return b''.join(x[1] for x in segs if x[0] == 'lit')


def parts(ctx, I, s, segs, name, want, what, site):
    """the text is the kind's name, then every wanted part once, in order, among fixed text"""
    shown = [x for x in segs if x[0] != 'lit']
    forms = [[]]
    for w in want:
        alts = [[w]]
        if w[0] == 'A' and w[1] == I.OPTION or w[0] == 'S' and w[2] is not None and w[2][:2] == ('adt', I.OPTION):
            # no id need not be shown, an id may be shown as it is
            if s.assume(I.is_variant(w, 1)) == []:
                alts.append([])
            if s.assume(I.is_variant(w, 0)) == []:
                alts.append([w[3][0] if w[0] == 'A' else I.sym_field(w, 0, 1)])
        forms = [f + a for f in forms for a in alts]
    ok = bool(segs) and segs[0][0] == 'lit' and segs[0][1].startswith(name.encode()) and \
        not segs[0][1][len(name):len(name) + 1].isalpha() and \
        any(len(shown) == len(f) and all(same(I, s, x, w) for x, w in zip(shown, f)) for f in forms)
    ctx.ob('packet', ok, what + ':' + name, 'a %s prints as %s' % (what, ctx.pp.v(('q', segs))), site,
           sample='%s: %s' % (name, ctx.pp.v(('q', segs))))


def failing(ctx, s, ok, what, site):
    bad = any(e[0] == 'wfail' for e in s.ev)
    ctx.ob('failure', ok is not bad, what, 'printing %s %s' % (what, 'succeeds although a write failed' if bad else 'fails although every write succeeded'),
           site, sample='%s: fails exactly if a write does' % what)
    return not bad and ok


@check('C47')
def c47(ctx):
    prog = ctx.prog
    shows = {}
    for b in prog.impls.get(('Display', 'fmt'), []):
        if b["crate"] == CR:
            shows[prog.adtname(b["impl_self"])] = b
    for n in ('Packet', 'Data', 'Args', 'Arg'):
        if n not in shows:
            raise Missing('Display of %s' % n)
    # the parts of data
    b = shows['Data']
    site = ctx.site(b)
    dt = b["locals"][1][2]
    names = [v[0] for v in prog.adts[dt[1]]["variants"]]
    n = 0

    def datas(I, st, v):
        """[(state, name, [id, args])]"""
        for vi, nm in enumerate(names):
            for s in st.assume(I.is_variant(v, vi)):
                fs = prog.adts[dt[1]]["variants"][vi][1]
                yield s, nm, [v[3][i] if v[0] == 'A' else I.sym_field(v, i, vi) for x in ('id', 'args') for i, f in enumerate(fs) if f[0] == x]
    for I, s, a, ok, segs in run(ctx, b, lambda I, st: I.sym('self', b["locals"][1])):
        if not failing(ctx, s, ok, 'data', site):
            continue
        for s2, nm, fs in datas(I, s, I.load(s, *I.deref(s, a))):
            n += 1
            parts(ctx, I, s2, segs, nm, fs, 'data', site)
    ctx.floor(n, 4, 'kinds of data')
    # a packet prints as its data
    b = shows['Packet']
    site = ctx.site(b)
    data = ctx.fn(CR, 'data', 'Packet')
    n = 0
    for I, s, a, ok, segs in run(ctx, b, lambda I, st: I.sym('self', b["locals"][1])):
        if not failing(ctx, s, ok, 'packet', site):
            continue
        for s1, k, v in ctx.run(I, data, [a], s.copy()):
            if k != 'ret':
                continue
            for s2, nm, fs in datas(I, s1, v):
                n += 1
                if len(segs) == 1 and same(I, s2, segs[0], v):
                    ctx.ob('packet', True, 'packet:' + nm, '', site, sample='a packet prints as its data')
                else:
                    parts(ctx, I, s2, segs, nm, fs, 'packet', site)
    ctx.floor(n, 4, 'kinds of packets')
    # a list of arguments
    b = shows['Args']
    site = ctx.site(b)
    at = b["locals"][1][2]
    get = ctx.fn(CR, 'get', 'Args')
    n = 0
    for m in range(5 if ctx.tier == 'thorough' else 4):
        def args(I, st):
            v = I.load(st, *I.deref(st, I.sym('self', b["locals"][1])))
            fields = prog.adts[at[1]]["variants"][0][1]
            fs = []
            for i, f in enumerate(fields):
                x = I.sym_field(v, i, 0)
                if f[1][0] == 'ref' and f[1][2][0] == 'slice' and prog.adtname(f[1][2][1]) == 'Range':
                    x = I.alloc(st, 'ranges', ('q', tuple(('e', ('A', I.RANGE, 0, (I.sym(('lo', j), ('prim', 'usize')), I.sym(('hi', j), ('prim', 'usize')))))
                                                         for j in range(m))))
                fs.append(x)
            return I.alloc(st, 'args', ('A', at[1], 0, tuple(fs)))
        for I, s, a, ok, segs in run(ctx, b, args, fails=m < 3):
            if not failing(ctx, s, ok, 'arguments', site):
                continue
            want = []
            for j in range(m):
                r = [v for s2, k, v in ctx.run(I, get, [a, I_(j)], s.copy()) if k == 'ret']
                if len(r) == 1 and r[0][0] == 'A' and r[0][2] == 1:
                    want.append(r[0][3][0])
            if len(want) != m:
                raise Missing('the arguments of the list')
            shown = [x for x in segs if x[0] != 'lit']
            n += 1
            good = len(shown) == m and all(same(I, s, x, w) for x, w in zip(shown, want)) and lits(segs[:1])[:1] == b'[' and lits(segs[-1:])[-1:] == b']'
            # something other than space between every two
            gaps, last = [], None
            for i, x in enumerate(segs):
                if x[0] != 'lit':
                    if last is not None:
                        gaps.append(lits(segs[last + 1:i]))
                    last = i
            ctx.ob('list', good and all(g.strip() == b',' for g in gaps), 'list', '%d arguments print as %s' % (m, ctx.pp.v(('q', segs))), site,
                   sample='%d: %s' % (m, ctx.pp.v(('q', segs))[:200]))
    ctx.floor(n, 4, 'lists of arguments')
    # however many there are, all of them are visited
    n = 0
    for I, s, a, ok, segs in run(ctx, b, lambda I, st: I.sym('self', b["locals"][1]), False, False):
        av = I.load(s, *I.deref(s, a))
        for i, f in enumerate(prog.adts[at[1]]["variants"][0][1]):
            if f[1][0] == 'ref' and f[1][2][0] == 'slice' and prog.adtname(f[1][2][1]) == 'Range':
                total = I.segs_len(I.as_segs(s, I.load(s, *I.deref(s, I.sym_field(av, i, 0)))))
        # a fixed number, or as many as a loop had rounds, and a fixed number more
        m = len([x for x in segs if x[0] == 'disp'])
        n += m > 0 or any(x[0] not in ('disp', 'lit') for x in segs)
        rounds = {x for g in s.ge for x, k in g[2] if x[0] in ('cnt', 'wcnt')}
        ends = [I_(m)] + [('i', e, frozenset([(r, 1)])) for r in rounds for e in range(3)] if any(x[0] not in ('disp', 'lit') for x in segs) else [I_(m)]
        ctx.ob('all', any(s.decide(peq0(lsub(total, x))) is True for x in ends), 'all', 'printing arguments can stop before the last, as after %s' % (
            ctx.pp.v(('q', segs)))[:300], site, sample='ends after the last')
    ctx.floor(n, 1, 'lists of any length')
    # one argument
    b = shows['Arg']
    site = ctx.site(b)
    n = 0
    for I, s, a, ok, segs in run(ctx, b, lambda I, st: I.sym('self', b["locals"][1])):
        if not failing(ctx, s, ok, 'argument', site):
            continue
        av = I.load(s, *I.deref(s, a))
        text = none = None
        for i, f in enumerate(prog.adts[b["locals"][1][2][1]]["variants"][0][1]):
            if f[1][0] == 'ref':
                q = I.as_segs(s, I.load(s, *I.deref(s, I.sym_field(av, i, 0))))
                if f[1][2] == ('str',):
                    text = I.norm_segs(q)
                elif f[1][2][0] == 'slice':
                    none = peq0(I.segs_len(q))
        if text is None or none is None:
            raise Missing('text and attachments of Arg')
        js = [e for e in s.ev if e[0] == 'json']
        if not ctx.ob('argument', len(js) == 1 and I.norm_segs(js[0][2]) == text, 'read', 'an argument prints without its text being read as JSON', site):
            continue
        n += 1
        fills = [x for t, x in s.var.items() if isinstance(t, tuple) and t[:2] == ('ret', 'FILL')]
        good = s.decide(('p', ('json', js[0][1], js[0][2]))) is True and 1 not in fills
        if good and s.decide(none) is not True and not fills:
            ctx.ob('argument', False, 'fill', 'an argument prints without its attachments', site)
            continue
        if good:
            ctx.ob('argument', len(segs) == 1 and segs[0][:2] == ('disp', 'display') and segs[0][2][0] == 'S' and segs[0][2][1] == ('jsonval', js[0][2]),
                   'value', 'an argument with a value prints as %s' % ctx.pp.v(('q', segs)), site, sample='the JSON value')
        else:
            ctx.ob('argument', segs == text, 'text', 'an argument without a value prints as %s' % ctx.pp.v(('q', segs)), site, sample='its text')
    ctx.floor(n, 2, 'outcomes of printing an argument')
    ctx.assume += ['lists longer than those tried print alike (the loop over the arguments keeps one flag)',
                   'Value prints as compact JSON']
