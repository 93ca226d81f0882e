"""C05 C07 C08 C09: received socket packets"""
from domain import *
from framework import check, view, Missing
import regexlang

CR = 'socket_io_protocol'
SPEC = r'^(?P<k>[012356])(?:(?P<att>0|[1-9][0-9]*)-)?(?:(?P<ns>/[^,]+),)?(?P<id>0|[1-9][0-9]*)?(?P<args>\[.*\])?$'
KINDS = {48: 'Connect', 49: 'Disconnect', 50: 'Event', 51: 'Ack', 53: 'Event', 54: 'Ack'}
I_ = lambda n: ('i', n, NOFS)


def field(ctx, v, name):
    """named field of an aggregate value"""
    a = ctx.prog.adts[v[1]]
    for i, (n, _) in enumerate(a["variants"][v[2]][1]):
        if n == name:
            return v[3][i]
    return None


class Recv:
    """every outcome of parsing a text message that is an arbitrary window of an arbitrary text"""

    def __init__(self, ctx, whole=False):
        self.ctx = ctx
        prog = ctx.prog
        self.de = ctx.fn(CR, 'deserialize', where=lambda b: prog.adtname(b["locals"][1]) == 'Message')
        self.dp = ctx.fn(CR, 'deserialize_partial')
        self.patt = ctx.fn(CR, 'attachments', 'Partial')
        self.ns = ctx.fn(CR, 'namespace', 'Packet')
        self.data = ctx.fn(CR, 'data', 'Packet')
        self.len = ctx.fn(CR, 'len', 'Args')
        self.get = ctx.fn(CR, 'get', 'Args')
        I = self.I = ctx.interp()
        mt = self.de["locals"][1]
        adt = prog.adts[mt[1]]
        self.msg = mt
        self.ti = ctx.variant(mt[1], 'Text')
        self.bi = ctx.variant(mt[1], 'Binary')
        pt = adt["variants"][self.ti][1][0][1]
        S = pt[2][0]
        self.text = ('S', 'text', S)
        st = State()
        n = I.segs_len(I.as_segs(st, self.text))
        self.lo, self.hi = I.sym('a', ('prim', 'usize')), I.sym('z', ('prim', 'usize'))
        for l in (lsub(self.hi, self.lo), lsub(n, self.hi)):
            st = st.assume(pge(l))[0]
        new = ctx.fn('owned_subslice', 'new', 'OwnedSubslice')
        base = I.as_segs(st, self.text)[0]
        # a window of a text starts and ends between characters
        I.hooks['boundaries'] = {(base[1], self.lo), (base[1], self.hi)}
        self.win = I.norm_segs((('sub', base[1], self.lo, self.hi, base[4]),))
        (st, k, v), = ctx.run(I, new, [self.text, ('A', I.RANGE, 0, (self.lo, self.hi))], st, ((new["generics"][0], S),))
        self.outs = ctx.run(I, self.de, [('A', mt[1], self.ti, (v,))], st)
        self.site = ctx.site(self.de)

    def result(self, v):
        """('packet', Packet) | ('needed', Partial) | ('err', e)"""
        I = self.I
        if v[0] != 'A' or v[1] != I.RESULT:
            raise Missing('deserialize does not return a known result')
        if v[2] != 0:
            return 'err', v[3][0]
        x = v[3][0]
        n = self.ctx.vname(x) if x[0] == 'A' else None
        if n == 'DataNeeded':
            return 'needed', x[3][0]
        if n == 'Packet' and self.ctx.prog.adts[x[1]]["kind"] == 'enum':
            return 'packet', x[3][0]
        raise Missing('unexpected result of deserialize: %s' % self.ctx.pp.v(x)[:80])

    def observe(self, s, packet):
        """[(state, dict)]: what the public interface of a packet shows"""
        ctx, I = self.ctx, self.I
        s = s.copy()
        r = I.alloc(s, 'packet', packet)
        out = []
        for s1, k, nsv in I.run(self.ns, (), [r], s):
            if k != 'ret':
                out.append((s1, {'panic': ('namespace', nsv)}))
                continue
            for s2, ns in view(ctx, I, s1, nsv):
                for s3, k, d in I.run(self.data, (), [r], s2):
                    if k != 'ret':
                        out.append((s3, {'panic': ('data', d)}))
                        continue
                    if d[0] != 'A':
                        raise Missing('Packet::data returns an unknown value')
                    o = {'ns': ns, 'kind': ctx.vname(d)}
                    args = field(ctx, d, 'args')
                    o['id'] = field(ctx, d, 'id')
                    if args is None:
                        out.append((s3, o))
                        continue
                    s3 = s3.copy()
                    ra = I.alloc(s3, 'args', args)
                    o['argsref'] = ra
                    for s4, k, n in I.run(self.len, (), [ra], s3):
                        if k != 'ret':
                            out.append((s4, {'panic': ('len', n)}))
                        else:
                            out.append((s4, dict(o, len=n)))
        return out

    def arg(self, s, ra, i):
        """[(state, 'none' | Arg value | ('panic', ..))]"""
        I = self.I
        out = []
        for s1, k, v in I.run(self.get, (), [ra, i], s):
            if k != 'ret':
                out.append((s1, ('panic', v)))
            else:
                out.append((s1, None if v[2] == 0 else v[3][0]))
        return out


# -------------------------------------------------------------------------------------------- specification side
class Spec:
    """the documented grammar, expressed over the capture groups the code uses"""

    def __init__(self, R):
        self.R = R
        pats = set()
        for s, k, v in R.outs:
            for p in s.pred:
                if p[0] == 'p' and isinstance(p[1], tuple) and p[1][0] == 'rematch' and p[1][2] == R.win:
                    pats.add(p[1][1])
        if len(pats) != 1:
            raise Missing('the packet text is not matched by exactly one regular expression (%d)' % len(pats))
        self.pat = pats.pop()
        self.info = regexlang.compile(self.pat)
        if self.info is None:
            raise Missing('regular expression not understood: %s' % self.pat)
        import models
        self.span = {}
        for g in range(self.info.ngroups + 1):
            lo, hi = models.cap_span(R.I, self.info, self.pat, g, R.win)
            w = R.win[0]
            self.span[g] = R.I.norm_segs((('sub', w[1], ladd(w[2], lo), ladd(w[2], hi), w[4]),))
        self.match = ('p', ('rematch', self.pat, R.win))
        self.group = {}

    def present(self, g):
        p = True
        for cn in self.info.conds(g):
            p = pand(p, ('p', ('capopt', self.pat, cn, self.R.win)))
        return p

    def find(self, segs):
        segs = self.R.I.norm_segs(segs)
        return [g for g, x in self.span.items() if g and x == segs]

    def learn(self, what, segs, ctx, site):
        gs = self.find(segs)
        old = self.group.get(what)
        if old is not None:
            ok = bool(set(gs) & old)
            if ok:
                self.group[what] = old & set(gs)
        else:
            ok = bool(gs)
            if ok:
                self.group[what] = set(gs)
        ctx.ob('part', ok, 'span:' + what, 'the %s of a packet is %s, which is not one part of the matched grammar' % (
            what, ' '.join(ctx.pp.seg(x) for x in segs) or '""'), site)

    def g(self, what):
        return min(self.group[what]) if what in self.group else None

    def raw(self, what):
        g = self.g(what)
        return self.span[g] if g is not None else None

    # predicates; a part no successful outcome ever shows is left undecided
    def has(self, what):
        g = self.g(what)
        return None if g is None else self.present(g)

    def value(self, what):
        return atom(('parse', self.raw(what)))

    def number_ok(self, what):
        return por(pnot(self.has(what)), ('p', ('parses', 'u64', self.raw(what))))

    def list_ok(self):
        return por(pnot(self.has('args')), self.json())

    def json(self):
        return ('p', ('json', self.jsonty, self.raw('args')))

    def nargs(self):
        return atom(('len', ('rawvec', self.raw('args')[0])))


def vec_of(ctx, ty):
    """the type of vectors of ty, after the attachments of packets"""
    p = ctx.prog.adts[ctx.fn(CR, 'data', 'Packet')["locals"][1][2][1]]
    for f, t in p["variants"][0][1]:
        if t[0] == 'adt' and ctx.prog.adtname(t) == 'Vec':
            return ('adt', t[1], (ty,) + tuple(t[2][1:]))
    raise Missing('the attachments of a packet')


def parse_of(v):
    """the text a number was parsed from"""
    if v is not None and v[0] == 'i' and v[1] == 0 and len(v[2]) == 1:
        (a, c), = v[2]
        if c == 1 and isinstance(a, tuple) and a[0] == 'parse':
            return a[1]
    return None


def rows(ctx):
    """all outcomes, with what they show; deserialize_partial applied to every partial packet"""
    R = Recv(ctx)
    I = R.I
    S = Spec(R)
    out = []
    # the attachments are handed in as a vector of messages (any other iterator gives the same sequence)
    pt = R.dp["locals"][2]
    vt = vec_of(ctx, R.msg)
    R.dpsub = ((pt[1], vt),) if pt[0] == 'param' else ()
    atts = R.atts = I.sym('atts', vt if pt[0] == 'param' else pt)
    S.natt = I.segs_len(I.as_segs(State(), atts))
    S.jsonty = 'Vec<&RawValue,Global>'
    for s, k, v in R.outs:
        if k != 'ret':
            out.append(dict(s=s, stage=1, res='panic', v=v))
            continue
        v = I.deep(s, v)
        res, x = R.result(v)
        if res == 'err':
            out.append(dict(s=s, stage=1, res='err', v=x))
            continue
        if res == 'packet':
            for s2, o in R.observe(s, x):
                out.append(dict(s=s2, stage=1, res='panic' if 'panic' in o else 'packet', v=o.get('panic', x), o=o))
            continue
        s = s.copy()
        r = I.alloc(s, 'partial', x)
        for s1, k1, n in I.run(R.patt, (), [r], s):
            out.append(dict(s=s1, stage=1, res='needed' if k1 == 'ret' else 'panic', v=n))
            if k1 != 'ret':
                continue
            for s2, k2, y in I.run(R.dp, R.dpsub, [x, atts], s1):
                if k2 != 'ret':
                    out.append(dict(s=s2, stage=2, res='panic', v=y))
                    continue
                y = I.deep(s2, y)
                if y[2] != 0:
                    out.append(dict(s=s2, stage=2, res='err', v=y[3][0]))
                    continue
                for s3, o in R.observe(s2, y[3][0]):
                    out.append(dict(s=s3, stage=2, res='panic' if 'panic' in o else 'packet', v=o.get('panic', y[3][0]), o=o))
    return R, S, out


def opt(v):
    """None | value for an Option; raises if unknown"""
    if v is None or v[0] != 'A':
        raise Missing('a packet id is not a known option')
    return v[3][0] if v[2] == 1 else None


def learn(ctx, R, S, out):
    """which capture group is which part, from the packets the code lets through"""
    I = R.I
    for r in out:
        if r['res'] == 'needed':
            t = parse_of(r['v'])
            if ctx.ob('part', t is not None, 'att-number', 'the announced attachment count is %s, not a number in the text' %
                      ctx.pp.v(r['v']), R.site):
                S.learn('att', t, ctx, R.site)
        if r['res'] != 'packet':
            continue
        o = r['o']
        if o['ns'] is None:
            raise Missing('a namespace which is not text')
        if not (len(o['ns']) == 1 and o['ns'][0] == ('lit', b'/')):
            S.learn('ns', o['ns'], ctx, R.site)
            r['ns'] = True
        else:
            r['ns'] = False
        idv = o['id']
        if idv is not None:
            if idv[0] == 'A':
                idv = opt(idv)
            if idv is not None:
                t = parse_of(idv)
                if ctx.ob('part', t is not None, 'id-number', 'the id is %s, not a number in the text' % ctx.pp.v(idv), R.site):
                    S.learn('id', t, ctx, R.site)
        r['id'] = idv
        if 'len' in o and o['len'] != I_(0):
            # an arbitrary argument
            i = I.sym('i', ('prim', 'usize'))
            r['args'] = []
            for s in r['s'].assume(pge(ladd(lsub(o['len'], i), I_(-1)))):
                for s2, a in R.arg(s, o['argsref'], i):
                    r['args'].append((s2, a, i))
                    if a is None or a[0] != 'A':
                        continue
                    for x in a[3]:
                        for s3, seg in view(ctx, I, s2, x) if isinstance(x, tuple) else ():
                            q = raw_of(seg)
                            if q is not None:
                                S.learn('args', (q,), ctx, R.site)
    for w in ('att', 'ns', 'id', 'args'):
        ctx.ob('floor', w in S.group, w, 'no received packet ever shows a %s' % w, R.site)
    if not {'att', 'ns', 'id', 'args'} <= set(S.group):
        raise Missing('parts of a packet')


def raw_of(segs):
    """the JSON list an argument's text is an element of"""
    if segs is not None and len(segs) == 1 and segs[0][0] == 'sub':
        for a, c in segs[0][2][2]:
            if isinstance(a, tuple) and a[0] == 'rawoff':
                return a[2]
    return None


def kinds(R, S, s):
    """[(state, digit)]: the possible first characters of a matched text"""
    w = R.win[0]
    b = atom(('byte', w[1], w[2]))
    out = []
    for d in KINDS:
        for s2 in s.assume(peq0(ladd(b, I_(-d)))):
            out.append((s2, d))
    return out


def wellformed(S, d):
    """[(name, predicate)] that must all hold for a packet of kind digit d to be delivered without attachments or asked for them"""
    c = [('the text matches the packet grammar', S.match),
         ('the attachment count is a number', S.number_ok('att')),
         ('the id is a number', S.number_ok('id')),
         ('the arguments are a JSON list', S.list_ok())]
    att, idp, args = S.has('att'), S.has('id'), S.has('args')
    empty = por(pnot(args), peq0(S.nargs()))
    if d in (48, 49):
        return c + [('no attachment count', pnot(att)), ('no id', pnot(idp)), ('no arguments', empty)]
    c.append(('arguments', pnot(empty)) if d in (50, 53) else ('an id', idp))
    if d in (53, 54):
        c.append(('an attachment count', att))
    return c


def immediate(S):
    return por(pnot(S.has('att')), peq0(S.value('att')))


# ------------------------------------------------------------------------------------------------------- checks
@check('C05')
def c05(ctx):
    R, S, out = rows(ctx)
    seen = {}
    w = R.win[0]
    b = ('byte', w[1], w[2])
    for r in out:
        if r['res'] == 'packet':
            kind = r['o']['kind']
            lo, hi = r['s'].range_of(b)
            ok = lo == hi and KINDS.get(lo) == kind
            ctx.ob('read', ok, '%s' % kind, 'a packet whose first character is %s is delivered as %s' % (
                chr(lo) if lo == hi else '%s..%s' % (lo, hi), kind), R.site, sample='%s -> %s' % (chr(int(lo)), kind))
            seen.setdefault((lo, r['stage']), set()).add(kind)
        elif r['res'] == 'needed':
            lo, hi = r['s'].range_of(b)
            ctx.ob('read', lo == hi and lo in (53, 54), 'needed', 'a packet with first character %s..%s waits for attachments' % (
                lo, hi), R.site)
    for d in KINDS:
        ctx.ob('read-all', (d, 1) in seen, chr(d), 'no packet starting with %s is ever delivered' % chr(d), R.site)
    for d in (53, 54):
        ctx.ob('read-all', (d, 2) in seen, chr(d) + '+att', 'no packet starting with %s is delivered with attachments' % chr(d),
               R.site)
    import checks.c_build as cb
    cb.kind_digits(ctx)


@check('C07')
def c07(ctx):
    R, S, out = rows(ctx)
    learn(ctx, R, S, out)
    I = R.I
    spec = regexlang.compile(SPEC)
    gk = [g for g in S.span if g and S.span[g] and S.span[g][0][2] == R.win[0][2]]
    r = regexlang.compare(S.info, {S.g(w): w for w in ('att', 'ns', 'id', 'args')},
                          spec, {spec.names[w]: w for w in ('att', 'ns', 'id', 'args')})
    ctx.ob('grammar', r is None, 'language', 'the accepted grammar or its parts differ from the documented ones: %s' % (r,),
           R.site, sample='%s == %s' % (S.pat, SPEC))
    for row in out:
        s = row['s']
        if row['res'] in ('packet', 'needed'):
            ctx.ob('accept', s.decide(S.match) is True, 'match', 'a text is accepted although it does not match the grammar', R.site)
        if row['res'] in ('err', 'panic') and row['stage'] == 1:
            # the only texts of the grammar that may be refused here are ill-formed ones
            continue
        if row['res'] != 'packet':
            continue
        o = row['o']
        for w, shown in (('ns', row['ns']), ('id', row['id'] is not None)):
            if w == 'id' and o['kind'] in ('Connect', 'Disconnect'):
                continue
            d = s.decide(S.has(w))
            ctx.ob('presence', d is shown, w, 'a packet %s a %s although the text %s' % (
                'shows' if shown else 'does not show', w, {True: 'has one', False: 'has none', None: 'may have one'}[d]), R.site,
                sample='%s %s' % (w, 'shown' if shown else 'absent'))
        if 'len' not in o:
            continue
        for s1 in s.assume(pand(S.has('args'), S.json())):
            ok = s1.decide(peq0(lsub(o['len'], S.nargs())))
            ctx.ob('args', ok is True, 'count', 'the number of arguments is %s instead of that of the list' % ctx.pp.lin(o['len']),
                   R.site, sample='len = list length')
        for s1 in s.assume(S.has('args'), False):
            ctx.ob('args', s1.decide(peq0(o['len'])) is True, 'none', 'arguments appear from nowhere', R.site)
        for s2, a, i in row.get('args', ()):
            if a is None or a[0] != 'A':
                ctx.ob('args', a is not None and 'panic' in a, 'get', 'an argument within range is not there', ctx.site(R.get))
                continue
            shown = [x for f in a[3] if isinstance(f, tuple) for _, x in view(ctx, I, s2, f)]
            src = S.raw('args')[0]
            base = (src[1], src[2])
            want = I.norm_segs((('sub', src[1], ladd(src[2], atom(('rawoff', 's', src, i, base))),
                                 ladd(src[2], atom(('rawoff', 'e', src, i, base))), None),))
            ok = any(x is not None and strip(x) == strip(want) for x in shown)
            ctx.ob('args', ok, 'text', 'argument i is %s instead of %s' % (
                ' / '.join(' '.join(ctx.pp.seg(y) for y in x or ()) for x in shown), ' '.join(ctx.pp.seg(y) for y in want)),
                ctx.site(R.get), sample='argument i = element i of the list')
    for row in out:
        # numbers: refused only if they do not fit
        pass
    ctx.notes['grammar'] = {'code': S.pat, 'groups': {w: sorted(g) for w, g in S.group.items()}, 'documented': SPEC}
    ctx.assume += ['the regex crate implements leftmost-first matching of the pattern', 'RawValue borrows exactly an element']


def strip(segs):
    return tuple(x[:4] if x[0] == 'sub' else x for x in segs)


@check('C08')
def c08(ctx):
    R, S, out = rows(ctx)
    learn(ctx, R, S, out)
    site = R.site
    for row in out:
        s = row['s']
        if row['res'] == 'packet':
            for s1, d in kinds(R, S, s):
                conds = wellformed(S, d)
                conds.append(('as many attachments as announced', immediate(S)) if row['stage'] == 1 else
                             ('as many attachments as announced', peq0(lsub(S.natt, S.value('att')))))
                for n, p in conds:
                    bad = s1.assume(p, False)
                    ctx.ob('deliver', not bad, '%s:%s' % (chr(d), n), 'a packet of kind %s is delivered without %s: %s' % (
                        chr(d), n, facts(ctx, S, bad[0]) if bad else ''), site, sample='%s delivered => %s' % (chr(d), n))
        elif row['res'] == 'needed':
            for s1, d in kinds(R, S, s):
                ok = d in (53, 54)
                ctx.ob('wait', ok, chr(d), 'a packet of kind %s waits for attachments' % chr(d), site)
                bad = s1.assume(pand(S.has('att'), pge(ladd(S.value('att'), I_(-1)))), False) if ok else []
                ctx.ob('wait', not bad, chr(d) + ':count', 'a packet which announced no attachments waits for them', site)
        elif row['stage'] == 1:
            for s1, d in kinds(R, S, s):
                good = [s1]
                for n, p in wellformed(S, d) + ([('', immediate(S))] if d not in (53, 54) else []):
                    good = [y for x in good for y in x.assume(p, True)]
                ctx.ob('refuse', not good, chr(d), 'a well-formed packet of kind %s is %s (%s): %s' % (
                    chr(d), 'refused' if row['res'] == 'err' else 'not parsed', ctx.pp.v(R.I.freeze(s, row['v']))[:80]
                    if row['res'] == 'err' else row['v'], facts(ctx, S, good[0]) if good else ''), site,
                    sample='%s refused => ill-formed' % chr(d))
        else:
            # with the announced number of binary attachments a well-formed packet must be delivered
            for s1, d in kinds(R, S, s):
                if texts(R, s1):
                    continue
                good = [s1]
                for n, p in wellformed(S, d) + [('', peq0(lsub(S.natt, S.value('att'))))]:
                    good = [y for x in good for y in x.assume(p, True)]
                ctx.ob('refuse-partial', not good, chr(d), 'a well-formed packet of kind %s with its attachments is refused: %s %s' % (
                    chr(d), ctx.pp.v(R.I.freeze(s, row['v']))[:80] if row['res'] == 'err' else row['v'],
                    facts(ctx, S, good[0]) if good else ''), ctx.site(R.dp))
    ctx.assume += ['numbers that do not fit 64 bits are not numbers']


def texts(R, s):
    """a message handed in as attachment is a text message"""
    d = R.ctx.prog.adts[R.msg[1]]["variants"][R.ti][2]
    for a, (lo, hi) in s.rng.items():
        if isinstance(a, tuple) and a[0] == 'discr' and lo == hi == d and 'atts' in repr(expandterm(a[1])):
            return True
    return any(vi == R.ti and 'atts' in repr(expandterm(t)) for t, vi in s.var.items())


def expandterm(t):
    from interp import expand
    return expand(t)


def facts(ctx, S, s):
    return ctx.pp.state(s, False).replace(S.pat, 'RE').replace('\n', ' ')[:600]
