"""C09: binary packets and their attachments, on the receiving side of the client and in the protocol crate.
The specification is a small machine (nothing pending / a partial packet with the messages received for it); it is run
beside every outcome of feeding frames to a new receiver, and one step of it beside one frame on any receiver."""
from domain import *
from framework import check, view, Missing
from interp import mentions, intern, TERMS
from checks.client import *
from checks.c_reg import Reg, passed
import checks.c_packet as cp

I_ = lambda n: ('i', n, NOFS)


class Feed:
    def __init__(self, ctx):
        self.ctx = ctx
        R = self.R = Reg(ctx)
        self.I = R.I
        self.site = ctx.site(R.proc)
        self.only = {}
        for h in list(self.I.opaque):
            b = ctx.prog.bodies[h]
            if b["name"] in ('data', 'decode'):
                self.I.opaque[h] = self.narrow(self.I.opaque[h], b["name"])
        self.patt = ctx.fn(CR, 'attachments', 'Partial')

    def narrow(self, inner, name):
        I = self.I

        def model(I, st, args, c):
            out = []
            for s, k, r in inner(I, st, args, c):
                want = self.only.get(name)
                if want is None:
                    out.append((s, k, r))
                elif name == 'data':
                    out += [(x, k, r) for x in s.assume(I.is_variant(r, self.ctx.variant(r[2][1], want)))]
                else:
                    for x in s.assume(I.is_variant(r, 0)):
                        p = payload(I, r, 0)
                        out += [(y, k, r) for y in x.assume(I.is_variant(p, self.ctx.variant(p[2][1], want)))]
            return out
        return model

    def count(self, s, partial):
        """(state, how many attachments a partial packet needs)"""
        from interp import Call
        c = Call()
        c.dty = self.patt["locals"][0]
        s = s.copy()
        ev = s.ev
        (s1, k, v), = self.I.opaque[self.patt["hash"]](self.I, s, [self.I.alloc(s, 'partial', partial)], c)
        s1 = s1.copy()
        s1.ev = ev
        return s1, v

    def frame(self, s, i):
        """outcomes of frame i: (state, kind, value)"""
        s = s.copy()
        s.ev = ()
        f = self.I.sym('frame%d' % i, self.R.proc["locals"][2])
        return [(s2, k, v, f) for s2, k, v in self.I.run(self.R.proc, (), [self.R.receiver, f], s)]


def message(ctx, I, s):
    """the engine message decoded on a path, or None"""
    d = calls(s, 'decode')
    if len(d) != 1 or case(ctx, s, d[0][2]) != 'Ok':
        return None
    p = payload(I, d[0][2], 0)
    return payload(I, p, s.var.get(p[1])) if case(ctx, s, p) == 'Message' else None


def items(I, v):
    """contents of a sequence handed over, however it is handed over"""
    v = under(v)
    while v[0] == 'A' and v[1] == 'It' and v[2] != 'q':
        x = [y for y in v[3] if isinstance(y, tuple) and y[:1] in (('q',), ('&',), ('S',))]
        if not x:
            return None
        v = under(x[0])
    if v[0] == 'q':
        return I.norm_segs(v[1])
    return None


def step(ctx, I, site, s, k, v, m, pending, need, how):
    """compare one path with the step of the specification; returns the pending packet afterwards, or False to stop"""
    one, two, dat = calls(s, 'deserialize'), calls(s, 'deserialize_partial'), calls(s, 'data')
    one = [c for c in one if not c[0].split('::')[-2:] == ['Arg', 'deserialize'] and 'Arg' not in c[0]]
    if not ctx.ob('step', k == 'ret', how + ':panics', 'a message (%s) panics' % how, site):
        return False
    res = case(ctx, s, v)
    if pending is None:
        ok = len(one) == 1 and not two and under(one[0][1][0]) == m
        if not ctx.ob('new', ok, how, 'a message with no packet pending (%s) is read %d times as a new packet and %d times as the end of one' % (
                how, len(one), len(two)), site, sample='%s: deserialize(message)' % how):
            return False
        r = one[0][2]
        c = case(ctx, s, r)
        if c == 'Err':
            ctx.ob('new', res == 'Err' and not dat, how + ':err', 'a message which is no packet (%s) is not an error' % how, site,
                   sample='%s: not a packet -> error' % how)
            return False
        if not ctx.ob('new', c == 'Ok', how + ':unknown', 'the result of reading a message is not looked at (%s)' % how, site):
            return False
        p = payload(I, r, 0)
        w = case(ctx, s, p)
        if w == 'Packet':
            ok = len(dat) >= 1 and all(under(x[1][0]) == payload(I, p, s.var[p[1]]) for x in dat)
            ctx.ob('deliver', ok, how + ':whole', 'a complete packet (%s) is not delivered' % how, site, sample='%s: complete -> delivered' % how)
            return None
        ctx.ob('deliver', w == 'DataNeeded' and not dat and res == 'Ok', how + ':early', 'a packet which still needs its attachments (%s) %s' % (
            how, 'is delivered' if dat else 'is an error'), site, sample='%s: needs attachments -> kept' % how)
        return (payload(I, p, s.var[p[1]]), ()) if w == 'DataNeeded' else False
    partial, got = pending
    got = I.norm_segs(got + (('e', m),))
    done = s.decide(peq0(lsub(need, I.segs_len(got))))
    if done is None and how == 'any receiver':
        # what is kept is never complete: that is so at first (one attachment at least) and every step shows it for the next
        for s2 in s.assume(pge(lsub(need, I.segs_len(got)))):
            done = s2.decide(peq0(lsub(need, I.segs_len(got))))
    ctx.ob('wait', not one, how + ':new', 'a message for a pending packet (%s) is read as a new packet' % how, site)
    if done is None:
        ctx.ob('wait', False, how + ':count', 'whether a pending packet is complete (%s) does not depend on the number of its attachments' % how, site)
        return False
    if not done:
        ok = not two and not dat and res == 'Ok'
        ctx.ob('wait', ok, how + ':early', 'a packet with attachments still to come (%s) %s' % (
            how, 'is delivered' if two or dat else 'ends with an error'), site, sample='%s: attachments to come -> kept' % how)
        return (partial, got) if ok else False
    if not ctx.ob('deliver', len(two) == 1, how, 'a packet with all its attachments (%s) is put together %d times' % (how, len(two)), site):
        return False
    a = two[0][1]
    seq = items(I, a[1])
    ctx.ob('deliver', under(a[0]) == partial, how + ':partial', 'the attachments received (%s) are put into another packet' % how, site)
    ctx.ob('deliver', seq == got, how + ':attachments', 'a packet is put together (%s) from %s instead of the messages received for it in order' % (
        how, ' '.join(ctx.pp.seg(x) for x in seq)[:200] if seq is not None else ctx.pp.v(a[1])[:200]), site,
        sample='%s: deserialize_partial(packet, messages in order)' % how)
    r = two[0][2]
    c = case(ctx, s, r)
    if c == 'Ok':
        ok = len(dat) >= 1 and all(under(x[1][0]) == payload(I, r, 0) for x in dat)
        ctx.ob('deliver', ok, how + ':delivered', 'a packet with all its attachments (%s) is not delivered' % how, site)
        return None
    ctx.ob('deliver', c == 'Err' and res == 'Err' and not dat, how + ':err', 'a packet whose attachments do not fit (%s) is not an error' % how, site,
           sample='%s: does not fit -> error' % how)
    return False


def histories(ctx):
    F = Feed(ctx)
    I = F.I
    deep = 5 if ctx.tier == 'thorough' else 4
    n = [0]

    def go(s, i, pending, need, left, noise, how):
        if not left:
            return
        F.only = {'data': 'Connect', 'decode': 'Message'}
        for s2, k, v, f in F.frame(s, i):
            m = message(ctx, I, s2)
            if m is None:
                continue
            n[0] += 1
            h = how + ('first' if pending is None else 'then')
            nxt = step(ctx, I, F.site, s2, k, v, m, pending, need, h[-60:])
            if nxt is False:
                continue
            if nxt is not None and pending is None:
                s3, need2 = F.count(s2, nxt[0])
                for s4 in s3.assume(pge(ladd(need2, I_(-1)))):
                    go(s4, i + 1, nxt, need2, left - 1, noise, h + ' needed ')
            elif case(ctx, s2, v) == 'Ok':
                go(s2, i + 1, nxt, need if nxt is not None else None, left - 1 if nxt is not None else min(left - 1, 2), noise, h + (' kept ' if nxt else ' done '))
        if noise and pending is not None:
            # something which is no message arrives in between
            F.only = {'decode': 'Ping'}
            for s2, k, v, f in F.frame(s, i):
                if k == 'ret' and case(ctx, s2, v) == 'Ok' and message(ctx, I, s2) is None:
                    ok = not calls(s2, 'deserialize') and not calls(s2, 'deserialize_partial') and not calls(s2, 'data')
                    ctx.ob('between', ok, how, 'a frame which is no message is taken for one', F.site)
                    go(s2, i + 1, pending, need, left - 1, False, how + '(a ping) ')

    s0 = F.R.s0
    go(s0, 0, None, None, deep, True, '')
    ctx.notes['histories'] = n[0]
    ctx.notes['frames in a row'] = deep
    ctx.floor(n[0], 20, 'histories')


def any_receiver(ctx):
    """one message on any receiver: the step of the specification, with the pending packet as it is kept"""
    F = Frame(ctx)
    I = F.I
    n = {'new': 0, 'kept': 0, 'done': 0}
    for s, k, v in F.outs:
        m = message(ctx, I, s)
        if m is None:
            # nothing pending changes unless there is a message
            ok = not [c for c in calls(s, 'deserialize') if 'Arg' not in c[0]] and not calls(s, 'deserialize_partial')
            ctx.ob('between', ok, 'any', 'a frame which is no message is taken for one', F.site)
            continue
        one = [c for c in calls(s, 'deserialize') if 'Arg' not in c[0]]
        two = calls(s, 'deserialize_partial')
        cnt = calls(s, 'attachments')
        if one and not two:
            n['new'] += 1
            r = step(ctx, I, F.site, s, k, v, m, None, None, 'any receiver')
            continue
        known = F.partial(s) if not cnt else []
        if len(known) == 1 and known[0][1] is not None:
            # the number is kept in another way
            s, partial, need = known[0]
        elif cnt:
            partial = under(cnt[0][1][0])
            need = cnt[0][2]
        else:
            ctx.ob('wait', False, 'any:count', 'a message for a pending packet does not look at the number of attachments it needs', F.site)
            continue
        if two:
            seq = items(I, two[0][1][1])
            if seq is None or not seq or seq[-1] != ('e', m):
                ctx.ob('deliver', False, 'any:last', 'the message which completes a packet is not its last attachment', F.site)
                continue
            before = seq[:-1]
            ok = len(before) == 0 or len(before) == 1 and before[0][0] == 'sub' and before[0][2] == I_(0) and \
                s.decide(peq0(lsub(before[0][3], atom(('len', before[0][1]))))) is True
            if not ctx.ob('deliver', ok, 'any:before', 'a packet is put together from %s' % ' '.join(ctx.pp.seg(x) for x in seq)[:200], F.site):
                continue
            n['done'] += 1
            step(ctx, I, F.site, s, k, v, m, (partial, before), need, 'any receiver')
            continue
        # kept: the packet and the messages, this one last, are found in the receiver again
        fin = I.freeze(s, I.load(s, F.slf[1], F.slf[2]), 12)
        seqs = []
        has = [False]

        def look(x):
            if isinstance(x, tuple):
                if x[:1] == ('#',) and len(x) == 2:
                    return look(TERMS[x[1]])
                if x == partial:
                    has[0] = True
                if len(x) == 2 and x[0] == 'q' and x[1] and x[1][-1] == ('e', m):
                    seqs.append(x[1])
                for y in x:
                    look(y)
        look(fin)
        ok = ctx.ob('wait', has[0], 'any:kept', 'a pending packet is lost when an attachment arrives', F.site)
        ok2 = ctx.ob('wait', len(set(seqs)) == 1, 'any:added', 'an attachment is not added to those of the pending packet', F.site)
        if ok and ok2:
            n['kept'] += 1
            step(ctx, I, F.site, s, k, v, m, (partial, seqs[0][:-1]), need, 'any receiver')
    for x, c in n.items():
        ctx.floor(c, 1, 'outcomes for a message (%s)' % x)


def protocol(ctx):
    """what the protocol crate does with counts and attachments"""
    R, S, out = cp.rows(ctx)
    cp.learn(ctx, R, S, out)
    I = R.I
    site = ctx.site(R.dp)
    n = 0
    for r in out:
        s = r['s']
        if r['res'] == 'needed':
            ok = s.decide(pge(ladd(r['v'], I_(-1)))) is True
            ctx.ob('needed', ok, 'zero', 'a packet which announces no attachments waits for some', R.site, sample='waits => count >= 1')
            ctx.ob('needed', cp.parse_of(r['v']) == S.raw('att'), 'count', 'a packet waits for %s attachments instead of the announced number' %
                   ctx.pp.v(r['v'])[:80], R.site, sample='waits for the announced number')
        if r['res'] != 'packet' or 'argsref' not in r['o']:
            if r['stage'] == 2 and r['res'] == 'err' and cp.texts(R, s):
                ctx.ob('text', True, '', '', site, sample='text attachment -> error')
            continue
        if r['stage'] == 1:
            bad = s.assume(pand(S.has('att'), pge(ladd(S.value('att'), I_(-1)))))
            ctx.ob('needed', not bad, 'delivered', 'a packet which announces attachments is delivered without them', R.site,
                   sample='delivered at once => none announced')
        ctx.ob('text', r['stage'] == 1 or not cp.texts(R, s), 'accepted', 'a text message is accepted as an attachment', site)
        args = I.freeze(s, I.load(s, r['o']['argsref'][1], r['o']['argsref'][2]), 8)
        held = [under(x) for x in args[3] if isinstance(x, tuple)]
        held = [x[1] for x in held if x[0] == 'q' and mentions(x, lambda t: 'atts' in t)]
        if r['stage'] == 1:
            ctx.ob('attachments', not held, 'none', 'a packet without attachments shows some', R.site)
            continue
        if not ctx.ob('attachments', len(held) == 1, 'held', 'a packet does not show its attachments', site):
            continue
        n += 1
        ctx.ob('attachments', s.decide(peq0(lsub(I.segs_len(held[0]), S.natt))) is True, 'number', 'a packet shows %s attachments instead of '
               'those received' % ctx.pp.lin(I.segs_len(held[0])), site, sample='as many attachments as received')
        i = I.sym('i', ('prim', 'usize'))
        for s1 in s.assume(pge(i)):
            for s2 in s1.assume(pge(ladd(lsub(I.segs_len(held[0]), i), I_(-1)))):
                got = I.seq_at(s2, ('q', held[0]), i)
                el = I.seq_at(s2, R.atts, i)
                want = I.sym_field(el, 0, R.bi) if el[0] == 'S' else None
                ok = got == want or (got is not None and got[0] == 'S' and want is not None and got[1] == want[1])
                ctx.ob('attachments', ok, 'order', 'attachment i of a packet is %s instead of message i received for it' % ctx.pp.v(got)[:150], site,
                       sample='attachment i = message i')
    ctx.floor(n, 1, 'packets with attachments')
    # a binary message which belongs to nothing
    new = ctx.fn('owned_subslice', 'new', 'OwnedSubslice')
    bt = ctx.prog.adts[R.msg[1]]["variants"][R.bi][1][0][1][2][0]
    st = State()
    data = I.sym('data', bt)
    lo, hi = I.sym('b0', ('prim', 'usize')), I.sym('b1', ('prim', 'usize'))
    for l in (lsub(hi, lo), lsub(I.segs_len(I.as_segs(st, data)), hi)):
        st = st.assume(pge(l))[0]
    (st, k, v), = ctx.run(I, new, [data, ('A', I.RANGE, 0, (lo, hi))], st, ((new["generics"][0], bt),))
    m = ('A', R.msg[1], R.bi, (v,))
    k0 = 0
    for s, k, v in I.run(R.de, (), [m], st):
        k0 += 1
        ctx.ob('stray', k == 'ret' and v[0] == 'A' and v[2] == 1, 'binary', 'a binary message with no packet waiting for it is not an error', R.site,
               sample='stray binary message -> error')
    ctx.floor(k0, 1, 'outcomes for a stray binary message')


@check('C09')
def c09(ctx):
    histories(ctx)
    any_receiver(ctx)
    import checks.c_reg as reg
    import checks.c_still as still
    still.waiting(reg.Reg(ctx))
    protocol(ctx)
