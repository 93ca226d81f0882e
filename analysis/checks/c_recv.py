"""C16 C22 C23 and the frame processing part of C26 C34"""
from domain import *
from framework import check, view, Missing
from interp import mentions, Call
from checks.client import *


def describe(F, s):
    d = F.decoded(s)
    k = F.kind(s) or 'frame'
    if d:
        k += '/' + str(d[0])
    x = F.data(s)
    if x:
        k += '/' + str(x[0])
    return k


def frames_ignored(F, rule='control'):
    """websocket level frames have no effect"""
    ctx, I = F.ctx, F.I
    seen = set()
    for s, k, v in F.outs:
        kind = F.kind(s)
        dec = calls(s, 'decode')
        if kind in ('Text', 'Binary') or dec:
            ok = len(dec) == 1 and under(dec[0][1][1]) in (F.frame, rebuilt(F, s))
            ctx.ob('once', ok, 'decode', 'a %s frame is given to the decoder %d times%s' % (
                kind, len(dec), '' if len(dec) != 1 else ' as ' + ctx.pp.v(dec[0][1][1])[:100]), F.site,
                sample='%s frame -> decode(frame) once' % kind)
            ctx.ob('once', kind in ('Text', 'Binary'), 'decode-kind', 'a %s frame is given to the decoder' % kind, F.site)
            seen.add(kind)
            continue
        kinds = [kind] if kind else [x[0] for i, x in enumerate(ctx.prog.adts[F.frame[2][1]]["variants"])
                                     if i not in s.nvar.get(F.frame[1], ())]
        for kk in kinds:
            seen.add(kk)
            ctx.ob(rule, kk not in ('Text', 'Binary'), '%s:skipped' % kk, 'a %s frame is not given to the decoder' % kk, F.site)
            ok = k == 'ret' and case(ctx, s, v) == 'Ok' and not events(s, 'qsend', 'osend', 'callback', 'api') and \
                unchanged(ctx, I, s, I.load(s, F.slf[1], F.slf[2]), F.self0)
            ctx.ob(rule, ok, str(kk), 'a websocket %s frame has an effect: %s %s' % (
                kk, k, case(ctx, s, v) if k == 'ret' else v), F.site, sample='websocket %s: no effect' % kk)
    for x in ('Text', 'Binary', 'Close', 'Ping', 'Pong'):
        ctx.ob(rule, x in seen, x + ':seen', 'no outcome for %s frames' % x, F.site)


def rebuilt(F, s):
    """the frame taken apart and put together again"""
    vi = s.var.get(F.frame[1])
    if vi is None:
        return None
    return ('A', F.frame[2][1], vi, (F.I.sym_field(F.frame, 0, vi),))


@check('C23')
def c23(ctx):
    F = Frame(ctx)
    I = F.I
    n = 0
    for s, k, v in F.outs:
        d = F.decoded(s)
        q = events(s, 'qsend')
        if d and d[0] == 'Ping':
            n += 1
            ctx.ob('ping', k == 'ret' and case(ctx, s, v) == 'Ok', 'ok', 'processing a ping %s' % (
                'fails' if k == 'ret' else 'panics'), F.site)
            if not ctx.ob('ping', len(q) == 1, 'count', '%d items are queued for a ping' % len(q), F.site):
                continue
            ctx.ob('ping', not events(s, 'callback', 'osend'), 'else', 'something else happens on a ping', F.site)
            tx, val = q[0][1], q[0][2]
            ctx.ob('ping', own_sender(F, tx), 'sender', 'the pong is queued on %s' % ctx.pp.term(tx)[:80], F.site)
            ok = pong(ctx, I, s, val)
            ctx.ob('ping', ok, 'value', 'the item queued for a ping is %s instead of one pong frame' % ctx.pp.v(val)[:160], F.site,
                   sample='ping -> queue [%s]' % ctx.pp.v(val)[:60])
        else:
            ctx.ob('other', not q, describe(F, s), 'a %s queues %s' % (describe(F, s), ctx.pp.v(q[0][2])[:100] if q else ''), F.site,
                   sample='%s queues nothing' % describe(F, s))
    ctx.ob('floor', n > 0, 'ping', 'no outcome for an engine ping', F.site)
    import checks.c_engine as ce
    if hasattr(ce, 'ping_only'):
        ce.ping_only(ctx)


def own_sender(F, tx):
    """the queue the receiver was made with"""
    return tx[0] == 'S' and tx[1][:2] == ('fld', 'self') and tx[2] is not None and 'Sender' in F.ctx.prog.adtname(tx[2])


def pong(ctx, I, s, val):
    val = under(val)
    if val[0] != 'q' or len(val[1]) != 1 or val[1][0][0] != 'e':
        return False
    m = val[1][0][1]
    if m[0] != 'A' or ctx.vname(m) != 'Text':
        return False
    return view(ctx, I, s, m[3][0])[0][1] == (('lit', b'3'),)


@check('C22')
def c22(ctx):
    F = Frame(ctx)
    I, prog = F.I, ctx.prog
    with_id = without = 0
    for s, k, v in F.outs:
        x = F.data(s)
        cbs = events(s, 'callback')
        if not x or x[0] != 'Event' or not cbs:
            continue
        _, data, packet = x
        args, idv = F.field(data, 'Event', 'args'), F.field(data, 'Event', 'id')
        for e in cbs:
            fz = top(e[2])
            fz = fz[0][1] if len(fz) == 1 and fz[0][0] == 'T' else fz
            if not ctx.ob('call', len(fz) == 2, 'arity', 'an event callback is called with %d values' % len(fz), F.site):
                continue
            a, ack = fz
            ctx.ob('args', under(a) == args, 'args', 'an event callback gets %s instead of the arguments of the event' %
                   ctx.pp.v(under(a))[:120], F.site, sample='callback(&data.args, ..)')
            has = case(ctx, s, idv)
            got = case(ctx, s, ack)
            ctx.ob('handle', has == got and has is not None, '%s->%s' % (has, got),
                   'an event callback gets %s reply handle for an event %s id' % (
                       {'Some': 'a', 'None': 'no'}.get(got, 'perhaps a'), {'Some': 'with an', 'None': 'without'}.get(has, 'with or without an')),
                   F.site, sample='id %s -> handle %s' % (has, got))
            if got == 'Some' and has == 'Some':
                with_id += 1
                reply(F, s, payload(I, ack, 1), packet, payload(I, idv, 1))
            else:
                without += 1
    ctx.ob('floor', with_id > 0, 'with', 'no event callback is ever called with a reply handle', F.site)
    ctx.ob('floor', without > 0, 'without', 'no event callback is ever called without a reply handle', F.site)


def reply(F, s, handle, packet, idv):
    """what the reply handle sends"""
    ctx, I, prog = F.ctx, F.I, F.ctx.prog
    if handle[0] == 'S':
        raise Missing('the reply handle is not known')
    ht = prog.adts[handle[1]]["name"]
    pub = {b["name"]: b for b in prog.bodies.values() if b["kind"] == 'AssocFn' and b["impl_self"] and
           b["impl_self"][0] == 'adt' and b["impl_self"][1] == handle[1] and not b.get("impl_trait")}
    if 'args' not in pub or 'binary' not in pub:
        raise Missing('methods of the reply handle')
    site = ctx.site(pub['args'])
    flag = I.sym('binary', ('prim', 'bool'))
    s = s.copy()
    s.ev = ()
    start = [(s, handle, ('b', False), 'default')]
    for s1, k, h in I.run(pub['binary'], (), [handle, flag], s):
        if ctx.ob('reply', k == 'ret', 'binary', 'choosing the form of a reply panics', site):
            start.append((s1, h, flag, 'chosen'))
    for s1, k, h in I.run(pub['binary'], (), [handle, I.sym('binary0', ('prim', 'bool'))], s):
        for s2, k2, h2 in I.run(pub['binary'], (), [h, flag], s1) if k == 'ret' else ():
            if k2 == 'ret':
                start.append((s2, h2, flag, 'chosen again'))
    for s1, h, b, how in start:
        for s2, k, ab in I.run(pub['args'], (), [h], s1):
            if not ctx.ob('reply', k == 'ret', 'args', 'making a reply panics', site):
                continue
            mk = calls(s2, 'new_ack')
            if not ctx.ob('reply', len(mk) == 1 and not calls(s2, 'new_event'), 'packet', 'a reply makes %d ack packets' % len(mk), site):
                continue
            ns, i, fl = mk[0][1]
            want = namespace_of(F, s2, packet)
            got = view(ctx, I, s2, under(ns))[0][1]
            ctx.ob('reply', got is not None and got == want, 'namespace', 'a reply is sent to namespace %s instead of that of the event' %
                   ctx.pp.v(ns)[:120], site, sample='reply namespace = event namespace')
            ctx.ob('reply', i == idv, 'id', 'a reply answers %s instead of the id of the event' % ctx.pp.v(i)[:120], site,
                   sample='reply id = event id')
            ok = s2.decide(same_bool(fl, b)) is True
            ctx.ob('reply', ok, 'binary', 'a reply whose binary form is %s (%s) is made with %s' % (
                ctx.pp.v(b), how, ctx.pp.v(fl)[:100]), site, sample='binary form %s' % how)
            sending(ctx, I, s2, ab, mk[0][2], lambda tx: own_sender(F, tx), 'reply', s2.ev)


def same_bool(a, b):
    pa, pb = a[1] if a[0] == 'b' else None, b[1] if b[0] == 'b' else None
    if pa is None or pb is None or pa == pb:
        return a == b
    return por(pand(pa, pb), pand(pnot(pa), pnot(pb)))


def namespace_of(F, s, packet):
    """what Packet::namespace shows for a packet"""
    I = F.I
    b = F.ctx.fn(CR, 'namespace', 'Packet')
    s = s.copy()
    c = Call()
    c.dty = b["locals"][0]
    (s1, k, v), = I.opaque[b["hash"]](I, s, [I.alloc(s, 'pk', under(packet))], c)
    return view(F.ctx, I, s1, v)[0][1]


def sending(ctx, I, s, builder, packet, sender_ok, rule, before):
    """the finished builder queues exactly its packet once; adding arguments goes to the packet"""
    prog = ctx.prog
    if builder[0] == 'S':
        raise Missing('a builder which is not known')
    pub = {b["name"]: b for b in prog.bodies.values() if b["kind"] == 'AssocFn' and b["impl_self"] and
           b["impl_self"][0] == 'adt' and b["impl_self"][1] == builder[1] and not b.get("impl_trait")}
    for n in ('arg', 'arg_ref', 'send'):
        if n not in pub:
            raise Missing('method %s of %s' % (n, prog.adts[builder[1]]["name"]))
    site = ctx.site(pub['send'])
    s = s.copy()
    s.ev = ()
    # plain sending, and sending after an argument was added in either way
    starts = [(s, builder, packet)]
    s0 = s.copy()
    r = I.alloc(s0, 'builder', builder)
    for b, a in ((pub['arg_ref'], r), (pub['arg'], builder)):
        x = I.sym('value', ('ref', False, ('param', b["generics"][-1])))
        for s1, k, v in I.run(b, (), [a, x], s0):
            if not ctx.ob(rule, k == 'ret', b["name"], 'adding an argument panics', ctx.site(b)):
                continue
            sa = calls(s1, 'serialize_arg')
            ok = len(sa) == 1 and under(sa[0][1][0]) == packet and given(sa[0][1][1])
            if not ctx.ob(rule, ok, b["name"] + ':forward', '%s does not add the given value to the packet' % b["name"], ctx.site(b),
                          sample='%s -> serialize_arg(packet, value)' % b["name"]):
                continue
            res = case(ctx, s1, sa[0][2])
            got = case(ctx, s1, v)
            if got is None and v == sa[0][2]:
                # handed on undecided
                for s2 in s1.assume(I.is_variant(v, 0)):
                    starts.append((s2, I.load(s2, r[1], r[2]), None))
                continue
            ctx.ob(rule, res is not None and got == res, b["name"] + ':result', '%s gives %s although adding the argument gave %s' % (
                b["name"], got, res), ctx.site(b))
            if got == 'Ok':
                starts.append((s1, I.load(s1, r[1], r[2]) if b["name"] == 'arg_ref' else payload(I, v, 0), None))
    for s1, bd, pk in starts:
        s1 = s1.copy()
        s1.ev = ()
        for s2, k, v in I.run(pub['send'], (), [bd], s1):
            if not ctx.ob(rule, k == 'ret', 'send', 'sending panics', site):
                continue
            q = events(s2, 'qsend')
            if not ctx.ob(rule, len(q) == 1, 'queued', '%d items are queued by one send' % len(q), site):
                continue
            fin = calls(s2, 'finish')
            ok = len(fin) == 1 and q[0][2] == fin[0][2] and (under(fin[0][1][0]) == pk if pk is not None else holds(bd, fin[0][1][0]))
            ctx.ob(rule, ok, 'item', 'the queued item is %s instead of the finished packet' % ctx.pp.v(q[0][2])[:160], site,
                   sample='send -> queue(finish(packet))')
            ctx.ob(rule, sender_ok(q[0][1]), 'queue', 'the packet is queued on %s' % ctx.pp.term(q[0][1])[:100], site)
    return starts


def given(v):
    v = under(v)
    return v[0] == 'S' and v[1] in ('value', ('*', 'value'))


def holds(v, x):
    return mentions(v, lambda t: t == x) or v == x or (v[0] == 'A' and any(y == x for y in v[3]))


def first(F, s, call):
    """the call of Args::get asks for the first argument of the event received"""
    d = F.data(s)
    return d is not None and d[0] == 'Event' and under(call[1][0]) == F.field(d[1], 'Event', 'args') and \
        s.decide(peq0(call[1][1])) is True


def nameless(F, s):
    """the event received has no arguments"""
    for n, a, r in calls(s):
        n = n.split('::')[-1]
        if n == 'get' and case(F.ctx, s, r) == 'None' and first(F, s, (n, a, r)):
            return True
        d = F.data(s)
        if n in ('is_empty', 'len') and a and d is not None and d[0] == 'Event' and under(a[0]) == F.field(d[1], 'Event', 'args'):
            if n == 'is_empty' and r[0] == 'b' and s.decide(r[1]) is True:
                return True
            if n == 'len' and r[0] == 'i' and s.decide(peq0(r)) is True:
                return True
    return False
