"""C51: a connection ends only for a reason, and says which"""
from domain import *
from framework import check, Missing
from checks.client import *
import checks.c_recv as recv
from checks.c_conn import Conn, Bad, each, term
from checks.c_emit import Reg, Emission, packet_id, ack_arrives, pending_for

STAGES = {'process': 'ProcessingError', 'read': 'WebsocketError', 'write': 'WebsocketError'}
REFUSED = {'decode': 'EngineError', 'deserialize': 'SocketError', 'deserialize_partial': 'SocketError', 'name': 'ArgsError'}


def task_monitor(ctx, seen):
    """what may be the reason of the end: the end of the frames, or the first error"""
    def step(x, e):
        if e[0] == 'process' and e[3] == 'err':
            return [x or ('process', e[4])]
        if e[0] == 'rderr':
            return [x or ('read', term(e[3]))]
        if e[0] == 'werr' and e[1] not in ('close', 'WebSocketStream::close'):
            return [x or ('write', ('item', 'w' + e[1], e[2], 'err'))]
        if e[0] == 'wsend':
            return [x or ('over', None)]
        return [x]

    def done(x, s, k, v):
        if k != 'ret':
            return None         # C27
        r = case(ctx, s, v)
        if r == 'Ok':
            return None if x is not None else Bad('over', 'the task ends although there are frames to come and nothing failed')
        if r != 'Err' or v[0] != 'A':
            return Bad('unknown', 'how the task ends is not known: %s' % ctx.pp.v(v)[:120])
        if x is None or x[0] == 'over':
            return Bad('unprovoked', 'the task ends with %s although %s' % (
                ctx.pp.v(v[3][0])[:120], 'nothing failed' if x is None else 'the frames just ended'))
        e = v[3][0]
        n = case(ctx, s, e)
        seen.add(x[0])
        if n != STAGES[x[0]]:
            return Bad('stage:' + x[0], 'the task ends with %s for a %s error' % (n or ctx.pp.v(e)[:120], x[0]))
        if e[0] != 'A' or len(e[3]) != 1 or term(under(e[3][0])) != x[1]:
            return Bad('other:' + x[0], 'the task ends with %s instead of the %s error' % (ctx.pp.v(e)[:120], x[0]))
        return None
    return step, done


def string(ctx, t):
    """every JSON string, and nothing else, can be read as this type"""
    if t[0] == 'prim':
        return False
    if t[0] != 'adt':
        return False
    a = ctx.prog.adts[t[1]]
    if a["name"] == 'String':
        return True
    return a["name"] in ('Cow', 'Box', 'Rc', 'Arc') and any(x == ('str',) or x == ('prim', 'str') for x in t[2])


def frame(ctx):
    F = recv.Frame(ctx)
    I = F.I
    site = F.site
    got = set()
    for s, k, v in F.outs:
        if k != 'ret':
            continue
        what = recv.describe(F, s)
        r = case(ctx, s, v)
        if r == 'Ok':
            ctx.ob('frame', True, '', '', site, sample='%s: accepted' % what)
            continue
        e = v[3][0] if v[0] == 'A' else None
        if r != 'Err' or e is None:
            ctx.ob('frame', False, what + ':unknown', 'whether a %s is accepted is not known: %s' % (what, ctx.pp.v(v)[:120]), site)
            continue
        n = case(ctx, s, e)
        x = under(e[3][0]) if e[0] == 'A' and len(e[3]) == 1 else None
        failed = [c for c in calls(s) if c[2][0] == 'S' and c[2][2] is not None and ctx.prog.adtname(c[2][2]) == 'Result' and
                  case(ctx, s, c[2]) == 'Err']
        why = None
        d = F.data(s)
        if failed:
            c = failed[0]
            api = c[0].split('::')[-1]
            # which of the functions called deserialize
            if api == 'deserialize' and '::de::' not in c[0]:
                api = 'name'
                g = [y for y in calls(s, 'get') if case(ctx, s, y[2]) == 'Some' and under(c[1][0]) == payload(I, y[2], 1)]
                t = ok_type(c[2][2])
                if not any(recv.first(F, s, y) for y in g):
                    why = 'what cannot be read is not the name of the event'
                elif not string(ctx, t):
                    why = 'the name may be a string which is no %s' % ctx.prog.tyname(t)
            got.add(api)
            if why is None and api not in REFUSED:
                why = '%s is no reason' % api
            if why is None and n != REFUSED[api]:
                why = '%s failed' % api
            if why is None and (x is None or x != payload(I, c[2], 1)):
                why = 'the error of %s is another' % api
        elif d is not None and d[0] == 'Event':
            got.add('nameless')
            if not recv.nameless(F, s):
                why = 'the event has a name'
            elif n != 'EventNoArgs' or x != under(d[2]):
                why = 'it is an event without arguments'
        elif d is not None and d[0] == 'Ack':
            got.add('unasked')
            if events(s, 'callback'):
                why = 'the ack was expected'
            elif n != 'UnexpectedAck' or x != under(d[2]):
                why = 'it is an ack'
        else:
            why = 'nothing is wrong with it'
        ctx.ob('frame', why is None, '%s:%s:%s' % (what, n, why), 'a %s is refused with %s although %s' % (what, ctx.pp.v(e)[:160], why), site,
               sample='%s: %s' % (what, n))
    for x in list(REFUSED) + ['nameless', 'unasked']:
        ctx.ob('frame', x in got, 'seen:' + x, 'no frame is refused because of %s' % x, site)


def ok_type(t):
    """T of Result<T, E>"""
    return t[2][0]


def awaited(ctx):
    """an ack somebody waits for is accepted"""
    R = Reg(ctx)
    site = ctx.site(R.proc)
    n = 0
    E = Emission(R, R.counter(R.s0), ('callback:1', 'args', 'send'), 1)
    for s, kind in E.outs:
        i, call = packet_id(R, s)
        if kind != 'sent' or i is None:
            continue
        for s2, ok, ns, i2, args, called in ack_arrives(R, s, '', 'awaited', 'an event'):
            for s3, e in pending_for(R, s2, [(E.ns, i, E.cb)], ns, i2):
                if e:
                    n += 1
                    ctx.ob('awaited', ok, 'refused', 'the ack of an event sent with a callback is refused', site, sample='its ack: accepted')
    ctx.floor(n, 1, 'awaited acks')


@check('C51')
def c51(ctx):
    for root in ('from_stream', 'connect'):
        cn = Conn(ctx, root)
        seen = set()
        step, done = task_monitor(ctx, seen)
        each(cn, 'task', None, step, done, 'the end has a reason')
        for n in STAGES:
            ctx.ob('task', n in seen, 'seen:' + n, 'no %s error is ever noticed by the task' % n, cn.site)
    frame(ctx)
    awaited(ctx)
