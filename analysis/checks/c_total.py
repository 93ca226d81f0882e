"""C37: using a client or a reply handle always returns, and queues what was sent and nothing else.
The builders are driven in every order of use through a client as connecting makes it, one with any registry and any
counter, and one which has been closed with any result; reply handles are taken from where the receiver passes them on.
Whether the queue is still read is left open, so the outcomes include the queue refusing the item."""
from domain import *
from framework import check, Missing
from checks.client import *
from checks.c_reg import *
from checks.c_emit import Emission, patterns
import checks.c_recv as recv

UNSENT = [('drop',), ('binary', 'drop'), ('callback:1', 'drop'), ('callback:1', 'binary', 'drop'), ('args', 'drop'), ('args', 'arg', 'drop'),
          ('callback:1', 'args', 'drop'), ('callback:1', 'args', 'arg_ref', 'drop'), ('binary', 'callback:1', 'args', 'arg', 'drop')]


class Reply(Emission):
    """one use of a reply handle"""

    def __init__(self, F, s, handle, steps, site):
        self.R, self.n, self.cb, self.outs, self.site = F, 5, None, [], site
        s = s.copy()
        s.ev = ()
        self.go(s, handle, steps)


def judge(ctx, outs, rule, how, where, site, closed=False):
    n = 0
    for s, kind in outs:
        n += 1
        q = len(events(s, 'qsend'))
        want = 1 if kind == 'sent' else 0
        known_closed = closed
        ok = q == want or (known_closed and q <= want)
        ctx.ob(rule, ok, how + ':' + kind, '%s on %s (%s) puts %d items on the queue' % (how, where, kind, q), site,
               sample='%s, %s: %d queued' % (how, kind, want))
    ctx.ob(rule, n > 0, how + ':returns', '%s on %s never returns' % (how, where), site)
    return n


@check('C37')
def c37(ctx):
    deep = ctx.tier == 'thorough'
    n = 0
    for root in ('from_stream', 'connect') if deep else ('from_stream',):
        R = Reg(ctx, root)
        any_ = R.arbitrary()
        b = ctx.fn(CL, 'close', 'Client')
        closed = []
        for s, k, v in drive(R.I, b, [R.client], any_.copy()):
            if k != 'ret':
                continue
            s = s.copy()
            s.ev = ()
            closed.append((s, 'a client whose closing gave %s' % (case(ctx, s, v) or 'anything')))
        seen = {}
        for s, w in closed:
            seen.setdefault(R.I.freeze(s, R.I.load(s, R.client[1], R.client[2]), 6), (s, w))
        closed = list(seen.values())
        ctx.ob('floor', bool(closed), 'closed', 'closing never returns', ctx.site(b))
        states = [(R.counter(R.s0), 'a new client', False), (any_, 'any client', False)] + [(s, w, True) for s, w in closed]
        for s0, where, shut in states:
            for p in list(patterns(deep)) + UNSENT:
                E = Emission(R, s0, p, 7)
                n += judge(ctx, E.outs, 'emit', ' '.join(p), where, E.site, shut)
            E = Emission(R, s0, ('args', 'send'), 7, short=True)
            n += judge(ctx, E.outs, 'emit', 'emit args send', where, E.site, shut)
            for op in SETTERS:
                for short in (False, True):
                    st = R.setter([s0], op, 6, short)[0]
                    name = (SHORT if short else SETTERS)[op]
                    site = ctx.site(ctx.fn(CL, name, 'Client'))
                    ctx.ob('set', len(st) > 0, name + ':returns', '%s on %s never returns' % (name, where), site)
                    for s in st:
                        n += 1
                        q = len(s.ev) and len(events(s, 'qsend'))
                        ctx.ob('set', q == 0, name, '%s on %s puts %d items on the queue' % (name, where, q), site,
                               sample='%s: nothing queued' % name)
    ctx.floor(n, 100, 'uses of a client')
    replies(ctx, deep)
    ctx.assume += ['a mutex is not poisoned: no code panics while the registry is locked (C16, C04)',
                   'ids do not run out (fewer than 2^62 events)', 'serializing the user\'s own values does not panic']


def replies(ctx, deep):
    F = Frame(ctx)
    I = F.I
    n = 0
    seen = set()
    for s, k, v in F.outs:
        x = F.data(s)
        if not x or x[0] != 'Event':
            continue
        for e in events(s, 'callback'):
            fz = top(e[2])
            fz = fz[0][1] if len(fz) == 1 and fz[0][0] == 'T' else fz
            if len(fz) != 2 or case(ctx, s, fz[1]) != 'Some':
                continue
            h = payload(I, fz[1], 1)
            if h[0] == 'S':
                raise Missing('the reply handle is not known')
            if h in seen:
                continue
            seen.add(h)
            for form in ((), ('binary',), ('binary', 'binary')):
                for args in ((), ('arg',), ('arg_ref',)) + ((('arg', 'arg_ref'), ('arg_ref', 'arg')) if deep else ()):
                    for end in ('send', 'drop'):
                        p = form + ('args',) + args + (end,)
                        n += judge(ctx, Reply(F, s, h, p, F.site).outs, 'reply', 'reply ' + ' '.join(p), 'a handle', F.site)
                n += judge(ctx, Reply(F, s, h, form + ('drop',), F.site).outs, 'reply', 'reply ' + ' '.join(form + ('drop',)), 'a handle', F.site)
    ctx.floor(n, 10, 'uses of a reply handle')
