"""C36: the connection task lives no longer than its client.
Only one thing may own a spawned task: the handle which ends it when dropped.  That handle has to end up inside the client
which connecting returns, must not be given up (forgotten, leaked, detached) on any path, and must be gone from the client
once a close has returned."""
from domain import *
from framework import check, Missing
from interp import mentions, TERMS
from checks.client import *
from checks.c_conn import Conn, closings, flat, txs


def handles(x):
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 4 and x[0] == 'A' and x[1] == 'Handle':
                out.add(x[3][0])
            elif len(x) == 2 and x[0] == '#':
                go(TERMS[x[1]])
            else:
                for y in x:
                    go(y)
    go(x)
    return out


def given_up(ctx, ev, where, site):
    """tasks detached or handles leaked on a path"""
    for e in flat(ev):
        if e[0] == 'spawn':
            ctx.ob('detached', e[3], where + ':spawn', 'a task is spawned without a handle which ends it, while %s' % where, site,
                   sample='%s: spawned with a handle' % where)
        if e[0] == 'leak':
            ctx.ob('detached', not handles(e[1]), where + ':leak', 'the handle of the connection task is given up while %s' % where, site)


def dropped(ctx, I, s, c, where, site):
    """destructors which give up the handle instead of dropping it"""
    s = s.copy()
    s.ev = ()
    outs = I.drop_value(s, c, None)
    ctx.ob('detached', bool(outs), where + ':ends', '%s never ends or always panics' % where, site)
    for s2 in outs:
        given_up(ctx, s2.ev, where, site)


@check('C36')
def c36(ctx):
    n = m = 0
    for root in ('from_stream', 'connect'):
        cn = Conn(ctx, root)
        I = cn.I
        for s, k, v in cn.outs:
            given_up(ctx, s.ev, 'connecting', cn.site)
            if k != 'ret' or case(ctx, s, v) != 'Ok':
                continue
            n += 1
            held = txs(I, s, payload(I, v, 0), 'Handle')
            made = {I.freeze(s, e[2], 1)[1] for e in s.ev if e[0] == 'spawn'}
            ctx.ob('owned', made and made <= held, 'client', 'a connected client does not hold the handle of its connection task', cn.site,
                   sample='%s: client holds the handle' % root)
            dropped(ctx, I, s, payload(I, v, 0), 'dropping a client', cn.site)
        for body, g, outs, aw in cn.tasks:
            for s, k, v, tr in outs:
                given_up(ctx, tr, 'connected', ctx.site(body))
        b, cl = closings(cn)
        site = ctx.site(b)
        for s0, outs, aw, r in cl:
            for s, k, v in outs:
                m += 1
                given_up(ctx, s.ev, 'closing', site)
                left = txs(I, s, I.load(s, r[1], r[2]), 'Handle')
                dropped(ctx, I, s, I.load(s, r[1], r[2]), 'dropping a closed client', site)
                if any(e[0] == 'ready' and e[1][0] == 'handle' for e in s.ev):
                    continue
                # the task may still run: it must not be kept
                ctx.ob('closed', not left, 'timed-out', 'after a close which did not see the connection task end, the client still keeps it',
                       site, sample='timed out: handle gone')
    ctx.floor(n, 2, 'connected clients')
    ctx.floor(m, 2, 'outcomes of closing')
    ctx.assume += ['dropping a RemoteHandle ends its task at its next poll, as documented by futures',
                   'the caller drops the client, and does not leak it or the future of closing']
