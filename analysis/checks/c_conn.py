"""C19 C24 C25 C26 C27 C34: the connection task, connecting and closing.
The trace of a path of the task is the sequence of its interactions with the socket, the queue, the close signal and
the frame processing; loops appear as `star` of the alternatives of one round.  Monitors are automata run over it."""
from domain import *
from framework import check, view, Missing
from interp import mentions, intern, TERMS
from checks.client import *
import checks.c_recv as recv


# ----------------------------------------------------------------------------------------------------- the analysis
class Conn:
    def __init__(self, ctx, root='from_stream', tasks=True, **hooks):
        self.ctx = ctx
        C = self.C = Client(ctx, seqend=self.seqend, loopexit=self.loopexit, **hooks)
        I = self.I = C.I
        self.proc = C.receiver()
        I.opaque[self.proc["hash"]] = self.process
        b = self.b = self.entry(root)
        self.site = ctx.site(b)
        st = State()
        self.args = ctx.args(I, b)
        self.outs = drive(I, b, self.args, st)
        self.awaits = list(I.awaits)
        self.tasks = []
        seen = set()
        for g, s0 in I.spawned:
            if g[0] != 'G' or g[1] not in ctx.prog.bodies:
                raise Missing('the body of the spawned task')
            fz = I.freeze(s0, g)
            if fz in seen:
                continue
            seen.add(fz)
            s0 = s0.copy()
            n0 = len(s0.ev)
            if not tasks:
                self.tasks.append((ctx.prog.bodies[g[1]], g, [], []))
                continue
            I.awaits = []
            body = ctx.prog.bodies[g[1]]
            outs = I.run(body, g[3], [g, UNIT], s0)
            self.tasks.append((body, g, [(s, k, v, s.ev[n0:]) for s, k, v in outs], list(I.awaits)))
        ctx.floor(len(self.tasks), 1, 'spawned tasks')
        ctx.notes['task paths'] = sum(len(t[2]) for t in self.tasks)
        ctx.notes['waits'] = len(self.awaits) + sum(len(t[3]) for t in self.tasks)

    def entry(self, root):
        """root is a public method of the client, or 'timed': the async function which is given the timeout"""
        ctx = self.ctx
        if root != 'timed':
            return ctx.fn(CL, root, 'Client')
        c = [b for b in ctx.prog.bodies.values() if b["crate"] == CL and b["kind"] in ('Fn', 'AssocFn') and
             any(t[0] == 'adt' and ctx.prog.adtname(t) == 'Duration' for t in b["locals"][1:1 + b["argc"]])]
        if len(c) > 1:
            c = [b for b in c if b["name"] == 'new'] or c
        if len(c) != 1:
            raise Missing('%d functions take the timeout' % len(c))
        return c[0]

    def process(self, I, st, args, c):
        out = []
        st = st.copy()
        n = st.fresh('process')
        if args[0][0] == 'R':
            # what the receiver keeps of earlier frames changes in unknown ways; where it sends to does not
            v = I.load(st, args[0][1], args[0][2])
            if v[0] == 'A' and v[1] in self.ctx.prog.adts:
                fs = self.ctx.prog.adts[v[1]]["variants"][v[2]][1]
                I.store(st, args[0][1], args[0][2], ('A', v[1], v[2], tuple(
                    x if self.connects(t) else I.sym(('kept', n, i), t) for i, ((_, t), x) in enumerate(zip(fs, v[3])))))
        fr = I.freeze(st, args[1], 8)
        tty = c.dty
        err = I.sym(('processing error', n, fr), tty[2][1] if tty and tty[0] == 'adt' and len(tty[2]) > 1 else None)
        a = st.copy()
        a.event('process', fr, n, 'ok', None)
        b = st.copy()
        b.event('process', fr, n, 'err', err[1])
        return [(a, 'ret', I.ok(UNIT)), (b, 'ret', I.err(err))]

    def connects(self, t, seen=()):
        """is it a sender, or what is shared with the client, or something with one inside?"""
        adts = self.ctx.prog.adts

        def f(x):
            if x[:1] != ('adt',) or len(x) != 3 or x[1] not in adts:
                return False
            if adts[x[1]]["name"] in ('Sender', 'UnboundedSender', 'Mutex', 'RwLock'):
                return True
            return adts[x[1]].get("local") and x[1] not in seen and any(
                self.connects(ft, seen + (x[1],)) for _, fs in (v[:2] for v in adts[x[1]]["variants"]) for _, ft in fs)
        return mentions(t, f) or (t[0] == 'param' and not seen)

    def seqend(self, s, segs):
        if not mentions(segs, lambda t: t[:2] == ('item', 'qrecv')):
            return
        s.event('seqend', segs, s.entails_ge(lsub(NOLEN, self.I.segs_len(segs))))

    def loopexit(self, s):
        """after a loop which wrote el(item, round) each time: was that all of them?"""
        if not s.ev or s.ev[-1][0] != 'star':
            return
        for L, it in writes(s.ev[-1]):
            if s.entails_ge(lsub(atom(('cnt', L)), atom(('len', it)))):
                s.event('all', it)


NOLEN = ('i', 0, NOFS)


def flat(ev):
    for e in ev:
        if e[0] == 'star':
            for a in e[2]:
                yield from flat(a)
        else:
            yield e


def written(e):
    """(item, index term) when a write event writes an element of a queued item"""
    if e[0] != 'wsink' or not e[3]:
        return None
    v = under(e[3][0])
    if v[0] == 'S' and isinstance(v[1], tuple) and v[1][0] == 'el':
        return v[1][1], v[1][2]
    return None


def cnt_of(ix):
    """the loop counted by an index, if it is exactly its count"""
    if isinstance(ix, tuple) and ix[:1] == ('cnt',):
        return ix[1]
    if isinstance(ix, tuple) and ix[0] == 'i' and ix[1] == 0 and len(ix[2]) == 1:
        (a, k), = ix[2]
        if k == 1 and a[:1] == ('cnt',):
            return a[1]
    return None


def writes(star):
    """[(loop, item)] when every round of the loop writes exactly element number `round` of an item"""
    got = set()
    for alt in star[2]:
        w = [x for x in map(written, flat(alt)) if x]
        if not w:
            continue
        for it, ix in w:
            if cnt_of(ix) == star[1]:
                got.add((star[1], it))
    return got


def run(trace, init, step):
    """states an automaton can be in after a trace, and what it complains about"""
    bad = []

    def go(states, ev):
        for e in ev:
            if e[0] == 'star':
                r = step.star(e) if hasattr(step, 'star') else None
                if r is not None:
                    states = {y for x in states for y in r(x)}
                    continue
                seen = set(states)
                work = set(states)
                while work:
                    new = set()
                    for alt in e[2]:
                        new |= go(work, alt)
                    work = new - seen
                    seen |= work
                states = seen
            else:
                nxt = set()
                for x in states:
                    for y in step(x, e):
                        if isinstance(y, Bad):
                            bad.append(y)
                        else:
                            nxt.add(y)
                states = nxt
        return states
    return go({init}, trace), bad


class Gated:
    """a monitor whose complaints count only once the close signal was received"""
    def __init__(self, inner, signals):
        self.inner = inner
        self.signals = signals

    def star(self, e):
        r = self.inner.star(e) if hasattr(self.inner, 'star') else None
        return (lambda x: [(x[0], y) for y in r(x[1])]) if r is not None else None

    def __call__(self, x, e):
        sig = x[0] or e[0] == 'ready' and e[1][0] == 'orx' and e[1][1] in self.signals
        return [y if isinstance(y, Bad) and sig else (sig, None if isinstance(y, Bad) else y) for y in self.inner(x[1], e)]


class Bad:
    def __init__(self, key, what):
        self.key, self.what = key, what


def each(cn, rule, init, step, done, what):
    """run a monitor over every path of the task; done(state, s, kind, value) -> Bad or None"""
    ctx = cn.ctx
    n = 0
    for body, g, outs, aw in cn.tasks:
        site = ctx.site(body)
        for s, k, v, tr in outs:
            st = step(s) if isinstance(step, type) or getattr(step, '__name__', '') == '<lambda>' else step
            states, bad = run(tr, init, st)
            for x in states:
                b = done(x, s, k, v)
                if b:
                    bad.append(b)
            n += 1
            if bad:
                for b in bad:
                    ctx.ob(rule, False, b.key, b.what, site)
            else:
                ctx.ob(rule, True, '', '', site, sample=what)
    ctx.floor(n, 2, 'paths of the connection task')


def fate(ctx, s, k, v):
    return 'panics' if k != 'ret' else case(ctx, s, v)


# --------------------------------------------------------------------------------------------------- C34 each frame once
def order_monitor(ctx, seen):
    def step(x, e):
        if e[0] == 'frame':
            seen['frames'] += 1
            if x is not None:
                return [Bad('twice-read', 'a frame is read before the one before it was processed')]
            return [term(e[3])]
        if e[0] == 'process':
            f = term(under(e[1]))
            if x is None:
                return [Bad('again', 'something is processed that was not just read from the socket: %s' % ctx.pp.v(under(e[1]))[:120])]
            if f != x:
                return [Bad('other', 'the frame read was %s but %s is processed' % (ctx.pp.term(x)[:80], ctx.pp.v(under(e[1]))[:80]))]
            return [None]
        if e[0] == 'wsend':
            return [('ended', x)] if x is None or x[0] != 'ended' else [x]
        if x is not None and x[0] != 'ended' and e[0] in ('ready', 'pend') and e[1][0] != 'sink':
            return [Bad('waits', 'a frame that was read is still unprocessed when the task waits for something else')]
        return [x]

    def done(x, s, k, v):
        if k != 'ret':
            return None
        if x is not None and x[0] == 'ended':
            return Bad('dropped', 'a frame is never processed') if x[1] is not None else None
        if x is not None:
            return Bad('dropped', 'a frame is read and then dropped')
        if case(ctx, s, v) == 'Ok':
            return Bad('early', 'the task finishes without error although the stream of frames has not ended')
        return None
    return step, done


@check('C34')
def c34(ctx):
    for root in ('from_stream', 'connect'):
        cn = Conn(ctx, root)
        seen = {'frames': 0}
        step, done = order_monitor(ctx, seen)
        each(cn, 'order', None, step, done, 'read -> process -> read')
        ctx.floor(seen['frames'], 1, 'frames read')
        same_stream(cn)
    recv.frames_ignored(recv.Frame(ctx))


def term(v):
    return v[1] if v[0] == 'S' else v


def same_stream(cn):
    """one receiver takes the frames of the one socket"""
    sids = {e[1] for _, _, outs, _ in cn.tasks for _, _, _, tr in outs for e in flat(tr) if e[0] in ('frame', 'rderr', 'wsend')}
    for _, g, outs, _ in cn.tasks:
        s = {e[1] for _, _, _, tr in outs for e in flat(tr) if e[0] in ('frame', 'rderr', 'wsend')}
        cn.ctx.ob('order', len(s) == 1, 'streams', 'frames are read from %d different streams' % len(s), cn.site)
    return sids


# ------------------------------------------------------------------------------------------------------ C26 errors end it
def error_monitor(ctx, seen):
    def step(x, e):
        if e[0] == 'process' and e[3] == 'err':
            seen.add('process')
            return [x or ('processing', e[4])]
        if e[0] == 'rderr':
            seen.add('read')
            return [x or ('read', term(e[3]))]
        if e[0] == 'werr' and e[1] not in ('close', 'WebSocketStream::close'):
            seen.add('write')
            return [x or ('write', ('item', 'w' + e[1], e[2], 'err'))]
        if x and e[0] in ('frame', 'rderr', 'wsend', 'wsink', 'qrecv', 'process'):
            return [Bad('goes-on:' + x[0], 'the task goes on (%s) after a %s error' % (e[0], x[0]))]
        return [x]

    def done(x, s, k, v):
        if x is None or k != 'ret':
            return None
        if case(ctx, s, v) != 'Err':
            return Bad('lost:' + x[0], 'the task returns %s after a %s error' % (case(ctx, s, v), x[0]))
        if not mentions(v, lambda t: t == x[1]):
            return Bad('replaced:' + x[0], 'the task returns %s instead of the %s error' % (ctx.pp.v(v)[:120], x[0]))
        return None
    return step, done


@check('C26')
def c26(ctx):
    for root in ('from_stream', 'connect'):
        cn = Conn(ctx, root)
        seen = set()
        step, done = error_monitor(ctx, seen)
        each(cn, 'task', None, step, done, 'error -> returned')
        for n in ('process', 'read', 'write'):
            ctx.ob('task', n in seen, 'seen:' + n, 'no %s error is ever noticed by the task' % n, cn.site)
    frame_errors(ctx)


def frame_errors(ctx):
    """processing one frame: any error is returned, and nothing else is"""
    F = recv.Frame(ctx)
    I = F.I
    n = 0
    for s, k, v in F.outs:
        if k != 'ret':
            continue
        what = recv.describe(F, s)
        errs = []
        for name, a, r in calls(s):
            if r[0] == 'S' and r[2] is not None and ctx.prog.adtname(r[2]) == 'Result' and case(ctx, s, r) != 'Ok':
                if case(ctx, s, r) is None:
                    ctx.ob('frame', False, what + ':' + name, 'whether %s fails is not looked at when processing a %s' % (
                        name, what), F.site)
                else:
                    errs.append((name, payload(I, r, 1)))
        res = case(ctx, s, v)
        cbs = events(s, 'callback')
        if errs:
            n += 1
            ctx.ob('frame', len(errs) == 1, what + ':goes-on', 'processing goes on after %s failed' % errs[0][0], F.site)
            name, e = errs[0]
            ctx.ob('frame', res == 'Err' and mentions(v, lambda t: t == e or t == e[1]), what + ':' + name,
                   'processing a %s returns %s after %s failed' % (what, res, name), F.site, sample='%s fails -> Err' % name)
            after = s.ev[[i for i, x in enumerate(s.ev) if x[0] == 'api' and x[3][0] == 'S' and mentions(e, lambda t: t == x[3][1])][-1] + 1:]
            ctx.ob('frame', not [x for x in after if x[0] in ('callback', 'qsend', 'osend')], what + ':acts',
                   'processing a %s acts after %s failed' % (what, name), F.site)
            continue
        d = F.data(s)
        kind = d[0] if d else None
        if kind == 'Ack' and not cbs:
            ctx.ob('frame', res == 'Err', 'ack', 'an ack nobody waits for is not an error', F.site, sample='unexpected ack -> Err')
        elif kind == 'Event' and recv.nameless(F, s):
            ctx.ob('frame', res == 'Err', 'event', 'an event without a name is not an error', F.site, sample='event without arguments -> Err')
        else:
            ctx.ob('frame', res == 'Ok', what + ':ok', 'processing a %s without any error returns %s' % (what, res), F.site)
    ctx.floor(n, 4, 'failing calls')


# --------------------------------------------------------------------------------------------------- C19 frames contiguous
def write_monitor(ctx, seen):
    class Step:
        """None, or (item, progress): progress 0 = nothing written, loop = all rounds so far written, 'all' """
        def __init__(self, s):
            self.s = s

        def star(self, e):
            w = writes(e)
            if len(w) != 1:
                return None
            (L, it), = w
            problems = []
            fed = False
            for alt in e[2]:
                wr = [x for x in flat(alt) if x[0] == 'wsink' and x[1] != 'flush']
                if any(x[0] == 'star' for x in alt) and len(wr) == 1:
                    problems.append(Bad('repeat', 'a frame of a packet may be written any number of times'))
                for x in flat(alt):
                    if x[0] in ('qrecv', 'reunite'):
                        problems.append(Bad('inside', 'another item is taken before all frames of a packet are written'))
                if len(wr) != 1 or written(wr[0]) is None or written(wr[0])[0] != it or cnt_of(written(wr[0])[1]) != L:
                    problems.append(Bad('skip', 'a round of the writing loop writes %d frames' % len(wr) if len(wr) != 1 else
                                        'a round of the writing loop writes %s' % ctx.pp.v(under(wr[0][3][0]))[:120]))
                elif wr[0][1] == 'feed':
                    fed = True
            seen['sends'] += 1

            def r(x):
                if x is None or x[0] != it:
                    return [None] if not problems else [x]
                return [(it, L, x[2] or fed)]
            if problems:
                # reported through a state the step function turns into the complaint
                return lambda x: [('bad', problems[0].key, problems[0].what)]
            return r

        def __call__(self, x, e):
            if x is not None and x[0] == 'bad':
                return [Bad(x[1], x[2])]
            if x is not None and x[2] and (e[0] in ('frame', 'rderr', 'wsend') or e[0] == 'ready' and e[1][0] == 'orx'):
                return [Bad('unflushed', 'frames handed to the socket are not flushed before the task goes on')]
            if e[0] == 'qrecv':
                seen['items'] += 1
                if x is not None and x[1] != 'all':
                    return [Bad('next-early', 'the next item is taken although frames of the one before may be unwritten')]
                return [(('item', 'qrecv', e[2], e[1]), 0, x is not None and x[2])]
            if e[0] == 'seqend' and x is not None and is_whole(e[1], x[0]):
                if x[1] == 0 and not e[2]:
                    return [Bad('unwritten', 'the frames of a packet are gone through without writing them')]
                return [(x[0], 'all', x[2])]
            if e[0] == 'all' and x is not None and e[1] == x[0]:
                return [(x[0], 'all', x[2])]
            if e[0] == 'wsink' and e[1] in ('send', 'WebSocketStream::send', 'feed', 'send_all'):
                w = written(e)
                if w is not None and x is not None and w[0] == x[0] and x[1] != 'all' and e[1] in ('send', 'feed'):
                    L = cnt_of(w[1])
                    # the round of the writing loop a path ends in
                    if L is not None and (x[1] == L or x[1] == 0) or w[1] == NOLEN and x[1] == 0:
                        return [(x[0], x[1], e[1] == 'feed')]
                    return [Bad('order', 'frame %s of a packet is written out of order' % ctx.pp.term(w[1])[:60])]
                if e[1] == 'send_all' and x is not None and x[1] == 0 and e[3] and e[3][0][0] == 'q' and is_whole(e[3][0][1], x[0]):
                    seen['sends'] += 1
                    return [(x[0], 'all', False)]
                if e[3] and closing(ctx, under(e[3][0])):
                    return [x] if x is None or x[1] == 'all' else [Bad('close', 'the close frame is written before all frames of a packet')]
                return [Bad('other', 'something else is written to the socket: %s' % ctx.pp.v(under(e[3][0]))[:120] if e[3] else e[1])]
            if e[0] == 'wsink' and e[1] == 'flush':
                return [x and x[:2] + (False,)]
            if e[0] == 'wsink' and 'close' in e[1] and x is not None and x[1] != 'all':
                return [Bad('close', 'the socket is closed before all frames of a packet are written')]
            if x is not None and x[1] != 'all' and e[0] == 'pend' and e[1][0] == 'sink':
                # a write in progress; whatever comes next must be that write
                return [x]
            if x is not None and x[1] != 'all' and e[0] == 'wsend':
                return [Bad('left', 'the task stops although frames of a packet may be unwritten')]
            return [x]

    def done(x, s, k, v):
        if x is not None and x[0] == 'bad':
            return Bad(x[1], x[2])
        if k == 'ret' and case(ctx, s, v) == 'Ok' and x is not None and x[1] != 'all':
            return Bad('unfinished', 'the task ends without error in the middle of a packet')
        if k == 'ret' and case(ctx, s, v) == 'Ok' and x is not None and x[2]:
            return Bad('unflushed', 'frames handed to the socket are never flushed')
        return None
    return Step, done


@check('C19')
def c19(ctx):
    for root in ('from_stream', 'connect'):
        cn = Conn(ctx, root)
        seen = {'items': 0, 'sends': 0}
        Step, done = write_monitor(ctx, seen)
        each(cn, 'task', None, Step, done, 'item -> every frame in order -> next item')
        ctx.floor(seen['items'], 1, 'items taken from the queue')
        ctx.floor(seen['sends'], 1, 'loops writing the frames of an item')
        queue(cn)
    import checks.c_emit as ce
    ce.whole_items(ctx)


def closing(ctx, v):
    return v[0] == 'A' and ctx.vname(v) == 'Close'


def is_whole(segs, it):
    return len(segs) == 1 and segs[0][0] == 'sub' and segs[0][1] == it and segs[0][2] == NOLEN and segs[0][3] == atom(('len', it))


def txs(I, s, v, kind):
    """channels of the senders held in a value"""
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 4 and x[0] == 'A' and x[1] == kind:
                out.add(x[3][0])
                return
            if len(x) == 2 and x[0] == '#':
                go(TERMS[x[1]])
                return
            for y in x:
                go(y)
    go(I.freeze(s, v, 12))
    return out


def queue(cn):
    """what is sent through the client or a reply handle arrives at the task"""
    ctx, I = cn.ctx, cn.I
    for body, g, outs, aw in cn.tasks:
        took = {e[1] for _, _, _, tr in outs for e in flat(tr) if e[0] == 'qrecv'}
        ctx.ob('queue', len(took) == 1, 'one', 'the task takes items from %d queues' % len(took), ctx.site(body))
        # the sender the receiver answers with
        own = txs(I, State(), I.freeze(State(), g), 'Tx')
        ctx.ob('queue', own == took, 'replies', 'replies are queued on %s but the task reads %s' % (own, took), ctx.site(body),
               sample='receiver sender -> task queue')
        for s, k, v in cn.outs:
            if k == 'ret' and case(ctx, s, v) == 'Ok':
                mine = txs(I, s, v, 'Tx')
                ctx.ob('queue', mine == took, 'client', 'the client queues on %s but the task reads %s' % (mine, took), cn.site,
                       sample='client sender -> task queue')


# ------------------------------------------------------------------------------------------------------------- closing
def closings(cn):
    """outcomes of closing a client made by the analysed function: (state before, outcomes, waits, client ref)"""
    ctx, I = cn.ctx, cn.I
    b = ctx.fn(CL, 'close', 'Client')
    out = []
    seen = set()
    for s, k, v in cn.outs:
        if k != 'ret' or case(ctx, s, v) != 'Ok':
            continue
        c = payload(I, v, 0)
        fz = I.freeze(s, c)
        if fz in seen:
            continue
        seen.add(fz)
        s = s.copy()
        s.ev = ()
        if ctx.prog.adtname(b["locals"][1]) != ctx.prog.adts[c[1]]["name"] if c[0] == 'A' and b["locals"][1][0] != 'ref' else False:
            continue
        r = I.alloc(s, 'client', c)
        I.awaits = []
        outs = drive(I, b, [r], s)
        out.append((s, outs, list(I.awaits), r))
    ctx.floor(len(out), 1, 'clients to close')
    return b, out


def timeouts(ev, v, ctx, s, k):
    """(timed out, reported as such)"""
    t = any(e[0] == 'ready' and e[1][0] == 'delay' for e in ev)
    e = payload_err(ctx, s, k, v)
    return t, e is not None and e[0] == 'A' and ctx.vname(e) == 'Timeout'


def payload_err(ctx, s, k, v):
    if k != 'ret' or case(ctx, s, v) != 'Err':
        return None
    return v[3][0] if v[0] == 'A' else None


@check('C25')
def c25(ctx):
    for root in ('from_stream', 'connect'):
        cn = Conn(ctx, root)
        I = cn.I
        b, cl = closings(cn)
        site = ctx.site(b)
        signals = set()
        for s0, outs, aw, r in cl:
            first = 0
            for s, k, v in outs:
                if not ctx.ob('close', k == 'ret', 'panics', 'closing panics: %s' % (v if k != 'ret' else ''), site):
                    continue
                sig = [i for i, e in enumerate(s.ev) if e[0] == 'osend']
                waits = [i for i, e in enumerate(s.ev) if e[0] in ('ready', 'pend')]
                if not ctx.ob('close', len(sig) == 1, 'signal', 'the first close signals the task %d times' % len(sig), site,
                              sample='close -> one signal'):
                    continue
                tx = s.ev[sig[0]][1]
                signals |= txs(I, s, tx, 'OTx')
                ctx.ob('close', not waits or sig[0] < waits[0], 'signal-late', 'closing waits before signalling the task', site)
                joined = [e for e in s.ev if e[0] == 'ready' and e[1][0] == 'handle']
                res = case(ctx, s, v)
                timed, said = timeouts(s.ev, v, ctx, s, k)
                if joined and not timed:
                    first += 1
                    own = {('handle', h) for h in txs(I, s0, s0.mem[r[1]] if r[1] in s0.mem else I.load(s0, r[1], r[2]), 'Handle')}
                    ctx.ob('close', joined[0][1] in own, 'which', 'closing waits for something other than the connection task', site)
                    ok = same_outcome(ctx, I, s, v)
                    ctx.ob('close', ok, 'outcome', 'closing returns %s instead of the outcome of the task' % ctx.pp.v(v)[:120], site,
                           sample='close -> outcome of the task')
                else:
                    ctx.ob('close', res == 'Err' and (not timed or said), 'unwaited', 'closing returns %s without the outcome of the task' % res, site)
                # and once more
                again(ctx, I, b, s, r, site, 2)
            ctx.ob('close', first > 0, 'waits', 'closing never waits for the connection task', site)
        task_closing(cn, signals)


def same_outcome(ctx, I, s, v):
    js = [x for x in joined_terms(v)] if v[0] != 'S' else [v[1]]
    if v[0] == 'S':
        return isinstance(v[1], tuple) and v[1][:2] == ('item', 'joined')
    res = case(ctx, s, v)
    for t, i in s.var.items():
        if isinstance(t, tuple) and t[:2] == ('item', 'joined'):
            if (res, i) in (('Ok', 0), ('Err', 1)):
                if res == 'Ok':
                    return True
                return v[3][0][0] == 'S' and v[3][0][1] in (('vf', t, 1, 0), ('vf', t, 'Err', 0)) or \
                    v[3][0] == I.sym_field(('S', t, None), 0, 1) or joined_terms(v) == {t}
    return False


def joined_terms(v):
    out = set()

    def f(t):
        if t[:2] == ('item', 'joined'):
            out.add(t)
        return False
    mentions(v, f)
    return out


def again(ctx, I, b, s, r, site, n):
    s = s.copy()
    s.ev = ()
    aw = I.awaits
    I.awaits = []
    for s2, k, v in drive(I, b, [r], s):
        ok = k == 'ret' and case(ctx, s2, v) == 'Err' and not [e for e in s2.ev if e[0] in ('osend', 'ready', 'pend', 'qsend')]
        ctx.ob('again', ok, 'close', 'closing again %s' % (
            'panics' if k != 'ret' else 'signals or waits again' if case(ctx, s2, v) == 'Err' else 'returns %s' % case(ctx, s2, v)), site,
            sample='a later close -> Err')
        if n > 1 and k == 'ret':
            again(ctx, I, b, s2, r, site, n - 1)
    ctx.ob('again', not I.awaits, 'waits', 'closing again waits', site)
    I.awaits = aw


def task_closing(cn, signals):
    ctx = cn.ctx
    seen = {'close': 0}
    for body, g, outs, aw in cn.tasks:
        heard = {e[1][1] for _, _, _, tr in outs for e in flat(tr) if e[0] == 'ready' and e[1][0] == 'orx'}
        ctx.ob('task', len(signals) == 1 and signals <= heard, 'hears', 'the task waits for %s but closing signals %s' % (heard, signals),
               ctx.site(body), sample='close signal -> task')
        for path, line, pend, s in aw:
            kinds = {p[0] for p in pend}
            if 'sink' in kinds:
                continue
            over = any(e[0] == 'ready' and e[1][0] == 'orx' for e in s.ev)
            if not over:
                ctx.ob('task', any(p[0] == 'orx' and p[1] in signals for p in pend), 'deaf:' + ','.join(sorted(kinds)),
                       'the task waits for %s without listening for the close signal' % ', '.join(sorted(kinds)), ctx.site(body),
                       sample='wait for %s' % ', '.join(sorted(kinds)))

    def step(x, e):
        sig, drained, closed, ended = x
        if e[0] == 'ready' and e[1][0] == 'orx' and e[1][1] in signals:
            return [(True, False, closed, ended)]
        if (e[0] == 'pend' and e[1][0] == 'rx') or e[0] == 'qend':
            return [(sig, sig, closed, ended)]
        if e[0] == 'qrecv':
            return [(sig, False, closed, ended)]
        if e[0] == 'wsend':
            return [(sig, drained, closed, True)]
        if e[0] == 'wsink' and ('close' in e[1] or e[3] and closing(ctx, under(e[3][0]))):
            seen['close'] += 1
            if not sig:
                return [Bad('unasked', 'the task closes the socket without having been asked to')]
            if not drained:
                return [Bad('undrained', 'the close frame is sent before everything queued was written')]
            if closed:
                return [Bad('twice', 'the close frame is sent twice')]
            return [(sig, drained, True, ended)]
        return [x]

    def done(x, s, k, v):
        if k != 'ret' or case(ctx, s, v) != 'Ok':
            return None
        sig, drained, closed, ended = x
        if not ended:
            return Bad('early', 'the task ends without error before the stream has ended%s' % (', while closing' if sig else ''))
        if sig and not closed:
            return Bad('no-frame', 'the task ends after a close signal without sending a close frame')
        return None
    each(cn, 'task', (False, False, False, False), step, done, 'signal -> drain -> close frame -> read to the end')
    ctx.ob('task', seen['close'] > 0, 'no-frame', 'no close frame is ever sent', cn.site)
    # what holds for writing, reading and errors in general holds after the signal
    for rule, m in (('drain', write_monitor(ctx, {'items': 0, 'sends': 0})), ('read', order_monitor(ctx, {'frames': 0})),
                    ('errors', error_monitor(ctx, set()))):
        mk = (lambda s, m=m: Gated(m[0](s), signals)) if isinstance(m[0], type) else Gated(m[0], signals)
        each(cn, rule, (False, None), mk, lambda x, s, k, v, m=m: m[1](x[1], s, k, v) if x[0] else None, rule + ' after the signal')


# ------------------------------------------------------------------------------------------------- C46 nothing is unheard
@check('C46')
def c46(ctx):
    n = {False: 0, True: 0}
    for root in ('from_stream', 'connect'):
        cn = Conn(ctx, root)
        signals = {t for s0, outs, aw, r in closings(cn)[1] for s, k, v in outs for e in s.ev if e[0] == 'osend'
                   for t in txs(cn.I, s, e[1], 'OTx')}
        ctx.ob('signal', len(signals) == 1, 'signal', 'closing has %d signals' % len(signals), cn.site)
        for body, g, outs, aw in cn.tasks:
            site = ctx.site(body)
            queues = {e[1] for _, _, _, tr in outs for e in flat(tr) if e[0] == 'qrecv'}
            for path, line, pend, s in aw:
                kinds = {p[0] for p in pend}
                if 'sink' in kinds:
                    continue
                over = any(e[0] == 'ready' and e[1][0] == 'orx' and e[1][1] in signals for e in flat(s.ev))
                n[over] += 1
                want = [('the next frame', 'ws', None)]
                if not over:
                    want += [('the next queued item', 'rx', q) for q in queues or [None]] + [('the close request', 'orx', x) for x in signals]
                when = 'after the close request' if over else 'while connected'
                for what, k, x in want:
                    ctx.ob('listens', any(p[0] == k and (x is None or p[1] == x) for p in pend), '%s:%s' % (what, when),
                           '%s the task waits (for %s) without waiting for %s' % (when, ', '.join(sorted(kinds)), what), site,
                           sample='%s: every wait is also for %s' % (when, what))
    ctx.floor(n[False], 1, 'waits while connected')
    ctx.floor(n[True], 1, 'waits while closing')


# ---------------------------------------------------------------------------------------------------------- time limits
@check('C24')
def c24(ctx):
    n = 0
    for root in ('timed', 'from_stream', 'connect'):
        try:
            cn = Conn(ctx, root)
        except Missing:
            if root != 'timed':
                raise
            ctx.notes['timeout parameter'] = 'no function takes the timeout'
            continue
        I = cn.I
        if root == 'timed':
            given = [v for v, t in zip(cn.args, cn.b["locals"][1:]) if t[0] == 'adt' and ctx.prog.adtname(t) == 'Duration']
            want = {I.freeze(State(), given[0])}
        else:
            want = None
        groups = [(cn.site, 'connecting', cn.outs, cn.awaits, root)]
        if root == 'timed':
            b = [b for b in ctx.prog.bodies.values() if b["crate"] == CL and b["kind"] == 'AssocFn' and b["name"] == 'close' and
                 adt_of(b["locals"][1]) == made(ctx, cn)]
            if b:
                for s, k, v in cn.outs:
                    if k == 'ret' and case(ctx, s, v) == 'Ok':
                        s = s.copy()
                        s.ev = ()
                        r = I.alloc(s, 'made', payload(I, v, 0))
                        I.awaits = []
                        outs = drive(I, b[0], [r], s)
                        groups.append((ctx.site(b[0]), 'closing', outs, list(I.awaits), root))
                        break
        else:
            b, cl = closings(cn)
            for s0, outs, aw, r in cl:
                groups.append((ctx.site(b), 'closing', outs, aw, root))
        for site, what, outs, aw, root in groups:
            for path, line, pend, s in aw:
                if root == 'connect' and what == 'connecting' and connector(pend):
                    continue      # the user's own connector
                n += 1
                ds = [p[1] for p in pend if p[0] == 'delay']
                others = ', '.join(sorted({p[0] for p in pend} - {'delay'}))
                ctx.ob('bounded', ds, '%s:%s' % (what, others), '%s waits for %s without a time limit' % (what, others or 'something'), site,
                       sample='%s: wait for %s until the timeout' % (what, others))
                for d in ds:
                    d = duration(d)
                    if want is None:
                        want = {d}
                    ctx.ob('limit', d in want, what, '%s waits for %s instead of the timeout of the connection' % (
                        what, ctx.pp.term(d)[:80]), site, sample='%s: limit %s' % (what, ctx.pp.term(d)[:40]))
            for s, k, v in outs:
                if k != 'ret':
                    continue
                t, said = timeouts(s.ev, v, ctx, s, k)
                last = [e for e in s.ev if e[0] in ('ready', 'pend')]
                ctx.ob('error', not t or said, what, '%s returns %s when the time is up' % (what, case(ctx, s, v)), site,
                       sample='time is up -> Err(Timeout)')
                ctx.ob('error', t or not said, what + ':early', '%s reports a timeout before the time is up' % what, site)
                for e in s.ev:
                    if e[0] == 'star' and any(x[0] == 'newdelay' for x in flat([e])):
                        ctx.ob('limit', False, what + ':again', '%s may start the time limit again and again' % what, site)
    ctx.floor(n, 4, 'waits')


def duration(d):
    """the length of a Delay"""
    if isinstance(d, tuple) and len(d) == 2 and d[0] == '#':
        d = TERMS[d[1]]
    if d[0] == 'A' and d[1] == 'Delay':
        return d[3][0]
    return d


def adt_of(t):
    while t[0] == 'ref':
        t = t[2]
    return t[1] if t[0] == 'adt' else None


def made(ctx, cn):
    for s, k, v in cn.outs:
        if k == 'ret' and case(ctx, s, v) == 'Ok':
            c = payload(cn.I, v, 0)
            return c[1] if c[0] == 'A' else None
    return None


def connector(pend):
    ws = [p for p in pend if p[0] == 'fut']
    return len(pend) == 1 and len(ws) == 1 and mentions(ws[0], lambda t: t[:1] == ('cb',) or t[:1] == ('callback',) or t == ('arg', 1))


# --------------------------------------------------------------------------------------------------------------- panics
@check('C27')
def c27(ctx):
    ctx.hooks['sized'] = lambda *a: None
    n = 0
    for root in ('from_stream', 'connect'):
        cn = Conn(ctx, root)
        for s, k, v in cn.outs:
            n += 1
            ctx.ob('connect', k == 'ret', '%s:%s' % (root, v if k != 'ret' else ''), '%s panics: %s' % (root, v), cn.site,
                   sample='%s -> %s' % (root, k))
        b, cl = closings(cn)
        for s0, outs, aw, r in cl:
            for s, k, v in outs:
                n += 1
                ctx.ob('close', k == 'ret', str(v) if k != 'ret' else '', 'closing panics: %s' % (v,), ctx.site(b), sample='close -> %s' % k)
        for body, g, outs, aw in cn.tasks:
            for s, k, v, tr in outs:
                n += 1
                ctx.ob('task', k == 'ret', str(v) if k != 'ret' else '', 'the connection task panics: %s' % (v,), ctx.site(body),
                       sample='task -> %s' % k)
    # the frame processing itself, which is given any frame in any state
    F = recv.Frame(ctx)
    for s, k, v in F.outs:
        n += 1
        ctx.ob('frame', k == 'ret', str(v) if k != 'ret' else '', 'processing a %s panics: %s' % (recv.describe(F, s), v), F.site,
               sample='frame -> %s' % k)
    ctx.floor(n, 40, 'paths')
