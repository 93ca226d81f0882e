"""C49: connecting succeeds once every step has, and names the step that failed.
Every path of connecting is read as the steps it takes - URL, connector, websocket handshake, task, open packet - with what became of each;
what connecting returns must follow from that."""
from domain import *
from framework import check, view, Missing
from interp import mentions, intern, TERMS
from checks.client import *
from checks.c_conn import Conn, payload_err, flat, txs

ORDER = ('url', 'connector', 'handshake', 'task', 'open')
VARIANT = {'url': 'UrlError', 'connector': 'ConnectionError', 'handshake': 'WebsocketError', 'task': 'SpawnError'}


def outcome(I, s, item):
    """True for Ok, False for Err, None for not looked at"""
    for vi, r in ((0, True), (1, False)):
        if s.assume(I.is_variant(item, 1 - vi)) == []:
            return r
    return None


def shaking(t):
    """the future of the handshake"""
    return t[:1] == ('ret',) and len(t) > 1 and 'client_async' in str(t[1])


def pred(s, p):
    return True if not s.assume(p, False) else False if not s.assume(p) else None


def steps(ctx, I, s):
    """[(step, True / False / None, its error or None)], and whether the time was up"""
    out = []
    late = False
    begun = {}

    def put(name, ok, err=None):
        out.append((name, ok, err))
    res = ('adt', I.RESULT, ())
    spawns = opens = joined = 0
    for e in s.ev:
        if e[0] == 'urlparse':
            put('url', None, e[1])
        elif e[0] == 'callback':
            begun['connector'] = None
            put('connector', None)
        elif e[0] == 'ext' and 'client_async' in e[1]:
            begun['handshake'] = e
            put('handshake', None)
        elif e[0] == 'awaited':
            who = 'handshake' if mentions(e[1], shaking) else 'connector' if mentions(e[1], lambda t: t[:1] == ('cbret',)) else None
            if who:
                t = ('item', 'polled', e[2], intern((e[1],)))
                put(who + ' ended', outcome(I, s, ('S', t, res)), ('vf', t, 'Err', 0))
        elif e[0] == 'spawn':
            put('task', pred(s, ('p', ('spawns', spawns))), ('spawnerr',))
            spawns += 1
        elif e[0] == 'ready' and e[1][0] == 'orx':
            put('open', pred(s, ('p', ('received', e[1][1], opens))))
            opens += 1
        elif e[0] == 'ready' and e[1][0] == 'handle':
            t = ('item', 'joined', joined, e[1][1])
            put('ended', outcome(I, s, ('S', t, res)), ('vf', t, 'Err', 0))
            joined += 1
        elif e[0] == 'ready' and e[1][0] == 'delay':
            late = True
        elif e[0] == 'star':
            raise Missing('the steps of connecting: they are in a loop')
    return out, late


def bare(I, s, v):
    """what a value, a reference or a box holds"""
    for _ in range(6):
        if v[0] == 'R':
            v = I.load(s, v[1], v[2])
        else:
            break
    return v


def cause(ctx, I, s, st, late, root):
    """(whether connecting has to succeed, check of the error) from the steps taken; None for steps that make no sense"""
    done = []
    for name, ok, err in st:
        if done and done[-1][1] is not True and not (name.endswith(' ended') and done[-1][0] == name[:-6]) and \
                not (name == 'ended' and done[-1][0] == 'open') and done[-1][0] != 'url':
            return 'goes on with the %s although the %s %s' % (name, done[-1][0], 'failed' if done[-1][1] is False else 'is not known to have succeeded')
        done.append((name, ok, err))
    names = [x[0] for x in done]
    want = ['url'] + (['connector', 'connector ended'] if root == 'connect' else []) + ['handshake', 'handshake ended', 'task', 'open']
    if names[:len(want)] != want[:len(names)] or names[len(want):] not in ([], ['ended']):
        return 'takes the steps %s' % ', '.join(names)
    return done


def url_error(ctx, I, s, e, text):
    """is e the error of a refused URL?"""
    if not (e[0] == 'A' and ctx.vname(e) == 'UrlError'):
        return 'returns %s for a URL that is refused' % ctx.pp.v(e)[:80]
    shown = [f for f in e[3] if I.elem_ty(f[2] if f[0] == 'S' else None) is not False or f[0] == 'q']
    if len(shown) != 1 or I.as_segs(s, shown[0]) != text:
        return 'names another URL than the one refused'
    inner = [f for f in e[3] if f is not shown[0]]
    parsed = pred(s, ('p', ('urlparses', text)))
    for f in inner:
        k = ctx.vname(f) if f[0] == 'A' else None
        if parsed is False and not mentions(I.freeze(s, f), lambda t: t == ('urlerr', text)):
            return 'does not say why the URL did not parse'
        if parsed is True:
            sch = I.as_segs(s, ('S', ('scheme', ('url', text)), ('str',)))
            if k == 'InvalidScheme':
                if I.as_segs(s, f[3][0]) != sch:
                    return 'names another scheme than that of the URL'
                if any(s.assume(I.seq_eq(s, sch, (('lit', n),))) for n in (b'http', b'https', b'ws', b'wss')):
                    return 'complains about a valid scheme'
            elif k == 'NoHost':
                if s.assume(('p', ('hashost', ('url', text)))):
                    return 'complains about a missing host'
            else:
                return 'does not say what is wrong with the URL'
    return None if inner else 'does not say what is wrong with the URL'


def judge(ctx, I, s, v, root):
    """what is wrong with the value connecting returns, or None"""
    st, late = steps(ctx, I, s)
    done = cause(ctx, I, s, st, late, root)
    if isinstance(done, str):
        return done, ''
    name, ok, err = done[-1]
    how = case(ctx, s, v)
    tag = '%s %s' % (name, 'late' if late else {True: 'ok', False: 'failed', None: 'begun'}[ok])
    if how == 'Ok':
        return (None if name == 'open' and ok is True else 'returns a client although the %s' % (
            'open packet was not received' if name in ('open', 'ended') else 'last step was the ' + name)), tag
    e = payload_err(ctx, s, 'ret', v)
    if e is None:
        return 'returns neither a client nor an error', tag
    k = ctx.vname(e) if e[0] == 'A' else None
    if late and k == 'Timeout':
        return (None if not (name == 'open' and ok) else 'times out although the open packet was received'), tag
    if name == 'url':
        return url_error(ctx, I, s, e, err), tag
    if name == 'ended':
        if ok is False:
            return (None if I.freeze(s, e)[:2] == ('S', err) else 'returns %s when the connection ended with an error of its own' % ctx.pp.v(e)[:80]), tag
        x = e[3][0] if k == 'WebsocketError' else None
        return (None if ok and x is not None and x[0] == 'A' and ctx.vname(x) == 'ConnectionClosed' else
                'returns %s when the connection was closed before the open packet' % ctx.pp.v(e)[:80]), tag
    if ok is not False:
        return 'returns %s although the %s did not fail' % (ctx.pp.v(e)[:80], name), tag
    step = name.replace(' ended', '')
    if k != VARIANT.get(step):
        return 'returns %s when the %s failed' % (ctx.pp.v(e)[:80], step), tag
    x = bare(I, s, e[3][0])
    return (None if x[0] == 'S' and x[1] == err else 'does not return the error of the %s but %s' % (step, ctx.pp.v(x)[:80])), tag


def registries(I, s, v):
    """places of the locks reachable from a value"""
    out = set()
    seen = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'R' and isinstance(x[1], tuple) and x[1] not in seen:
                seen.add(x[1])
                try:
                    w = I.load(s, x[1], x[2])
                except KeyError:
                    return
                if w[0] == 'A' and w[1] in ('Mutex', 'RwLock'):
                    out.add((x[1], x[2]))
                go(w)
                return
            if len(x) == 2 and x[0] == '#':
                go(TERMS[x[1]])
                return
            for y in x:
                go(y)
    go(v)
    return out


def wired(ctx, cn, s, v):
    """the client belongs to the task that was spawned"""
    I = cn.I
    c = payload(I, v, 0)
    tasks = [(e[2], s0) for e in s.ev if e[0] == 'spawn' for g, s0 in I.spawned if g == e[2]]
    if not tasks:
        raise Missing('the task of a connected client')
    # the stream of the connector, or the given one, carries the handshake, and what came of it the task
    shook = [e for e in s.ev if e[0] == 'ext' and 'client_async' in e[1]]
    got = {}
    for e in s.ev:
        if e[0] == 'awaited':
            got['handshake' if mentions(e[1], shaking) else 'stream'] = ('vf', ('item', 'polled', e[2], intern((e[1],))), 'Ok', 0)
    given = got.get('stream')
    ctx.ob('wired', len(shook) == 1 and mentions(shook[0][2], (lambda t: t == given) if given else (lambda t: t == ('arg', 1))), 'stream',
           'the handshake is not made over the stream it was given', cn.site, sample='handshake: over the stream')
    ctx.ob('wired', mentions(I.freeze(s, tasks[0][0]), lambda t: t == got.get('handshake')), 'websocket',
           'the task does not use the websocket that was connected', cn.site, sample='task: websocket of the handshake')
    for g, s0 in tasks[:1]:
        for kind, other, what in (('Tx', 'Rx', 'queue it sends to'), ('OTx', 'ORx', 'close signal')):
            a, b = txs(I, s, c, kind), txs(I, s0, g, other)
            ctx.ob('wired', a and a == b, kind, 'the %s of a connected client is %s but the task listens to %s' % (
                what, sorted(map(ctx.pp.term, a)), sorted(map(ctx.pp.term, b))), cn.site, sample='%s: that of the task' % what)
        a, b = registries(I, s, c), registries(I, s0, g)
        ctx.ob('wired', a and a == b, 'callbacks', 'a connected client and its task do not share their callbacks', cn.site, sample='callbacks: shared')


@check('C49')
def c49(ctx):
    n = {}
    for root in ('from_stream', 'connect'):
        cn = Conn(ctx, root, tasks=False)
        for s, k, v in cn.outs:
            if k != 'ret':
                continue
            bad, tag = judge(ctx, cn.I, s, v, root)
            ctx.ob('outcome', bad is None, '%s:%s' % (root, tag), '%s %s' % (root, bad), cn.site,
                   sample='%s: %s -> %s' % (root, tag, ctx.vname(v) if v[0] == 'A' else '?'))
            n.setdefault(root, set()).add(tag)
            if bad is None and case(ctx, s, v) == 'Ok':
                wired(ctx, cn, s, v)
        ctx.floor(len(n.get(root, ())), 7, 'outcomes of ' + root)
    ctx.notes['outcomes'] = {r: sorted(t) for r, t in n.items()}
