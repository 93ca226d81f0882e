"""C28: connection URLs"""
from domain import *
from framework import check, view, Missing
from checks.client import *

SCHEMES = {'http': b'ws', 'ws': b'ws', 'https': b'wss', 'wss': b'wss'}
PAIRS = sorted([(b'EIO', b'4'), (b'transport', b'websocket')])


def lit(segs):
    return b''.join(x[1] for x in segs) if all(x[0] == 'lit' for x in segs) else None


def find_url(v):
    """the URL values inside a value"""
    out = []

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 4 and x[0] == 'A' and x[1] == 'Url':
                out.append(x)
                return
            if len(x) == 2 and x[0] == '#':
                go(TERMS[x[1]])
                return
            for y in x:
                go(y)
    go(v)
    return out


@check('C28')
def c28(ctx):
    for name, gate in (('connect', 'callback'), ('from_stream', None)):
        C = Client(ctx)
        I = C.I
        b = ctx.fn(CL, name, 'Client')
        site = ctx.site(b)
        st = State()
        args = ctx.args(I, b)
        outs = drive(I, b, args, st)
        reached = refused = 0
        for s, k, v in outs:
            parses = [e for e in s.ev if e[0] == 'urlparse']
            if not ctx.ob('parse', len(parses) == 1, name, '%s parses %d URLs' % (name, len(parses)), site):
                continue
            text = parses[0][1]
            w = view(ctx, I, s, ('R', ('K', args[0]), ()))
            given = len(text) == 1 and text[0][0] == 'sub' and mentions(text[0][1], lambda t: t == ('arg', 0)) and \
                text[0][2] == ('i', 0, NOFS) and text[0][3] == atom(('len', text[0][1]))
            ctx.ob('parse', given, name + ':text', '%s parses %s instead of the given text' % (
                name, ' '.join(ctx.pp.seg(x) for x in text)[:120]), site)
            url = ('url', text)
            ok = ('p', ('urlparses', text))
            sch = I.as_segs(s, ('S', ('scheme', url), ('str',)))
            is_ = {n: I.seq_eq(s, sch, (('lit', n.encode()),)) for n in SCHEMES}
            tls = [e for e in s.ev if e[0] == 'ext' and 'client_async' in e[1]]
            cbs = events(s, 'callback')
            first = cbs if gate else tls
            if not first:
                # refused: only what must be refused
                refused += 1
                ctx.ob('refuse', k != 'ret' or case(ctx, s, v) == 'Err', name + ':err', 'a URL that is not connected to is not an error', site)
                ctx.ob('refuse', not tls, name + ':tls', 'something is connected although the connector was not called', site)
                for s1 in s.assume(ok):
                    for n, p in is_.items():
                        for s2 in s1.assume(p):
                            # URLs with these schemes always have a host
                            bad = s2.assume(('p', ('hashost', url)))
                            ctx.ob('refuse', not bad, '%s:%s' % (name, n), 'a valid %s URL is refused by %s' % (n, name), site,
                                   sample='%s: %s URL refused only without host' % (name, n))
                continue
            reached += 1
            for s1 in s.assume(ok, False):
                ctx.ob('accept', False, name + ':unparsed', '%s connects although the URL did not parse' % name, site)
            other = [s]
            for n, p in is_.items():
                other = [y for x in other for y in x.assume(p, False)]
            ctx.ob('accept', not other, name + ':scheme', '%s connects to a URL with another scheme' % name, site,
                   sample='%s: connects only for http, https, ws, wss' % name)
            for e in s.ev:
                if e[0] in ('callback',) or e in tls:
                    break
            if gate:
                ctx.ob('accept', len(cbs) == 1, name + ':once', 'the connector is called %d times' % len(cbs), site)
                a = top(cbs[0][2])
                if ctx.ob('target', len(a) == 2, 'args', 'the connector is called with %d values' % len(a), site):
                    h = view(ctx, I, s, a[0])[0][1]
                    want = I.as_segs(s, ('S', ('host_str', url), ('str',)))
                    ctx.ob('target', h == want, 'host', 'the connector gets the host %s' % ctx.pp.v(a[0])[:120], site,
                           sample='connector host = host of the URL')
                    for n, p in is_.items():
                        for s2 in s.assume(p):
                            port = I.sym(('port', url, 80 if SCHEMES[n] == b'ws' else 443), ('prim', 'u16'))
                            ctx.ob('target', a[1] == port, 'port:' + n, 'the connector gets the port %s for a %s URL' % (
                                ctx.pp.v(a[1])[:120], n), site, sample='connector port = port of the URL or %s' % (
                                    80 if SCHEMES[n] == b'ws' else 443))
            for e in tls:
                us = find_url(e[2])
                if not ctx.ob('request', len(us) == 1, name + ':url', 'the request is made with %d URLs' % len(us), site):
                    continue
                base, sc, pairs = us[0][3]
                ctx.ob('request', base == url, name + ':base', 'the request is not made with the given URL', site)
                got = lit(sc) if sc is not None else None
                for n, p in is_.items():
                    for s2 in s.assume(p):
                        g = got if got is not None else n.encode()
                        ctx.ob('request', g == SCHEMES[n], '%s:scheme:%s' % (name, n), 'a %s URL is requested with the scheme %s' % (
                            n, g), site, sample='%s -> %s' % (n, SCHEMES[n].decode()))
                try:
                    ps = sorted((lit(x), lit(y)) for x, y in pairs)
                except (ValueError, TypeError):
                    ps = None
                ctx.ob('request', ps == PAIRS, name + ':query', 'the request URL is changed by %s' % (
                    ', '.join('='.join(str(lit(z)) if isinstance(z, tuple) else str(z) for z in x) for x in pairs
                              if isinstance(x, tuple))), site, sample='request query += EIO=4, transport=websocket')
        ctx.ob('floor', reached > 0, name + ':reached', '%s never connects' % name, site)
        ctx.ob('floor', refused > 0, name + ':refused', '%s never refuses a URL' % name, site)
    ctx.assume += ['the url crate: special schemes always have a host, set_scheme between them succeeds']
