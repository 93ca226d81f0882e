"""C01 C02 C03: the engine layer"""
from domain import *
from framework import check, view, Missing
from models import targ, seqv, pred_fork, ret

CR = 'socket_io_protocol'
KINDS = {'Open': 0, 'Close': 1, 'Ping': 2, 'Pong': 3}


def product(ctx):
    """all decoder values reachable from construction, paired with the session state the specification is in"""
    prog = ctx.prog
    dec = ctx.fn(CR, 'decode', 'Decoder')
    starts = []
    I = ctx.interp()
    json = I.models['serde_json::from_str']

    def from_str(I, st, args, c):
        # whatever type of the workspace the open packet is read as: what it makes of the text is decided by C43
        t = targ(c.dty)
        out = json(I, st, args, c)
        if t is None or t[0] != 'adt' or not any(b["impl_self"] and b["impl_self"][:2] == t[:2] for b in prog.impls.get(('Deserialize', 'deserialize'), [])):
            return out
        segs = I.norm_segs(seqv(I, st, args[0]))
        out = []
        for s, ok in pred_fork(st, ('p', ('json', 'Open', segs))):
            out += ret(s, I.ok(I.sym(('jsonval', segs), t)) if ok else I.err(I.sym(('jsonerr', segs), targ(c.dty, 1))))
        return out
    I.models = dict(I.models)
    for n in ('serde_json::from_str', 'serde_json:de::from_str', 'de::from_str', 'serde_json::from_slice', 'serde_json:de::from_slice', 'de::from_slice'):
        I.models[n] = from_str
    inits = [ctx.fn(CR, 'new', 'Decoder')] + prog.find(crate=CR, name='default', self_adt='Decoder', trait='Default')
    for b in inits:
        for s, k, v in ctx.run(I, b, []):
            if k != 'ret':
                ctx.violation('construct', 'panic', 'constructing a decoder can panic', ctx.site(b))
            else:
                starts.append(I.deep(s, v))
    work = []
    seen = {}

    def add(spec, v, why):
        if (spec, v) not in seen:
            seen[(spec, v)] = why
            work.append((spec, v))
    for v in starts:
        add('fresh', v, 'a new decoder')
    frame_ty = dec["locals"][2]
    frame = I.sym('frame', frame_ty)
    fa = prog.adts[frame_ty[1]]
    TI, BI = [next(i for i, x in enumerate(fa["variants"]) if x[0] == n) for n in ('Text', 'Binary')]
    tp, bp = I.sym_field(frame, 0, TI), I.sym_field(frame, 0, BI)
    tseg, bseg = I.as_segs(State(), tp), I.as_segs(State(), bp)
    tlen, blen = I.segs_len(tseg), I.segs_len(bseg)
    t0, b0 = I.seg_elem(tseg[0], I0), I.seg_elem(bseg[0], I0)
    istext, isbin = I.is_variant(frame, TI), I.is_variant(frame, BI)
    trest = (('sub', tseg[0][1], ONE, tlen, None),)
    brest = (('sub', bseg[0][1], ONE, blen, None),)
    json_ok = ('p', ('json', 'Open', trest))

    def textkind(k):
        return pand(istext, pand(pge(ladd(tlen, I_(-1))), peq0(ladd(t0, I_(-(48 + k))))))
    okbin = pand(isbin, pand(pge(ladd(blen, I_(-1))), peq0(ladd(b0, I_(-4)))))
    accept = {'fresh': pand(textkind(0), json_ok), 'closed': False, 'active': okbin}
    for k in (1, 2, 3, 4):
        accept['active'] = por(accept['active'], textkind(k))
    out = []
    while work:
        spec, d = work.pop()
        if len(seen) > 60:
            raise Missing('the reachable decoder values are not finite')
        st = State()
        r = I.alloc(st, 'decoder', d)
        for s, k, v in ctx.run(I, dec, [r, frame], st):
            post = I.deep(s, I.load(s, r[1], ()))
            row = dict(spec=spec, why=seen[(spec, d)], pre=d, post=post, s=s, kind=k, v=v, I=I, dec=dec)
            out.append(row)
            if k != 'ret':
                continue
            if v[0] == 'A' and v[1] == I.RESULT and v[2] == 0:
                n = ctx.vname(v[3][0]) if v[3][0][0] == 'A' else None
                row['ok'] = v[3][0]
                row['okname'] = n
                nxt = {('fresh', 'Open'): 'active', ('active', 'Close'): 'closed'}.get((spec, n), spec)
                add(nxt, post, 'after %s from %s' % (n, spec))
            else:
                row['ok'] = None
                add(spec, post, 'after a rejected frame while %s' % spec)
    env = dict(I=I, dec=dec, istext=istext, isbin=isbin, tseg=tseg, bseg=bseg, tlen=tlen, blen=blen, t0=t0, b0=b0,
               trest=trest, brest=brest, accept=accept, textkind=textkind, okbin=okbin, json_ok=json_ok,
               states=len(seen))
    return out, env


def from_json(v, want):
    """v is the value want, or is put together from parts of it"""
    if v[0] == 'A':
        return bool(v[3]) and all(from_json(x, want) for x in v[3])

    def inside(t):
        return t == want or isinstance(t, (tuple, frozenset)) and any(inside(x) for x in t)
    return inside(v)


I_ = lambda n: ('i', n, NOFS)
I0, ONE = I_(0), I_(1)


@check('C01')
def c01(ctx):
    rows, e = product(ctx)
    dec = e['dec']
    site = ctx.site(dec)
    first = {}
    for r in rows:
        if r['kind'] != 'ret':
            ctx.ob('no-panic', False, 'panic', 'decode can panic: %s' % (r['v'],), site)
            continue
        if r['ok'] is not None:
            n = r['okname']
            good = {'fresh': n == 'Open', 'active': n in ('Close', 'Ping', 'Pong', 'Message'), 'closed': False}[r['spec']]
            ctx.ob('order', good, '%s-in-%s' % (n, r['spec']),
                   'a frame is decoded as %s although the session is %s (%s; decoder %s)' % (
                       n, r['spec'], r['why'], ctx.pp.v(r['pre'])), site,
                   sample='%s: %s -> %s' % (r['spec'], n, ctx.pp.v(r['post'])))
        else:
            acc = e['accept'][r['spec']]
            possible = acc is not False and bool(r['s'].assume(acc, True))
            afterrej = 'rejected' in r['why']
            ctx.ob('reject-keeps-session', not possible, 'rejects-in-%s' % r['spec'],
                   'a frame the session state (%s, reached %s) has to accept is rejected with %s when %s' % (
                       r['spec'], r['why'], ctx.pp.v(r['I'].freeze(r['s'], r['v'])), ctx.pp.state(r['s'], False)), site,
                   sample=None)
    specs = {r['spec'] for r in rows}
    ctx.ob('floor', specs == {'fresh', 'active', 'closed'}, 'states', 'not all session states are reachable: %s' % specs, site)
    ctx.notes['decoder_values_x_session_states'] = e['states']
    ctx.assume += ['serde_json accepts or rejects the open payload deterministically']


@check('C02')
def c02(ctx):
    rows, e = product(ctx)
    site = ctx.site(e['dec'])
    n_ok = {}
    for r in rows:
        if r['kind'] != 'ret':
            continue
        s = r['s']
        I = r['I']
        if r['ok'] is None:
            acc = e['accept'][r['spec']]
            ctx.ob('accepts', acc is False or not s.assume(acc, True), 'rejects-in-%s' % r['spec'],
                   'a valid frame is rejected with %s while the session is %s: %s' % (
                       ctx.pp.v(I.freeze(s, r['v'])), r['spec'], ctx.pp.state(s, False)), site)
            continue
        n = r['okname']
        n_ok[n] = n_ok.get(n, 0) + 1
        if n in KINDS:
            ok = s.decide(e['textkind'](KINDS[n])) is True
            ctx.ob('first-byte', ok, n, '%s is decoded from a frame that need not be a text starting with %d: %s' % (
                n, KINDS[n], ctx.pp.state(s, False)), site, sample='%s only from text starting with %d' % (n, KINDS[n]))
            if n == 'Open':
                v = r['ok'][3][0]
                # the value must be what serde_json gives for exactly the rest of the frame, unmodified
                want = ('jsonval', e['trest'])
                v = I.deep(s, v)
                ctx.ob('open-payload', from_json(v, want) and s.decide(e['json_ok']) is True, 'open',
                       'the open packet is not the parse of the rest of the frame: %s' % ctx.pp.v(v), site)
            continue
        if n != 'Message':
            ctx.ob('kinds', False, 'unknown:%s' % n, 'unexpected packet %s' % n, site)
            continue
        m = r['ok'][3][0]
        mn = ctx.vname(m) if m[0] == 'A' else '?'
        is_t, is_b = s.decide(e['textkind'](4)), s.decide(e['okbin'])
        if mn == 'Text':
            ctx.ob('first-byte', is_t is True, 'text', 'a text message is decoded from a frame that need not be a text '
                   'starting with 4: %s' % ctx.pp.state(s, False), site)
            want = e['trest']
        elif mn == 'Binary':
            ctx.ob('first-byte', is_b is True, 'binary', 'a binary message is decoded from a frame that need not be a '
                   'binary frame starting with byte 4: %s' % ctx.pp.state(s, False), site)
            want = e['brest']
        else:
            ctx.ob('kinds', False, 'unknown-message', 'unexpected message %s' % ctx.pp.v(m), site)
            continue
        for s2, segs in view(ctx, I, s, m[3][0]):
            ctx.ob('payload', segs == want, 'payload-%s' % mn, 'the payload of a %s message is %s, not the rest of the frame' % (
                mn, segs is None and 'not readable (a panic is possible)' or ' '.join(ctx.pp.seg(x) for x in segs)), site,
                sample='%s payload = %s' % (mn, ' '.join(ctx.pp.seg(x) for x in want)))
    ctx.ob('floor', set(n_ok) >= {'Open', 'Close', 'Ping', 'Pong', 'Message'}, 'kinds',
           'some packet kinds are never decoded: only %s' % sorted(n_ok), site)


@check('C03')
def c03(ctx):
    for name, kind, lit, whole in (('encode_message', 'Text', b'4', False), ('encode_binary', 'Binary', b'\x04', False),
                                   ('encode_ping', 'Text', b'2', None), ('encode_pong', 'Text', b'3', None),
                                   ('package_message', 'Text', b'4', True), ('package_binary', 'Binary', b'\x04', True)):
        b = ctx.fn(CR, name)
        site = ctx.site(b)
        I = ctx.interp()
        args = ctx.args(I, b)
        st = State()
        nret = 0
        for s, k, v in ctx.run(I, b, args, st):
            if whole is not True or k == 'ret':
                ok = ctx.ob('no-panic', k == 'ret', name, '%s can panic: %s' % (name, v), site)
                if not ok:
                    continue
            a = args[0] if args else None
            while a is not None and a[0] == 'S' and a[2] is not None and a[2][0] == 'ref':
                a = I.load(s, *I.deref(s, a))
            segs = I.as_segs(s, a) if a is not None else ()
            if whole:
                n = I.segs_len(segs)
                starts = pand(pge(ladd(n, I_(-1))), peq0(ladd(I.seg_elem(segs[0], I0), I_(-lit[0]))))
                if k != 'ret':
                    ctx.ob('refuses-exactly', s.decide(starts) is False, name + ':refuses',
                           '%s panics on data that starts with its header: %s' % (name, ctx.pp.state(s, False)), site)
                    continue
                ctx.ob('refuses-exactly', s.decide(starts) is True, name + ':accepts',
                       '%s accepts data that need not start with its header: %s' % (name, ctx.pp.state(s, False)), site)
                want = segs
            else:
                want = I.norm_segs((('lit', lit),) + segs)
            nret += 1
            got = None
            if v[0] == 'A' and v[1] in ctx.prog.adts and v[3]:
                ok = ctx.ob('frame-type', ctx.vname(v) == kind, name, '%s makes a %s frame' % (name, ctx.vname(v)), site)
                for s2, got in view(ctx, I, s, v[3][0]):
                    ctx.ob('contents', got == want, name, '%s makes the contents %s instead of %s' % (
                        name, None if got is None else ' '.join(ctx.pp.seg(x) for x in got),
                        ' '.join(ctx.pp.seg(x) for x in want)), site,
                        sample='%s = %s(%s)' % (name, kind, ' '.join(ctx.pp.seg(x) for x in want)))
            else:
                ctx.ob('frame-type', False, name, '%s returns %s' % (name, ctx.pp.v(v)), site)
        ctx.ob('floor', nret > 0, name, '%s never returns' % name, site)
