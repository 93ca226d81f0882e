"""C50: a refusal names a true reason, and what was refused"""
from domain import *
from framework import check, view, Missing
from interp import mentions
from checks.c_engine import product, from_json
from checks.c_packet import rows, learn, kinds, KINDS, texts
from checks.c_show import as_writer
import checks.c_packet as cp

I_ = lambda n: ('i', n, NOFS)


def never(s, p):
    """p is false on every way to s"""
    return p is False or p is not True and not s.assume(p)


def engine(ctx):
    rs, e = product(ctx)
    I = e['I']
    site = ctx.site(e['dec'])
    n = set()
    frame = I.sym('frame', e['dec']["locals"][2])
    fty = frame[2]

    def same_frame(s, v):
        if I.freeze(s, v) == I.freeze(s, frame):
            return True
        if v[0] != 'A' or v[1] != fty[1] or s.assume(I.is_variant(frame, v[2]), False):
            return False
        return len(v[3]) == 1 and I.norm_segs(I.as_segs(s, v[3][0])) == I.norm_segs(I.as_segs(s, I.sym_field(frame, 0, v[2])))
    for r in rs:
        if r['kind'] != 'ret' or r['ok'] is not None:
            continue
        s, v = r['s'], r['v']
        err = v[3][0] if v[0] == 'A' else None
        if err is None or err[0] != 'A':
            raise Missing('an error of the decoder')
        k = ctx.vname(err)
        n.add(k)
        why = None
        if k == 'MessageBeforeOpen':
            why = r['spec'] != 'fresh' and 'an open packet was received'
        elif k == 'MessageAfterClose':
            why = r['spec'] != 'closed' and 'no close packet was received'
        elif k == 'SecondOpen':
            why = r['spec'] == 'fresh' and 'there was no open packet before' or s.assume(pnot(e['textkind'](0))) and 'the frame is no open packet'
        elif k == 'WrongMessageType':
            why = (s.assume(e['istext']) or s.assume(e['isbin'])) and 'the frame is a text or binary frame' or \
                not same_frame(s, err[3][0]) and 'it carries another frame'
        elif k == 'InvalidMessage':
            good = e['okbin']
            for d in range(5):
                good = por(good, e['textkind'](d))
            why = s.assume(good) and 'the frame has a valid type' or s.assume(pnot(por(e['istext'], e['isbin']))) and 'the frame is no text or binary frame' or \
                not same_frame(s, err[3][0]) and 'it carries another frame'
        elif k == 'JsonError':
            why = s.assume(pnot(e['textkind'](0))) and 'the frame is no open packet' or s.assume(e['json_ok']) and 'its json is valid' or \
                not (err[3][0][0] == 'S' and err[3][0][1][0] == 'jsonerr' and I.norm_segs(err[3][0][1][1]) == I.norm_segs(e['trest'])) and 'it is the error of something else'
        else:
            why = 'it is not known what that means'
        ctx.ob('frame', not why, '%s:%s' % (k, why or ''), 'a frame is refused with %s although %s: %s' % (k, why, ctx.pp.state(s, False)[:200]), site,
               sample='%s: only where true' % k)
    ctx.floor(len(n), 5, 'reasons for refusing frames')
    ctx.notes['reasons for refusing frames'] = sorted(map(str, n))


def shown(ctx, s, segs):
    """a text which is what a sub-slice prints as, printed"""
    if len(segs) != 1 or segs[0][:2] != ('disp', 'display'):
        return [segs]
    v = segs[0][2]
    name = ctx.prog.adtname(('adt', v[1])) if v[0] == 'A' else ctx.prog.adtname(v[2]) if v[0] == 'S' and v[2] is not None else None
    bs = [b for b in ctx.prog.impls.get(('Display', 'fmt'), []) if ctx.prog.adtname(b["impl_self"]) == name and b["crate"] == 'owned_subslice']
    if len(bs) != 1:
        return [segs]
    I = ctx.interp()
    as_writer(I, False)
    s = s.copy()
    r, f = I.alloc(s, 'shown', v), I.alloc(s, 'formatter', ('q', ()))
    ty = vec_text(ctx)
    out = []
    for s1, k, _ in ctx.run(I, bs[0], [r, f], s, ((bs[0]["generics"][0], ty),)):
        if k == 'ret':
            # the window of an arbitrary message may be anything
            out.append(I.norm_segs(I.as_segs(s1, I.load(s1, f[1], f[2]))))
    return out


def vec_text(ctx):
    """the type of texts"""
    t = ctx.fn(cp.CR, 'deserialize', where=lambda b: ctx.prog.adtname(b["locals"][1]) == 'Message')["locals"][1]
    return ctx.prog.adts[t[1]]["variants"][ctx.variant(t[1], 'Text')][1][0][1][2][0]


NAMES = {48: ('connect',), 49: ('disconnect',), 50: ('event',), 51: ('ack',), 53: ('binary', 'event'), 54: ('binary', 'ack')}


def named(segs, d):
    """the text is a name of this kind of packet and of no other"""
    t = b''.join(x[1] for x in segs).decode('utf8', 'replace').lower() if segs is not None and all(x[0] == 'lit' for x in segs) else None
    if t is None:
        return False
    words = {w for w in ('disconnect', 'binary', 'event', 'ack') if w in t}
    if 'connect' in t.replace('disconnect', ''):
        words.add('connect')
    return words == set(NAMES[d])


def socket(ctx):
    R, S, out = rows(ctx)
    learn(ctx, R, S, out)
    I = R.I
    site = R.site
    n = set()
    att, idp, args = S.has('att'), S.has('id'), S.has('args')
    empty = por(pnot(args), peq0(S.nargs()))

    def text(s, v):
        """all the texts a value can be"""
        return [y for s1, x in view(ctx, I, s, v) for y in (shown(ctx, s1, x) if x is not None else [None])]
    for r in out:
        if r['res'] != 'err':
            continue
        s, err = r['s'], r['v']
        if err[0] != 'A':
            raise Missing('an error of parsing a packet')
        k = ctx.vname(err)
        n.add(k)
        whole = lambda s, i: all(x is not None and I.norm_segs(x) == R.win for x in text(s, err[3][i]))
        cases = [(s, None)] if k in ('InvalidMessage', 'InvalidDataJson', 'TextAttachment', 'NonAttachmentBinary') else kinds(R, S, s)
        for s1, d in cases:
            why = None
            if k == 'InvalidMessage':
                good = s1.assume(S.match)
                for p in (S.number_ok('att'), S.number_ok('id')):
                    good = [y for x in good for y in x.assume(p)]
                why = good and 'it follows the grammar' or not whole(s1, 0) and 'the error carries another text'
            elif k == 'InvalidDataJson':
                why = s1.assume(S.json()) and 'its arguments are a json list' or s1.assume(pnot(args)) and 'it has no arguments'
                got = text(s1, err[3][0])
                e = err[3][1]
                if not why and not all(x is not None and I.norm_segs(x) in (S.raw('args'), R.win) for x in got):
                    why = 'the error carries another text'
                if not why and not (e[0] == 'S' and e[1][0] == 'jsonerr' and I.norm_segs(e[1][1]) == S.raw('args')):
                    why = 'the error is that of something else'
            elif k == 'InvalidExtraData':
                extra = por(por(att, idp), pnot(empty))
                why = d not in (48, 49) and 'it may have data' or s1.assume(pnot(extra)) and 'it has no data' or \
                    not all(named(x, d) for x in text(s1, err[3][0])) and 'the error names another kind' or not whole(s1, 1) and 'the error carries another text'
            elif k == 'MissingData':
                lacks = {50: empty, 51: pnot(idp), 53: por(pnot(att), empty), 54: por(pnot(att), pnot(idp))}.get(d, False)
                why = not never(s1, pnot(lacks)) and 'it lacks nothing' or \
                    not all(named(x, d) for x in text(s1, err[3][0])) and 'the error names another kind' or not whole(s1, 1) and 'the error carries another text'
            elif k == 'InvalidAttachmentCount':
                given = S.natt if r['stage'] == 2 else I_(0)
                want = S.value('att')
                a, b = err[3]
                why = s1.decide(peq0(lsub(a, given))) is not True and 'the first number is not how many there are' or \
                    s1.decide(peq0(lsub(b, want))) is not True and 'the second number is not how many were announced' or \
                    s1.assume(peq0(lsub(given, want))) and 'the numbers are equal'
            elif k == 'TextAttachment':
                why = (r['stage'] != 2 or not texts(R, s1)) and 'no attachment is a text'
                if not why:
                    for x in text(s1, err[3][0]):
                        if x is None or not any(x == y for i in elements(x) for y in text(
                                s1, I.sym_field(I.seq_at(s1, R.atts, i), 0, R.ti))):
                            why = 'the error carries something other than the text of that attachment'
            else:
                why = 'it is not known what that means' if k != 'NonAttachmentBinary' else 'it is a text'
            ctx.ob('packet', not why, '%s:%s:%s' % (k, chr(d) if d else '', why or ''), 'a packet%s is refused with %s although %s: %s' % (
                ' of kind ' + chr(d) if d else '', k, why, cp.facts(ctx, S, s1)[:300]), site, sample='%s: only where true' % k)
    # a binary message where a packet is expected
    st = State()
    t = ctx.prog.adts[R.msg[1]]["variants"][R.bi][1][0][1]
    data = I.sym('data', t)
    m = 0
    for s, k, v in ctx.run(I, R.de, [('A', R.msg[1], R.bi, (data,))], st):
        if k != 'ret':
            # the window of an arbitrary message may be anything
            continue
        m += 1
        err = v[3][0] if v[0] == 'A' and v[2] == 1 else None
        name = ctx.vname(err) if err is not None and err[0] == 'A' else None
        n.add(name)
        ok = name == 'NonAttachmentBinary' and all(x is not None and I.norm_segs(x) == I.norm_segs(y) for _, x in view(ctx, I, s, err[3][0])
                                                   for _, y in view(ctx, I, s, data))
        ctx.ob('packet', ok, 'binary', 'a binary message is refused with %s' % ctx.pp.v(I.freeze(s, v))[:160], site, sample='a binary message: so named, with its bytes')
    ctx.floor(m, 1, 'binary messages')
    ctx.floor(len(n), 7, 'reasons for refusing packets')
    ctx.notes['reasons for refusing packets'] = sorted(map(str, n))


def elements(segs):
    """indices of the elements a text is taken from"""
    out = set()

    def go(x):
        if isinstance(x, (tuple, frozenset)):
            if isinstance(x, tuple) and len(x) >= 3 and x[0] == 'el' and isinstance(x[2], tuple) and x[2][:1] == ('i',):
                out.add(x[2])
            for y in x:
                go(y)
    go(segs)
    return out


@check('C50')
def c50(ctx):
    engine(ctx)
    socket(ctx)
