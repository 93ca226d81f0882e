"""C44, and for C09 C18 C20: frames that carry no event and no ack change nothing.
The receiver of a connection with any registry, any packet waiting for attachments or none, gets one arbitrary frame."""
from domain import *
from framework import check, Missing
from checks.client import *
import checks.c_reg as reg

QUIET = ('Connect', 'Disconnect')


def label(R, s, frame):
    """what the frame turned out to be"""
    ctx = R.ctx
    out = []
    n = case(ctx, s, frame)
    out.append(n or 'other')
    for name, a, r in calls(s):
        name = name.split('::')[-1]
        if name in ('decode', 'deserialize', 'deserialize_partial', 'data'):
            t = r[2] if r[0] == 'S' else None
            if name == 'deserialize' and t is not None and ctx.prog.adtname(t) == 'Result' and t[2] and not (
                    t[2][0][0] == 'adt' and ctx.prog.adtname(t[2][0]) in ('DeserializeResult', 'Packet')):
                continue
            c = case(ctx, s, r)
            if c == 'Ok':
                p = payload(R.I, r, 0)
                c = case(ctx, s, p) if p[0] != 'S' or p[2] is not None and p[2][0] == 'adt' and \
                    ctx.prog.adts[p[2][1]]["kind"] == 'enum' else 'packet'
            out.append(str(c) if c != 'Err' else 'error in ' + name)
    return '/'.join(out)


def kind(R, s):
    """Event, Ack, Connect, Disconnect for a path that looked into a socket packet"""
    d = calls(s, 'data')
    return case(R.ctx, s, d[-1][2]) if d else None


def frame_sym(R, name):
    return R.I.sym(name, R.proc["locals"][2])


def frames(R, s, name='frameX', receiver=None):
    """outcomes of any frame at all"""
    f = frame_sym(R, name)
    s = s.copy()
    s.ev = ()
    w, R.want = R.want, None
    out = [(s1, k, v, f) for s1, k, v in R.I.run(R.proc, (), [receiver or R.receiver, f], s)]
    R.want = w
    return out


def carries(R, s):
    return kind(R, s) in ('Event', 'Ack')


def others(R, s):
    """[(what, state)]: frames without event or ack that left the registry different from what it was; the others are obligations
    met"""
    ctx = R.ctx
    out = []
    n = 0
    for s1, k, v, f in frames(R, s):
        if carries(R, s1) or k != 'ret':
            continue
        n += 1
        what = label(R, s1, f)
        if s1.mem[R.root] == s.mem[R.root]:
            ctx.ob('apart', True, what, '', ctx.site(R.proc), sample='%s leaves the registry as it is' % what)
        else:
            out.append(('a frame (%s)' % what, s1))
    ctx.floor(n, 8, 'kinds of other frames')
    return out


def leaves(ctx, t, seen=()):
    """whether a value of the type can hold part of a packet that waits for attachments"""
    if t[0] == 'adt':
        a = ctx.prog.adts.get(t[1])
        if a is None or t in seen:
            return False
        if a["name"] == 'Partial':
            return True
        if any(leaves(ctx, x, seen + (t,)) for x in t[2] if isinstance(x, tuple)):
            return True
        if a.get("local"):
            return any(leaves(ctx, ft, seen + (t,)) for v in a["variants"] for _, ft in v[1])
    if t[0] in ('ref', 'slice', 'array'):
        return any(leaves(ctx, x, seen) for x in t[1:] if isinstance(x, tuple))
    if t[0] == 'tuple':
        return any(leaves(ctx, x, seen) for x in t[1] if isinstance(x, tuple))
    return False


class Any:
    """the receiver of a connection in any state, sharing its registry"""

    def __init__(self, R):
        self.R = R
        ctx, I = R.ctx, R.I
        s = self.s0 = R.arbitrary()
        s.ev = ()
        rv = R.rv
        a = ctx.prog.adts[rv[1]]
        f = list(rv[3])
        self.waiting = []
        for i, (n, t) in enumerate(a["variants"][0][1]):
            if holds_ref(f[i], R.root):
                continue
            f[i] = I.sym(('fld', 'receiver', i), t)
            if leaves(ctx, t):
                self.waiting.append((i, f[i], n))
        if not self.waiting:
            raise Missing('where a packet waits for its attachments')
        self.ref = I.alloc(s, 'anyreceiver', ('A', rv[1], rv[2], tuple(f)))

    def undisturbed(self, s):
        I = self.R.I
        v = I.load(s, self.ref[1], self.ref[2])
        return all(unchanged(self.R.ctx, I, s, v[3][i], o) for i, o, _ in self.waiting)


def holds_ref(x, root):
    return x == root or isinstance(x, tuple) and any(holds_ref(y, root) for y in x)


def engine(R, s):
    """kind of the engine packet decoded"""
    d = calls(s, 'decode')
    if len(d) != 1 or case(R.ctx, s, d[0][2]) != 'Ok':
        return None
    return case(R.ctx, s, payload(R.I, d[0][2], 0))


def message(R, s):
    """a frame that is a message of the socket layer"""
    return engine(R, s) == 'Message'


def waiting(R, rule='waiting'):
    """only messages concern a packet that waits for attachments"""
    ctx = R.ctx
    A = Any(R)
    n = 0
    for s, k, v, f in frames(R, A.s0, receiver=A.ref):
        if message(R, s) or k != 'ret':
            continue
        if case(ctx, s, v) == 'Err':
            continue        # the connection ends
        n += 1
        what = label(R, s, f)
        ctx.ob(rule, A.undisturbed(s), what, 'a %s frame changes the packet that waits for its attachments' % what, ctx.site(R.proc),
               sample='%s: waiting packet as before' % what)
    ctx.floor(n, 6, 'frames between attachments')


@check('C44')
def c44(ctx):
    R = reg.Reg(ctx)
    I = R.I
    site = ctx.site(R.proc)
    A = Any(R)
    seen = set()
    for s, k, v, f in frames(R, A.s0, receiver=A.ref):
        if k != 'ret' or carries(R, s) and case(ctx, s, v) == 'Ok':
            continue
        what = label(R, s, f)
        seen.add(what)
        cb = events(s, 'callback')
        kd = kind(R, s)
        ctx.ob('calls', not cb, what, 'a frame that carries no event or ack, or is refused (%s), calls a callback' % what, site,
               sample='%s -> no callback' % what)
        q = events(s, 'qsend')
        ping = engine(R, s) == 'Ping'
        ctx.ob('queue', not q or ping, what, 'a %s frame queues something' % what, site, sample='%s -> nothing queued' % what)
        if kd is None and not message(R, s) and case(ctx, s, v) == 'Ok':
            ctx.ob('waiting', A.undisturbed(s), what, 'a %s frame changes the packet that waits for its attachments' % what, site,
                   sample='%s: waiting packet as before' % what)
        if kd in QUIET:
            ctx.ob('accepted', case(ctx, s, v) == 'Ok', kd, 'a %s packet is an error' % kd.lower(), site, sample='%s -> Ok' % kd)
    for x in ('Open', 'Close', 'Ping', 'Pong'):
        ctx.ob('floor', any('/' + x in w for w in seen), x, 'no outcome for an engine %s packet' % x.lower(), site)
    for x in QUIET:
        ctx.ob('floor', any('/' + x in w for w in seen), x, 'no outcome for a socket %s packet' % x.lower(), site)
    for x in ('Close', 'Ping', 'Pong'):
        ctx.ob('floor', any(w == x or w == 'other' for w in seen), 'ws' + x, 'no outcome for a websocket %s frame' % x.lower(), site)
    ctx.notes['kinds of frames'] = sorted(seen)
    import checks.c_emit as ce
    apart_events(R, ce)


def apart_events(R, ce):
    """a received event leaves every callback and every pending ack; a received ack leaves everything but its own entry: compared on
    any registry whatever with what arrives afterwards"""
    ce.events_apart(R)
    ce.acks_apart(R)

