"""C04: nothing a peer sends panics the receive path"""
from domain import *
from interp import Call
from models import it_next
from framework import check, Missing
from checks import c_engine, c_packet
from checks import c_recv as recv
from checks.client import Frame

I_ = lambda n: ('i', n, NOFS)
CR = 'socket_io_protocol'
ADAPTERS = {'Deserializer', 'Visitor', 'SeqAccess', 'MapAccess', 'EnumAccess', 'VariantAccess', 'DeserializeSeed', 'Deserialize', 'Error'}


def where(v):
    """the panic, without line numbers"""
    return tuple(x for x in v if isinstance(x, str)) if isinstance(v, tuple) else str(v)


def window(v):
    """an attachment whose window is not within its data: windows come from the decoder, where they are valid"""
    return 'OwnedSubslice' in str(v) and ('slice range' in str(v) or 'character boundary' in str(v))


def adt_name(ctx, t):
    while t is not None and t[0] == 'ref':
        t = t[2]
    return ctx.prog.adts[t[1]]["name"] if t is not None and t[0] == 'adt' and t[1] in ctx.prog.adts else None


def methods(ctx, name):
    """what code outside the crate can call with a value of this type first: public methods and trait implementations"""
    out = []
    for b in ctx.prog.bodies.values():
        if b["crate"] != CR or b["kind"] == 'Closure' or not b["argc"] or b.get("impl_self") is None:
            continue
        if adt_name(ctx, b["impl_self"]) != name or adt_name(ctx, b["locals"][1]) != name:
            continue
        if b.get("impl_trait") or (b.get("vis") == 'Public' and b.get("reachable", True)):
            out.append(b)
    return sorted(out, key=lambda b: b["path"])


def recursive(ctx, I):
    """functions over JSON values which call themselves: what they do for the parts of a value is taken as analysed,
    which it is, by running them on an arbitrary value"""
    out = []
    for b in ctx.prog.bodies.values():
        if b["crate"] == CR and b["kind"] != 'Closure' and b["argc"] and any(adt_name(ctx, t) == 'Value' for t in b["locals"][1:b["argc"] + 1]):
            out.append(b)

            def fill(I, st, args, c):
                n = st.cnt.get('FILL', 0)
                s = st.copy()
                s.fresh('FILL')
                return [(s, 'ret', I.sym(('ret', 'FILL', n, 0), c.dty))]
            I.opaque[b["hash"]] = fill
    return out


def run_all(ctx, I, b, args, st, rule, what, sub=(), skip=None):
    n = 0
    outs = I.run(b, sub, args, st)
    for s, k, v in outs:
        n += 1
        ok = k == 'ret' or (skip is not None and skip(v))
        ctx.ob(rule, ok, '%s:%s' % (b["name"], '' if ok else '/'.join(where(v)[:2])),
               '%s panics: %s' % (what, where(v) if not ok else ''), ctx.site(b), sample='%s: %s' % (what, k))
    return n, outs


@check('C04')
def c04(ctx):
    # asking for more room than there is panics or aborts
    ctx.hooks['sized'] = lambda *a: None
    receive(ctx)


def receive(ctx):
    """everything a peer can send, through every layer"""
    n = {}
    # frames to messages, in every state of a session
    rows, e = c_engine.product(ctx)
    for r in rows:
        n['decode'] = n.get('decode', 0) + 1
        ctx.ob('decode', r['kind'] == 'ret', 'decode', 'decoding a frame panics: %s' % (where(r['v']),), ctx.site(r['dec']),
               sample='decode while %s: %s' % (r['spec'], r['kind']))
    # any text to packets, whole or waiting for any attachments
    R, S, out = c_packet.rows(ctx)
    I = R.I
    pm, dm, am = [methods(ctx, x) for x in ('Packet', 'Data', 'Args')]
    argm = methods(ctx, 'Arg')
    for x, l in (('Packet', pm), ('Data', dm), ('Args', am), ('Arg', argm)):
        ctx.floor(len(l), 1, 'methods of ' + x)
    # how an argument is shown is analysed below, for any argument
    for b in argm:
        if b.get("impl_trait"):
            def shown(I, st, args, c):
                s = st.copy()
                k = s.fresh('SHOWN')
                return [(s, 'ret', I.sym(('ret', 'SHOWN', k, 0), c.dty))]
            I.opaque[b["hash"]] = shown
    seen = {}
    for r in out:
        n['parse'] = n.get('parse', 0) + 1
        ok = r['res'] != 'panic' or r['stage'] == 2 and window(r['v'])
        ctx.ob('parse', ok, 'stage%d:%s' % (r['stage'], '' if ok else str(where(r['v']))[:120]), 'parsing a packet panics: %s' % (
            where(r['v']) if not ok else '',), R.site, sample='parse: %s' % r['res'])
        if r['res'] != 'packet':
            continue
        # everything that can be asked of the packet
        s, packet = r['s'], r['v']
        s = s.copy()
        p = I.alloc(s, 'thepacket', packet)
        for b in pm:
            m, _ = run_all(ctx, I, b, [p if b["locals"][1][0] == 'ref' else packet] + ctx.args(I, b)[1:], s, 'packet',
                           'Packet::%s' % b["name"])
            n['packet'] = n.get('packet', 0) + m
        for s1, k, d in I.run(R.data, (), [p], s):
            if k != 'ret':
                continue
            s1 = s1.copy()
            rd = I.alloc(s1, 'thedata', d)
            for b in dm:
                m, _ = run_all(ctx, I, b, [rd if b["locals"][1][0] == 'ref' else d] + ctx.args(I, b)[1:], s1, 'packet', 'Data::%s' % b["name"])
                n['packet'] += m
            a = c_packet.field(ctx, d, 'args')
            if a is None:
                continue
            ra = I.alloc(s1, 'theargs', a)
            for b in am:
                m, outs = run_all(ctx, I, b, [ra if b["locals"][1][0] == 'ref' else a] + ctx.args(I, b)[1:], s1, 'arguments', 'Args::%s' % b["name"])
                n['arguments'] = n.get('arguments', 0) + m
                for s2, k2, v2 in outs:
                    it = iterator(ctx, v2) if k2 == 'ret' else None
                    if it is None and k2 == 'ret' and library_iterator(I, v2):
                        m = library(ctx, I, v2, s2, 'arguments', 'the iterator over arguments')
                        n['iterator'] = n.get('iterator', 0) + m
                        continue
                    if it is None:
                        continue
                    # an iterator anywhere in the arguments
                    s2 = s2.copy()
                    v3 = ('A', v2[1], v2[2], tuple(I.sym(('at', i), ('prim', 'usize')) if f[0] == 'i' else f for i, f in enumerate(v2[3])))
                    for i in v3[3]:
                        if i[0] == 'i':
                            # a counter of steps
                            s2 = s2.assume(pge(lsub(I_(1 << 62), i)))[0].copy()
                    ri = I.alloc(s2, 'theiter', v3)
                    m, _ = run_all(ctx, I, it, [ri], s2, 'arguments', 'the iterator over arguments')
                    n['iterator'] = n.get('iterator', 0) + m
    # one argument, with any attachments
    J = ctx.interp()
    rec = recursive(ctx, J)
    for b in rec:
        m, _ = run_all(ctx, J, b, ctx.args(J, b), State(), 'argument', b["name"], skip=window)
        n['value'] = n.get('value', 0) + m
    for b in argm:
        m, _ = run_all(ctx, J, b, ctx.args(J, b), State(), 'argument', 'Arg::%s' % b["name"], skip=window)
        n['argument'] = n.get('argument', 0) + m
    # the functions serde and the user's types call back
    for b in sorted(ctx.prog.bodies.values(), key=lambda b: b["path"]):
        t = b.get("impl_trait")
        if b["crate"] != CR or b["kind"] == 'Closure' or '::_::' in b["path"] or not t or t.split("::")[-1] not in ADAPTERS:
            continue
        m, _ = run_all(ctx, J, b, ctx.args(J, b), State(), 'adapter', '%s::%s' % (t.split("::")[-1], b["name"]), skip=window)
        n['adapter'] = n.get('adapter', 0) + 1
    # the client
    F = Frame(ctx)
    for s, k, v in F.outs:
        n['frame'] = n.get('frame', 0) + 1
        ctx.ob('frame', k == 'ret', str(where(v)) if k != 'ret' else '', 'processing a %s panics: %s' % (recv.describe(F, s), where(v) if k != 'ret' else ''),
               F.site, sample='%s: %s' % (recv.describe(F, s), k))
    for x, least in (('decode', 10), ('parse', 20), ('packet', 10), ('arguments', 10), ('iterator', 2), ('value', 5), ('argument', 4), ('adapter', 60), ('frame', 20)):
        ctx.floor(n.get(x, 0), least, x + ' outcomes')
    ctx.notes['outcomes'] = n
    ctx.assume += ['serde, serde_json, regex and tungstenite do not panic when called within their documented preconditions',
                   'the nesting depth of JSON values is bounded by serde_json, so recursion over them does not exhaust the stack',
                   'attachments are windows as made by the engine decoder (C02) and the user does not panic in his own callbacks']


def library_iterator(I, v):
    return v[0] == 'A' and (v[1] == 'It' or I.adt_name(v[1]) in ('Range', 'RangeFrom'))


def anywhere(I, v, k=()):
    """an iterator of the library which has made any number of steps"""
    if not library_iterator(I, v):
        return v, []
    f = list(v[3])
    at = []
    if v[1] != 'It':
        f[0] = I.sym(('at', k), ('prim', 'usize'))
        at.append(f[0])
        return ('A', v[1], v[2], tuple(f)), at
    if f[0] == 'seq':
        f[2] = I.sym(('at', k), ('prim', 'usize'))
        return ('A', 'It', 0, tuple(f)), [f[2]]
    for i, x in enumerate(f):
        if isinstance(x, tuple) and x and x[0] == 'A' and library_iterator(I, x):
            f[i], a = anywhere(I, x, k + (i,))
            at += a
    if f[0] == 'enumerate':
        f[2] = I.sym(('at', k, 'n'), ('prim', 'usize'))
        at.append(f[2])
    return ('A', 'It', 0, tuple(f)), at


def library(ctx, I, v, st, rule, what):
    v, at = anywhere(I, v)
    st = st.copy()
    for i in at:
        st = st.assume(pge(lsub(I_(1 << 62), i)))[0].copy()
    c = Call()
    c.name, c.frame, c.sub, c.dty, c.atys, c.gargs, c.line, c.info = 'Iterator::next', None, {}, None, [], (), 0, None
    outs = it_next(I, st, v, c)
    for s, n, x in outs:
        bad = x is not None and x[0] == 'panic'
        ctx.ob(rule, not bad, '%s:%s' % (what, str(where(x[1]))[:120] if bad else ''), '%s panics: %s' % (what, where(x[1]) if bad else ''), '',
               sample='%s: %s' % (what, 'end' if x is None else 'item'))
    return len(outs)


def iterator(ctx, v):
    """the next function of a value of the workspace which is an iterator"""
    if v[0] != 'A' or v[1] not in ctx.prog.adts:
        return None
    for b in ctx.prog.impls.get(("Iterator", "next"), []):
        if b["impl_self"] and b["impl_self"][0] == 'adt' and b["impl_self"][1] == v[1]:
            return b
    return None
