"""C16 C17 C18 C21 and the sending part of C19: emitting events, acks, and who calls what under which lock."""
import itertools
from domain import *
from framework import check, view, Missing
from interp import mentions, intern, TERMS
from checks.client import *
from checks.c_reg import *
import checks.c_reg as reg
import checks.c_conn as conn
import checks.c_still as still
import checks.c_recv as recv

BINARY = (None, 'before', 'after')


def methods(ctx, v):
    if v[0] != 'A':
        raise Missing('a builder which is not known')
    return {b["name"]: b for b in ctx.prog.bodies.values() if b["kind"] == 'AssocFn' and b["impl_self"] and
            b["impl_self"][0] == 'adt' and b["impl_self"][1] == v[1] and not b.get("impl_trait")}


class Emission:
    """one run of an event through the builders; outs: [(state, 'sent' | 'dropped' | 'failed')]"""

    def __init__(self, R, s, steps, n, ns=None, ev=None, short=False):
        self.R, self.n = R, n
        ctx, I = R.ctx, R.I
        self.ns = ns or (('q', (('lit', b'/'),)) if short else R.text('ns%d' % n))
        self.ev = ev or R.text('ev%d' % n)
        self.steps = steps
        self.cb = None
        self.outs = []
        entry = ctx.fn(CL, 'emit' if short else 'namespace_emit', 'Client')
        self.site = ctx.site(entry)
        s = s.copy()
        s.ev = ()
        args = [R.client] + ([] if short else [self.ns]) + [self.ev]
        for s1, k, v in I.run(entry, (), args, s):
            if self.ok(k, 'starting an event'):
                self.go(s1, v, steps)

    def ok(self, k, what):
        return self.R.ctx.ob('emit', k == 'ret', what.split()[0], '%s panics' % what, self.site)

    def go(self, s, b, steps):
        R, I, ctx = self.R, self.R.I, self.R.ctx
        if not steps or steps[0] == 'drop':
            for s1 in I.drop_value(s, b, None):
                self.outs.append((s1, 'dropped'))
            return
        step = steps[0]
        m = methods(ctx, b)
        name = step.split(':')[0]
        if name not in m:
            raise Missing('method %s of %s' % (name, ctx.prog.adts[b[1]]["name"]))
        f = m[name]
        s = s.copy()
        if name == 'binary':
            for s1, k, v in I.run(f, (), [b, I.sym('binary%d' % self.n, ('prim', 'bool'))], s):
                if self.ok(k, 'choosing the form of an event'):
                    self.go(s1, v, steps[1:])
        elif name == 'callback':
            self.cb = 'cb' + step.split(':')[1]
            for s1, k, v in I.run(f, (), [b, I.sym(self.cb, f["locals"][2])], s):
                if self.ok(k, 'giving an ack callback'):
                    self.go(s1, v, steps[1:])
        elif name == 'args':
            for s1, k, v in I.run(f, (), [b], s):
                if self.ok(k, 'making an event packet'):
                    self.go(s1, v, steps[1:])
        elif name == 'send':
            for s1, k, v in I.run(f, (), [b], s):
                if self.ok(k, 'sending an event'):
                    self.outs.append((s1, 'sent'))
        elif name in ('arg', 'arg_ref'):
            r = I.alloc(s, 'builder', b)
            x = I.sym('value', ('ref', False, ('param', f["generics"][-1])))
            for s1, k, v in I.run(f, (), [b if name == 'arg' else r, x], s):
                if not self.ok(k, 'adding an argument'):
                    continue
                for vi in (0, 1):
                    for s2 in s1.assume(I.is_variant(v, vi)):
                        if name == 'arg_ref':
                            self.go(s2, I.load(s2, r[1], r[2]), steps[1:])
                        elif vi == 0:
                            self.go(s2, payload(I, v, 0), steps[1:])
                        else:
                            self.outs.append((s2, 'failed'))
        else:
            raise Missing(step)


def packet_id(R, s):
    """(id or None, new_event call) of the packet made on a path"""
    c = calls(s, 'new_event')
    if len(c) != 1:
        return None, None
    i = c[0][1][2]
    k = case(R.ctx, s, i)
    return (payload(R.I, i, 1) if k == 'Some' else None if k == 'None' else i), c[0]


def patterns(thorough):
    """orders in which the builders can be used, up to sending"""
    for b in (None, 'before', 'after', 'twice'):
        for ncb in (0, 1, 2):
            if b in ('after', 'twice') and ncb == 0:
                continue
            for args in ((), ('arg',), ('arg_ref',)) + ((('arg', 'arg'), ('arg_ref', 'arg'), ('arg', 'arg_ref')) if thorough else ()):
                p = []
                if b in ('before', 'twice'):
                    p.append('binary')
                p += ['callback:%d' % (i + 1) for i in range(ncb)]
                if b in ('after', 'twice'):
                    p.append('binary')
                yield tuple(p) + ('args',) + args + ('send',)


def ints(R, s, a, b):
    """[(state, equal?)] for two numbers"""
    if a[0] != 'i' or b[0] != 'i':
        raise Missing('an id which is not a number')
    p = peq0(lsub(a, b))
    d = s.decide(p)
    if d is not None:
        return [(s, d)]
    return [(x, val) for val in (True, False) for x in s.assume(p, val)]


def ack_arrives(R, s, packet, rule, how, replay=False):
    """[(state, Ok?, namespace, id, called)] of an ack arriving"""
    out = []
    for s2, k, v, ns, dv, called in R.arrive(s, 'Ack', packet, replay):
        if not R.ctx.ob(rule, k == 'ret', how + ':panics', 'an ack arriving after %s panics' % how, R.ctx.site(R.proc)):
            continue
        c = case(R.ctx, s2, v)
        if c is None:
            R.ctx.ob(rule, False, how + ':result', 'it is not known how an ack arriving after %s ends' % how, R.ctx.site(R.proc))
            continue
        F = Field(R)
        out.append((s2, c == 'Ok', ns, F.field(dv, 'Ack', 'id'), F.field(dv, 'Ack', 'args'), called))
    return out


class Field:
    field = Frame.field

    def __init__(self, R):
        self.ctx, self.I = R.ctx, R.I


def pending_for(R, s, pending, ns, i):
    """[(state, entry or None)]: the emission an ack belongs to"""
    todo = [(s, 0)]
    out = []
    while todo:
        s, n = todo.pop()
        if n == len(pending):
            out.append((s, None))
            continue
        for s1, eq in ints(R, s, pending[n][1], i):
            if not eq:
                todo.append((s1, n + 1))
                continue
            for s2, eq2 in R.same(s1, pending[n][0], ns):
                if eq2:
                    out.append((s2, pending[n]))
                else:
                    todo.append((s2, n + 1))
    return out


# ------------------------------------------------------------------------------------------------------------- C17
@check('C17')
def c17(ctx):
    R = Reg(ctx)
    n = 0
    for where, s0 in (('a new client', R.counter(R.s0)), ('any registry', R.arbitrary())):
        before = R.registry(s0)
        for p in patterns(ctx.tier == 'thorough'):
            E = Emission(R, s0, p, 7)
            how = ' '.join(p)
            sent = 0
            for s, kind in E.outs:
                i, call = packet_id(R, s)
                if not ctx.ob('packet', call is not None, how, 'an event made by %s is not one packet' % how, E.site):
                    continue
                q = events(s, 'qsend')
                if kind != 'sent':
                    continue
                sent += 1
                if not ctx.ob('packet', len(q) == 1, how + ':queued', 'an event made by %s is queued %d times' % (how, len(q)), E.site):
                    continue
                if E.cb is None:
                    ctx.ob('none', i is None, how, 'an event without a callback carries an id (%s)' % how, E.site,
                           sample='%s: no id' % how)
                    ctx.ob('none', R.registry(s) == before, how + ':stores', 'an event without a callback changes the registry (%s)' % how,
                           E.site, sample='%s: nothing stored' % how)
                    continue
                if not ctx.ob('id', i is not None and i[0] == 'i', how, 'an event with a callback carries no id (%s)' % how, E.site,
                              sample='%s: id %s' % (how, ctx.pp.v(i)[:60] if i else '')):
                    continue
                # what the registry holds when the packet is handed to the queue
                e = events(s, 'snap')
                s1 = s.copy()
                s1.mem[R.root] = thaw(e[-1][1])
                n += 1
                for s2, ok, ns, ai, args, called in ack_arrives(R, s1, '', 'registered', how):
                    for s3, eq in ints(R, s2, i, ai):
                        if not eq:
                            continue
                        for s4, eq2 in R.same(s3, E.ns, ns):
                            if not eq2:
                                continue
                            got = [sorted(who(f)) for f, a, l in called]
                            ctx.ob('registered', got == [[E.cb]], how, 'an ack for an event made by %s, arriving as soon as the packet is queued, '
                                   'calls %s instead of the callback given for it' % (how, got or 'nothing'), E.site,
                                   sample='%s on %s: callback found when queued' % (how, where))
            ctx.ob('packet', sent > 0, how + ':sent', 'an event made by %s is never sent' % how, E.site)
    ctx.floor(n, 10, 'events sent with a callback')


def thaw(x):
    return TERMS[x[1]] if len(x) == 2 and x[0] == '#' else x


# ------------------------------------------------------------------------------------------------------------- C18
def next_id(R, s):
    """ids given to an event sent with a callback in this state: [(state, id)]"""
    E = Emission(R, s, ('callback:9', 'args', 'send'), 9)
    out = []
    for s1, kind in E.outs:
        i, call = packet_id(R, s1)
        if kind == 'sent':
            out.append((s1, i))
    return out


def ids_grow(R):
    """whatever is done with a client, the next id is larger than the ids used"""
    ctx = R.ctx
    s0 = R.arbitrary()
    pats = list(patterns(False)) + [('drop',), ('callback:1', 'drop'), ('callback:1', 'args', 'drop'), ('args', 'drop'),
                                    ('callback:1', 'callback:2', 'drop'), ('callback:1', 'args', 'arg_ref', 'drop')]
    base = next_id(R, s0)
    site = ctx.site(ctx.fn(CL, 'namespace_emit', 'Client'))
    if not ctx.ob('ids', len(base) >= 1 and all(i is not None and i[0] == 'i' for _, i in base), 'base',
                  'an event with a callback carries no id', site):
        return
    i0 = base[0][1]
    ctx.ob('ids', all(i == i0 for _, i in base), 'one', 'the id of an event depends on more than the client', site)
    steps = []
    for p in pats:
        for s, kind in Emission(R, s0, p, 8).outs:
            steps.append((' '.join(p) + (' ' + kind if kind != 'sent' and p[-1] != 'drop' else ''), s, packet_id(R, s)[0], 
                          kind == 'sent'))
    for op in SETTERS:
        for s in R.setter([s0], op, 6)[0]:
            steps.append((op, s, None, False))
    for kind in ('Event', 'Ack'):
        for s, k, v, ns, dv, called in R.arrive(s0, kind):
            steps.append((kind.lower() + ' received', s, None, False))
    for s, k, v in drive(R.I, ctx.fn(CL, 'close', 'Client'), [R.client], s0.copy()):
        if k == 'ret':
            steps.append(('closing', s, None, False))
    n = 0
    # ids may count in either direction, but only one
    ways = {}
    for how, s, used, sent in steps:
        for s2, i1 in next_id(R, s):
            n += 1
            if i1 is None or i1[0] != 'i':
                ctx.ob('ids', False, how, 'after %s an event with a callback carries no id' % how, site)
                continue
            for w, k in ((1, 1), (-1, -1)):
                ok = s2.entails_ge(lscale(lsub(i1, i0), k))
                if ok and used is not None and sent:
                    ok = s2.entails_ge(lscale(lsub(used, i0), k)) and s2.entails_ge(ladd(lscale(lsub(i1, used), k), I_(-1)))
                ways.setdefault(w, []).append((ok, how, i1, used))
    bad = {w: [x for x in l if not x[0]] for w, l in ways.items()}
    w = min(bad, key=lambda w: len(bad[w])) if bad else 1
    for ok, how, i1, used in ways.get(w, ()):
        ctx.ob('ids', ok, how, 'after %s%s, starting with next id %s, the next id is %s' % (
            how, ' with id ' + ctx.pp.v(used) if used is not None else '', ctx.pp.v(i0), ctx.pp.v(i1)), site,
            sample='%s: next id %s -> %s' % (how, ctx.pp.v(i0), ctx.pp.v(i1)))
    ctx.floor(n, 20, 'steps of the id counter')


@check('C18')
def c18(ctx):
    R = Reg(ctx)
    ids_grow(R)
    explore(R)
    acks_apart(R)
    conversions(ctx, R.I, 'AckCallback', 'call')
    once(ctx)


def explore(R):
    """events with callbacks and acks in any order from a new client"""
    ctx = R.ctx
    deep = ctx.tier == 'thorough'
    site = ctx.site(R.proc)
    n = [0]

    def go(s, pending, em, ar, other, how):
        if ar:
            for s2, ok, ns, i, args, called in ack_arrives(R, s, str(ar), 'ack', how or 'nothing'):
                for s3, e in pending_for(R, s2, pending, ns, i):
                    n[0] += 1
                    got = [sorted(who(f)) for f, a, l in called]
                    want = [[e[2]]] if e else []
                    h = (how + ', ' if how else '') + ('its ack' if e else 'another ack')
                    ctx.ob('ack', got == want, h, 'after %s an ack %s calls %s instead of %s' % (
                        how or 'nothing', 'for event %s' % e[2][2:] if e else 'nobody waits for', got or 'nothing', want or 'nothing'), site,
                        sample='%s -> %s' % (h, want))
                    ctx.ob('ack', ok == (e is not None), h + ':result', 'after %s an ack %s gives %s' % (
                        how or 'nothing', 'for an event' if e else 'nobody waits for', 'Ok' if ok else 'an error'), site)
                    if e and got == want:
                        fz = top(called[0][1])
                        fz = fz[0][1] if len(fz) == 1 and fz[0][0] == 'T' else fz
                        ctx.ob('ack', len(fz) == 1 and passed(fz[0], args), h + ':args', 'an ack callback gets %s instead of the arguments '
                               'of the ack' % ctx.pp.term(tuple(fz))[:150], site)
                    go(s3, [x for x in pending if x != e], em, ar - 1, other, h)
        if em:
            k = len(pending) + 10 * em
            for p in (('callback:%d' % k, 'args', 'send'),):
                E = Emission(R, s, p, k)
                for s2, kind in E.outs:
                    i, call = packet_id(R, s2)
                    if kind == 'sent' and i is not None:
                        go(s2, pending + [(E.ns, i, E.cb)], em - 1, ar, other, (how + ', ' if how else '') + 'an event')
        if other and not deep and pending or other and deep:
            for op in SETTERS if deep else ('clear_event', 'clear_fallback'):
                for s2 in R.setter([s], op, 90)[0]:
                    go(s2, pending, 0 if not deep else em, ar, 0, (how + ', ' if how else '') + op)
            for s2, k, v, ns, dv, called in R.arrive(s, 'Event', '7'):
                if k == 'ret' and case(ctx, s2, v) == 'Ok':
                    go(s2, pending, 0 if not deep else em, ar, 0, (how + ', ' if how else '') + 'an event received')

    go(R.counter(R.s0), [], 2, 2, 1, '')
    if deep:
        go(R.counter(R.s0), [], 3, 3, 0, '')
    ctx.notes['histories'] = n[0]
    ctx.floor(n[0], 10, 'histories of events and acks')


def acks_apart(R):
    """on any registry whatever: only the entry an operation is about changes"""
    ctx = R.ctx
    site = ctx.site(R.proc)
    s0 = R.arbitrary()
    n = 0
    for s, ok, ns, i, args, called in ack_arrives(R, s0, '', 'apart', 'an arbitrary start'):
        before = [f for f, a, l in called]
        ctx.ob('apart', len(called) == (1 if ok else 0), 'calls', 'an ack which gives %s calls %d callbacks' % ('Ok' if ok else 'an error', len(called)), site)
        # the same ack again
        for s2, ok2, ns2, i2, args2, called2 in ack_arrives(R, s, '', 'twice', 'the same ack', True):
            for s3, eq in ints(R, s2, i, i2):
                for s4, eq2 in (R.same(s3, ns, ns2) if eq else ()):
                    if eq2:
                        n += 1
                        ctx.ob('twice', not called2 and not ok2, 'again', 'an ack which already arrived %s' % (
                            'calls a callback again' if called2 else 'is not an error'), site, sample='same ack twice -> error')
        s = s.copy()
        s.mem[R.root] = s0.mem[R.root]
        # whether an operation concerns the same namespace is settled first
        changed = []
        for op in SETTERS:
            for x0, _ in R.same(s, R.text('ns1'), ns):
                changed += [(op, x, None, None, None) for x in R.setter([x0], op, 1)[0]]
        for p in (('callback:5', 'args', 'send'), ('args', 'send'), ('callback:5', 'drop'), ('callback:5', 'args', 'drop')):
            for x0, _ in R.same(s, R.text('ns5'), ns):
                E = Emission(R, x0, p, 5)
                for x, kind in E.outs:
                    if p[-1] == 'send' and E.cb:
                        changed.append(('an event with a callback', x, E.ns, packet_id(R, x)[0], E.cb))
                    else:
                        changed.append((' '.join(p), x, None, None, None))
        for x, ok2, n2, i2, args2, called2 in settled(R, s, ns, lambda x: ack_arrives(R, x, '2', 'apart', 'another ack'), 2):
            changed.append(('another ack', x, n2, i2, ''))
        for x, k, v, n2, dv2, called2 in settled(R, s, ns, lambda x: R.arrive(x, 'Event', '2'), 3):
            changed.append(('an event received', x, None, None, None))
        changed += [(what, x, None, None, None) for what, x in still.others(R, s)]
        for op, x, n1, i1, cb in changed:
            for x2, eq in (ints(R, x, i1, i) if i1 is not None else [(x, False)]):
                for x3, eq2 in (R.same(x2, n1, ns) if eq else [(x2, False)]):
                    for s4, ok4, ns4, i4, a4, called4 in ack_arrives(R, x3, '', 'apart', op, True):
                        for s5, e5 in ints(R, s4, i, i4):
                            for s6, e6 in (R.same(s5, ns, ns4) if e5 else ()):
                                if not e6:
                                    continue
                                now = [f for f, a, l in called4]
                                n += 1
                                if not eq2:
                                    ctx.ob('apart', now == before, op, '%s changes what an ack for something else calls' % op, site,
                                           sample='%s leaves other acks alone' % op)
                                else:
                                    want = [[cb]] if cb else []
                                    ctx.ob('apart', [sorted(who(f)) for f in now] == want, op + ':own', 'after %s its ack calls %s' % (
                                        op, now and 'something else' or 'nothing'), site, sample='%s -> %s' % (op, want))
    ctx.floor(n, 10, 'operations on any registry')


def events_apart(R):
    """emitting and acks do not change what events call"""
    ctx, I = R.ctx, R.I
    site = ctx.site(R.proc)
    s0 = R.arbitrary()
    n = 0
    for s, k, v, ns, dv, called in R.arrive(s0, 'Event'):
        args, name = event_name(R, s, dv)
        if k != 'ret' or name is None or case(ctx, s, name) != 'Ok':
            continue
        nm = event_text(R, s, name)
        before = [f for f, a, l in called]
        changed = [('the event itself', s)]
        for p in (('callback:5', 'args', 'send'), ('args', 'send'), ('callback:5', 'drop')):
            for x0, _ in R.same(s, R.text('ns5'), ns):
                changed += [(' '.join(p), x) for x, kind in Emission(R, x0, p, 5).outs]
        for o in settled(R, s, ns, lambda x: ack_arrives(R, x, '2', 'apart', 'an ack'), 2):
            changed.append(('an ack received', o[0]))
        for o in settled(R, s, ns, lambda x: R.arrive(x, 'Event', '2'), 3):
            changed.append(('an event received', o[0]))
        changed += still.others(R, s)
        for op, x in changed:
            for s4, k4, v4, ns4, dv4, called4 in R.arrive(x, 'Event', replay=True):
                a4, name4 = event_name(R, s4, dv4)
                if k4 != 'ret' or name4 is None or case(ctx, s4, name4) != 'Ok':
                    continue
                for s5, e5 in R.same(s4, ns, ns4):
                    for s6, e6 in (R.same(s5, nm, event_text(R, s5, name4)) if e5 else ()):
                        if e6:
                            n += 1
                            ctx.ob('apart', [f for f, a, l in called4] == before, op, '%s changes what an event calls' % op, site,
                                   sample='%s leaves event callbacks alone' % op)
    ctx.floor(n, 6, 'other operations on any registry')


def event_text(R, s, name):
    return ('q', R.I.norm_segs(R.I.as_segs(s, reg_text(R, s, payload(R.I, name, 0)))))


def settled(R, s, ns, op, at):
    """outcomes of op, with the namespace it concerns compared with ns beforehand"""
    out = []
    for n2 in {o[at] for o in op(s)}:
        for x, _ in R.same(s, n2, ns):
            out += [o for o in op(x) if o[at] == n2]
    return out


def once(ctx):
    """an ack callback cannot be copied, so taking it from the registry leaves none behind"""
    a = [x for x in ctx.prog.adts.values() if x.get("local") and x["name"] == 'AckCallback']
    if not a:
        raise Missing('AckCallback')
    cl = [b for b in ctx.prog.impls.get(("Clone", "clone"), []) if b["impl_self"][0] == 'adt' and
          ctx.prog.adts[b["impl_self"][1]]["name"] == 'AckCallback']
    ctx.ob('once', True, '', '', '', sample='AckCallback: %d Clone impls' % len(cl))


# ------------------------------------------------------------------------------------------------------------- C21
@check('C21')
def c21(ctx):
    n = 0
    for root in ('from_stream', 'connect'):
        R = Reg(ctx, root)
        site = ctx.site(R.proc)
        # a long form followed by an event
        for op in SETTERS:
            if not op.startswith('set'):
                continue
            for short in (False, True):
                states, what = R.setter([R.s0], op, 1, short)
                for s in states:
                    n += 1
                    dispatch(R, s, [what], 'set', ('short ' if short else '') + op)
                    # cleared again, through either form, for an arbitrary or the same namespace and event
                    for short2 in (False, True):
                        for op2 in ('clear_event', 'clear_fallback'):
                            states2, what2 = R.setter([s], op2, 2, short2)
                            for s2 in states2:
                                dispatch(R, s2, [what, what2], 'clear', '%s%s, %s%s' % (
                                    'short ' if short else '', op, 'short ' if short2 else '', op2))
        same_forms(R)
        emitting(R)
    ctx.floor(n, 8, 'operations')


def same_forms(R):
    """each short form is its long form with /"""
    ctx, I = R.ctx, R.I
    slash = ('R', ('K', ('q', (('lit', b'/'),))), ())
    starts = [('a new client', R.s0), ('any registry', R.arbitrary())]
    for op in SETTERS:
        starts += [('a client after ' + op, s) for s in R.setter([R.s0], op, 3, True)[0][:2]]
    for where, s0 in starts:
        for op in SETTERS:
            ev = R.text('ev4') if 'event' in op else None
            res = []
            for short in (False, True):
                name = (SHORT if short else SETTERS)[op]
                b = ctx.fn(CL, name, 'Client')
                cb = R.cb(name, 'cb4') if op.startswith('set') else None
                s = s0.copy()
                s.ev = ()
                a = [R.client] + ([] if short else [slash]) + [x for x in (ev, cb) if x is not None]
                out = []
                for s1, k, v in I.run(b, (), a, s):
                    out.append((k, plain(R, s1), I.freeze(s1, v, 6) if k == 'ret' else None, frozenset(s1.pred.items()),
                                tuple(e for e in s1.ev if e[0] not in ('lock', 'noise', 'panic-site'))))
                res.append(sorted(out, key=repr))
            ctx.ob('short', res[0] == res[1], op, '%s does not do the same as %s with the namespace /' % (SHORT[op], SETTERS[op]),
                   ctx.site(ctx.fn(CL, SHORT[op], 'Client')), sample='%s(..) = %s("/", ..) on %s' % (SHORT[op], SETTERS[op], where))


def plain(R, s):
    """registry with the type a callback parameter happens to have in each method left out"""
    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == '#':
                return go(TERMS[x[1]])
            if len(x) == 2 and x[0] == 'param':
                return ('param', '_')
            return tuple(go(y) for y in x)
        return x
    return go(R.registry(s))


def emitting(R):
    """the packet of an event says what the methods were given"""
    ctx, I = R.ctx, R.I
    s0 = R.counter(R.s0)
    mine = conn.txs(I, s0, R.receiver, 'Tx')
    for short in (False, True):
        for p in (('args', 'send'), ('binary', 'args', 'send'), ('callback:1', 'args', 'send'), ('binary', 'callback:1', 'args', 'send'),
                  ('callback:1', 'binary', 'args', 'send'), ('binary', 'binary', 'args', 'send')):
            E = Emission(R, s0, p, 6, short=short)
            how = ('emit' if short else 'namespace_emit') + ' ' + ' '.join(p)
            for s, kind in E.outs:
                i, call = packet_id(R, s)
                if not ctx.ob('emit', call is not None and not calls(s, 'new_ack'), how, '%s does not make one event packet' % how, E.site):
                    continue
                ev, ns, _, fl = call[1]
                ctx.ob('emit', text(R, s, ev) == text(R, s, E.ev), how + ':event', '%s makes an event named %s' % (how, ctx.pp.v(ev)[:80]), E.site,
                       sample='%s: event name as given' % how)
                ctx.ob('emit', text(R, s, ns) == text(R, s, E.ns), how + ':namespace', '%s sends to namespace %s' % (how, ctx.pp.v(ns)[:80]), E.site,
                       sample='%s: namespace %s' % (how, '/' if short else 'as given'))
                want = I.sym('binary6', ('prim', 'bool')) if 'binary' in p else ('b', False)
                ctx.ob('emit', s.decide(recv.same_bool(fl, want)) is True, how + ':binary', '%s makes a packet whose binary form is %s' % (
                    how, ctx.pp.v(fl)[:80]), E.site, sample='%s: binary form as given' % how)
                q = events(s, 'qsend')
                fin = calls(s, 'finish')
                ok = len(q) == 1 and len(fin) == 1 and q[0][2] == fin[0][2] and under(fin[0][1][0]) == call[2]
                ctx.ob('emit', ok, how + ':queue', '%s does not queue exactly the finished packet' % how, E.site,
                       sample='%s: queue(finish(packet))' % how)
                got = {t for e in q for t in conn.txs(I, s, e[1], 'Tx')}
                ctx.ob('emit', got == mine, how + ':where', '%s queues on %s although replies go to %s' % (how, got, mine), E.site)
            ctx.floor(len([1 for s, k in E.outs if k == 'sent']), 1, how)
        for p in (('args', 'arg', 'send'), ('args', 'arg_ref', 'send'), ('callback:1', 'args', 'arg_ref', 'arg', 'send')):
            E = Emission(R, s0, p, 6, short=short)
            how = ('emit' if short else 'namespace_emit') + ' ' + ' '.join(p)
            for s, kind in E.outs:
                sa = calls(s, 'serialize_arg')
                k = sum(1 for x in p if x.startswith('arg') and x != 'args')
                ok = len(sa) == k or kind == 'failed' and len(sa) <= k
                ctx.ob('emit', ok and all(recv.given(x[1][1]) for x in sa), how + ':args', '%s adds %d arguments' % (how, len(sa)), E.site,
                       sample='%s: arguments as given' % how)
                fails = [x for x in sa if case(ctx, s, x[2]) == 'Err']
                ctx.ob('emit', p[-2] != 'arg' or not sa or case(ctx, s, sa[-1][2]) is not None, how + ':looks',
                       '%s %s whether or not adding the argument worked' % (how, kind), E.site)
                ctx.ob('emit', (kind == 'failed') == bool(fails and p[-2] == 'arg' and sa[-1] in fails), how + ':fails',
                       '%s %s although adding the argument %s' % (how, kind, 'failed' if fails else 'worked'), E.site)
                if kind == 'sent':
                    fin = calls(s, 'finish')
                    q = events(s, 'qsend')
                    ok = len(fin) == 1 and len(q) == 1 and q[0][2] == fin[0][2] and mentions(fin[0][1][0], lambda t: t[:2] == ('hv', sa[-1][0]))
                    ctx.ob('emit', ok, how + ':queue', '%s does not queue the packet with its arguments' % how, E.site)


def text(R, s, v):
    v = under(v)
    return R.I.norm_segs(v[1] if v[0] == 'q' else R.I.as_segs(s, reg_text(R, s, v)))


def reg_text(R, s, v):
    import models
    return models.text_of(R.I, s, v)


# ------------------------------------------------------------------------------------------------------------- C16
def locked(locks):
    """locks held other than those which guard a single callback"""
    return [l for l in locks if l[0] != 'cell' and not l[1].startswith(('dyn', '(dyn'))]


class Locks:
    def __init__(self, ctx):
        self.ctx = ctx
        self.called = {}
        self.waits = 0
        self.paths = 0

    def path(self, s, where, site, kind='ret'):
        ctx = self.ctx
        self.paths += 1
        for e in s.ev:
            if e[0] == 'callback':
                self.called[where] = self.called.get(where, 0) + 1
                l = locked(e[3])
                ctx.ob('callback', not l, where, 'a callback is called while the lock of %s is held (%s)' % (
                    ' and '.join(x[1] for x in l), where), site, sample='%s: callback without lock' % where)
            elif e[0] == 'relock':
                ctx.ob('relock', not locked([e[1]]), where, 'the lock of %s is taken while it is held (%s)' % (e[1][1], where), site)
        if kind == 'ret':
            l = locked(s.locks)
            ctx.ob('held', not l, where, 'the lock of %s is still held after %s' % (' and '.join(x[1] for x in l), where), site,
                   sample='%s: all locks released' % where)

    def wait(self, a, where):
        l = locked(a[3].locks)
        self.waits += 1
        self.ctx.ob('wait', not l, a[0], 'the lock of %s is held while waiting (%s)' % (' and '.join(x[1] for x in l), where), a[0],
                    sample='wait in %s: no lock held' % a[0].split('::')[-2 if a[0].endswith('}') else -1])


@check('C16')
def c16(ctx):
    L = Locks(ctx)
    R = Reg(ctx)
    site = ctx.site(R.proc)
    # what arrives, on a new client with callbacks and on any registry
    starts = [('any registry', R.arbitrary())]
    for op in SETTERS:
        if op.startswith('set'):
            starts += [(op, s) for s in R.setter([R.s0], op, 1)[0]]
    starts += [('an event', s) for s, kind in Emission(R, R.s0, ('callback:1', 'args', 'send'), 1).outs if kind == 'sent']
    for where, s0 in starts:
        for kind in ('Event', 'Ack'):
            for o in R.arrive(s0, kind):
                L.path(o[0], '%s on %s' % (kind.lower(), where), site, o[1])
    for k, what in (('event on any registry', 'events'), ('ack on any registry', 'acks')):
        ctx.floor(L.called.get(k, 0), 1, 'callbacks called for ' + what)
    F = Frame(ctx)
    for s, k, v in F.outs:
        L.path(s, recv.describe(F, s), F.site, k)
    # what the user calls
    for where, s0 in (('a new client', R.s0), ('any registry', R.arbitrary())):
        for op in SETTERS:
            for short in (False, True):
                s1 = s0.copy()
                s1.ev = ()
                for s in R.setter([s1], op, 2, short)[0]:
                    L.path(s, (SHORT if short else SETTERS)[op] + ' on ' + where, ctx.site(ctx.fn(CL, SETTERS[op], 'Client')))
        for p in list(patterns(ctx.tier == 'thorough')) + [('drop',), ('callback:1', 'drop'), ('callback:1', 'args', 'drop')]:
            E = Emission(R, s0, p, 3)
            for s, kind in E.outs:
                L.path(s, ' '.join(p) + ' on ' + where, E.site)
    # waits
    for root in ('from_stream', 'connect'):
        cn = conn.Conn(ctx, root)
        for s, k, v in cn.outs:
            L.path(s, root, cn.site, k)
        for a in cn.awaits:
            L.wait(a, root)
        for body, g, outs, aw in cn.tasks:
            for a in aw:
                L.wait(a, 'the connection task')
            for s, k, v, tr in outs:
                L.path(s, 'the connection task', ctx.site(body), k)
        for s, outs, waits, r in conn.closings(cn)[1]:
            for a in waits:
                L.wait(a, 'close')
            for s2, k, v in outs:
                L.path(s2, 'close', ctx.site(ctx.fn(CL, 'close', 'Client')), k)
    ctx.notes['callback calls'] = sum(L.called.values())
    ctx.notes['waits'] = L.waits
    ctx.floor(L.waits, 5, 'waits')


# ------------------------------------------------------------------------------------------------------------- C19
def whole_items(ctx):
    """an event or a reply is queued as one item, its finished packet"""
    R = Reg(ctx)
    s0 = R.counter(R.s0)
    n = 0
    for p in patterns(ctx.tier == 'thorough'):
        E = Emission(R, s0, p, 6)
        how = ' '.join(p)
        for s, kind in E.outs:
            q, fin = events(s, 'qsend'), calls(s, 'finish')
            if kind != 'sent':
                ctx.ob('item', not q, how + ':unsent', 'an event which was not sent (%s) queues %d items' % (how, len(q)), E.site)
                continue
            n += 1
            ok = len(q) == 1 and len(fin) == 1 and q[0][2] == fin[0][2]
            ctx.ob('item', ok, how, 'an event made by %s is queued as %d items (%s)' % (
                how, len(q), ', '.join(ctx.pp.v(x[2])[:60] for x in q)), E.site, sample='%s: one item, the finished packet' % how)
    F = Frame(ctx)
    I = F.I
    seen = set()
    for s, k, v in F.outs:
        x = F.data(s)
        if not x or x[0] != 'Event':
            continue
        for e in events(s, 'callback'):
            fz = top(e[2])
            fz = fz[0][1] if len(fz) == 1 and fz[0][0] == 'T' else fz
            if len(fz) != 2 or case(ctx, s, fz[1]) != 'Some':
                continue
            h = payload(I, fz[1], 1)
            if h in seen:
                continue
            seen.add(h)
            m = methods(ctx, h)
            if 'args' not in m:
                raise Missing('args of the reply handle')
            s1 = s.copy()
            s1.ev = ()
            for s2, k2, b in I.run(m['args'], (), [h], s1):
                if k2 != 'ret':
                    continue
                pk = calls(s2, 'new_ack')
                if len(pk) == 1:
                    n += 1
                    recv.sending(ctx, I, s2, b, pk[0][2], lambda tx: True, 'item', s2.ev)
    ctx.floor(n, 10, 'ways of sending')
    text_first(ctx)


def text_first(ctx):
    """a finished packet is its text frame and then its attachments in order"""
    import checks.c_build as build
    B = build.Build(ctx, 2)
    n = 0
    for row in B.out:
        if 'frames' not in row:
            continue
        fr = row['frames']
        n += 1
        site = ctx.site(B.fin)
        key = ('binary ' if row['binary'] else '') + row['kind']
        ctx.ob('first', bool(fr) and build.payload(B, row['s'], fr[0], B.TI) is not None, key,
               'a finished packet (%s) starts with %s instead of its text frame' % (B.label(row), build.show(ctx, fr[:1])), site,
               sample='%s: text frame first' % B.label(row))
        oks = [a for r, a in row['seq'] if r == 'ok'] if row['binary'] else []
        got = [x[1][1] if x[0] == 'star' and x[1][0] == 'att' else None for x in fr[1:]]
        ctx.ob('first', got == oks, key + ':rest', 'after the text of a packet (%s) comes %s instead of its attachments in order' % (
            B.label(row), build.show(ctx, fr[1:])), site)
    ctx.floor(n, 8, 'finished packets')
