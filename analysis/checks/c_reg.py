"""C16 C17 C18 C20 C21: the callback registry, seen through the client's public methods.
A client and the receiver of its connection task are taken as connecting makes them; sequences of public operations with
arbitrary arguments are applied to the client, then an arbitrary event or ack arrives at the receiver.  What is called is
compared with what the sequence of operations says."""
import itertools
from domain import *
from framework import check, view, Missing
from interp import mentions, intern, TERMS
from checks.client import *
import checks.c_conn as conn
import checks.c_recv as recv

SETTERS = {'set_event': 'set_namespace_event_callback', 'clear_event': 'clear_namespace_event_callback',
           'set_fallback': 'set_namespace_fallback_callback', 'clear_fallback': 'clear_namespace_fallback_callback'}
SHORT = {'set_event': 'set_event_callback', 'clear_event': 'clear_event_callback',
         'set_fallback': 'set_fallback_callback', 'clear_fallback': 'clear_fallback_callback'}


class Reg:
    def __init__(self, ctx, root='from_stream'):
        self.ctx = ctx
        cn = self.cn = conn.Conn(ctx, root, tasks=False, qsend=self.qsend)
        I = self.I = cn.I
        self.proc = cn.proc
        I.opaque.pop(self.proc["hash"])
        self.want = None
        self.snap = None
        for h in list(I.opaque):
            b = ctx.prog.bodies[h]
            if b["name"] in ('decode', 'deserialize', 'data', 'get', 'len', 'is_empty'):
                I.opaque[h] = self.narrow(I.opaque[h], b)
        ok = [(s, payload(I, v, 0)) for s, k, v in cn.outs if k == 'ret' and case(ctx, s, v) == 'Ok']
        if not ok:
            raise Missing('a client')
        s, c = ok[0]
        for s2, c2 in ok[1:]:
            ctx.ob('client', I.freeze(s2, c2, 6) == I.freeze(s, c, 6), 'one', 'connecting makes different kinds of clients', cn.site)
        g = cn.tasks[0][1]
        rt = conn.adt_of(self.proc["locals"][1])
        rv = find(g, rt)
        if rv is None:
            # kept behind a pointer, or made inside the task
            raise Missing('the receiver of the connection task')
        self.s0 = s.copy()
        self.s0.ev = ()
        self.client = I.alloc(self.s0, 'client', c)
        self.receiver = I.alloc(self.s0, 'receiver', rv)
        self.rv = rv
        self.cnt0 = dict(self.s0.cnt)
        self.frame = I.sym('frame', self.proc["locals"][2])
        self.root = None
        for r, v in self.s0.mem.items():
            if isinstance(v, tuple) and conn_registry(ctx, v):
                self.root = r
        if self.root is None:
            raise Missing('the callback registry')

    def qsend(self, st):
        if self.root is not None:
            st.event('snap', intern(st.mem[self.root]))

    def registry(self, s):
        return self.I.freeze(s, s.mem[self.root], 12)

    def arbitrary(self):
        """the same client with any registry and any counter"""
        I, ctx = self.I, self.ctx
        s = self.s0.copy()
        v = s.mem[self.root]
        reg = conn_registry(ctx, v)
        r = I.sym('registry', ('adt', reg[1], ()))
        s.mem[self.root] = replace(v, reg, r)
        a = ctx.prog.adts[reg[1]]
        if a["kind"] == 'struct':
            for i, (n, t) in enumerate(a["variants"][0][1]):
                if t[0] == 'prim' and t[1] != 'bool':
                    self.bounded(s, I.sym_field(r, i, 0))
        return self.counter(s)

    def bounded(self, s, x):
        # as many events are never sent
        if x[0] == 'i' and x[2] != NOFS:
            s.set_rng(x[2][0][0] if isinstance(x[2], tuple) else next(iter(x[2]))[0], 0, 1 << 62)

    def counter(self, s):
        I = self.I
        s = s.copy()
        c = I.load(s, self.client[1], self.client[2])
        a = self.ctx.prog.adts[c[1]]
        f = list(c[3])
        for i, (n, t) in enumerate(a["variants"][0][1]):
            if t[0] == 'prim' and t[1] != 'bool' and f[i][0] == 'i':
                f[i] = I.sym('counter', t)
                self.bounded(s, f[i])
        I.store(s, self.client[1], self.client[2], ('A', c[1], c[2], tuple(f)))
        return s

    def narrow(self, inner, b):
        """only what arrives as the packet in question; everything else is C22 C26"""
        I = self.I

        def model(I, st, args, c):
            out = []
            for s, k, r in inner(I, st, args, c):
                if k == 'ret' and self.want == 'Event' and b["name"] in ('len', 'is_empty') and r[0] in ('b', 'i'):
                    # an event has a name
                    out += [(x, k, r) for x in (s.assume(r[1], False) if r[0] == 'b' else s.assume(peq0(r), False))]
                    continue
                if k != 'ret' or self.want is None or r[0] != 'S' or r[2] is None:
                    out.append((s, k, r))
                    continue
                n = self.ctx.prog.adtname(r[2])
                if n == 'Option':
                    out += [(x, k, r) for x in s.assume(I.is_variant(r, 1))]
                elif n == 'Result':
                    for x in s.assume(I.is_variant(r, 0)):
                        p = payload(I, r, 0)
                        pn = self.ctx.prog.adtname(p[2]) if p[0] == 'S' and p[2] is not None else None
                        w = {'Packet': 'Message', 'DeserializeResult': 'Packet'}.get(pn)
                        out += [(y, k, r) for y in x.assume(I.is_variant(p, self.ctx.variant(p[2][1], w)))] if w else [(x, k, r)]
                elif n == 'Data':
                    out += [(x, k, r) for x in s.assume(I.is_variant(r, self.ctx.variant(r[2][1], self.want)))]
                else:
                    out.append((s, k, r))
            return out
        return model

    def op(self, states, name, args):
        """public method of the client called in each of the states"""
        b = self.ctx.fn(CL, name, 'Client')
        out = []
        for s in states:
            for s2, k, v in self.I.run(b, (), [self.client] + list(args), s):
                self.ctx.ob('ops', k == 'ret', name, '%s panics' % name, self.ctx.site(b))
                if k == 'ret':
                    out.append(s2)
        return out

    def text(self, n):
        return self.I.sym(n, ('ref', False, ('str',)))

    def cb(self, name, n):
        b = self.ctx.fn(CL, name, 'Client')
        return self.I.sym(n, b["locals"][b["argc"]])

    def setter(self, states, op, i, short=False):
        """(states after, what the operation says); the arguments of operation i are arbitrary"""
        name = (SHORT if short else SETTERS)[op]
        ns = None if short else self.text('ns%d' % i)
        ev = self.text('ev%d' % i) if 'event' in op else None
        cb = self.cb(name, 'cb%d' % i) if op.startswith('set') else None
        st = self.op(states, name, [x for x in (ns, ev, cb) if x is not None])
        return st, (op, ns if ns is not None else ('q', (('lit', b'/'),)), ev, 'cb%d' % i if cb else None)

    def arrive(self, s, kind, packet='', replay=False):
        """outcomes of one event or ack arriving: [(state, kind, value, namespace, name or id, called)];
        replay: the very packet that arrived before"""
        I, ctx = self.I, self.ctx
        s = s.copy()
        s.ev = ()
        if replay:
            I.store(s, self.receiver[1], self.receiver[2], self.rv)
            s.cnt = {k: v for k, v in s.cnt.items() if k in self.cnt0 or not (isinstance(k, str) and '::' in k)}
        self.want = kind
        out = []
        frame = I.sym('frame' + packet, self.proc["locals"][2])
        for s1 in s.assume(I.is_variant(frame, ctx.variant(self.proc["locals"][2][1], 'Text'))):
            for s2, k, v in I.run(self.proc, (), [self.receiver, frame], s1):
                d = calls(s2, 'data')
                if not d:
                    ctx.ob('arrive', False, 'lost', 'an arriving packet is not looked at', ctx.site(self.proc))
                    continue
                pk = under(d[-1][1][0])
                dv = d[-1][2]
                ns = self.namespace(s2, pk)
                called = []
                for e in events(s2, 'callback'):
                    who = set()
                    mentions(e[1], lambda t: who.add(t) if isinstance(t, str) else False)
                    called.append((e[1], e[2], e[3]))
                out.append((s2, k, v, ns, dv, called))
        self.want = None
        return out

    def namespace(self, s, pk):
        I = self.I
        b = self.ctx.fn(CR, 'namespace', 'Packet')
        from interp import Call
        s = s.copy()
        c = Call()
        c.dty = b["locals"][0]
        (s1, k, v), = I.opaque[b["hash"]](I, s, [I.alloc(s, 'pk', pk)], c)
        return ('q', view(self.ctx, I, s1, v)[0][1])

    def same(self, s, a, b):
        """[(state, equal?)] for two texts"""
        I = self.I
        p = I.seq_eq(s, self.segs(s, a), self.segs(s, b))
        d = s.decide(p)
        if d is not None:
            return [(s, d)]
        return [(x, val) for val in (True, False) for x in s.assume(p, val)]

    def segs(self, s, v):
        return v[1] if v[0] == 'q' else view(self.ctx, self.I, s, v)[0][1]


def find(x, adt):
    if isinstance(x, tuple):
        if len(x) == 4 and x[0] == 'A' and x[1] == adt:
            return x
        for y in x:
            r = find(y, adt)
            if r:
                return r
    return None


def conn_registry(ctx, v):
    """the value of the registry type inside the contents of a cell"""
    for h, a in ctx.prog.adts.items():
        if a.get("local") and a["name"] == 'Callbacks':
            return find(v, h)
    # renamed: the local type behind the mutex the client holds
    if v[0] == 'A' and v[1] == 'Mutex':
        x = v[3][0]
        if x[0] == 'A' and ctx.prog.adts.get(x[1], {}).get("local"):
            return x
    return None


def replace(v, old, new):
    if v == old:
        return new
    if isinstance(v, tuple):
        return tuple(replace(x, old, new) for x in v)
    return v


def who(f):
    """the callbacks a called value comes from"""
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == '#':
                go(TERMS[x[1]])
                return
            for y in x:
                go(y)
        elif isinstance(x, str) and x[:2] == 'cb' and x[2:].isdigit():
            out.add(x)
    go(f)
    return out


def event_name(R, s, dv):
    """text of the first argument of the event as the receiver read it"""
    ctx, I = R.ctx, R.I
    for n, a, r in calls(s, 'deserialize'):
        if n.split('::')[-2:] == ['Arg', 'deserialize'] or 'Arg' in n:
            return a, r
    return None, None


def expected(R, s, hist, ns, name):
    """[(state, callback or None)] : the event's own callback, else the fallback of its namespace"""
    def scan(s, set_, clear, by_event):
        todo = [(s, len(hist) - 1)]
        out = []
        while todo:
            s, i = todo.pop()
            if i < 0:
                out.append((s, None))
                continue
            op, n, e, cb = hist[i]
            if op not in (set_, clear):
                todo.append((s, i - 1))
                continue
            for s1, eq in R.same(s, n, ns):
                if not eq:
                    todo.append((s1, i - 1))
                    continue
                for s2, eq2 in (R.same(s1, e, name) if by_event else [(s1, True)]):
                    if eq2:
                        out.append((s2, cb if op == set_ else None))
                    else:
                        todo.append((s2, i - 1))
        return out
    res = []
    for s1, c in scan(s, 'set_event', 'clear_event', True):
        if c is not None:
            res.append((s1, c))
        else:
            res += scan(s1, 'set_fallback', 'clear_fallback', False)
    return res


def dispatch(R, s, hist, rule, how, packet=''):
    """an event arrives after a history; returns the states after it"""
    ctx, I = R.ctx, R.I
    site = ctx.site(R.proc)
    after = []
    for s2, k, v, ns, dv, called in R.arrive(s, 'Event', packet):
        if not ctx.ob(rule, k == 'ret', how + ':panics', 'an event arriving after %s panics' % how, site):
            continue
        args, name = event_name(R, s2, dv)
        if name is None:
            ctx.ob(rule, False, 'name', 'the name of an event is not read', site)
            continue
        if case(ctx, s2, name) != 'Ok':
            continue            # not a name: C26
        arg = under(args[0])
        g = [(a, r) for n, a, r in calls(s2, 'get')]
        first = any(r[0] == 'S' and payload(I, r, 1) == arg and a[1] == I_(0) for a, r in g) or first_item(arg)
        ctx.ob(rule, first, 'first', 'the name of an event is not its first argument', site)
        t = name[2][2][0] if name[2] is not None and name[2][0] == 'adt' and name[2][2] else None
        ctx.ob(rule, t is None or t[0] != 'ref', 'borrowed', 'the name of an event is read as borrowed text, which fails for names with '
               'escapes', site)
        nm = payload(I, name, 0)
        import models
        nm = ('q', I.norm_segs(I.as_segs(s2, models.text_of(I, s2, nm))))
        for s3, want in expected(R, s2, hist, ns, nm):
            got = [sorted(who(f)) for f, a, l in called]
            ok = got == ([[want]] if want else [])
            ctx.ob(rule, ok, how, 'after %s an event %s although %s' % (
                how, 'calls ' + ' and '.join('+'.join(describe(hist, x) for x in g) or 'something else' for g in got) if got else 'calls nothing',
                'the callback last set for it is that of %s' % describe(hist, want) if want else 'no callback is set for it'), site,
                sample='%s; event -> %s' % (how, describe(hist, want) if want else 'nothing'))
            ctx.ob(rule, case(ctx, s3, v) == 'Ok', how + ':err', 'an event arriving after %s is an error' % how, site)
            after.append(s3)
    return after


def first_item(arg):
    """the first item of an iteration"""
    return arg[0] == 'S' and isinstance(arg[1], tuple) and mentions(arg[1], lambda t: t[:1] == ('ret',) and 'get' in str(t[1]) and
                                                                    mentions(t[3], lambda u: u == I_(0)))


def describe(hist, cb):
    for i, h in enumerate(hist):
        if h[3] == cb:
            return 'operation %d (%s)' % (i + 1, h[0])
    return str(cb)


def I_(n):
    return ('i', n, NOFS)


def histories(n):
    for k in range(n + 1):
        for h in itertools.product(SETTERS, repeat=k):
            yield h


@check('C20')
def c20(ctx):
    R = Reg(ctx)
    depth = 4 if ctx.tier == 'thorough' else 3
    n = 0
    tree = {(): [(R.s0, [])]}
    for h in histories(depth):
        if h:
            nxt = []
            for s, hist in tree[h[:-1]]:
                states, what = R.setter([s], h[-1], len(h))
                nxt += [(x, hist + [what]) for x in states]
            tree[h] = nxt
        # histories which never set anything say nothing new
        if len(h) == depth and not any(x.startswith('set') for x in h):
            continue
        for s, hist in tree[h]:
            n += 1
            dispatch(R, s, hist, 'history', ', '.join(h) or 'nothing')
    ctx.notes['histories'] = n
    ctx.notes['operations in a row'] = depth
    # two events in a row: dispatching does not change what is set
    for h in (('set_event',), ('set_fallback',), ('set_event', 'set_fallback')):
        for s, hist in tree[h]:
            for s2 in dispatch(R, s, hist, 'again', ', '.join(h) + ', an event'):
                dispatch(R, s2, hist, 'again', ', '.join(h) + ', an event', '2')
    arbitrary(R)
    import checks.c_emit as ce
    ce.events_apart(R)
    conversions(ctx, R.I, 'EventCallback', 'call')


def arbitrary(R):
    """one operation on any registry whatever: only its own entry changes"""
    ctx, I = R.ctx, R.I
    site = ctx.site(R.proc)
    s0 = R.arbitrary()
    for op in SETTERS:
        for s, k, v, ns, dv, called in R.arrive(s0, 'Event'):
            args, name = event_name(R, s, dv)
            if k != 'ret' or name is None or case(ctx, s, name) != 'Ok':
                continue
            import models
            nm = ('q', I.norm_segs(I.as_segs(s, models.text_of(I, s, payload(I, name, 0)))))
            n1, e1 = R.text('ns1'), R.text('ev1') if 'event' in op else None
            # whether the operation concerns the same entry is settled first
            for s2, same in R.same(s, n1, ns):
                for s3, same2 in (R.same(s2, e1, nm) if e1 is not None and same else [(s2, False)]):
                    states, (_, _, _, cb) = R.setter([s3], op, 1)
                    for s3 in states:
                        outs = R.arrive(s3, 'Event', replay=True)
                        for s4, k4, v4, ns4, dv4, called4 in outs:
                            a4, name4 = event_name(R, s4, dv4)
                            # the same packet arrives again: same frame, same decoder results
                            if k4 != 'ret' or name4 is None or case(ctx, s4, name4) != 'Ok':
                                continue
                            nm4 = ('q', I.norm_segs(I.as_segs(s4, models.text_of(I, s4, payload(I, name4, 0)))))
                            for s5, eqn in R.same(s4, ns, ns4):
                                for s6, eqe in (R.same(s5, nm, nm4) if eqn else ()):
                                    if not eqe:
                                        continue
                                    before = [f for f, a, l in called]
                                    now = [f for f, a, l in called4]
                                    if not same or (e1 is not None and not same2):
                                        ok = now == before
                                        ctx.ob('frame', ok, op, '%s changes what is called for another %s' % (
                                            op, 'namespace' if not same else 'event'), site, sample='%s leaves other entries alone' % op)
                                    elif op == 'set_event':
                                        ctx.ob('frame', [sorted(who(f)) for f in now] == [[cb]], op + ':set',
                                               'an event does not call the callback just set for it', site,
                                               sample='set_event on any registry -> called')


def passed(x, given):
    """a value handed on, perhaps borrowed again"""
    x = under(x)
    return x[:2] == given[:2] or (given[0] == 'S' and x[0] == 'S' and x[1] == ('*', given[1]))


def conversions(ctx, I, name, method):
    """a function given as callback is called with the arguments of the call, once per call"""
    prog = ctx.prog
    n = 0
    for b in prog.impls.get(("From", "from"), []):
        if b["crate"] != CL or b["impl_self"][0] != 'adt' or prog.adts[b["impl_self"][1]]["name"] != name:
            continue
        t = b["locals"][1]
        if t[0] != 'param':
            continue
        call = ctx.fn(CL, method, name)
        site = ctx.site(b)
        for s, k, v in I.run(b, (), [I.sym('cb1', t)], State()):
            if not ctx.ob('conversion', k == 'ret', name, 'making a %s panics' % name, site):
                continue
            s = s.copy()
            by_ref = call["locals"][1][0] == 'ref'
            recv_ = I.alloc(s, 'callback', v) if by_ref else v
            for rounds in (1, 2) if by_ref else (1,):
                a = [I.sym('given%d' % i, t2) for i, t2 in enumerate(call["locals"][2:1 + call["argc"]])]
                st = [s]
                for i in range(rounds):
                    nxt = []
                    for s1 in st:
                        s1 = s1.copy()
                        s1.ev = ()
                        for s2, k2, v2 in I.run(call, (), [recv_] + a, s1):
                            cbs = events(s2, 'callback')
                            ok = k2 == 'ret' and len(cbs) == 1 and who(cbs[0][1]) == {'cb1'}
                            fz = top(cbs[0][2]) if cbs else ()
                            fz = fz[0][1] if len(fz) == 1 and fz[0][0] == 'T' else fz
                            n += 1
                            ctx.ob('conversion', ok, name + ':once', 'calling a %s calls the given function %d times' % (name, len(cbs)), site)
                            ok = ok and len(fz) == len(a) and all(passed(x, y) for x, y in zip(fz, a))
                            ctx.ob('conversion', ok, name + ':args', 'calling a %s calls the given function with %s' % (name, ctx.pp.term(tuple(fz))[:150]), site,
                                   sample='%s::from(f).%s(..) -> f(..)' % (name, method))
                            nxt.append(s2)
                    st = nxt
    ctx.floor(n, 1, 'conversions into %s' % name)
