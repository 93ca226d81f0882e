"""what the client checks share: the public functions of the protocol crate are opaque here (their own checks decide
what they do), everything else of the client is followed"""
from domain import *
from framework import view, Missing
from interp import intern, expand, mentions, TERMS

CL = 'socket_io_client'
CR = 'socket_io_protocol'


def opaque(ctx, I):
    prog = ctx.prog
    for h, b in prog.bodies.items():
        if b["crate"] != CR or b["kind"] not in ('Fn', 'AssocFn') or not b.get("reachable"):
            continue
        t = (b.get("impl_trait") or '').split('::')[-1].split('<')[0]
        if t == 'Clone' and b["name"] == 'clone':
            I.opaque[h] = clone
        elif (t == 'Iterator' and b["name"] == 'next') or (t == '' and b["name"] == 'iter'):
            pass
        elif t in ('', 'Iterator', 'IntoIterator', 'Default') and not b["name"].startswith('encode_p'):
            own = prog.adtname(b["impl_self"]) if b.get("impl_self") else None
            I.opaque[h] = counted(b) if own == 'Args' and b["name"] in ('len', 'is_empty', 'get') else api(b)


def clone(I, st, args, c):
    v = args[0]
    while v[0] == 'R':
        v = I.load(st, v[1], v[2])
    return [(st, 'ret', v)]


def api(b):
    name = b["path"].split('socket_io_protocol::')[-1]
    # a function that cannot change what it is given returns the same for the same
    pure = not any(t[0] == 'ref' and t[1] for t in b["locals"][1:1 + b["argc"]])

    def model(I, st, args, c):
        st = st.copy()
        fz = intern(tuple(I.freeze(st, a) for a in args))
        n = 0 if pure else st.fresh(name)
        for i, a in enumerate(args):
            t = b["locals"][i + 1]
            if t[0] == 'ref' and t[1] and a[0] == 'R':
                cur = I.load(st, a[1], a[2])
                I.store(st, a[1], a[2], I.sym(('hv', name, n, i, fz), cur[2] if cur[0] == 'S' and cur[2] is not None else t[2]))
        r = I.sym(('ret', name, n, fz) + ((c.dty,) if b["generics"] else ()), c.dty)
        st.event('api', name, fz, r)
        return [(st, 'ret', r)]
    return model


def counted(b):
    """the arguments of a packet as a collection: there are len() of them (C35)"""
    name = b["path"].split('socket_io_protocol::')[-1]

    def model(I, st, args, c):
        a = I.freeze(st, args[0])
        n = I.sym(('ret', 'args', 0, intern((a,))), ('prim', 'usize'))
        fz = intern((a,) + tuple(args[1:]))
        out = []
        if b["name"] == 'get':
            r = I.sym(('ret', name, 0, fz), c.dty)
            left = lsub(n, args[1])
            cases = [(s, r) for p, i in ((pge(lsub(left, ('i', 1, NOFS))), 1), (pnot(pge(lsub(left, ('i', 1, NOFS)))), 0))
                     for s1 in st.assume(p) for s in s1.assume(I.is_variant(r, i))]
        else:
            cases = [(st, n if b["name"] == 'len' else ('b', peq0(n)))]
        for s, r in cases:
            s = s.copy()
            s.event('api', name, fz, r)
            out.append((s, 'ret', r))
        return out
    return model


class Client:
    def __init__(self, ctx, **hooks):
        self.ctx = ctx
        self.I = ctx.interp(**hooks)
        opaque(ctx, self.I)

    def receiver(self):
        """the method taking one websocket frame"""
        prog = self.ctx.prog
        c = [b for b in prog.bodies.values() if b["crate"] == CL and b["kind"] == 'AssocFn' and b["argc"] == 2 and
             b["locals"][1][0] == 'ref' and b["locals"][1][1] and is_ws(prog, b["locals"][2]) and
             prog.adtname(b["locals"][0]) == 'Result']
        if len(c) > 1:
            c2 = [b for b in c if b["name"] == 'process_websocket_packet']
            c = c2 or [b for b in c if b["vis"] == 'Public']
        if len(c) != 1:
            raise Missing('%d methods take a websocket frame' % len(c))
        return c[0]


def is_ws(prog, t):
    return t[0] == 'adt' and prog.adts[t[1]]["name"] == 'Message' and 'tungstenite' in prog.adts[t[1]]["path"]


# ------------------------------------------------------------------------------------------------ reading outcomes
def case(ctx, s, v):
    """name of the variant an enum value is known to have, or None"""
    if v[0] == 'A':
        return ctx.vname(v)
    if v[0] == 'S' and v[2] is not None and v[2][0] == 'adt':
        i = s.var.get(v[1])
        a = ctx.prog.adts[v[2][1]]
        if i is None:
            left = [j for j in range(len(a["variants"])) if j not in s.nvar.get(v[1], ())]
            i = left[0] if len(left) == 1 else None
        if i is not None:
            return a["variants"][i][0]
    return None


def payload(I, v, i, n=0):
    """field n of variant i of a value"""
    return v[3][n] if v[0] == 'A' else I.sym_field(v, n, i)


def calls(s, name=None):
    """[(name, arguments, result)] of the protocol functions called on a path"""
    return [(e[1], top(e[2]), e[3]) for e in s.ev if e[0] == 'api' and (name is None or e[1].split('::')[-1] == name)]


def events(s, *kinds):
    return [e for e in s.ev if e[0] in kinds]


def registry(lk):
    return 'Callbacks' in lk[1] or 'HashMap' in lk[1]


class Frame:
    """every outcome of giving one arbitrary frame to a receiver in an arbitrary state"""

    def __init__(self, ctx, **hooks):
        C = self.C = Client(ctx, **hooks)
        I = self.I = C.I
        self.ctx = ctx
        b = self.b = C.receiver()
        self.site = ctx.site(b)
        st = State()
        self.self0 = I.sym('self', b["locals"][1][2])
        self.slf = I.alloc(st, 'self', self.self0)
        self.frame = I.sym('frame', b["locals"][2])
        import checks.invariant as invariant
        go = lambda s: I.run(b, (), [self.slf, self.frame], s)
        starts = invariant.infer(ctx, I, go, b["locals"][1][2], self.slf, st, self.first)
        self.outs = [o for s in starts for o in go(s)]

    def first(self):
        """(state, value) of a new receiver"""
        import checks.c_reg as reg
        R = reg.Reg(self.ctx)
        return R.s0, R.I.load(R.s0, R.receiver[1], R.receiver[2])

    def partial(self, s):
        """[(state, pending packet or None, attachments it needs)]"""
        import checks.invariant as invariant
        I, ctx = self.I, self.ctx
        out = []
        for p, k in invariant.paths(ctx, I, self.b["locals"][1][2]):
            if k == 'told':
                for s1, x in invariant.follow(ctx, I, s, self.self0, p[:-1] + ('here',)):
                    for s2, n in invariant.follow(ctx, I, s1, self.self0, p):
                        out.append((s2, x, n))
        return out

    def kind(self, s):
        return case(self.ctx, s, self.frame)

    def decoded(self, s):
        """(name, payload) of the engine packet, or None"""
        d = calls(s, 'decode')
        if len(d) != 1:
            return None
        r = d[0][2]
        if case(self.ctx, s, r) != 'Ok':
            return None
        p = payload(self.I, r, 0)
        n = case(self.ctx, s, p)
        return n, p

    def data(self, s):
        """(kind, data value, packet) for a path that looked into a socket packet"""
        d = calls(s, 'data')
        if not d:
            return None
        return case(self.ctx, s, d[-1][2]), d[-1][2], d[-1][1][0]

    def field(self, v, variant, name):
        a = self.ctx.prog.adts[v[2][1] if v[0] == 'S' else v[1]]
        vi = [i for i, x in enumerate(a["variants"]) if x[0] == variant][0]
        i = [j for j, (n, _) in enumerate(a["variants"][vi][1]) if n == name][0]
        return payload(self.I, v, vi, i)


def unchanged(ctx, I, s, v, orig):
    """a value is what it was, possibly taken apart"""
    if v == orig:
        return True
    if v[0] == 'A' and orig[0] == 'S' and v[1] in ctx.prog.adts:
        a = ctx.prog.adts[v[1]]
        if a["kind"] == 'enum':
            if s.var.get(orig[1]) != v[2]:
                return False
        return all(not isinstance(x, tuple) or unchanged(ctx, I, s, x, I.sym_field(orig, i, v[2])) for i, x in enumerate(v[3]))
    return False


def under(v):
    """the value behind constant references and frozen references"""
    while v[0] in ('&', 'R'):
        if v[0] == '&':
            v = v[1]
        elif v[1][0] == 'K' and not v[2]:
            v = v[1][1]
        else:
            break
    return v


def top(x):
    """the values an event names, themselves left as they are"""
    return TERMS[x[1]] if len(x) == 2 and x[0] == '#' else x


def drive(I, b, args, st, sub=()):
    """outcomes of an async function awaited to its end"""
    out = []
    for s, k, g in I.run(b, sub, args, st):
        if k != 'ret':
            out.append((s, k, g))
        elif g[0] != 'G':
            out.append((s, k, g))
        else:
            body = I.prog.bodies[g[1]]
            out += I.run(body, g[3], [g, UNIT], s)
    return out


UNIT = ('T', ())
