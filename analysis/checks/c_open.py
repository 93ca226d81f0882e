"""C43: the open packet.  What the decoder makes of the json after the '0' is followed through the Deserialize implementation of
the type it is parsed as: the deserializer is serde_json's, its operations are specified here, and the map is any sequence of the
three keys of the protocol and other keys, explored exactly (the keys seen so far are part of the state of the loop)."""
from domain import *
from framework import check, Missing
from models import targ, seqv, pred_fork, ret

CR = 'socket_io_protocol'
KEYS = ['sid', 'pingTimeout', 'pingInterval']
OTHER = len(KEYS)
FIELDS = {'sid': 0, 'ping_timeout': 1, 'ping_interval': 2}
TYPES = ['String', 'u64', 'u64']
I_ = lambda n: ('i', n, NOFS)


class Open:
    def __init__(self, ctx):
        self.ctx = ctx
        I = self.I = ctx.interp()
        I.models = dict(I.models)
        I.hooks['exact'] = lambda b: b["name"] == 'visit_map'
        for n in ('serde_json::from_str', 'serde_json:de::from_str', 'de::from_str', 'serde_json::from_slice', 'serde_json:de::from_slice',
                  'de::from_slice'):
            I.models[n] = self.from_str
        for m in ('struct', 'map', 'any'):
            I.models['Deserializer::deserialize_' + m] = self.d_map
        for m in ('identifier', 'str', 'string', 'any'):
            I.models['Deserializer::deserialize_' + m] = self.d_key
        I.models['Deserializer::deserialize_any'] = self.d_any
        I.models['MapAccess::next_key'] = self.next_key
        I.models['MapAccess::next_value'] = self.next_value
        for n in ('de::missing_field', 'serde::__private::de::missing_field', 'private:de::missing_field', '__private:de::missing_field'):
            I.models[n] = self.missing
        self.roots = set()

    def impl(self, trait, name, t):
        """the workspace implementation of a trait method for a type"""
        c = [b for b in self.ctx.prog.impls.get((trait, name), []) if t is not None and t[0] == 'adt' and b["impl_self"] and
             b["impl_self"][0] == 'adt' and b["impl_self"][1] == t[1]]
        return c[0] if len(c) == 1 else None

    def from_str(self, I, st, args, c):
        segs = I.norm_segs(seqv(I, st, args[0]))
        t = targ(c.dty)
        b = self.impl('Deserialize', 'deserialize', t)
        if b is None:
            raise Missing('the Deserialize implementation of %s, which the open packet is parsed as' % I.prog.tyname(t))
        st = st.copy()
        self.ctx.ob('text', segs == self.want, 'text', 'the open packet is parsed from %s instead of what follows the first byte' % (segs,), self.site,
                    sample='parsed from the text after the first byte')
        # not json, not an object, or something after the object
        out = []
        for s, ok in pred_fork(st, ('p', ('opensyntax',))):
            if not ok:
                out += ret(s, I.err(I.sym(('openerr',), targ(c.dty, 1))))
                continue
            segs = I.as_segs(s, I.sym(('otherkey',), ('str',)))
            for n in KEYS:
                p = I.seq_eq(s, segs, (('lit', n.encode()),))
                s = s.assume(p, False)[0].copy()
            d = I.alloc(s, 'open', ('T', (I_(-1), I_(0), I_(0))))
            self.roots.add(d[1])
            for s2, k, v in I.run(b, (), [d], s):
                out.append((s2, k, v))
        return out

    def cell(self, I, st, a):
        n = 0
        while a[0] == 'R' and n < 5:
            v = I.load(st, a[1], a[2])
            if v[0] == 'T':
                return a, v[1]
            a = v
            n += 1
        raise Missing('the map of the open packet')

    def visit(self, I, st, visitor, name, arg):
        h = I.adt_of(st, visitor)
        b = self.impl('Visitor', name, ('adt', h)) if h else None
        return b and I.run(b, (), [visitor, arg], st)

    def d_map(self, I, st, args, c):
        r, f = self.cell(I, st, args[0])
        out = self.visit(I, st, args[-1], 'visit_map', r)
        if out is None:
            raise Missing('visit_map of the open packet')
        return out

    def d_key(self, I, st, args, c):
        r, f = self.cell(I, st, args[0])
        k = f[0][1]
        key = I.const_ref(('q', (('lit', KEYS[k].encode()),))) if k < OTHER else I.const_ref(I.sym(('otherkey',), ('str',)))
        out = self.visit(I, st, args[-1], 'visit_borrowed_str', key) or self.visit(I, st, args[-1], 'visit_str', key)
        if out is None:
            raise Missing('the keys of the open packet')
        return out

    def d_any(self, I, st, args, c):
        r, f = self.cell(I, st, args[0])
        return (self.d_map if f[0][1] < 0 else self.d_key)(I, st, args, c)

    def set(self, I, st, r, f, k, seen=None, bad=None):
        st = st.copy()
        I.store(st, r[1], r[2], ('T', (I_(k), f[1] if seen is None else seen, f[2] if bad is None else bad)))
        return st

    def next_key(self, I, st, args, c):
        r, f = self.cell(I, st, args[0])
        out = []
        t = targ(targ(c.dty))
        e = I.err(I.sym(('openerr',), targ(c.dty, 1)))
        out += ret(self.set(I, st, r, f, -1), I.ok(I.none))
        out += ret(self.set(I, st, r, f, -1, bad=I_(1)), e)
        b = self.impl('Deserialize', 'deserialize', t)
        for k in range(OTHER + 1):
            s = self.set(I, st, r, f, k, I_(f[1][1] | (1 << k if k < OTHER else 0) | (8 if k < OTHER and f[1][1] >> k & 1 else 0)))
            if b is not None:
                for s2, kind, v in I.run(b, (), [r], s):
                    if kind == 'ret' and v[0] == 'A' and v[1] == I.RESULT:
                        v = I.ok(I.some(v[3][0])) if v[2] == 0 else v
                    out.append((s2, kind, v))
            elif t is not None and (t[0] == 'ref' or I.prog.tyname(t) in ('String', 'str')):
                out += ret(s, I.ok(I.some(('q', (('lit', KEYS[k].encode()),)) if k < OTHER else I.sym(('otherkey',), t))))
            else:
                raise Missing('keys of the open packet read as ' + I.prog.tyname(t))
        return out

    def next_value(self, I, st, args, c):
        r, f = self.cell(I, st, args[0])
        k = f[0][1]
        t = targ(c.dty)
        n = I.prog.tyname(t)
        e = I.err(I.sym(('openerr',), targ(c.dty, 1)))
        out = []
        known = n == TYPES[k] if k < OTHER else n.split('::')[-1] == 'IgnoredAny'
        out += ret(self.set(I, st, r, f, k), I.ok(I.sym(('openval', k, n), t)))
        # a value which cannot be read as it has to be is an error of the peer
        out += ret(self.set(I, st, r, f, k, bad=I_(1) if known else None), e)
        return out

    def missing(self, I, st, args, c):
        t = targ(c.dty)
        if t is not None and t[0] == 'adt' and t[1] == I.OPTION:
            return ret(st, I.ok(I.none))
        return ret(st, I.err(I.sym(('openerr',), targ(c.dty, 1))))


@check('C43')
def c43(ctx):
    o = Open(ctx)
    I = o.I
    prog = ctx.prog
    dec = ctx.fn(CR, 'decode', 'Decoder')
    o.site = ctx.site(dec)
    new = ctx.fn(CR, 'new', 'Decoder')
    starts = [I.deep(s, v) for s, k, v in ctx.run(I, new, []) if k == 'ret']
    ctx.floor(len(starts), 1, 'new decoders')
    fty = dec["locals"][2]
    ti = next(i for i, x in enumerate(prog.adts[fty[1]]["variants"]) if x[0] == 'Text')
    rest = I.sym(('json',), ('adt', 'String', ()))
    n = {'accept': 0, 'refuse': 0}
    for d in starts:
        st = State()
        r = I.alloc(st, 'decoder', d)
        frame = I.sym('frame', fty)
        seg = I.as_segs(st, I.sym_field(frame, 0, ti))
        ln, b0 = I.segs_len(seg), I.seg_elem(seg[0], I_(0))
        o.want = I.norm_segs((('sub', seg[0][1], I_(1), ln, None),))
        for s in st.assume(pand(I.is_variant(frame, ti), pand(pge(ladd(ln, I_(-1))), peq0(ladd(b0, I_(-48)))))):
            for s2, k, v in ctx.run(I, dec, [r, frame], s):
                judge(ctx, o, s2, k, v, n)
    written(ctx)
    ctx.floor(n['accept'], 1, 'accepted open packets')
    ctx.floor(n['refuse'], 1, 'refused open packets')
    ctx.floor(sum(f in n for f in FIELDS), 3, 'fields of the open packet')


def judge(ctx, o, s, k, v, n):
    I = o.I
    if not ctx.ob('result', k == 'ret', 'panic', 'an open packet can panic the decoder: %s' % (v,), o.site):
        return
    if not ctx.ob('result', v[0] == 'A' and v[1] == I.RESULT, 'unknown', 'whether an open packet is accepted is not known', o.site):
        return
    maps = [s.mem[r][1] for r in o.roots if r in s.mem]
    seen, bad = (maps[0][1][1], maps[0][2][1]) if maps else (0, 1)
    if v[2] == 1:
        n['refuse'] += 1
        ctx.ob('refuse', bad or seen != 7, 'refuse', 'an open packet with sid, pingTimeout and pingInterval%s can be refused: %s' % (
            '', ctx.pp.v(I.freeze(s, v))), o.site, sample='refused: not json, not these types, a key missing or given twice')
        return
    n['accept'] += 1
    for i, key in enumerate(KEYS):
        ctx.ob('accept', seen >> i & 1, 'missing:' + key, 'an open packet without %s is accepted' % key, o.site, sample='accepted: has ' + key)
    ctx.ob('accept', not bad, 'bad', 'an open packet is accepted although reading it failed', o.site)
    p = v[3][0]
    if not ctx.ob('accept', p[0] == 'A' and ctx.vname(p) == 'Open', 'kind', 'an open packet is decoded as %s' % ctx.pp.v(p), o.site):
        return
    op = I.deep(s, p[3][0])
    if not ctx.ob('accept', op[0] == 'A' and op[1] in ctx.prog.adts, 'value', 'the contents of an open packet are not known', o.site):
        return
    for i, f in enumerate(ctx.prog.adts[op[1]]["variants"][0][1]):
        if f[0] in FIELDS:
            k = FIELDS[f[0]]
            ctx.ob('accept', op[3][i] == I.sym(('openval', k, TYPES[k]), f[1]), 'field:' + f[0],
                   '%s of the open packet is %s instead of the value of %s' % (f[0], ctx.pp.v(op[3][i]), KEYS[k]), o.site,
                   sample='%s <- %s' % (f[0], KEYS[k]))
            n[f[0]] = 1


def written(ctx):
    """Open::serialize gives a serializer exactly the three keys with their values"""
    I = ctx.interp()
    calls = {}
    I.hooks['ext'] = lambda st, name, args, n, fz: calls.__setitem__((name, n, fz), (st.copy(), list(args)))
    bs = [b for b in ctx.prog.impls.get(('Serialize', 'serialize'), []) if b["impl_self"] and b["impl_self"][0] == 'adt' and
          (ctx.prog.adts.get(b["impl_self"][1]) or {}).get("name", '').split('::')[-1] == 'Open']
    if len(bs) != 1:
        raise Missing('the Serialize implementation of Open')
    b = bs[0]
    site = ctx.site(b)
    st = State()
    v = I.sym('open', b["impl_self"])
    r = I.alloc(st, 'theopen', v)
    names = [f[0] for f in ctx.prog.adts[b["impl_self"][1]]["variants"][0][1]]
    want = {KEYS[FIELDS[f]]: I.freeze(st, I.sym_field(v, i, 0)) for i, f in enumerate(names) if f in FIELDS}
    n = 0
    for s, k, res in ctx.run(I, b, [r, I.sym('serializer', ('param', 'S'))], st):
        if not ctx.ob('written', k == 'ret', 'panic', 'serializing an open packet panics', site):
            continue
        ev = [e for e in s.ev if e[0] == 'ext' and e[1].split('::')[0] in ('Serializer', 'SerializeStruct', 'SerializeMap')]
        if not ctx.ob('written', ev and ev[0][1] == 'Serializer::serialize_struct', 'form', 'an open packet is not serialized as a struct', site):
            continue
        got = {}
        for e in ev:
            est, args = calls[(e[1], e[3], e[2])]
            if e[1] == 'SerializeStruct::serialize_field':
                key = b''.join(x[1] for x in I.norm_segs(seqv(I, est, args[1])) if x[0] == 'lit').decode()
                ctx.ob('written', key in want and key not in got, 'key:' + key, 'an open packet is written with the key %s' % key, site, sample='key ' + key)
                val = args[2]
                for _ in range(4):
                    if val[0] == 'R':
                        val = I.load(est, val[1], val[2])
                got[key] = I.freeze(est, val)
                ctx.ob('written', got[key] == want.get(key), 'value:' + key, '%s of an open packet is written with the value of another field' % key, site,
                       sample='value of ' + key)
        if ev[-1][1].endswith('::end'):
            n += 1
            ctx.ob('written', set(got) == set(want), 'keys', 'an open packet is written with only the keys %s' % sorted(got), site, sample='all keys')
    ctx.floor(n, 1, 'complete serializations of an open packet')
