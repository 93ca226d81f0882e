"""C13 C14: the deserializer which replaces placeholders by attachments"""
from domain import *
from interp import mentions
from framework import check, view, Missing
from checks.c_ser import Ser, symargs, arg_same

CR = 'socket_io_protocol'
I_ = lambda n: ('i', n, NOFS)
NUMBERS = ['i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'f32', 'f64']
LIKE_ANY = ['bool', 'char', 'str', 'string', 'bytes', 'byte_buf', 'unit', 'unit_struct', 'seq', 'tuple', 'tuple_struct', 'map', 'struct',
            'identifier'] + NUMBERS
EXACT = ['any', 'option', 'newtype_struct', 'enum', 'ignored_any', 'i128', 'u128']
# the JSON deserializer only tells what it meets, instead of what is asked for, for these
NEED_ANY = {'any', 'str', 'string', 'bytes', 'byte_buf', 'seq', 'tuple', 'tuple_struct'}
SCALARS = ['bool', 'i8', 'i16', 'i32', 'i64', 'i128', 'u8', 'u16', 'u32', 'u64', 'u128', 'f32', 'f64', 'char', 'str', 'borrowed_str', 'string',
           'bytes', 'borrowed_bytes', 'byte_buf', 'none', 'unit']
WIDER = {'i8': {'i64'}, 'i16': {'i64'}, 'i32': {'i64'}, 'u8': {'u64'}, 'u16': {'u64'}, 'u32': {'u64'}, 'f32': {'f64'}, 'char': {'str'},
         'string': {'str'}, 'byte_buf': {'bytes'}}
NUM = {'u64', 'i64', 'f64'}
# what the JSON deserializer calls for a request
JSON = {'any': {'bool', 'borrowed_str', 'str', 'unit', 'seq', 'map'} | NUM, 'bool': {'bool'}, 'i128': {'i128'}, 'u128': {'u128'},
        'option': {'none', 'some'}, 'unit': {'unit'}, 'unit_struct': {'unit'}, 'newtype_struct': {'newtype_struct', 'map'}, 'map': {'map'},
        'struct': {'map', 'seq'}, 'enum': {'enum'}, 'ignored_any': {'unit'}, 'seq': {'seq'}, 'tuple': {'seq'}, 'tuple_struct': {'seq'},
        'bytes': {'bytes', 'borrowed_bytes', 'seq'}, 'byte_buf': {'bytes', 'borrowed_bytes', 'seq'}}
for _m in NUMBERS:
    JSON[_m] = NUM
for _m in ('char', 'str', 'string', 'identifier'):
    JSON[_m] = {'borrowed_str', 'str'}
BYTES = {'visit_borrowed_bytes'}
OWNED = BYTES | {'visit_bytes', 'visit_byte_buf'}
FORMS = {'bytes': BYTES, 'str': BYTES, 'byte_buf': OWNED, 'string': OWNED, 'any': {'visit_seq'}, 'seq': {'visit_seq'}, 'tuple': {'visit_seq'},
         'tuple_struct': {'visit_seq'}, 'tuple_variant': {'visit_seq'}}
TRAITS = {'Deserializer', 'Visitor', 'SeqAccess', 'MapAccess', 'EnumAccess', 'VariantAccess', 'DeserializeSeed', 'Deserialize'}
RULES = {'C35': {'top'}, 'C13': {'forward', 'nested', 'key', 'map', 'top'}, 'C14': {'nested', 'placeholder', 'request', 'top', 'value'}}
TARGET = ('S', 'target', ('param', 'T'))


class De:
    val = Ser.val
    is_term = Ser.is_term
    impl = Ser.impl
    same = Ser.same

    def __init__(self, ctx):
        self.ctx = ctx
        self.I = ctx.interp()
        self.calls = {}
        self.keys = {}
        I = self.I
        I.hooks['ext'] = lambda st, name, args, n, fz: self.calls.__setitem__((name, n, fz), (st.copy(), list(args)))
        I.models = dict(I.models)
        I.models['MapAccess::next_key'] = self.next_key
        I.models['MapAccess::next_value'] = self.next_key
        self.top()
        self.work = []
        self.done = {}

    def ob(self, rule, ok, key, what, site=None, sample=None):
        if rule in RULES[self.ctx.pid]:
            return self.ctx.ob(rule, ok, key, what, site, sample)
        return ok

    def next_key(self, I, st, args, c):
        out = I.unknown(st, args, c, c.name)
        for s, k, v in out:
            self.keys[v[1]] = c.gargs[1]
        return out

    def events(self, s, since=0):
        out = []
        for e in s.ev[since:]:
            if e[0] == 'ext' and e[1].split('::')[0] in TRAITS and e[1] != 'Deserializer::from_str':
                st, args = self.calls[(e[1], e[3], e[2])]
                out.append((e[1], args, st, ('ret', e[1], e[3], e[2])))
            elif e[0] in ('star', 'rec'):
                out.append((e[0], [e], None, None))
        return out

    # ------------------------------------------------------------------------------------------------ the starting point
    def top(self):
        """Arg::deserialize: what the user's type is deserialized from, with and without attachments"""
        ctx, I = self.ctx, self.I
        b = ctx.fn(CR, 'deserialize', 'Arg')
        site = self.site = ctx.site(b)
        st = State()
        arg = I.sym('self', b["locals"][1])
        root, proj = I.deref(st, arg)
        fields = ctx.prog.adts[b["locals"][1][2][1]]["variants"][0][1]
        text = bufs = None
        for i, f in enumerate(fields):
            if f[1][0] == 'ref' and f[1][2] == ('str',):
                text = i
            elif f[1][0] == 'ref' and f[1][2][0] == 'slice':
                bufs = i
        if text is None or bufs is None:
            raise Missing('text and attachments of Arg')
        av = I.load(st, root, proj)
        want = I.as_segs(st, I.load(st, *I.deref(st, I.sym_field(av, text, 0))))
        bv = I.load(st, *I.deref(st, I.sym_field(av, bufs, 0)))
        nb = I.segs_len(I.as_segs(st, bv))
        n = {0: 0, 1: 0}
        self.cap = None
        for s, k, v in ctx.run(I, b, [arg], st):
            if not self.ob('top', k == 'ret', 'panic', 'deserializing an argument panics: %s' % (v,), site):
                continue
            ev = self.events(s)
            if not ev:
                js = [e for e in s.ev if e[0] == 'json']
                ok = len(js) == 1 and I.norm_segs(js[0][2]) == I.norm_segs(want)
                self.ob('top', ok, 'text', 'an argument is not deserialized from its text', site, sample='plain: from its own text')
                if s.decide(peq0(nb)) is not True:
                    self.ob('request', False, 'ignored', 'an argument of a packet with attachments is deserialized without them', site)
                n[0] += 1
                if v[0] == 'A' and v[1] == I.RESULT and ok:
                    p = s.decide(('p', ('json', js[0][1], js[0][2])))
                    self.ob('top', p is (v[2] == 0) and (v[2] == 1 or v[3][0] == I.sym(('jsonval', js[0][2]), v[3][0][2])), 'result',
                            'the result of deserializing an argument is not returned', site)
                continue
            ok = len(ev) == 1 and ev[0][0] == 'Deserialize::deserialize'
            if not self.ob('top', ok, 'calls', 'deserializing an argument does %s' % [e[0] for e in ev], site):
                continue
            n[1] += 1
            nm, args, est, rt = ev[0]
            ok = v[0] == 'A' and v[1] == I.RESULT and s.var.get(rt) == v[2] and (
                v[2] == 1 or v[3][0][0] == 'S' and v[3][0][1] in (('vf', rt, 'Ok', 0), ('pl', rt, 0, 0))) or self.same(s, v, rt)
            self.ob('top', ok, 'result', 'the result of deserializing an argument is not returned', site, sample='the result is returned')
            d = self.val(est, args[0])
            if not self.ob('top', d[0] == 'A' and d[1] in ctx.prog.adts, 'deserializer', 'an argument is not deserialized by the deserializer '
                           'which knows its attachments', site):
                continue
            inner = [e for e in s.ev if e[0] == 'ext' and e[1] in ('Deserializer::from_str', 'de::Deserializer::from_str')]
            if not self.ob('top', len(inner) == 1, 'json', 'an argument is not read by one JSON deserializer', site):
                continue
            ist, iargs = self.calls[(inner[0][1], inner[0][3], inner[0][2])]
            got = I.norm_segs(I.as_segs(ist, self.val(ist, iargs[0])))
            self.ob('top', got == I.norm_segs(want), 'text', 'an argument is not deserialized from its text', site, sample='from its own text')
            it = ('ret', inner[0][1], inner[0][3], inner[0][2])
            self.bufs = I.sym_field(av, bufs, 0)
            t, why = self.canon(est, d, ('S', it, None), self.bufs)
            self.ob('top', why is None, 'attachments', 'the deserializer of an argument: %s' % why, site, sample='with its attachments')
            if t is not None and self.cap is None:
                self.cap = t
                self.adt = d[1]
        if self.cap is None:
            raise Missing('no deserializer is handed to the type of an argument')
        self.ctx.floor(n[0], 1, 'outcomes without attachments')
        self.bufs = I.sym('bufs', self.bufs[2])

    # ------------------------------------------------------------------------------------------------------- templates
    def canon(self, st, v, target, bufs=None):
        """v with `target` and the attachments replaced by fixed symbols, and why it is no wrapper of these"""
        I = self.I
        bufs = bufs or self.bufs
        found = set()
        fb = I.freeze(st, bufs)
        bx = I.load(st, *I.deref(st, bufs))

        def cp(v, d):
            if d == 0:
                raise Missing('deep value')
            if v == target or (v[0] == 'S' and target[0] == 'S' and v[1] == target[1]):
                found.add('target')
                return TARGET
            if v[0] in ('S', 'R'):
                if I.freeze(st, v) == fb:
                    found.add('bufs')
                    return ('S', 'BUFS', None)
                if v[0] == 'S' and v[2] is not None and v[2][0] == 'ref':
                    r, p = I.deref(st, v)
                    x = I.load(st, r, p)
                    if x[0] == 'S' and target[0] == 'S' and x[1] == target[1]:
                        found.add('target')
                        return TARGET
                if v[0] == 'R':
                    x = I.load(st, v[1], v[2])
                    if x == bx or x[0] == 'q' and I.norm_segs(x[1]) == I.norm_segs(I.as_segs(st, bx)):
                        found.add('bufs')
                        return ('S', 'BUFS', None)
                    return ('ref', cp(x, d - 1))
                return v
            if v[0] == 'A':
                return ('A', v[1], v[2], tuple(cp(x, d - 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v[3]))
            if v[0] == 'T':
                return ('T', tuple(cp(x, d - 1) for x in v[1]))
            return v
        try:
            t = cp(v, 8)
        except Missing:
            return None, 'it is too deep to be understood'
        if t == TARGET:
            return t, 'it is passed on as it is, without the attachments'
        if 'target' not in found:
            return None, 'something else takes its place'
        if 'bufs' not in found:
            return None, 'it is not given the same attachments'
        return t, None

    def build(self, st, t, ty):
        """the template as a value in st"""
        I = self.I

        def mk(t):
            if t == TARGET:
                return ('S', 'inner', ('param', ty))
            if t == ('S', 'BUFS', None):
                return self.bufs
            if t[0] == 'ref':
                return I.alloc(st, 'tmpl', mk(t[1]))
            if t[0] == 'A':
                return ('A', t[1], t[2], tuple(mk(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t[3]))
            if t[0] == 'T':
                return ('T', tuple(mk(x) for x in t[1]))
            return t
        return mk(t), ('S', 'inner', ('param', ty))

    def want(self, kind, st, v, target, what, site, extra=None, plain=False):
        """v must wrap target and the attachments; what it does is decided too"""
        t, why = self.canon(st, v, target)
        if plain and t == TARGET:
            return True
        if self.ob('nested', why is None, what, 'a value inside %s: %s' % (what, why), site, sample='%s: nested value with the attachments' % what):
            k = (kind, t)
            if k not in self.done:
                self.done[k] = set()
                self.work.append(k)
            if extra is not None and extra not in self.done[k]:
                self.done[k].add(extra)
                if k not in self.work:
                    self.work.append(k)
            return True
        return False

    def method(self, trait, name, v, st):
        return self.impl(trait, name, v, st)

    def call(self, b, args, st):
        I = self.I
        base = len(st.ev)
        I.base_depth += 100
        try:
            outs = self.ctx.run(I, b, args, st.copy())
        finally:
            I.base_depth -= 100
        return base, outs

    def one(self, outs, base, op, target, name, site):
        """every outcome is one call of op (one of) on target; yields them"""
        ops = op if isinstance(op, (set, tuple)) else {op}
        for s, k, v in outs:
            if not self.ob('forward', k == 'ret', name + ':panic', '%s panics: %s' % (name, v), site):
                continue
            ev = self.events(s, base)
            ok = len(ev) == 1 and ev[0][0] in ops
            if not self.ob('forward', ok, name, 'instead of passing on %s it does: %s' % (name, ', '.join(e[0] for e in ev) or 'nothing'), site,
                           sample='%s passed on' % name):
                continue
            if not self.ob('forward', self.is_term(ev[0][2], ev[0][1][0], target), name + ':target', '%s is passed to something else' % name, site):
                continue
            yield s, v, ev[0]

    def result(self, s, v, rt, name, site):
        return self.ob('forward', self.same(s, v, rt), name + ':result', 'the result of %s is not returned' % name, site)

    def plainargs(self, name, got, want, st, site):
        ok = len(got) == len(want) and all(arg_same(self, st, g, w) for g, w in zip(got, want))
        return self.ob('forward', ok, name + ':args', '%s is passed on with other data' % name, site)

    # ---------------------------------------------------------------------------------------------------------- kinds
    def run_all(self):
        self.done[('de', self.cap)] = set()
        self.work.append(('de', self.cap))
        n = 0
        while self.work:
            kind, t = self.work.pop()
            n += 1
            if n > 200:
                raise Missing('more and more different wrappers are created')
            getattr(self, 'do_' + kind)(t, self.done[(kind, t)])
        self.ctx.notes['wrappers'] = sorted('%s %s' % (k, self.ctx.vname(t) if t[0] == 'A' and t[1] in self.ctx.prog.adts else '') for k, t in self.done)

    def do_de(self, t, extra):
        ctx, I = self.ctx, self.I
        for m in LIKE_ANY + EXACT + ['is_human_readable']:
            name = m if m == 'is_human_readable' else 'deserialize_' + m
            st = State()
            d, inner = self.build(st, t, 'D')
            b = self.impl('Deserializer', name, d, st)
            if b is None:
                self.ob('forward', m == 'is_human_readable', name + ':missing', 'Deserializer::%s is not passed on' % name, self.site)
                continue
            site = ctx.site(b)
            args = symargs(self, b)
            self_ = d if b["locals"][1][0] != 'ref' else I.alloc(st, 'd', d)
            base, outs = self.call(b, [self_] + args, st)
            if m == 'is_human_readable':
                for s, k, v in outs:
                    ev = self.events(s, base)
                    ok = k == 'ret' and (v == ('b', True) or len(ev) == 1 and ev[0][0] == 'Deserializer::' + name and v[0] == 'b')
                    self.ob('forward', ok, name, 'is_human_readable is not that of the deserializer', site)
                continue
            ops = {'Deserializer::' + name} | ({'Deserializer::deserialize_any'} if m in LIKE_ANY else set())
            for s, v, (nm, a, est, rt) in self.one(outs, base, ops, inner, name, site):
                x = nm.split('deserialize_')[1]
                if m in NEED_ANY:
                    self.ob('request', x == 'any', name, '%s only asks for that, so that no placeholder is found in its place' % name, site,
                            sample='%s finds placeholders' % name)
                if x == m:
                    self.plainargs(name, a[1:-1], args[:-1], est, site)
                self.result(s, v, rt, name, site)
                self.want('visitor', est, a[-1], args[-1], name, site, extra=(m, x))

    def do_visitor(self, t, extra):
        ctx, I = self.ctx, self.I
        needed = set()
        for m, x in extra:
            needed |= JSON[x]
        for vm in SCALARS + ['some', 'newtype_struct', 'seq', 'enum', 'map']:
            name = 'visit_' + vm
            st = State()
            w, inner = self.build(st, t, 'V')
            b = self.impl('Visitor', name, w, st)
            if b is None:
                self.ob('forward', vm not in needed or vm in WIDER, name + ':missing', 'Visitor::%s is not passed on' % name, self.site)
                continue
            site = ctx.site(b)
            args = symargs(self, b)
            base, outs = self.call(b, [w] + args, st)
            if vm == 'map':
                self.visit_map(outs, base, inner, args[0], {m for m, x in extra}, site)
                continue
            ops = {'Visitor::' + name} | {'Visitor::visit_' + x for x in WIDER.get(vm, ())}
            for s, v, (nm, a, est, rt) in self.one(outs, base, ops, inner, name, site):
                self.result(s, v, rt, name, site)
                if vm in SCALARS:
                    self.plainargs(name, a[1:], args, est, site)
                else:
                    kind = {'some': 'de', 'newtype_struct': 'de', 'seq': 'seq', 'enum': 'enum'}[vm]
                    self.want(kind, est, a[1], args[0], name, site)

    def do_seq(self, t, extra):
        self.steps(t, 'SeqAccess', 'next_element_seed', 'A')

    def steps(self, t, trait, name, ty):
        ctx, I = self.ctx, self.I
        st = State()
        d, inner = self.build(st, t, ty)
        b = self.impl(trait, name, d, st)
        if b is None:
            raise Missing('%s::%s of %s' % (trait, name, ctx.vname(d) if d[0] == 'A' else d))
        site = ctx.site(b)
        r = I.alloc(st, 'acc', d)
        args = symargs(self, b)
        base, outs = self.call(b, [r] + args, st)
        full = '%s::%s' % (trait, name)
        for s, v, (nm, a, est, rt) in self.one(outs, base, full, inner, full, site):
            self.result(s, v, rt, full, site)
            self.want('seed', est, a[1], args[0], full, site)
            t2, why = self.canon(s, I.load(s, r[1], r[2]), ('S', ('hv', full, rt[2], 0, rt[3]), None))
            self.ob('nested', why is None and t2 == t, full + ':next', 'after an element the sequence goes on differently', site,
                    sample='the same for every element')
        h = self.impl(trait, 'size_hint', d, st)
        if h is not None:
            base, outs = self.call(h, [r], st)
            for s, k, v in outs:
                ev = self.events(s, base)
                ok = k == 'ret' and (v == I.none or len(ev) == 1 and ev[0][0] == trait + '::size_hint' and self.same(s, v, ev[0][3]))
                self.ob('forward', ok, trait + '::size_hint', 'another size is announced', ctx.site(h))

    def do_seed(self, t, extra):
        ctx, I = self.ctx, self.I
        st = State()
        d, inner = self.build(st, t, 'K')
        b = self.impl('DeserializeSeed', 'deserialize', d, st)
        if b is None:
            raise Missing('DeserializeSeed of ' + ctx.vname(d))
        site = ctx.site(b)
        args = symargs(self, b)
        base, outs = self.call(b, [d] + args, st)
        for s, v, (nm, a, est, rt) in self.one(outs, base, 'DeserializeSeed::deserialize', inner, 'DeserializeSeed::deserialize', site):
            self.result(s, v, rt, 'DeserializeSeed::deserialize', site)
            self.want('de', est, a[1], args[0], 'DeserializeSeed::deserialize', site)

    def do_enum(self, t, extra):
        ctx, I = self.ctx, self.I
        st = State()
        d, inner = self.build(st, t, 'E')
        b = self.impl('EnumAccess', 'variant_seed', d, st)
        if b is None:
            raise Missing('EnumAccess of ' + ctx.vname(d))
        site = ctx.site(b)
        args = symargs(self, b)
        base, outs = self.call(b, [d] + args, st)
        n = 0
        for s, v, (nm, a, est, rt) in self.one(outs, base, 'EnumAccess::variant_seed', inner, 'variant_seed', site):
            self.want('seed', est, a[1], args[0], 'variant_seed', site, plain=True)
            if v[0] == 'A' and v[1] == I.RESULT and v[2] == 0:
                n += 1
                pair = v[3][0]
                pr = I.sym(('vf', rt, 'Ok', 0), None)
                ok = s.var.get(rt) == 0 and pair[0] == 'T' and len(pair[1]) == 2
                if not self.ob('forward', ok, 'variant_seed:result', 'the variant is not returned', site):
                    continue
                x, y = pair[1]
                part = [e for e in (x, y)]
                ok = x[0] == 'S' and mentions(x[1], lambda z: z == rt) and 'field0' == which(x[1])
                self.ob('forward', ok, 'variant_seed:value', 'another variant is returned', site)
                tgt = self.leaf(s, y, lambda z: z[0] == 'S' and mentions(z[1], lambda q: q == rt) and which(z[1]) == 'field1')
                if self.ob('forward', tgt is not None, 'variant_seed:data', 'the data of the variant is not passed on', site):
                    self.want('variant', s, y, tgt, 'variant data', site)
            else:
                ok = s.var.get(rt) == 1 and v[0] == 'A' and v[2] == 1
                self.ob('forward', ok, 'variant_seed:error', 'the error of variant_seed is lost', site)
        self.ctx.floor(n, 1, 'outcomes of variant_seed')

    def leaf(self, st, v, pred, d=6):
        if pred(v):
            return v
        if d == 0:
            return None
        if v[0] == 'R':
            return self.leaf(st, self.I.load(st, v[1], v[2]), pred, d - 1)
        if v[0] in ('A', 'T'):
            for x in (v[3] if v[0] == 'A' else v[1]):
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    r = self.leaf(st, x, pred, d - 1)
                    if r is not None:
                        return r
        return None

    def do_variant(self, t, extra):
        ctx, I = self.ctx, self.I
        for m in ('unit_variant', 'newtype_variant_seed', 'tuple_variant', 'struct_variant'):
            st = State()
            d, inner = self.build(st, t, 'Y')
            b = self.impl('VariantAccess', m, d, st)
            if b is None:
                raise Missing('VariantAccess::%s of %s' % (m, ctx.vname(d)))
            site = ctx.site(b)
            args = symargs(self, b)
            base, outs = self.call(b, [d] + args, st)
            for s, v, (nm, a, est, rt) in self.one(outs, base, 'VariantAccess::' + m, inner, m, site):
                self.result(s, v, rt, m, site)
                if m == 'newtype_variant_seed':
                    self.want('seed', est, a[1], args[0], m, site)
                elif args:
                    self.plainargs(m, a[1:-1], args[:-1], est, site)
                    self.want('visitor', est, a[-1], args[-1], m, site, extra=(m, 'seq' if m == 'tuple_variant' else 'struct'))

    # ------------------------------------------------------------------------------------------------------------ maps
    def text(self, st, v):
        """contents of a key"""
        I = self.I
        v = self.val(st, v)
        if v[0] == 'A' and v[1] == I.COW:
            v = self.val(st, v[3][0])
        ty = v[2] if v[0] == 'S' else None
        if ty is not None and ty[0] == 'adt' and I.elem_ty(ty) is False and ty[1] != I.COW:
            return None
        return I.norm_segs(I.as_segs(st, v))

    def key_of(self, s, rt):
        """the value of the key which was read: the value of its type, unwrapped to a text"""
        I = self.I
        ty = self.keys.get(rt)
        v = ('S', ('vf', ('vf', rt, 'Ok', 0), 'Some', 0), ty)
        n = 0
        while ty is not None and ty[0] == 'adt' and ty[1] in self.ctx.prog.adts and n < 4:
            a = self.ctx.prog.adts[ty[1]]
            if a["name"] in ('Cow', 'String') or a["kind"] != 'struct' or len(a["variants"][0][1]) != 1:
                break
            v = I.sym_field(v, 0, 0)
            ty = v[2]
            n += 1
        return v

    def key_type(self, ty, site):
        """keys must be read as what they are: borrowed where possible, owned where they contain escapes"""
        ctx, I = self.ctx, self.I
        k = self.classify(ty, 0)
        self.ob('key', k != 'borrowed', 'escapes', 'the first key of a map is rejected if it contains escapes', site, sample='escaped keys are read')
        self.ob('key', k != 'owned', 'copied', 'the first key of a map is always copied, so that no type which borrows its keys can be deserialized', site,
                sample='keys are borrowed')
        self.ob('key', k is not None, 'type', 'the first key of a map is read as something else than a text', site)

    def classify(self, ty, d):
        if ty is None or d > 4:
            return None
        if ty[0] == 'ref' and ty[2] == ('str',):
            return 'borrowed'
        if ty[0] != 'adt':
            return None
        a = self.ctx.prog.adts.get(ty[1])
        nm = a["name"] if a else None
        if nm in ('String', 'Cow', 'Box'):
            return 'owned'
        for b in self.ctx.prog.impls.get(('Deserialize', 'deserialize'), []):
            if b["impl_self"] and b["impl_self"][0] == 'adt' and b["impl_self"][1] == ty[1]:
                base, outs = self.call(b, [('S', 'keyde', ('param', 'KD'))], State())
                for s, k, v in outs:
                    for nm, a, est, rt in self.events(s, base):
                        if nm == 'Deserializer::deserialize_newtype_struct':
                            w = self.val(est, a[-1])
                            vb = self.impl('Visitor', 'visit_newtype_struct', w, est)
                            if vb is None:
                                return None
                            base2, outs2 = self.call(vb, [w, ('S', 'keyde2', ('param', 'KE'))], est)
                            for s2, k2, v2 in outs2:
                                names = [e[1] for e in s2.ev[base2:] if e[0] == 'ext']
                                if any('borrow_cow_str' in x for x in names):
                                    return 'both'
                                if 'Deserialize::deserialize' in names:
                                    f = self.ctx.prog.adts[ty[1]]["variants"][0][1][0][1]
                                    return self.classify(f, d + 1)
        return None

    def visit_map(self, outs, base, visitor, map_, ms, site):
        ctx, I = self.ctx, self.I
        n = {'placeholder': 0, 'plain': 0}
        forms = None
        for m in ms:
            if m in FORMS:
                forms = FORMS[m] if forms is None else forms & FORMS[m]
        if forms is None:
            forms = OWNED | {'visit_seq'}
        self.ob('placeholder', bool(forms), 'forms', 'the same visitor is used for byte strings and sequences', site)
        for s, k, v in outs:
            if k != 'ret':
                if v and 'OwnedSubslice' in str(v) and 'slice range' in str(v):
                    continue                    # C29: a sub-slice lies within its data
                self.ob('map', False, 'panic', 'reading a map panics: %s' % (v,), site)
                self.ob('placeholder', False, 'panic', 'reading a placeholder panics: %s' % (v,), site)
                continue
            ev = self.events(s, base)
            # the map is only read in order
            target = map_
            ok = True
            reads = []
            visits = []
            for nm, a, est, rt in ev:
                if nm.startswith('MapAccess::'):
                    ok = ok and self.is_term(est, a[0], target) and not visits
                    target = ('S', ('hv', nm, rt[2], 0, rt[3]), None)
                    reads.append((nm.split('::')[1], rt, est))
                elif nm.startswith('Visitor::'):
                    ok = ok and self.is_term(est, a[0], visitor)
                    visits.append((nm.split('::')[1], a, est, rt))
                else:
                    ok = False
            ok = ok and len(visits) <= 1
            if not self.ob('map', ok, 'calls', 'reading a map does %s' % [e[0] for e in ev], site):
                self.ob('placeholder', False, 'calls', 'reading a map does %s' % [e[0] for e in ev], site)
                continue
            failed = [rt for nm, rt, est in reads if s.var.get(rt) == 1]
            if failed:
                ok = not visits and v[0] == 'A' and v[2] == 1 and mentions(v, lambda z: z == failed[0])
                self.ob('map', ok, 'error', 'an error while reading a map is lost', site)
                continue
            if not reads or reads[0][0] != 'next_key':
                self.ob('map', False, 'first', 'a map is not read from its first key', site)
                continue
            k1 = reads[0][1]
            self.key_type(self.keys.get(k1), site)
            some = s.var.get(('vf', k1, 'Ok', 0))
            key = self.key_of(s, k1)
            isph = False
            if some != 0:
                segs = self.text(s, key)
                if segs is None:
                    raise Missing('text of the first key')
                isph = s.decide(I.seq_eq(s, segs, I.norm_segs((('lit', b'_placeholder'),))))
            if isph is None:
                self.ob('map', False, 'undecided', 'what happens to a map does not depend on whether its first key is _placeholder', site)
                self.ob('placeholder', False, 'undecided', 'a placeholder object is not told from other objects', site)
                continue
            if isph is False:
                n['plain'] += 1
                ok = len(reads) == 1 and len(visits) == 1 and visits[0][0] == 'visit_map' and self.same(s, v, visits[0][3])
                if self.ob('map', ok, 'plain', 'a map which is no placeholder is not visited as a map: %s' % [e[0] for e in ev], site,
                           sample='a map is visited as a map'):
                    nm, a, est, rt = visits[0]
                    self.access(s, est, a[1], target, key if some != 0 else None, site)
                else:
                    self.ob('placeholder', False, 'other', 'an object which is no placeholder is treated as one', site)
                continue
            n['placeholder'] += 1
            self.placeholder(s, v, reads, visits, forms, target, site)
        ctx.floor(n['plain'], 2, 'outcomes for maps')
        if ctx.pid == 'C14':
            ctx.floor(n['placeholder'], 3, 'outcomes for placeholders')

    def placeholder(self, s, v, reads, visits, forms, target, site):
        """after the key _placeholder"""
        ctx, I = self.ctx, self.I
        names = [r[0] for r in reads]
        err = v[0] == 'A' and v[1] == I.RESULT and v[2] == 1
        want = ['next_key', 'next_value', 'next_key', 'next_value']
        if not self.ob('placeholder', names == want[:len(names)] and len(names) > 1, 'order', 'a placeholder object is read by %s' % names, site):
            return
        if len(reads) >= 3:
            some = s.var.get(('vf', reads[2][1], 'Ok', 0))
            key = self.key_of(s, reads[2][1])
            isnum = False
            if some != 0:
                segs = self.text(s, key)
                isnum = s.decide(I.seq_eq(s, segs, I.norm_segs((('lit', b'num'),)))) if segs is not None else None
            if isnum is not True:
                self.ob('placeholder', isnum is False and err and not visits and len(reads) == 3, 'num', 'a placeholder object without number is no error', site,
                        sample='no number: an error')
                return
        if len(reads) < 4:
            self.ob('placeholder', False, 'num', 'the number of a placeholder is not read', site)
            return
        rt = reads[3][1]
        ty = self.keys.get(rt)
        ok = ty is not None and ty[0] == 'prim' and ty[1] in ('u64', 'usize', 'u32', 'i64', 'u128', 'i128', 'isize')
        if not self.ob('placeholder', ok, 'type', 'the number of a placeholder is read as %s' % (self.ctx.prog.tyname(ty) if ty else '?'), site):
            return
        num = ('i', 0, frozenset(((('vf', rt, 'Ok', 0), 1),)))
        bv = I.load(s, *I.deref(s, self.bufs))
        nb = I.segs_len(I.as_segs(s, bv))
        inr = s.decide(pge(ladd(lsub(nb, num), I_(-1))))
        if err and not visits:
            self.ob('placeholder', inr is False, 'range', 'a placeholder with the number of an attachment is an error', site,
                    sample='number too large: an error')
            return
        if not self.ob('placeholder', inr is True, 'range', 'a placeholder whose number is too large is no error', site, sample='number in range: resolved'):
            return
        if not self.ob('placeholder', len(visits) == 1 and self.same(s, v, visits[0][3]), 'visits', 'a placeholder is visited as %s' % [x[0] for x in visits], site):
            return
        nm, a, est, _ = visits[0]
        if not self.ob('placeholder', nm in forms, 'form', 'a placeholder is given to the user as %s' % nm, site, sample='a placeholder is given as %s' % nm):
            return
        el = I.seq_at(s, bv, num)
        good = []
        for s2, segs in view(ctx, I, s, el):
            if segs is not None:
                good.append(I.norm_segs(segs))
        got = self.bytes_of(est, a[1], nm)
        self.ob('placeholder', got is not None and got in good, 'bytes', 'a placeholder is replaced by %s instead of the attachment it names' % (
            ctx.pp.segs(got)[:150] if got is not None and hasattr(ctx.pp, 'segs') else 'something else'), site,
            sample='all bytes of the attachment with that number')

    def bytes_of(self, st, v, nm):
        I = self.I
        if nm != 'visit_seq':
            return I.norm_segs(I.as_segs(st, self.val(st, v)))
        v = self.val(st, v)
        if v[0] == 'S' and v[1][0] == 'ret' and v[1][1] == 'SeqDeserializer::new':
            st, args = self.calls[(v[1][1], v[1][2], v[1][3])]
            v = self.val(st, args[0])
        n = 0
        while v[0] == 'A' and v[1] == 'It' and v[3][0] in ('copied', 'cloned', 'seq', 'into') and n < 5:
            if v[3][0] == 'seq':
                if len(v[3]) < 2:
                    return None
                x = v[3][1]
                x = self.val(st, x)
                return I.norm_segs(I.as_segs(st, x))
            v = self.val(st, v[3][1])
            n += 1
        if v[0] == 'q':
            return I.norm_segs(v[1])
        return None

    def access(self, s, est, v, target, key, site0):
        """the map which is shown to the user's visitor: its first key, and then everything else as it comes"""
        ctx, I = self.ctx, self.I
        st = est.copy()
        r = v if v[0] == 'R' else I.alloc(st, 'map', v)
        m = self.val(st, r)
        if m[0] == 'S':
            self.ob('map', key is None and self.is_term(st, m, target), 'wrapped', 'the first key of a map is lost', site0)
            self.ob('nested', False, 'map', 'the values of a map are not given the attachments', site0)
            return
        for nm in ('next_entry_seed', 'next_entry', 'next_key', 'next_value'):
            if self.impl('MapAccess', nm, m, st) is not None:
                raise Missing('own MapAccess::%s is not analysed' % nm)
        bk = self.impl('MapAccess', 'next_key_seed', m, st)
        bv = self.impl('MapAccess', 'next_value_seed', m, st)
        if bk is None or bv is None:
            raise Missing('MapAccess of ' + ctx.vname(m))
        ks, vs = ctx.site(bk), ctx.site(bv)
        # the first key
        seed = ('S', 'seed0', ('param', 'K'))
        base, outs = self.call(bk, [r, seed], st)
        after = []
        for s1, k, x in outs:
            if not self.ob('map', k == 'ret', 'key:panic', 'reading a key panics: %s' % (x,), ks):
                continue
            ev = self.events(s1, base)
            if key is None:
                self.ob('map', not ev and x == I.ok(I.none), 'empty', 'a map without entries is given one', ks, sample='an empty map stays empty')
                continue
            ok = len(ev) == 1 and ev[0][0] == 'DeserializeSeed::deserialize' and self.is_term(ev[0][2], ev[0][1][0], seed)
            if not self.ob('map', ok, 'firstkey', 'the first key of a map is lost: %s' % [e[0] for e in ev], ks, sample='the first key is given first'):
                continue
            nm, a, est1, rt = ev[0]
            if s1.var.get(rt) == 1 or (x[0] == 'A' and x[2] == 1):
                self.ob('map', s1.var.get(rt) == 1 and x[0] == 'A' and x[2] == 1, 'firstkey:error', 'an error of the first key is lost', ks)
            else:
                y = x[3][0] if x[0] == 'A' and x[1] == I.RESULT and x[2] == 0 else None
                ok = y is not None and y[0] == 'A' and y[1] == I.OPTION and y[2] == 1 and y[3][0][0] == 'S' and y[3][0][1] in (
                    ('vf', rt, 'Ok', 0), ('pl', rt, 0, 0))
                if self.ob('map', ok, 'firstkey:result', 'the first key is not returned', ks):
                    after.append(s1)
            self.key_de(est1, a[1], key, ks)
        if key is None:
            return
        self.ctx.floor(len(after), 1, 'outcomes of the first key')
        states = after[:2]
        snaps = []
        for i, (b, nm, sites) in enumerate(((bv, 'next_value_seed', vs), (bk, 'next_key_seed', ks), (bv, 'next_value_seed', vs),
                                            (bk, 'next_key_seed', ks))):
            nxt = []
            full = 'MapAccess::' + nm
            for s1 in states:
                seed = ('S', 'seed%d' % (i + 1), ('param', 'K'))
                base, outs = self.call(b, [r, seed], s1)
                for s2, x, (nm2, a, est2, rt) in self.one(outs, base, full, target if i == 0 else self.cur(s1, r, m), full, sites):
                    self.result(s2, x, rt, full, sites)
                    self.want('seed', est2, a[1], seed, full, sites, plain=nm == 'next_key_seed')
                    t2, why = self.canon(s2, I.load(s2, r[1], r[2]), ('S', ('hv', full, rt[2], 0, rt[3]), None))
                    if self.ob('map', why is None, full + ':next', 'after an entry the map goes on differently: %s' % why, sites):
                        snaps.append(t2)
                        self.curs = getattr(self, 'curs', {})
                        self.curs[id(s2)] = ('S', ('hv', full, rt[2], 0, rt[3]), None)
                        self.keep = getattr(self, 'keep', []) + [s2]
                        nxt.append(s2)
            states = nxt[:2]
        self.ob('map', len(set(snaps)) == 1, 'steady', 'the entries after the first one are not treated alike', ks, sample='every later entry alike')

    def cur(self, s, r, m):
        return self.curs[id(s)]

    # -------------------------------------------------------------------------------------------------- the first key
    def key_de(self, est, x, key, site0):
        """the first key is deserialized like any key of a JSON object"""
        ctx, I = self.ctx, self.I
        d = self.val(est, x)
        if d[0] != 'A' or d[1] not in ctx.prog.adts or self.impl('Deserializer', 'deserialize_any', d, est) is None:
            self.ob('key', False, 'kinds', 'the first key of a map can only be deserialized as a text, not as a number, boolean, option or newtype', site0)
            return
        fd = I.freeze(est, d, 8)
        memo = (fd, key)
        if memo in self.done:
            return
        self.done[memo] = set()
        want = self.text(est, key)
        cowvar = key[1] if key[2] is not None and key[2][0] == 'adt' and key[2][1] == I.COW else None
        vis = ('S', 'keyvisitor', ('param', 'V'))

        def same_text(s, v):
            got = self.text(s, self.val(s, v))
            forms = [want]
            if cowvar is not None:
                forms += [I.norm_segs(I.as_segs(s, I.sym_field(key, 0, i))) for i in (0, 1)]
            return got is not None and got in forms
        for m in LIKE_ANY + EXACT:
            name = 'deserialize_' + m
            b = self.impl('Deserializer', name, d, est)
            if b is None:
                self.ob('key', False, name, 'the first key of a map can not be deserialized as %s' % m, site0)
                continue
            site = ctx.site(b)
            st = est.copy()
            args = symargs(self, b)[:-1] + [vis]
            base, outs = self.call(b, [d] + args, st)
            n = 0
            for s, k, v in outs:
                if not self.ob('key', k == 'ret', name + ':panic', 'deserializing the first key panics: %s' % (v,), site):
                    continue
                ev = self.events(s, base)
                err = v[0] == 'A' and v[1] == I.RESULT and v[2] == 1
                bad = 'the first key of a map is deserialized as %s by %s' % (m, [e[0] for e in ev])
                if not ev:
                    ok = err and (m in NUMBERS or m in ('i128', 'u128', 'bool')) and any(
                        mentions(f, lambda z: z and z[0] in ('parses', 'json')) for f in facts_false(s))
                    self.ob('key', ok, name, bad, site)
                    continue
                nm, a, est2, rt = ev[-1]
                tr, op = nm.split('::')
                if len(ev) != 1 or not (self.same(s, v, rt) or (v[0] == 'A' and v[1] == I.RESULT and s.var.get(rt) == v[2])):
                    self.ob('key', False, name, bad, site)
                    continue
                n += 1
                texts = {'visit_borrowed_str'} if cowvar is None or s.var.get(cowvar) != 1 else {'visit_str', 'visit_string'}
                if m in ('bytes', 'byte_buf'):
                    texts = texts | ({'visit_borrowed_bytes'} if 'visit_borrowed_str' in texts else {'visit_bytes', 'visit_byte_buf'})
                ontext = tr == 'Visitor' and op in texts and self.is_term(est2, a[0], vis) and same_text(est2, a[1])
                if m in NUMBERS or m in ('i128', 'u128'):
                    if tr == 'Deserializer':
                        ok = op == name and self.is_term(est2, a[1], vis) and from_key(self, est2, a[0], want)
                    else:
                        ok = tr == 'Visitor' and self.is_term(est2, a[0], vis) and op in ('visit_u64', 'visit_i64', 'visit_f64', 'visit_' + m) \
                            and from_key(self, est2, a[1], want)
                elif m == 'bool':
                    ok = ontext
                    if op == 'visit_bool':
                        x = self.val(est2, a[1])
                        lit = {('b', True): b'true', ('b', False): b'false'}.get(x)
                        ok = lit is not None and s.decide(I.seq_eq(s, want, I.norm_segs((('lit', lit),)))) is True
                    elif ontext:
                        ok = all(s.decide(I.seq_eq(s, want, I.norm_segs((('lit', l),)))) is False for l in (b'true', b'false'))
                elif m in ('option', 'newtype_struct'):
                    ok = op == {'option': 'visit_some', 'newtype_struct': 'visit_newtype_struct'}[m] and \
                        self.is_term(est2, a[0], vis) and I.freeze(est2, self.val(est2, a[1]), 8) == fd
                elif m == 'enum':
                    ok = op == 'visit_enum' and self.is_term(est2, a[0], vis) and \
                        mentions(I.freeze(est2, self.val(est2, a[1]), 8), lambda z: z == key[1])
                else:
                    ok = ontext
                self.ob('key', ok, name, bad, site, sample='first key as %s' % m)
            if m != 'bool' or True:
                self.ctx.floor(n, 1, 'outcomes of %s of the first key' % name)


def from_key(R, st, v, want):
    """v is a number parsed from the text of the key"""
    fz = R.I.freeze(st, R.val(st, v), 8)
    return mentions(fz, lambda z: isinstance(z, tuple) and len(z) > 1 and z[0] in ('parse', 'jsonval') and R.I.norm_segs(z[1]) == want)


def facts_false(s):
    return [p for p, v in s.pred.items() if v is False]


def which(t):
    """'field0' / 'field1' for the projection of a pair at the root of a term"""
    if isinstance(t, tuple) and len(t) >= 3 and t[0] in ('fld', 'tf', 'pl', 'vf'):
        return 'field%s' % (t[-1],)
    return None


# --------------------------------------------------------------------------------------------------- JSON values
def values(ctx, R):
    """Arg::to_json_value: every placeholder in the value is replaced, at any depth"""
    I = ctx.interp()
    top = ctx.fn(CR, 'to_json_value', 'Arg')

    def mutvalue(t):
        return t[0] == 'ref' and t[1] and t[2][0] == 'adt' and (ctx.prog.adts.get(t[2][1]) or {}).get("name") == 'Value'

    def isbufs(t):
        return t[0] == 'ref' and t[2][0] == 'slice' and t[2][1][0] == 'adt' and (ctx.prog.adts.get(t[2][1][1]) or {}).get("name") == 'OwnedSubslice'
    cs = []
    for b in ctx.prog.bodies.values():
        if b["crate"] == CR and b["kind"] != 'Closure' and b["argc"] >= 2:
            ps = b["locals"][1:b["argc"] + 1]
            if any(mutvalue(t) for t in ps) and any(isbufs(t) for t in ps):
                cs.append(b)
    cs = [b for b in cs if len([t for t in b["locals"][1:b["argc"] + 1]]) == 2]
    if not cs:
        raise Missing('the function which replaces placeholders in a JSON value')

    target = []

    def fill(b, I, st, args, c):
        target.append(b)
        out = []
        n = st.cnt.get('FILL', 0)
        vi, bi = (0, 1) if mutvalue(c.atys[0]) else (1, 0)
        from interp import intern
        fz = intern((I.freeze(st, args[vi]), I.freeze(st, args[bi])))
        rt = ('ret', 'FILL', n, fz)
        for ok in (0, 1):
            s = st.copy()
            s.fresh('FILL')
            s.event('ext', 'FILLED' if ok == 0 else 'FAILED', fz, n)
            s.var = dict(s.var)
            s.var[rt] = ok
            out.append((s, 'ret', I.sym(rt, c.dty)))
        return out
    for b in cs:
        I.opaque[b["hash"]] = (lambda b: lambda *a: fill(b, *a))(b)
    only = {}
    # the function itself, on any value, with what it does for the parts of the value taken as done
    from interp import TERMS
    for b in cs:
        site = ctx.site(b)
        vi, bi = (0, 1) if mutvalue(b["locals"][1]) else (1, 0)
        vt = b["locals"][1 + vi][2]
        val = I.sym('val', vt)
        st = State()
        r = I.alloc(st, 'val', val)
        bufs = I.sym('bufs', b["locals"][1 + bi])
        args = [r, bufs] if vi == 0 else [bufs, r]
        names = [v[0] for v in ctx.prog.adts[vt[1]]["variants"]]
        bv = I.load(st, *I.deref(st, bufs))
        fb = I.freeze(st, bufs)
        n = {}
        del target[:]
        for s, k, v in ctx.run(I, b, args, st):
            if k != 'ret':
                if 'OwnedSubslice' in str(v) and 'slice range' in str(v):
                    continue
                ctx.ob('value', False, 'panic', 'replacing placeholders panics: %s' % (v,), site)
                continue
            var = s.var.get('val')
            ev = [e for e in s.ev if e[0] in ('ext', 'star')]
            ok = v[0] == 'A' and v[1] == I.RESULT and v[2] == 0
            now = I.load(s, r[1], r[2])
            if var is None and len(ev) == 1 and ev[0][0] == 'ext' and len(target) == 1 and (
                    v[1] == ('ret', 'FILL', ev[0][3], ev[0][2]) if v[0] == 'S' else ok == (ev[0][1] == 'FILLED')):
                # another one of these functions does it, on the same value
                x = TERMS[ev[0][2][1]]
                if bare(x[0]) == bare(I.freeze(s, r)) and bare2(I, s, x[1]) == bare2(I, s, fb) and \
                        (now == val or I.freeze(s, now) == I.freeze(s, val)):
                    only[b["hash"]] = target[0]["hash"]
                    continue
            if var is None:
                # treated alike whatever it is: only right if nothing in it could be a placeholder
                ctx.ob('value', False, 'kind', 'a JSON value is left as it is without looking at what it is', site)
                continue
            name = names[var]
            if name in ('Array', 'Object') and not (name == 'Object' and s.decide(has(I, s, val, vt, names, b'_placeholder')) is not False):
                inner = I.sym_field(val, 0, var)
                if not ctx.ob('value', now == val or I.freeze(s, now) == I.freeze(s, val), name + ':kept', 'the %s around placeholders is changed' % name.lower(), site):
                    continue
                segs = I.norm_segs(I.as_segs(s, inner)) if name == 'Array' else I.norm_segs(I.as_segs(s, ('S', ('*', ('mapvals', inner[1])), ('slice', vt))))
                why = every(ctx, I, s, ev, segs, fb, ok, v)
                ctx.ob('value', why is None, name, 'the elements of a JSON %s: %s' % (name.lower(), why), site, sample='every element of %s' % name.lower())
                n[name] = n.get(name, 0) + 1
                continue
            if name != 'Object':
                ctx.ob('value', ok and not ev and (now == val or I.freeze(s, now) == I.freeze(s, val)), name, 'a JSON %s is changed' % name.lower(), site,
                       sample='%s unchanged' % name)
                n[name] = 1
                continue
            ph = s.decide(has(I, s, val, vt, names, b'_placeholder'))
            if not ctx.ob('value', ph is True, 'undecided', 'an object is treated as a placeholder whether or not it is one', site):
                continue
            n['placeholder'] = n.get('placeholder', 0) + 1
            num = s.decide(has(I, s, val, vt, names, b'num'))
            idx = None
            if num is not False:
                for q, b2 in s.pred.items():
                    if q[0] == 'p' and isinstance(q[1], tuple) and q[1][0] == 'isu64' and b2 and mentions(q[1], lambda z: z == ('lit', b'num')) and \
                            mentions(q[1], lambda z: z == ('vf', 'val', 'Object', 0)):
                        idx = ('i', 0, frozenset(((('u64of', q[1][1]), 1),)))
            if idx is None:
                ctx.ob('value', not ok and not ev, 'num', 'a placeholder without number is no error', site, sample='no number: an error')
                continue
            nb = I.segs_len(I.as_segs(s, bv))
            inr = s.decide(pge(ladd(lsub(nb, idx), I_(-1))))
            if not ok:
                ctx.ob('value', inr is False and not ev, 'range', 'a placeholder with the number of an attachment is an error', site, sample='number too large: an error')
                continue
            if not ctx.ob('value', inr is True and not ev, 'range', 'a placeholder whose number is too large is no error', site, sample='number in range'):
                continue
            n['resolved'] = n.get('resolved', 0) + 1
            el = I.seq_at(s, bv, idx)
            good = [(s2, I.norm_segs(g)) for s2, g in view(ctx, I, s, el) if g is not None]
            why = 'it is not an array'
            if now[0] == 'A' and now[1] == vt[1] and names[now[2]] == 'Array':
                got = I.norm_segs(I.as_segs(s, now[3][0]))
                why = 'it does not have all the bytes'
                for s2, g in good:
                    if s2.decide(peq0(lsub(I.segs_len(got), I.segs_len(g)))) is True or s.decide(peq0(lsub(I.segs_len(got), I.segs_len(g)))) is True:
                        why = bytewise(ctx, I, s, got, g)
            ctx.ob('value', why is None, 'bytes', 'a placeholder in a JSON value is not replaced by the attachment it names: %s' % why, site,
                   sample='an array of all bytes')
        for x in ('Array', 'Object', 'placeholder', 'resolved', 'Null', 'Bool', 'Number', 'String'):
            if b["hash"] not in only or n:
                ctx.floor(n.get(x, 0), 1, 'outcomes for %s' % x)
    for h in list(only):
        t, seen = h, set()
        while t in only and t not in seen:
            seen.add(t)
            t = only[t]
        ctx.ob('value', t not in only, 'forever', 'replacing placeholders never ends', ctx.prog.bodies[h]["path"], sample='done by another function')
    # the entry point
    site = ctx.site(top)
    st = State()
    arg = I.sym('self', top["locals"][1])
    av = I.load(st, *I.deref(st, arg))
    fields = ctx.prog.adts[top["locals"][1][2][1]]["variants"][0][1]
    text = [I.sym_field(av, i, 0) for i, f in enumerate(fields) if f[1][0] == 'ref' and f[1][2] == ('str',)][0]
    bufs = [I.sym_field(av, i, 0) for i, f in enumerate(fields) if isbufs(f[1])][0]
    want = I.norm_segs(I.as_segs(st, I.load(st, *I.deref(st, text))))
    bv = I.load(st, *I.deref(st, bufs))
    nb = I.segs_len(I.as_segs(st, bv))
    n = 0
    for s, k, v in ctx.run(I, top, [arg], st):
        if not ctx.ob('value', k == 'ret', 'top:panic', 'converting an argument to a JSON value panics: %s' % (v,), site):
            continue
        js = [e for e in s.ev if e[0] == 'json']
        if not ctx.ob('value', len(js) == 1 and I.norm_segs(js[0][2]) == want, 'top:text', 'an argument is not converted from its text', site):
            continue
        good = s.decide(('p', ('json', js[0][1], js[0][2])))
        jv = ('jsonval', js[0][2])
        ev = [e for e in s.ev if e[0] in ('ext', 'star')]
        ok = v[0] == 'A' and v[1] == I.RESULT and v[2] == 0
        if good is False:
            ctx.ob('value', not ok and not ev, 'top:json', 'an argument which is no valid JSON is converted', site)
            continue
        n += 1
        same = ok and v[3][0][0] == 'S' and v[3][0][1] == jv
        if not ev:
            ctx.ob('value', s.decide(peq0(nb)) is True and same, 'top:none', 'an argument of a packet with attachments is converted without them', site,
                   sample='no attachments: the value as it is')
            continue
        calls = [e for e in ev if e[0] == 'ext']
        x = [TERMS[e[2][1]] for e in calls]
        ok2 = len(ev) == len(calls) == 1 and bare(x[0][0])[:2] == ('S', jv) and bare2(I, s, x[0][1]) == bare2(I, s, I.freeze(s, bufs))
        if ctx.ob('value', ok2, 'top:fill', 'the placeholders of an argument are not replaced once by the attachments of the packet', site,
                  sample='placeholders replaced once'):
            ctx.ob('value', same if calls[0][1] == 'FILLED' else not ok, 'top:result', 'the result of replacing placeholders is lost', site)
    ctx.floor(n, 2, 'outcomes of to_json_value')


def bare(v):
    while isinstance(v, tuple) and v and v[0] == '&':
        v = v[1]
    return v


def bare2(I, s, v):
    v = bare(v)
    if v[0] == 'S' and v[2] is not None and v[2][0] == 'ref':
        return ('*', v[1])
    return v[1] if v[0] == 'S' else v


def has(I, s, val, vt, names, key):
    m = I.sym_field(val, 0, names.index('Object'))
    return ('p', ('has', m[1], ('q', (('lit', key),))))


def every(ctx, I, s, ev, segs, fb, ok, v):
    """the history fills every element of segs once, in some order, and stops with the first error"""
    from interp import TERMS
    n = I.segs_len(segs)

    def at(e, i, st):
        x = TERMS[e[2][1]]
        el = I.seq_at(st, ('q', segs), i)
        if bare2(I, st, x[1]) != bare2(I, st, fb):
            return 'they are not given the attachments of the packet'
        y = bare(x[0])
        if y != el and I.freeze(st, el) != y and y[1] != el[1]:
            return 'another value is treated instead'
        return None
    pos = I_(0)
    for e in ev:
        if e[0] == 'star':
            cnt = ('i', 0, frozenset(((('cnt', e[1]), 1),)))
            if pos != I_(0):
                return 'they are treated in several loops'
            for alt in e[2]:
                alt = [x for x in alt if x != 'first']
                if len(alt) != 1 or alt[0][0] != 'ext' or alt[0][1] != 'FILLED':
                    return 'one is left out or its error is ignored'
                why = at(alt[0], cnt, s)
                if why:
                    return why
            pos = cnt
        elif e[1] == 'FAILED':
            why = at(e, pos, s)
            if why:
                return why
            return None if not ok and e is ev[-1] else 'an error is ignored'
        else:
            why = at(e, pos, s)
            if why:
                return why
            pos = ladd(pos, I_(1))
    if not ok:
        return 'an error is reported although nothing failed'
    return None if s.decide(peq0(lsub(n, pos))) is True else 'they are not all treated'


def bytewise(ctx, I, s, got, g):
    """element i of got is the byte i of g, as a JSON value"""
    i = I.sym('i', ('prim', 'usize'))
    for s1 in s.assume(pge(i)):
        for s2 in s1.assume(pge(ladd(lsub(I.segs_len(g), i), I_(-1)))):
            x = I.seq_at(s2, ('q', got), i)
            w = I.seq_at(s2, ('q', g), i)
            lins = set()

            def walk(t):
                if isinstance(t, tuple):
                    if t and t[0] == 'i' and len(t) == 3:
                        lins.add(t)
                        return
                    for y in t:
                        walk(y)
            walk(x)
            if x[0] == 'S' and not lins:
                return 'its elements are not the bytes'
            if lins != {w}:
                return 'byte i is given as something else'
    return None


@check('C13')
def c13(ctx):
    R = De(ctx)
    R.run_all()
    ctx.assume += ['serde derives, serde_json and its Number and Key types follow the serde data model']


@check('C14')
def c14(ctx):
    R = De(ctx)
    R.run_all()
    values(ctx, R)
