"""C10 C12 C15: the serializer which replaces byte strings by placeholders"""
from domain import *
from interp import mentions, expand
from framework import check, view, Missing
from checks.c_build import Build, counted, show

CR = 'socket_io_protocol'
SIMPLE = ['bool', 'i8', 'i16', 'i32', 'i64', 'i128', 'u8', 'u16', 'u32', 'u64', 'u128', 'f32', 'f64', 'char', 'str', 'none',
          'unit', 'unit_struct', 'unit_variant']
NESTED = ['some', 'newtype_struct', 'newtype_variant']
COMPOUND = {'tuple': ('SerializeTuple', ['serialize_element']), 'tuple_struct': ('SerializeTupleStruct', ['serialize_field']),
            'tuple_variant': ('SerializeTupleVariant', ['serialize_field']),
            'map': ('SerializeMap', ['serialize_key', 'serialize_value', 'serialize_entry']),
            'struct': ('SerializeStruct', ['serialize_field', 'skip_field']),
            'struct_variant': ('SerializeStructVariant', ['serialize_field', 'skip_field'])}
# provided methods whose default does what plain JSON serialization does (or is not observable in JSON)
DEFAULTED = {'serialize_entry', 'skip_field', 'is_human_readable', 'collect_str', 'collect_seq', 'collect_map'}
TRAITS = {'Serializer', 'Serialize', 'SerializeSeq', 'SerializeTuple', 'SerializeTupleStruct', 'SerializeTupleVariant',
          'SerializeMap', 'SerializeStruct', 'SerializeStructVariant'}
I_ = lambda n: ('i', n, NOFS)


class Ser:
    """the serializer value the packet builder hands to user values, as a template over any inner serializer"""

    def __init__(self, ctx):
        self.ctx = ctx
        B = Build.__new__(Build)
        got = []
        B0 = self.capture(ctx, got)
        if not got:
            raise Missing('no serializer is handed to arguments of binary packets')
        st, ser = got[0]
        self.cap = (st, ser)
        I = self.I = ctx.interp()
        self.calls = {}
        I.hooks['ext'] = self.record
        x = ser
        while x[0] == 'R':
            x = I.load(st, x[1], x[2])
        if x[0] != 'A':
            raise Missing('the serializer is not a known value')
        self.adt = x[1]
        self.param = ('param', 'S')

    def capture(self, ctx, got):
        import checks.c_build as cb
        old = ctx.interp

        def interp(**h):
            I = old(**h)
            I.hooks['serialize'] = lambda st, args, c: got.append((st, args[1])) if not got else None
            return I
        ctx.interp = interp
        try:
            return Build(ctx, 1)
        finally:
            del ctx.interp

    def record(self, st, name, args, n, fz):
        self.calls[(name, n, fz)] = (st.copy(), list(args))

    def template(self, st, inner):
        """a copy of the captured serializer in st, over `inner`, with an arbitrary list of attachments; also its cell"""
        cst, ser = self.cap
        I = self.I
        memo = {}
        self.vec = None

        def cp(v):
            if v[0] == 'R':
                k = (v[1], v[2])
                if k in memo:
                    return memo[k]
                x = I.load(cst, v[1], v[2])
                if x[0] == 'A' and x[1] == 'JsonSer':
                    memo[k] = inner
                    return inner
                if x[0] == 'q' or (x[0] == 'S' and x[2] is not None and I.elem_ty(x[2]) not in (False, None)):
                    et = None
                    ety = self.msg_ty()
                    y = I.sym('atts', ety)
                    r = I.alloc(st, 'atts', y)
                    self.vec = r
                    memo[k] = r
                    return r
                y = cp(x)
                r = I.alloc(st, 'ser', y)
                memo[k] = r
                return r
            if v[0] == 'A':
                return ('A', v[1], v[2], tuple(cp(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v[3]))
            if v[0] == 'T':
                return ('T', tuple(cp(x) for x in v[1]))
            return v
        out = cp(ser)
        if self.vec is None:
            raise Missing('the serializer does not lead to the list of attachments')
        return out

    def msg_ty(self):
        return self.ctx.fn(CR, 'finish', 'PacketBuilder')["locals"][0]

    def atts(self, s, vec):
        return self.I.norm_segs(self.I.as_segs(s, self.I.load(s, vec[1], vec[2])))

    def impl(self, trait, name, v, st):
        """the workspace implementation of a trait method for a value"""
        h = self.I.adt_of(st, v)
        c = [b for b in self.ctx.prog.impls.get((trait, name), []) if b["impl_self"] and b["impl_self"][0] == 'adt'
             and b["impl_self"][1] == h]
        return c[0] if len(c) == 1 else None

    def events(self, s, since=0):
        """[(name, live args, state, return term)] of the serde operations passed to unknown serializers and values"""
        out = []
        for e in s.ev[since:]:
            if e[0] == 'ext' and e[1].split('::')[0] in TRAITS:
                st, args = self.calls[(e[1], e[3], e[2])]
                out.append((e[1], args, st, ('ret', e[1], e[3], e[2])))
            elif e[0] == 'star':
                out.append(('star', [e], None, None))
        return out

    def val(self, st, v):
        n = 0
        while v[0] == 'R' and n < 6:
            v = self.I.load(st, v[1], v[2])
            n += 1
        return v

    def is_term(self, st, v, want):
        """v, through references, is the symbolic value with this term"""
        v = self.val(st, v)
        while True:
            if v == want:
                return True
            if v[0] == 'S' and want[0] == 'S' and v[1] == want[1]:
                return True
            if want[0] == 'S' and want[2] is not None and want[2][0] == 'ref':
                r, p = self.I.deref(st, want)
                want = self.I.load(st, r, p)
                continue
            return False

    def nested(self, st, v, orig, vec):
        """serializing v serializes exactly `orig`, with byte strings replaced, into the same attachments"""
        I = self.I
        if self.is_term(st, v, orig):
            return 'it is passed on as it is, so that byte strings in it are not replaced'
        b = self.impl('Serialize', 'serialize', v, st)
        if b is None:
            return 'it is replaced by another value'
        r = v
        if r[0] != 'R':
            st = st.copy()
            r = I.alloc(st, 'nested', v)
        ser2 = ('S', 'ser2', ('param', 'Z'))
        base = len(st.ev)
        before = self.atts(st, vec)
        I.base_depth += 100
        try:
            outs = I.run(b, (), [r, ser2], st.copy())
        finally:
            I.base_depth -= 100
        for s, k, x in outs:
            if k != 'ret':
                return 'serializing it can panic'
            ev = self.events(s, base)
            if len(ev) != 1 or ev[0][0] != 'Serialize::serialize':
                return 'serializing it does %s' % [e[0] for e in ev]
            nm, args, est, rt = ev[0]
            if not self.is_term(est, args[0], orig):
                return 'another value is serialized instead'
            why = self.replacing(est, args[1], ser2, vec)
            if why:
                return why
            if not self.same(s, x, rt):
                return 'its result is not passed on'
            if self.atts(s, vec) != before:
                return 'attachments are changed on the way'
        return None if outs else 'it cannot be serialized'

    def replacing(self, st, v, inner, vec):
        """v is the byte string replacing serializer over `inner` and the same attachments"""
        x = self.val(st, v)
        if x[0] != 'A' or x[1] != self.adt:
            return 'byte strings in it are not replaced'
        found = {}
        I = self.I

        def walk(v, d=8):
            if d == 0:
                return
            if v == inner or (v[0] == 'S' and v[1] == inner[1]):
                found['inner'] = True
            elif v[0] == 'R':
                if (v[1], v[2]) == (vec[1], vec[2]):
                    found['vec'] = True
                    return
                walk(I.load(st, v[1], v[2]), d - 1)
            elif v[0] in ('A', 'T'):
                for y in (v[3] if v[0] == 'A' else v[1]):
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        walk(y, d - 1)
        walk(x)
        if 'inner' not in found:
            return 'it is not serialized by the serializer it is given'
        if 'vec' not in found:
            return 'its attachments go elsewhere'
        return None

    def same(self, s, v, rt):
        """v is the result rt, possibly taken apart and put together again"""
        I = self.I
        if v[0] == 'S':
            return v[1] == rt
        if v[0] == 'A' and v[1] == I.RESULT and s.var.get(rt) == v[2]:
            w = v[3][0]
            return within(self.ctx, s, w, rt, {('pl', rt, v[2], 0), ('vf', rt, ('Ok', 'Err')[v[2]], 0)})
        return False


def within(ctx, s, w, rt, pts):
    """w is the part pts of rt, converted, or taken apart and put together again"""
    if w[0] == 'S':
        return w[1] in pts or rt in subterms(w[1])
    if w[0] == 'A' and w[1] in ctx.prog.adts:
        a = ctx.prog.adts[w[1]]
        for pt in pts:
            if s.var.get(pt) == w[2]:
                n = a["variants"][w[2]][0]
                return all(within(ctx, s, x, rt, {('pl', pt, w[2], i), ('vf', pt, n, i)}) for i, x in enumerate(w[3]))
        return False
    return w == UNIT


def subterms(t):
    out = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            out.add(x)
            if x and x[0] == 'ret':
                continue
            stack += list(x)
    return out


def symargs(R, b, skip=1):
    return [R.I.sym(('p', i), b["locals"][i + 1]) for i in range(skip, b["argc"])]


def arg_same(R, st, got, want):
    if got == want:
        return True
    return R.I.freeze(st, got) == R.I.freeze(st, want) or R.is_term(st, got, want)


def forwarded(ctx, R, name, outs, base, target, plain, nested, vec, before, site, op=None):
    """every outcome passes exactly this operation on to target with these arguments, and returns its result"""
    op = op or name
    for s, k, v in outs:
        if not ctx.ob('forward', k == 'ret', name + ':panic', 'it panics: %s' % (v[:1] if k != 'ret' else '',), site):
            continue
        ev = R.events(s, base)
        ok = len(ev) == 1 and ev[0][0] == op
        if not ctx.ob('forward', ok, name, 'instead of passing on %s it does: %s' % (op, ', '.join(e[0] for e in ev) or 'nothing'),
                      site, sample='%s passed on' % name):
            continue
        nm, args, st, rt = ev[0]
        ctx.ob('forward', R.is_term(st, args[0], target), name + ':target', '%s is passed to another serializer' % name, site)
        rest = args[1:]
        if not ctx.ob('forward', len(rest) == len(plain) + len(nested), name + ':args', 'other arguments are passed on', site):
            continue
        for g, w in zip(rest, plain):
            ctx.ob('forward', arg_same(R, st, g, w), name + ':args', '%s is passed on with other arguments: %s instead of %s' % (
                name, ctx.pp.v(R.I.freeze(st, g))[:80], ctx.pp.v(R.I.freeze(st, w))[:80]), site)
        for g, w in zip(rest[len(plain):], nested):
            why = R.nested(st, g, w, vec)
            ctx.ob('nested', why is None, name, 'a value inside %s: %s' % (name, why), site,
                   sample='%s: nested value serialized with replacement' % name)
        ctx.ob('forward', R.atts(s, vec) == before, name + ':atts', '%s changes the attachments' % name, site)
        yield s, v, rt


def drain(it):
    for _ in it:
        pass


@check('C12')
def c12(ctx):
    R = Ser(ctx)
    I = R.I
    inner = ('S', 'inner', R.param)
    for m in SIMPLE + NESTED + list(COMPOUND) + ['is_human_readable']:
        name = m if m == 'is_human_readable' else 'serialize_' + m
        st = State()
        w = R.template(st, inner)
        vec = R.vec
        b = R.impl('Serializer', name, w, st)
        if b is None:
            ctx.ob('forward', name in DEFAULTED, name + ':missing', 'Serializer::%s is not passed on' % name, str(R.adt))
            continue
        site = ctx.site(b)
        before = R.atts(st, vec)
        args = symargs(R, b)
        self_ = w
        if b["locals"][1][0] == 'ref':
            self_ = I.alloc(st, 'w', w)
        outs = ctx.run(I, b, [self_] + args, st)
        if m == 'is_human_readable':
            for s, k, v in outs:
                ev = R.events(s)
                ok = k == 'ret' and (v == ('b', True) or (len(ev) == 1 and ev[0][0] == 'Serializer::' + name and v[0] == 'b'))
                ctx.ob('forward', ok, name, 'is_human_readable is not that of the serializer', site)
            continue
        n = 1 if m in NESTED else 0
        plain, nested = args[:len(args) - n], args[len(args) - n:]
        for s, v, rt in forwarded(ctx, R, name, outs, 0, inner, plain, nested, vec, before, site, 'Serializer::' + name):
            if m not in COMPOUND:
                ctx.ob('forward', R.same(s, v, rt), name + ':result', 'the result of %s is not returned' % name, site)
            elif v[0] == 'A' and v[1] == I.RESULT and v[2] == 0:
                ctx.ob('forward', s.var.get(rt) == 0, name + ':result', '%s succeeds although the serializer failed' % name, site)
                compound(ctx, R, m, s, v[3][0], ('S', ('vf', rt, 'Ok', 0), None), vec, before, 0)
            else:
                ctx.ob('forward', R.same(s, v, rt), name + ':result', 'the error of %s is not returned' % name, site)
    ctx.assume += ['serde derives and the JSON serializer follow the serde data model']


def compound(ctx, R, m, s, obj, target, vec, before, step):
    """drive a compound serializer for up to three steps"""
    I = R.I
    trait, methods = COMPOUND[m]
    for name in methods + ['end']:
        b = R.impl(trait, name, obj, s)
        full = '%s::%s' % (trait, name)
        if b is None:
            ctx.ob('forward', name in DEFAULTED, full + ':missing', '%s is not implemented' % full, str(R.adt))
            continue
        st = s.copy()
        args = symargs(R, b)
        self_ = obj
        if b["locals"][1][0] == 'ref':
            self_ = I.alloc(st, 'compound', obj)
        site = ctx.site(b)
        base = len(st.ev)
        outs = ctx.run(I, b, [self_] + args, st)
        n = {'serialize_entry': 2, 'end': 0, 'skip_field': 0}.get(name, 1)
        plain, nested = args[:len(args) - n], args[len(args) - n:]
        if name == 'serialize_entry' and all(len(R.events(s2, base)) != 1 or R.events(s2, base)[0][0] != full for s2, k, v in outs):
            entry_split(ctx, R, outs, base, nested, vec, before, site)
            continue
        for s2, v, rt in forwarded(ctx, R, full, outs, base, target, plain, nested, vec, before, site):
            ctx.ob('forward', R.same(s2, v, rt), full + ':result', 'the result of %s is not returned' % full, site)
            if name != 'end' and step < 2 and self_[0] == 'R':
                hv = ('S', ('hv', full, rt[2], 0, rt[3]), None)
                compound(ctx, R, m, s2, I.load(s2, self_[1], self_[2]), hv, vec, before, step + 1)


def entry_split(ctx, R, outs, base, nested, vec, before, site):
    """an entry may also be passed on as its key and then its value"""
    for s, k, v in outs:
        ev = R.events(s, base)
        names = [e[0] for e in ev]
        ok = k == 'ret' and names in (['SerializeMap::serialize_key'], ['SerializeMap::serialize_key', 'SerializeMap::serialize_value'])
        if ctx.ob('forward', ok, 'SerializeMap::serialize_entry', 'a map entry is passed on as %s' % names, site):
            for e, w in zip(ev, nested):
                why = R.nested(e[2], e[1][1], w, vec)
                ctx.ob('nested', why is None, 'SerializeMap::serialize_entry', 'a map entry: %s' % why, site)
            ok = R.same(s, v, ev[-1][3]) and (len(ev) == 2 or v[0] == 'A' and v[2] == 1)
            ctx.ob('forward', ok, 'SerializeMap::serialize_entry:result', 'the result of a map entry is lost', site)


# ---------------------------------------------------------------- byte strings and sequences
def attached(ctx, R, s, vec, before, want):
    """the attachments are `before` and one binary frame with exactly the bytes `want`"""
    I = R.I
    now = R.atts(s, vec)
    if now[:len(before)] != before or len(now) != len(before) + 1 or now[-1][0] != 'e':
        return 'it appends %s attachments instead of one' % (len(now) - len(before) if now[:len(before)] == before else 'other')
    m = now[-1][1]
    if m[0] != 'A' or ctx.vname(m) != 'Binary':
        return 'its attachment is not a binary frame'
    w = m[3][0]
    segs = I.norm_segs(I.as_segs(s, w))
    if segs != I.norm_segs((('lit', b'\x04'),) + want):
        return 'its attachment is %s, not the header byte and its bytes' % (ctx.pp.segs(segs) if hasattr(ctx.pp, 'segs') else segs,)
    return None


def placeholder(ctx, R, s, ev, inner, before, v):
    """the events are those of a placeholder object with the number of attachments before, as far as they go"""
    I = R.I
    if not ev:
        return 'no placeholder is written'
    nm, args, st, rt = ev[0]
    if nm not in ('Serializer::serialize_struct', 'Serializer::serialize_map'):
        return 'instead of a placeholder object it is written by %s' % nm
    if not R.is_term(st, args[0], inner):
        return 'the placeholder is written to another serializer'
    hint = args[-1]
    if nm == 'Serializer::serialize_struct':
        if R.val(st, hint) != I_(2):
            return 'the placeholder object is announced with another number of fields than 2'
    else:
        hint = R.val(st, hint)
        if not (hint[0] == 'A' and (hint[2] == 0 or R.val(st, hint[3][0]) == I_(2))):
            return 'the placeholder object is announced with another number of entries than 2'
    n = I.segs_len(before)
    target = ('S', ('vf', rt, 'Ok', 0), None)
    want = {b'_placeholder': ('b', True), b'num': n}
    seen = []
    key = None
    for nm, args, st, rt in ev[1:]:
        if nm is None or nm == 'star' or not R.is_term(st, args[0], target):
            return 'the placeholder object is not written to one serializer (%s)' % nm
        target = ('S', ('hv', nm, rt[2], 0, rt[3]), None)
        short = nm.split('::')[1]
        if short in ('serialize_field', 'serialize_entry'):
            key, val = args[1], args[2]
        elif short == 'serialize_key':
            key = args[1]
            continue
        elif short == 'serialize_value':
            val = args[1]
        elif short == 'end':
            if len(seen) != 2:
                return 'the placeholder object has only the fields %s' % seen
            if (nm, args, st, rt) != ev[-1]:
                return 'more is written after the placeholder object'
            if not R.same(s, v, rt):
                return 'the result of the placeholder object is not returned'
            return None
        else:
            return '%s in the placeholder object' % nm
        k = R.val(st, key)
        ks = I.norm_segs(I.as_segs(st, k))
        kb = ks[0][1] if len(ks) == 1 and ks[0][0] == 'lit' else None
        if kb not in want or kb in seen:
            return 'the placeholder object has a field %s' % (kb,)
        seen.append(kb)
        x = R.val(st, val)
        if x != want[kb]:
            if kb == b'num' and x[0] == 'i' and st.entails_ge(lsub(x, n)) and st.entails_ge(lsub(n, x)):
                continue
            return 'field %s of the placeholder is %s instead of %s' % (kb.decode(), ctx.pp.v(x)[:60], ctx.pp.v(want[kb])[:60])
    # not finished: only right if the serializer reported an error
    if s.var.get(ev[-1][3]) != 1:
        return 'the placeholder object is not finished'
    if not (v[0] == 'A' and v[1] == I.RESULT and v[2] == 1):
        return 'an error while writing the placeholder is lost'
    return None


@check('C10')
def c10(ctx):
    R = Ser(ctx)
    I = R.I
    inner = ('S', 'inner', R.param)
    st = State()
    w = R.template(st, inner)
    vec = R.vec
    b = R.impl('Serializer', 'serialize_bytes', w, st)
    if b is None:
        raise Missing('Serializer::serialize_bytes of the serializer of binary packets')
    site = ctx.site(b)
    before = R.atts(st, vec)
    bytes_ = I.sym('bytes', b["locals"][2])
    want = I.as_segs(st, I.load(st, *I.deref(st, bytes_)))
    n = 0
    for s, k, v in ctx.run(I, b, [w, bytes_], st):
        if not ctx.ob('placeholder', k == 'ret', 'bytes:panic', 'serializing a byte string panics: %s' % (v,), site):
            continue
        n += 1
        why = placeholder(ctx, R, s, R.events(s), inner, before, v)
        ctx.ob('placeholder', why is None, 'bytes', 'serializing a byte string: %s' % why, site, sample='byte string')
        if v[0] != 'A' or v[2] != 1:
            why = attached(ctx, R, s, vec, before, want)
            ctx.ob('attachment', why is None, 'bytes', 'serializing a byte string: %s' % why, site, sample='byte string')
    ctx.floor(n, 1, 'outcomes of serialize_bytes')
    sequences(ctx, R, numbers=True)
    counted(ctx)


@check('C15')
def c15(ctx):
    R = Ser(ctx)
    sequences(ctx, R, numbers=False)


def is_probe(R, st, ser):
    """the serializer value a value is serialized with, if it is not the byte string replacing one"""
    x = R.val(st, ser)
    return x if x[0] == 'A' and x[1] != R.adt else None


def sequences(ctx, R, numbers):
    """every sequence of up to `depth` elements, each a byte or not, and the general step after any number of bytes"""
    I = R.I
    inner = ('S', 'inner', R.param)
    st = State()
    w = R.template(st, inner)
    vec = R.vec
    b = R.impl('Serializer', 'serialize_seq', w, st)
    if b is None:
        raise Missing('Serializer::serialize_seq of the serializer of binary packets')
    depth = 5 if ctx.tier == 'thorough' else 3
    before = R.atts(st, vec)
    ln = I.sym('len', b["locals"][2])
    probes = {}
    work = []
    site = ctx.site(b)
    for s, k, v in ctx.run(I, b, [w, ln], st):
        if not ctx.ob('sequence', k == 'ret', 'start:panic', 'starting a sequence panics: %s' % (v,), site):
            continue
        if v[0] == 'A' and v[1] == I.RESULT and v[2] == 1:
            ctx.ob('sequence', errored(R, s, 0), 'start:error', 'starting a sequence fails although nothing failed', site)
            continue
        if v[0] != 'A' or v[1] != I.RESULT:
            ctx.ob('sequence', False, 'start:result', 'the sequence serializer is not a known value', site)
            continue
        work.append((s, I.alloc(s, 'seq', v[3][0]), ()))
    if not ctx.ob('sequence', bool(work), 'start', 'no sequence can be started', site):
        return
    n = 0
    general = None
    while work:
        s, r, els = work.pop()
        obj = I.load(s, r[1], r[2])
        be = R.impl('SerializeSeq', 'serialize_element', obj, s)
        bn = R.impl('SerializeSeq', 'end', obj, s)
        if be is None or bn is None:
            raise Missing('SerializeSeq of the serializer of binary packets')
        for s2, k, v in ctx.run(I, bn, [obj], s.copy()):
            n += 1
            if ctx.ob('sequence', k == 'ret', 'end:panic', 'ending a sequence of %d elements panics: %s' % (len(els), v), ctx.site(bn)):
                judge(ctx, R, s2, v, els, inner, vec, before, ln, numbers, ctx.site(bn), probes)
        if general is None and len(els) == 2 and els[0][0] == 'el':
            g = generalise(R, s, r, els, inner)
            if g is not None:
                general = True
                work.append(g)
        if len(els) >= depth or (els and els[0][0] == 'X' and (len(els) >= 3 or allbytes(R, s, len(els) - 1))):
            continue                 # a byte after any number of bytes gives any number of bytes again
        el = I.sym(('el', len(els)), be["locals"][2])
        for s2, k, v in ctx.run(I, be, [r, el], s.copy()):
            n += 1
            if not ctx.ob('sequence', k == 'ret', 'element:panic', 'element %d of a sequence panics: %s' % (len(els), v), ctx.site(be)):
                continue
            m = len(s.ev)
            if v[0] == 'A' and v[1] == I.RESULT and v[2] == 0:
                lost = unnoticed(R, s2, m, None)
                ctx.ob('sequence', lost is None, 'element:lost', 'a failure of %s is ignored' % lost, ctx.site(be))
                work.append((s2, r, els + (('el', el),)))
            elif v[0] == 'A' and v[1] == I.RESULT:
                ctx.ob('sequence', errored(R, s2, 0), 'element:error', 'an element is refused although nothing failed', ctx.site(be))
            else:
                # the result of the serializer passed on: continue with both of its variants
                rt = v[1] if v[0] == 'S' else None
                if not ctx.ob('sequence', rt is not None and any(e[3] == rt for e in R.events(s2)), 'element:result',
                              'the result of an element is not known', ctx.site(be)):
                    continue
                lost = unnoticed(R, s2, m, rt)
                ctx.ob('sequence', lost is None, 'element:lost', 'a failure of %s is ignored' % lost, ctx.site(be))
                s3 = s2.copy()
                s3.var[rt] = 0
                work.append((s3, r, els + (('el', el),)))
    ctx.floor(n, 10, 'outcomes of sequences')
    if not numbers:
        ctx.notes['sequences'] = 'up to %d elements%s' % (depth, ', and the steps after any number of bytes' if general else '')
        ctx.floor(len(probes), 1, 'element probes')
        for x in probes.values():
            probe(ctx, R, x)


def allbytes(R, s, n):
    ev = R.events(s)
    return n > 0 and len(ev) == n and all(e[0] == 'Serialize::serialize' and s.var.get(e[3]) == 0 for e in ev)


def unnoticed(R, s, base, passed):
    """an operation of the serializer whose failure the outcome does not depend on"""
    for e in R.events(s, base):
        if e[0] == 'Serialize::serialize' and is_probe(R, e[2], e[1][1]) is not None:
            continue
        if e[0] is not None and e[0] != 'star' and e[3] is not None and e[3] != passed and s.var.get(e[3]) != 0:
            return e[0]
    return None


def errored(R, s, base):
    ev = [e for e in R.events(s, base) if e[3] is not None and not (
        e[0] == 'Serialize::serialize' and is_probe(R, e[2], e[1][1]) is not None)]
    return any(s.var.get(e[3]) == 1 for e in ev[-1:])


def generalise(R, s, r, els, inner):
    """replace the bytes collected so far by any non-empty sequence of bytes"""
    I = R.I
    ev = R.events(s)
    if len(ev) != 2 or any(e[0] != 'Serialize::serialize' or is_probe(R, e[2], e[1][1]) is None or s.var.get(e[3]) != 0 for e in ev):
        return None
    bs = tuple(('e', ('i', 0, frozenset(((('vf', e[3], 'Ok', 0), 1),)))) for e in ev)
    hits = []

    def cp(v):
        if v[0] == 'q' and v[1] and v[1][-2:] == bs:
            hits.append(1)
            return ('q', v[1][:-2] + (('sub', 'X', I_(0), ('i', 0, frozenset(((('len', 'X'), 1),))), None),))
        if v[0] == 'A':
            return ('A', v[1], v[2], tuple(cp(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v[3]))
        if v[0] == 'T':
            return ('T', tuple(cp(x) for x in v[1]))
        return v
    obj = cp(I.load(s, r[1], r[2]))
    if len(hits) != 1 or mentions(obj, lambda x: x in (ev[0][3], ev[1][3])):
        return None
    s = s.copy()
    s.ev = ()
    s.rng[('len', 'X')] = (1, INF)
    I.store(s, r[1], r[2], obj)
    return (s, r, (('X',),))


def judge(ctx, R, s, v, els, inner, vec, before, ln, numbers, site, probes):
    """a finished sequence: one attachment and its placeholder, or every element in a plain sequence"""
    I = R.I
    ev = R.events(s)
    seen = {}
    rest = []
    for e in ev:
        if e[0] == 'Serialize::serialize':
            x = is_probe(R, e[2], e[1][1])
            if x is not None:
                probes.setdefault(x[1], x)
                for i, el in enumerate(els):
                    if el[0] == 'el' and R.is_term(e[2], e[1][0], el[1]):
                        seen.setdefault(i, []).append(e)
                continue
        rest.append(e)
    want = []
    if not (v[0] == 'A' and v[1] == I.RESULT and v[2] == 1):
        lost = unnoticed(R, s, 0, v[1] if v[0] == 'S' else ev[-1][3] if ev and R.same(s, v, ev[-1][3]) else None)
        ctx.ob('sequence', lost is None, 'end:lost', 'a failure of %s is ignored' % lost, site)
    allb = bool(els)
    for i, el in enumerate(els):
        if el[0] == 'X':
            want.append(('sub', 'X', I_(0), ('i', 0, frozenset(((('len', 'X'), 1),))), None))
            continue
        ok = [e for e in seen.get(i, []) if s.var.get(e[3]) == 0]
        no = [e for e in seen.get(i, []) if s.var.get(e[3]) == 1]
        if ok and not no:
            want.append(('e', ('i', 0, frozenset(((('vf', ok[0][3], 'Ok', 0), 1),)))))
        else:
            allb = False
            want.append(None)
    what = 'a sequence of %s' % (', '.join('any bytes' if e[0] == 'X' else 'a byte' if x is not None else 'another value'
                                           for e, x in zip(els, want)) or 'no elements')
    key = 'bytes' if allb else 'empty' if not els else 'mixed'
    if allb:
        why = placeholder(ctx, R, s, rest, inner, before, v)
        if numbers:
            ctx.ob('placeholder', why is None, 'sequence', '%s: %s' % (what, why), site, sample=what)
        else:
            ctx.ob('sequence', why is None or why.startswith('field num') or why.startswith('the placeholder object'), key,
                   '%s: %s' % (what, why), site, sample=what)
        if v[0] != 'A' or v[2] != 1:
            why = attached(ctx, R, s, vec, before, tuple(want))
            ctx.ob('attachment', why is None, key, '%s: %s' % (what, why), site)
        return
    if numbers:
        if R.atts(s, vec) != before:
            ctx.ob('attachment', False, key, '%s adds an attachment without a placeholder' % what, site)
        return
    why = plain_sequence(ctx, R, s, v, rest, els, want, inner, vec, ln)
    ctx.ob('sequence', why is None, key, '%s: %s' % (what, why), site, sample=what)
    ctx.ob('attachment', R.atts(s, vec) == before, key, '%s changes the attachments' % what, site)


def plain_sequence(ctx, R, s, v, ev, els, want, inner, vec, ln):
    I = R.I
    if not ev:
        return 'nothing is written'
    nm, args, st, rt = ev[0]
    if nm == 'Serializer::serialize_tuple' and not els:
        return 'written as a tuple'
    if nm != 'Serializer::serialize_seq':
        return 'instead of a plain sequence it is written by %s' % nm
    if not R.is_term(st, args[0], inner):
        return 'it is written to another serializer'
    if not arg_same(R, st, args[1], ln):
        h = R.val(st, args[1])
        if not (h[0] == 'A' and (h[2] == 0 or (not any(e[0] == 'X' for e in els) and R.val(st, h[3][0]) == I_(len(els))))):
            return 'another length is announced: %s' % ctx.pp.v(h)[:60]
    target = ('S', ('vf', rt, 'Ok', 0), None)
    i = 0
    last = rt
    X = ('i', 0, frozenset(((('len', 'X'), 1),)))
    pos = None                       # number of the leading bytes already written in a loop
    for nm, args, st, rt in ev[1:]:
        last = rt
        if nm == 'star':
            if i >= len(els) or els[i][0] != 'X' or pos is not None:
                return 'elements are written in a loop of unknown length'
            loop = args[0][1]
            pos = ('i', 0, frozenset(((('cnt', loop), 1),)))
            hv = ('wh', loop, target[1])
            for alt in args[0][2]:
                fz = expand(alt[0][2]) if len(alt) == 1 and alt[0][0] == 'ext' else None
                if fz is None or alt[0][1] != 'SerializeSeq::serialize_element' or fz[0][:2] != ('&', fz[0][1]) or \
                        fz[0][1][:1] != ('S',) or expand(hv) != fz[0][1][1] or bare(fz[1]) != byte_at(pos):
                    return 'the leading bytes are not written one by one in their order'
            target = ('S', hv, None)
            continue
        if not R.is_term(st, args[0], target):
            return '%s is written to another serializer' % nm
        target = ('S', ('hv', nm, rt[2], 0, rt[3]), None)
        x = R.val(st, args[1]) if len(args) > 1 else None
        if i < len(els) and els[i][0] == 'X':
            if x == byte_at(pos or I_(0)) and s.var.get(rt) == 1:
                break
            if pos is None or not (s.entails_ge(lsub(pos, X)) and s.entails_ge(lsub(X, pos))):
                return 'the leading bytes are not all written'
            i += 1
        if nm == 'SerializeSeq::end':
            if i != len(els):
                return 'only %d of its %d elements are written' % (i, len(els))
            return None if R.same(s, v, rt) else 'its result is not returned'
        if nm != 'SerializeSeq::serialize_element':
            return '%s in the sequence' % nm
        if i >= len(els):
            return 'more elements are written than it has'
        if want[i] is not None and x == want[i][1]:
            i += 1
            continue
        why = R.nested(st, args[1], els[i][1], vec)
        if why:
            return 'element %d: %s' % (i, why)
        i += 1
    if s.var.get(last) == 1:
        return None if (v[0] == 'A' and v[2] == 1) or R.same(s, v, last) else 'an error is lost'
    return 'the sequence is not ended'


def byte_at(pos):
    return ('i', 0, frozenset(((('byte', 'X', pos), 1),)))


def bare(v):
    while isinstance(v, tuple) and v and v[0] == '&':
        v = v[1]
    return v


def probe(ctx, R, x):
    """the serializer elements are tried with gives the value of a byte for bytes, and refuses everything else"""
    I = R.I
    st0 = State()
    for m in SIMPLE + NESTED + ['bytes', 'seq'] + list(COMPOUND):
        name = 'serialize_' + m
        b = R.impl('Serializer', name, x, st0)
        if b is None:
            raise Missing('%s of the serializer elements are tried with' % name)
        st = State()
        args = symargs(R, b)
        site = ctx.site(b)
        for s, k, v in ctx.run(I, b, [x] + args, st):
            ok = k == 'ret' and v[0] == 'A' and v[1] == I.RESULT and not R.events(s)
            if m == 'u8':
                ok = ok and v[2] == 0 and I.freeze(s, v[3][0]) == I.freeze(s, args[0])
                ctx.ob('probe', ok, name, 'a byte is not taken as that byte', site, sample='a byte is taken as that byte')
            else:
                ctx.ob('probe', ok and v[2] == 1, name, 'an element which is not a byte (%s) is taken for one' % m, site)
