"""C05 (writing side) C06 C10 (counts) C11 C33: packets being built"""
from domain import *
from framework import check, view, Missing
from models import disp_segs

CR = 'socket_io_protocol'
I_ = lambda n: ('i', n, NOFS)
DIGIT = {('event', False): b'2', ('ack', False): b'3', ('event', True): b'5', ('ack', True): b'6'}


class Build:
    """drives the public packet builder through every sequence of added and failed arguments up to a depth"""

    def __init__(self, ctx, depth):
        self.ctx = ctx
        prog = ctx.prog
        self.new = {'event': ctx.fn(CR, 'new_event', 'PacketBuilder'), 'ack': ctx.fn(CR, 'new_ack', 'PacketBuilder')}
        self.arg = ctx.fn(CR, 'serialize_arg', 'PacketBuilder')
        self.fin = ctx.fn(CR, 'finish', 'PacketBuilder')
        self.plain = {'0': ctx.fn(CR, 'serialize_connect'), '1': ctx.fn(CR, 'serialize_disconnect')}
        I = self.I = ctx.interp()
        mt = self.fin["locals"][0]
        self.frame = mt[2][0]
        self.TI, self.BI = ctx.variant(self.frame[1], 'Text'), ctx.variant(self.frame[1], 'Binary')
        self.depth = depth
        self.out = []
        S = self.text_ty()
        for kind, b in self.new.items():
            for binary in (False, True):
                for hasid in ((False, True) if kind == 'event' else (True,)):
                    for nty in (('ref', False, ('str',)), S):
                        if nty is not None:
                            self.start(kind, b, binary, hasid, nty)

    def text_ty(self):
        for h, a in self.ctx.prog.adts.items():
            if a["name"] == 'String':
                return ('adt', h, ())
        return None

    def start(self, kind, b, binary, hasid, nty):
        I, ctx = self.I, self.ctx
        ns = I.sym('ns', nty)
        idv = I.sym('id', ('prim', 'u64'))
        ev = I.sym('ev', ('ref', False, ('str',)))
        params = []
        for i in range(b["argc"]):
            t = b["locals"][i + 1]
            if t == ('prim', 'bool'):
                params.append(('b', binary))
            elif t == ('prim', 'u64'):
                params.append(idv)
            elif t[0] == 'adt' and t[1] == I.OPTION:
                params.append(I.some(idv) if hasid else I.none)
            elif t[0] == 'param' or (t[0] == 'adt' and t[1] == I.COW):
                params.append(ns)
            elif t == ('ref', False, ('str',)):
                params.append(ev if kind == 'event' and not any(x is ev for x in params) else ns)
            else:
                raise Missing('unknown parameter of %s' % b["path"])
        sub = tuple((g, nty) for g in b["generics"])
        self.nssegs = I.as_segs(State(), deref(I, ns))
        self.evsegs = I.as_segs(State(), deref(I, ev))
        for s, k, v in I.run(b, sub, params, State()):
            base = dict(kind=kind, binary=binary, id=idv if hasid else None, ns=self.nssegs, nty=nty)
            if k != 'ret':
                self.out.append(dict(base, seq=(), s=s, panic=v, step='new'))
                continue
            self.walk(base, (), s, I.deep(s, v))

    def walk(self, base, seq, s, v):
        I = self.I
        for s2, k, fr in I.run(self.fin, (), [v], s.copy()):
            row = dict(base, seq=seq, s=s2, step='finish', builder=v)
            if k != 'ret':
                row['panic'] = fr
            else:
                row['frames'] = I.norm_segs(I.as_segs(s2, I.deep(s2, fr)))
            self.out.append(row)
        if len(seq) >= self.depth:
            return
        n = len(seq)
        a = ('S', 'val%d' % n, ('ref', False, ('param', 'T')))
        s = s.copy()
        r = I.alloc(s, 'builder', v)
        for s2, k, res in I.run(self.arg, (), [r, a], s):
            if k != 'ret':
                self.out.append(dict(base, seq=seq + ('?',), s=s2, step='arg', panic=res))
                continue
            nv = I.deep(s2, I.load(s2, r[1], r[2]))
            if res[0] != 'A' or res[1] != I.RESULT:
                raise Missing('serialize_arg returns an unknown value')
            e = ('ok' if res[2] == 0 else 'err', I.freeze(s2, deref(I, a)), nv)
            self.walk(base, seq + (e[:2],), s2, nv)

    # ---------------------------------------------------------------------------------------- specification
    def expected(self, row, nsdefault):
        """segments of the packet text, given the frames that follow it"""
        I, s = self.I, row['s']
        segs = (('lit', b'4' + DIGIT[(row['kind'], row['binary'])]),)
        natt = I.segs_len(row['frames'][1:])
        if row['binary']:
            segs += disp_segs(I, s, natt, 'display', ('prim', 'u64')) + (('lit', b'-'),)
        if not nsdefault:
            segs += row['ns'] + (('lit', b','),)
        if row['id'] is not None:
            segs += disp_segs(I, s, row['id'], 'display', ('prim', 'u64'))
        args = [(('disp', 'json', ('q', self.evsegs)),)] if row['kind'] == 'event' else []
        for r, a in row['seq']:
            if r == 'ok':
                args.append((('disp', 'jsonatt' if row['binary'] else 'json', a),))
        alts = []
        if args:
            body = (('lit', b'['),)
            for i, a in enumerate(args):
                body += ((('lit', b','),) if i else ()) + a
            alts.append(segs + body + (('lit', b']'),))
        else:
            alts += [segs, segs + (('lit', b'[]'),)]
        return [I.norm_segs(x) for x in alts]

    def label(self, row):
        return '%s%s%s, arguments %s' % ('binary ' if row['binary'] else '', row['kind'], ' with id' if row['id'] is not None else '',
                                         ' '.join(r for r, *_ in row['seq']) or 'none')


def deref(I, v):
    if v[0] == 'S' and v[2] is not None and v[2][0] == 'ref':
        r, p = I.deref(State(), v)
        return I.load(State(), r, p)
    return v


def payload(B, s, seg, vi):
    """contents of a frame element of the given variant, or None"""
    if seg[0] != 'e':
        return None
    v = B.I.deep(s, seg[1])
    if v[0] == 'A' and v[1] == B.frame[1] and v[2] == vi:
        return B.I.norm_segs(B.I.as_segs(s, v[3][0]))
    return None


def show(ctx, segs):
    return ' '.join(ctx.pp.seg(x) for x in segs) if segs is not None else '?'


def check_row(ctx, B, row, rule):
    I = B.I
    site = ctx.site(B.fin if row['step'] == 'finish' else B.arg if row['step'] == 'arg' else B.new[row['kind']])
    key = '%s%s' % ('b' if row['binary'] else '', row['kind'])
    if 'panic' in row:
        ctx.ob(rule, False, key + ':panic', 'building a packet (%s) panics: %s' % (B.label(row), row['panic'][:3]), site)
        return
    fr = row['frames']
    for dflt in (False, True):
        for s in row['s'].assume(I.seq_eq(row['s'], row['ns'], (('lit', b'/'),)), dflt):
            text = payload(B, s, fr[0], B.TI) if fr else None
            want = B.expected(dict(row, s=s), dflt)
            ctx.ob(rule, text in want, key + ':text', 'the text of a packet (%s, namespace %s) is %s instead of %s' % (
                B.label(row), '/' if dflt else 'not /', show(ctx, text), show(ctx, want[0])), site,
                sample='%s: %s' % (B.label(row), show(ctx, want[0])))
    rest = fr[1:]
    if not row['binary']:
        ctx.ob(rule, not rest, key + ':frames', 'a packet without attachments is followed by other frames', site)
        return
    oks = [a for r, a in row['seq'] if r == 'ok']
    got = [x[1][1] if x[0] == 'star' and x[1][0] == 'att' else None for x in rest]
    ctx.ob(rule, got == oks, key + ':frames', 'the frames after the text (%s) are %s instead of the attachments of the arguments in order' % (
        B.label(row), show(ctx, rest)), site, sample='attachments in argument order')


def build(ctx, n):
    B = Build(ctx, n + (1 if ctx.tier == 'thorough' else 0))
    ctx.notes['inductive'] = inductive(B)
    ctx.notes['argument_sequences_up_to'] = B.depth
    if not ctx.notes['inductive']:
        B = Build(ctx, n + 2)
        ctx.notes['argument_sequences_up_to'] = B.depth
    return B


def kind_digits(ctx):
    """C05, writing side"""
    B = Build(ctx, 0)
    for row in B.out:
        if 'panic' in row:
            continue
        t = payload(B, row['s'], row['frames'][0], B.TI) if row['frames'] else None
        want = b'4' + DIGIT[(row['kind'], row['binary'])]
        ok = bool(t) and t[0][0] == 'lit' and t[0][1][:2] == want
        ctx.ob('write', ok, '%s%s' % ('b' if row['binary'] else '', row['kind']), 'a %s packet is written starting with %s' % (
            B.label(row), show(ctx, t)), ctx.site(B.new[row['kind']]), sample='%s -> %s' % (B.label(row), want.decode()))
    plain(ctx, B, 'write', True)


def plain(ctx, B, rule, prefix):
    I = B.I
    for d, b in B.plain.items():
        args = [I.sym('ns', b["locals"][1])]
        ns = I.as_segs(State(), deref(I, args[0]))
        for s, k, v in ctx.run(I, b, args):
            if not ctx.ob(rule, k == 'ret', d + ':panic', 'writing a packet without arguments panics', ctx.site(b)):
                continue
            v = I.deep(s, v)
            ok = v[0] == 'A' and ctx.vname(v) == 'Text'
            views = view(ctx, I, s, v[3][0]) if ok else [(s, None)]
            for s1, x in views:
                for dflt in (False, True):
                    for s2 in s1.assume(I.seq_eq(s1, ns, (('lit', b'/'),)), dflt):
                        want = I.norm_segs((('lit', b'4' + d.encode()),) + (() if dflt else ns + (('lit', b','),)))
                        got = I.norm_segs(x) if x is not None else None
                        ok = got == want or (prefix and got and got[0][0] == 'lit' and got[0][1][:2] == b'4' + d.encode())
                        ctx.ob(rule, ok, d + ':text', 'the text is %s instead of %s' % (show(ctx, got), show(ctx, want)), ctx.site(b),
                               sample='%s: %s' % (b["name"], show(ctx, want)))


@check('C06')
def c06(ctx):
    B = build(ctx, 2)
    for row in B.out:
        if all(r == 'ok' for r, *_ in row['seq']):
            check_row(ctx, B, row, 'layout')
    plain(ctx, B, 'layout', False)


@check('C11')
def c11(ctx):
    B = build(ctx, 3)
    n = 0
    for row in B.out:
        if any(r == 'err' for r, *_ in row['seq']):
            n += 1
            check_row(ctx, B, row, 'rollback')
        elif 'panic' in row and row['step'] == 'arg':
            check_row(ctx, B, row, 'rollback')
    ctx.ob('floor', n > 0, 'none', 'no argument ever fails', ctx.site(B.arg))
    reported(ctx, B.arg)


def reported(ctx, arg):
    """every public method of the client which adds an argument passes the failure on"""
    import checks.client as client
    err = arg["locals"][0][2][1]
    C = client.Client(ctx)
    I = C.I
    pub = [b for b in ctx.prog.bodies.values() if b["crate"] == client.CL and b["kind"] == 'AssocFn' and b["vis"] == 'Public' and
           ctx.prog.adtname(b["locals"][0]) == 'Result' and b["locals"][0][2][1] == err and not b.get("impl_trait")]
    n = 0
    for b in sorted(pub, key=lambda b: b["path"]):
        where = b["path"].split('::', 1)[1]
        st, a = State(), ctx.args(I, b)
        for s, k, v in I.run(b, (), a, st):
            sa = client.calls(s, 'serialize_arg')
            if k != 'ret' or not sa:
                continue
            n += 1
            for x in sa:
                want, got = client.case(ctx, s, x[2]), client.case(ctx, s, v)
                ctx.ob('reported', v == x[2] or (want is not None and (got == 'Err' or want == 'Ok')), where + str(want),
                       '%s gives %s although adding the argument %s' % (where, got, {None: 'may have failed', 'Err': 'failed'}.get(want, '')),
                       ctx.site(b), sample='%s: adding %s gives %s' % (where, want, got))
    ctx.floor(n, 2, 'argument methods')


def inductive(B):
    """does adding to a builder with at least one argument always make the same step, whatever the earlier arguments were?
    (then sequences of two arguments stand for all longer ones: earlier arguments are opaque symbols)"""
    I = B.I
    rows = {}
    for row in B.out:
        if 'builder' in row and all(r == 'ok' for r, *_ in row['seq']):
            rows.setdefault((row['kind'], row['binary'], row['id'] is None, row['nty'], len(row['seq']),
                             row['s'].decide(I.seq_eq(row['s'], row['ns'], (('lit', b'/'),)))), row['builder'])
    for k, v in rows.items():
        p = rows.get(k[:4] + (k[4] - 1,) + k[5:])
        if k[4] < 2 or p is None:
            continue
        d = diffs(I, p, v)
        if d is None or len(d) != (2 if k[1] else 1):
            return False
        for x in d:
            kinds = [y[1] if y[0] != 'star' else y[1][0] for y in x]
            if not (kinds == [b',', 'jsonatt' if k[1] else 'json'] or (k[1] and kinds == ['att'])):
                return False
    return True


def diffs(I, a, b):
    """suffixes by which the sequences of b extend those of a; None if they differ otherwise"""
    if a == b:
        return []
    if a[0] == 'q' and b[0] == 'q':
        x, y = I.norm_segs(a[1]), I.norm_segs(b[1])
        return [y[len(x):]] if y[:len(x)] == x else None
    if a[0] == b[0] == 'A' and a[1:3] == b[1:3] and len(a[3]) == len(b[3]):
        fs = list(zip(a[3], b[3]))
    elif a[0] == b[0] == 'T' and len(a[1]) == len(b[1]):
        fs = list(zip(a[1], b[1]))
    else:
        return None
    out = []
    for x, y in fs:
        d = diffs(I, x, y)
        if d is None:
            return None
        out += d
    return out


UNCHECKED = ('from_utf8_unchecked', 'from_utf8_unchecked_mut')


@check('C33')
def c33(ctx):
    """every unsafe block only holds unchecked text conversions, and each of those only ever sees text"""
    from models import text_segs
    B = build(ctx, 3)
    I = B.I
    seen = {}
    runs = [(row['s'], B.fin if row['step'] == 'finish' else B.arg, B.label(row)) for row in B.out]
    J = ctx.interp()
    for d, b in B.plain.items():
        for s, k, v in ctx.run(J, b, [J.sym('ns', b["locals"][1])]):
            runs.append((s, b, b["name"]))
    I.texts |= J.texts
    for s, b, what in runs:
        for e in s.ev:
            if e[0] != 'utf8':
                continue
            path = e[3]
            seen.setdefault(path, 0)
            seen[path] += 1
            ctx.ob('text', text_segs(I, s, e[2]), path, 'text is made without a check from %s (%s)' % (show(ctx, e[2])[:300], what),
                   path, sample='%s: %s' % (path.split('::')[-1], show(ctx, e[2])[:120]))
    bodies = {b["path"]: b for b in ctx.prog.bodies.values()}
    for u in ctx.prog.unsafe:
        site = '%s:%s' % (u["owner"], u.get("ln", ''))
        if u["what"] != 'block':
            ctx.ob('unsafe', False, u["what"] + ' ' + u["owner"], '%s, which nothing here justifies' % u["what"], site)
            continue
        ops = u["ops"]
        ok = all(o.startswith('call ') and o.endswith(UNCHECKED) for o in ops)
        ctx.ob('unsafe', ok, u["owner"], 'an unsafe block does %s' % ', '.join(ops), site, sample='%s: %s' % (u["owner"], ', '.join(ops)))
        if not ok or not ops or u["owner"] in seen:
            continue
        # not met while building packets: look at the function by itself
        b = bodies.get(u["owner"])
        met = False
        if b is not None:
            K = ctx.interp()
            for s, k, v in ctx.run(K, b, ctx.args(K, b)):
                for e in s.ev:
                    if e[0] == 'utf8' and e[3] == u["owner"]:
                        met = True
                        ctx.ob('text', text_segs(K, s, e[2]), u["owner"], 'text is made without a check from %s' % show(ctx, e[2])[:300], site)
        ctx.ob('text', met, 'reach:' + u["owner"], 'an unchecked conversion the analysis cannot see', site)
    ctx.ob('floor', True, 'scan', '', sample='%d unsafe blocks and items found' % len(ctx.prog.unsafe))
    ctx.notes['unsafe'] = ctx.prog.unsafe
    ctx.assume += ['the JSON serializer and fmt write UTF-8', 'unsafe code inside dependencies is out of scope']


def counted(ctx):
    """C10, the header: the count written is the number of binary frames, which follow in the order of their numbers"""
    B = build(ctx, 2)
    I = B.I
    n = 0
    for row in B.out:
        if 'panic' in row or not row['binary'] or any(r != 'ok' for r, *_ in row['seq']):
            continue
        n += 1
        site = ctx.site(B.fin)
        fr = row['frames']
        s = row['s']
        text = payload(B, s, fr[0], B.TI) if fr else None
        pre = ((('lit', text[0][1][:2]),) if text and text[0][0] == 'lit' else ()) + \
            disp_segs(I, s, I.segs_len(fr[1:]), 'display', ('prim', 'u64')) + (('lit', b'-'),)
        pre = I.norm_segs(pre)
        ok = text is not None and len(text) >= len(pre) and text[:len(pre) - 1] == pre[:-1] and \
            text[len(pre) - 1][0] == 'lit' and text[len(pre) - 1][1].startswith(pre[-1][1])
        ctx.ob('count', ok, row['kind'], 'the text of a packet (%s) starts with %s although %s frames follow' % (
            B.label(row), show(ctx, text and text[:3]), ctx.pp.v(I.segs_len(fr[1:]))), site, sample='count of a ' + B.label(row))
        oks = [a for r, a in row['seq']]
        for i, (fz, cur) in enumerate(e[1:] for e in s.ev if e[0] == 'attbase'):
            had = [x[1][1] if x[0] == 'star' and x[1][0] == 'att' else None for x in cur]
            ctx.ob('numbered', i < len(oks) and fz == oks[i] and had == oks[:i], row['kind'], 'the placeholders of argument %d of a packet (%s) '
                   'count from %s instead of the attachments before it' % (i, B.label(row), ctx.pp.v(I.segs_len(cur))), site,
                   sample='argument %d of a %s' % (i, B.label(row)))
        got = [x[1][1] if x[0] == 'star' and x[1][0] == 'att' else None for x in fr[1:]]
        ctx.ob('order', got == oks, row['kind'], 'the attachments of a packet (%s) are not sent in their order' % B.label(row), site)
    ctx.floor(n, 4, 'binary packets')
