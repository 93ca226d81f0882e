"""what a receiver keeps between frames may be related: a counter of the attachments still to come, say, goes with those
already there.  The relations are inferred (the strongest of the candidates below which hold at first and are kept by
every frame) and then assumed of an arbitrary receiver.  Nothing is inferred where nothing but lengths is kept."""
from domain import *
from framework import Missing
from checks.client import CL, CR, case, payload
from interp import Call

INTS = ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'isize')


def paths(ctx, I, t, pre=(), depth=4):
    """[(path, kind)] of the numbers found in a value of a type"""
    if t[0] == 'prim':
        return [(pre, 'int')] if t[1] in INTS else []
    if t[0] == 'tuple':
        return [x for i, ft in enumerate(t[1]) for x in paths(ctx, I, ft, pre + (i,), depth - 1)]
    if t[0] != 'adt' or t[1] not in ctx.prog.adts or not depth:
        return []
    a = ctx.prog.adts[t[1]]
    if a["name"] == 'Option' and not a.get("local"):
        return paths(ctx, I, t[2][0], pre + ('some',), depth)
    if a["name"] in ('Vec', 'VecDeque') and not a.get("local"):
        return [(pre + ('len',), 'len')]
    if not a.get("local"):
        return []
    # numbers another crate tells about a value
    told = sorted(h for h, b in ctx.prog.bodies.items() if h in I.opaque and b["crate"] == CR and b["argc"] == 1 and
                  b["locals"][1] == ('ref', False, t) and b["locals"][0][0] == 'prim' and b["locals"][0][1] in INTS)
    if told:
        return [(pre + (('fn', h),), 'told') for h in told]
    if a["kind"] != 'struct' or a["path"].split('::')[0] != CL or a.get("generics"):
        return []
    out = []
    for i, (n, ft) in enumerate(a["variants"][0][1]):
        out += paths(ctx, I, ft, pre + (i,), depth - 1)
    return out


def follow(ctx, I, s, v, path):
    """[(state, number or None if there is none)]"""
    for j, p in enumerate(path):
        if p == 'some':
            c = case(ctx, s, v)
            if c is None:
                out = []
                for i in (0, 1):
                    for x in s.assume(I.is_variant(v, i)):
                        out += follow(ctx, I, x, payload(I, v, 1), path[j + 1:]) if i else [(x, None)]
                return out
            if c == 'None':
                return [(s, None)]
            v = payload(I, v, 1)
        elif p == 'len':
            return [(s, I.segs_len(I.as_segs(s, v)))]
        elif p == 'here':
            return [(s, v)]
        elif isinstance(p, tuple):
            c = Call()
            c.dty = ctx.prog.bodies[p[1]]["locals"][0]
            s = s.copy()
            ev = s.ev
            (s, k, r), = I.opaque[p[1]](I, s, [I.alloc(s, 'told', v)], c)
            s = s.copy()
            s.ev = ev
            return [(s, r)]
        else:
            v = v[1][p] if v[0] == 'T' else I.sym_field(v, p, None) if v[0] == 'S' and v[2][0] == 'tuple' else payload(I, v, 0, p)
    return [(s, v)]


def candidates(ps):
    """[(paths, predicate over their numbers, what)]"""
    one = ('i', 1, NOFS)
    out = []
    ints = [p for p, k in ps if k == 'int']
    rest = [p for p, k in ps]
    for a in ints:
        out.append(((a,), lambda x: pge(lsub(x, one)), '>= 1'))
        for b in rest:
            if b == a:
                continue
            out += [((a, b), lambda x, y: peq0(lsub(x, y)), '='), ((a, b), lambda x, y: pge(lsub(y, x)), '<='),
                    ((a, b), lambda x, y: pge(lsub(x, y)), '>='), ((a, b), lambda x, y: pge(lsub(lsub(y, x), one)), '<'),
                    ((a, b), lambda x, y: pge(lsub(lsub(x, y), one)), '>'),
                    ((a, b), lambda x, y: peq0(lsub(lsub(x, y), one)), '= 1 +'), ((a, b), lambda x, y: peq0(lsub(lsub(y, x), one)), '+ 1 =')]
            for c in rest:
                if c not in (a, b):
                    out += [((a, b, c), lambda x, y, z: peq0(lsub(ladd(x, y), z)), '+ ='),
                            ((a, b, c), lambda x, y, z: peq0(lsub(ladd(ladd(x, y), one), z)), '+ 1 + ='),
                            ((a, b, c), lambda x, y, z: peq0(lsub(lsub(ladd(x, y), one), z)), '+ - 1 =')]
    return out


def holds(ctx, I, s, v, cand):
    """does a candidate hold of a value?"""
    ps, f, _ = cand
    outs = [(s, ())]
    for p in ps:
        outs = [(s2, xs + (x,)) for s1, xs in outs for s2, x in follow(ctx, I, s1, v, p)]
    return all(None in xs or s1.decide(f(*xs)) is True for s1, xs in outs)


def assumed(ctx, I, st, v, cands):
    """states in which the candidates hold of a value"""
    outs = [st]
    for ps, f, _ in cands:
        nxt = []
        for s in outs:
            vs = [(s, ())]
            for p in ps:
                vs = [(s2, xs + (x,)) for s1, xs in vs for s2, x in follow(ctx, I, s1, v, p)]
            for s1, xs in vs:
                nxt += [s1] if None in xs else s1.assume(f(*xs))
        outs = nxt
    return outs


def some(model):
    """a packet waits for at least one attachment: C09"""
    return lambda I, st, args, c: [(s1, k, v) for s, k, v in model(I, st, args, c) for s1 in s.assume(pge(ladd(v, ('i', -1, NOFS))))]


def infer(ctx, I, run, t, slf, st, first):
    """states of an arbitrary receiver (held at slf, of type t) at the beginning of a frame"""
    ps = paths(ctx, I, t)
    if not [1 for p, k in ps if k == 'int']:
        return [st]
    for h in {p[-1][1] for p, k in ps if k == 'told' and ctx.prog.bodies[p[-1][1]]["name"] == 'attachments'}:
        I.opaque[h] = some(I.opaque[h])
    cands = candidates(ps)
    at0 = first()
    cands = [c for c in cands if at0 is None or holds(ctx, I, at0[0], at0[1], c)]
    while cands:
        keep = set(range(len(cands)))
        for s0 in assumed(ctx, I, st, I.load(st, slf[1], slf[2]), cands):
            for s, k, v in run(s0):
                if k != 'ret' or case(ctx, s, v) != 'Ok':
                    continue        # nothing is received after an error: C26
                w = I.load(s, slf[1], slf[2])
                keep -= {i for i in keep if not holds(ctx, I, s, w, cands[i])}
        if len(keep) == len(cands):
            break
        cands = [c for i, c in enumerate(cands) if i in keep]
    ctx.notes['kept between frames'] = '%d relations between %d numbers' % (len(cands), len(ps))
    return assumed(ctx, I, st, I.load(st, slf[1], slf[2]), cands)
