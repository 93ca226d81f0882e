"""Path-partitioned abstract interpreter over the dumped MIR.  Nothing is executed: every external operation is
either modelled (models.py) or gives an unknown value named by its provenance."""
import sys
from domain import *
from facts import subst, unify, short

sys.setrecursionlimit(200000)


class Limit(Exception):
    pass


# ------------------------------------------------------------------------------------- interned argument lists
TERMS = []
TERMIX = {}


def intern(x):
    """big provenance terms are replaced by a short name; expand() gives them back"""
    if x not in TERMIX:
        TERMIX[x] = ('#', len(TERMS))
        TERMS.append(x)
    return TERMIX[x]


def expand(x):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == '#':
            return expand(TERMS[x[1]])
        return tuple(expand(y) for y in x)
    if isinstance(x, frozenset):
        return frozenset(expand(y) for y in x)
    return x


def is_lin(x):
    return isinstance(x, tuple) and len(x) == 3 and x[0] == 'i' and isinstance(x[2], frozenset)


def subst_atom(x, a, lin, memo=None):
    """replace atom a by the linear expression lin everywhere in a value or term"""
    if not isinstance(x, tuple):
        return x
    if memo is None:
        memo = {}
    elif id(x) in memo:
        return memo[id(x)][0]
    if is_lin(x):
        r = ('i', x[1], NOFS)
        for at, c in x[2]:
            if at == a:
                r = ladd(r, lscale(lin, c))
            else:
                r = ladd(r, lscale(atom(subst_atom(at, a, lin, memo)), c))
    elif len(x) == 2 and x[0] == '#':
        t = TERMS[x[1]]
        n = subst_atom(t, a, lin, memo)
        r = x if n is t or n == t else intern(n)
    else:
        r = tuple([subst_atom(y, a, lin, memo) for y in x])
        if all(p is q for p, q in zip(r, x)):
            r = x
    memo[id(x)] = (r, x)
    return r


def mentions(x, pred, seen=None):
    if isinstance(x, tuple):
        if pred(x):
            return True
        if seen is None:
            seen = {}
        elif id(x) in seen:
            return False
        if len(x) == 2 and x[0] == '#':
            r = mentions(TERMS[x[1]], pred, seen)
        else:
            r = False
            for y in x:
                if isinstance(y, (tuple, frozenset)) and mentions(y, pred, seen):
                    r = True
                    break
        if not r:
            seen[id(x)] = x
        return r
    if isinstance(x, frozenset):
        return any(mentions(y, pred, seen) for y in x)
    return False


def refs(t):
    n = 0
    while t and t[0] == 'ref':
        t = t[2]
        n += 1
    return n


class Frame:
    __slots__ = ('body', 'sub', 'depth', 'line')

    def __init__(self, body, sub, depth):
        self.body = body
        self.sub = sub
        self.depth = depth
        self.line = 0


class Call:
    """what a model needs to know about a call site"""
    __slots__ = ('info', 'name', 'dty', 'atys', 'frame', 'sub', 'gargs', 'line')


class Interp:
    MAXDEPTH = 60
    base_depth = 0            # frames below this depth belong to a captured state that is still needed

    def __init__(self, prog):
        self.prog = prog
        self.models = {}
        self.opaque = {}         # body hash -> model taking (interp, st, args, call)
        self.stack = []
        self.frames = []
        self.panics = []         # (kind, where) of every panic path met, in order
        self.stats = {"functions": set(), "blocks": 0, "calls": 0, "models": set(), "unknown": set(), "paths": 0}
        self.noise = set()
        self.awaits = []         # (where, frozenset of futures raced)
        self.budget = 3000000
        self.promo = {}
        self.hooks = {}
        self.texts = set()       # terms whose contents are text
        self.trace_calls = None
        def lang(n, crates=None):
            c = prog.adt_by_name.get(n, [])
            c = [a for a in c if a["path"].split("::")[0] in ("std", "core", "alloc", "futures")] or c
            return c[0]["hash"] if c else "std:" + n
        self.OPTION = lang("Option")
        self.RESULT = lang("Result")
        self.CF = lang("ControlFlow")
        self.POLL = lang("Poll")
        self.COW = lang("Cow")
        self.RANGE = lang("Range")
        for n, h, vs in (("Option", self.OPTION, ["None", "Some"]), ("Result", self.RESULT, ["Ok", "Err"]),
                         ("ControlFlow", self.CF, ["Continue", "Break"]), ("Poll", self.POLL, ["Ready", "Pending"]),
                         ("Cow", self.COW, ["Borrowed", "Owned"])):
            a = prog.adts.get(h)
            if a:
                assert [v[0] for v in a["variants"]] == vs, (n, a)
        import models
        models.install(self)

    # -------------------------------------------------------------------------------------------- values
    def some(self, v):
        return ('A', self.OPTION, 1, (v,))

    @property
    def none(self):
        return ('A', self.OPTION, 0, ())

    def ok(self, v):
        return ('A', self.RESULT, 0, (v,))

    def err(self, v):
        return ('A', self.RESULT, 1, (v,))

    def ready(self, v):
        return ('A', self.POLL, 0, (v,))

    @property
    def pending(self):
        return ('A', self.POLL, 1, ())

    def opt_ty(self, t):
        return ('adt', self.OPTION, (t,))

    def sym(self, term, ty):
        if ty is None:
            return ('S', term, None)
        k = ty[0]
        if k == 'prim':
            n = ty[1]
            if n == 'bool':
                return ('b', ('p', term))
            if n in ('f32', 'f64'):
                return ('S', term, ty)
            ATOM_TY.setdefault(term, n)
            return atom(term)
        if k == 'tuple':
            return ('T', tuple(self.sym(('fld', term, i), t) for i, t in enumerate(ty[1])))
        return ('S', term, ty)

    def const_ref(self, v):
        return ('R', ('K', v), ())

    def string(self, s):
        return ('q', (('lit', s.encode() if isinstance(s, str) else bytes(s)),) if s else ())

    def variants_of(self, key):
        a = self.prog.adts.get(key)
        return a["variants"] if a else None

    def adt_name(self, key):
        if isinstance(key, str) and key in self.prog.adts:
            return self.prog.adts[key]["name"]
        return key

    # -------------------------------------------------------------------------------------------- memory
    def base(self, st, root):
        if root[0] == 'K':
            return root[1]
        if root in st.mem:
            return st.mem[root]
        if root[0] == 'D':
            return self.sym(('*', root[1]), root[2])
        return MOVED

    def field(self, st, v, p):
        k = v[0]
        if k == 'M':
            return v
        if p[0] == 'f':
            i, vi = p[1], p[2]
            if k == 'A':
                if vi is not None and v[2] != vi and not (vi == 0 and v[2] == 0):
                    return MOVED
                return v[3][i] if i < len(v[3]) else MOVED
            if k == 'T':
                return v[1][i] if i < len(v[1]) else MOVED
            if k in ('C', 'G'):
                return v[2][i] if i < len(v[2]) else MOVED
            if k == 'S':
                return self.sym_field(v, i, vi)
            if k == 'U':
                alts = tuple(dict.fromkeys(self.field(st, a, p) for a in v[1]
                                           if not (vi is not None and a[0] == 'A' and a[2] != vi)))
                return alts[0] if len(alts) == 1 else ('U', alts)
            if k == 'R' or k == 'P':
                return v      # Box / Pin / Unique internals
            if k == 'q':
                return v
            return ('S', ('fld', v, i), None)
        if p[0] == 'in':
            if k == 'A' and v[3]:
                return v[3][0]
            if k == 'S':
                t = None
                if v[2] is not None and v[2][0] == 'adt' and v[2][2]:
                    t = v[2][2][0]
                return self.sym(('in', v[1]), t)
            return ('S', ('in', v), None)
        if p[0] == 'idx':
            return self.seq_at(st, v, p[1], p[2] if len(p) > 2 else None)
        if p[0] == 'mv':
            r = self.map_lookup(st, v, p[1])
            return r if r is not None else ('S', ('mapval', v[1] if v[0] == 'S' else v, p[1]), p[2] if len(p) > 2 else None)
        if p[0] == 'sl':
            return ('q', self.seq_slice(st, self.as_segs(st, v), p[1], p[2]))
        return ('S', ('proj', v, p), None)

    def sym_field(self, v, i, vi):
        term, ty = v[1], v[2]
        if ty is None:
            return ('S', ('vf' if vi else 'fld', term, vi, i), None)
        if ty[0] == 'adt':
            a = self.prog.adts.get(ty[1])
            if a:
                var = a["variants"][vi or 0] if (vi or 0) < len(a["variants"]) else None
                if var and i < len(var[1]):
                    fn, ft = var[1][i]
                    m = dict(zip(a["generics"], ty[2]))
                    ft = subst(ft, m)
                    if a["kind"] == "enum":
                        return self.sym(('vf', term, var[0], i), ft)
                    return self.sym(('fld', term, fn), ft)
        if ty[0] == 'tuple' and i < len(ty[1]):
            return self.sym(('fld', term, i), ty[1][i])
        return ('S', ('fld', term, i), None)

    def expand(self, v, vi=None):
        """struct-typed unknown -> aggregate of unknown fields"""
        if v[0] == 'S' and v[2] is not None and v[2][0] == 'adt':
            a = self.prog.adts.get(v[2][1])
            if a and a["kind"] in ("struct", "enum"):
                n = vi or 0
                if n < len(a["variants"]):
                    fs = tuple(self.sym_field(v, i, vi) for i in range(len(a["variants"][n][1])))
                    return ('A', v[2][1], n, fs)
        if v[0] == 'S' and v[2] is not None and v[2][0] == 'tuple':
            return ('T', tuple(self.sym_field(v, i, None) for i in range(len(v[2][1]))))
        return v

    def load(self, st, root, proj):
        v = self.base(st, root)
        for p in proj:
            v = self.field(st, v, p)
        return v

    def store(self, st, root, proj, new):
        if root[0] == 'K':
            return
        if not proj:
            st.mem[root] = new
            return
        st.mem[root] = self.put(st, self.base(st, root), proj, new)

    def put(self, st, v, proj, new):
        if not proj:
            return new
        p = proj[0]
        if p[0] == 'f':
            i, vi = p[1], p[2]
            if v[0] == 'S':
                v = self.expand(v, vi)
            if v[0] == 'A':
                fs = list(v[3])
                while len(fs) <= i:
                    fs.append(MOVED)
                fs[i] = self.put(st, fs[i], proj[1:], new)
                return ('A', v[1], v[2], tuple(fs))
            if v[0] == 'T':
                fs = list(v[1])
                while len(fs) <= i:
                    fs.append(MOVED)
                fs[i] = self.put(st, fs[i], proj[1:], new)
                return ('T', tuple(fs))
            if v[0] in ('C', 'G'):
                fs = list(v[2])
                fs[i] = self.put(st, fs[i], proj[1:], new)
                return (v[0], v[1], tuple(fs), v[3])
            if v[0] == 'U':
                return ('U', tuple(dict.fromkeys(self.put(st, a, proj, new) for a in v[1])))
            if v[0] == 'M':
                return v if new == MOVED else ('A', '?', vi or 0, (MOVED,) * i + (self.put(st, MOVED, proj[1:], new),))
            return v if new == MOVED else ('S', ('upd', v, p, new), v[2] if v[0] == 'S' else None)
        if p[0] == 'in':
            old = self.field(st, v, p)
            new = self.put(st, old, proj[1:], new)
            if v[0] == 'A':
                return ('A', v[1], v[2], (new,) + v[3][1:])
            return ('A', 'Cell', 0, (new,))
        if p[0] == 'idx':
            old = self.seq_at(st, v, p[1], None)
            return self.seq_put(st, v, p[1], self.put(st, old, proj[1:], new))
        if p[0] == 'mv':
            old = self.field(st, v, p)
            return self.map_put(st, v, p[1], self.put(st, old, proj[1:], new))
        if p[0] == 'sl':
            if new != MOVED and v[0] == 'q' and len(p) == 3 and not proj[1:]:
                # a known part of a sequence is overwritten
                n = self.segs_len(v[1])
                mid = self.as_segs(st, new) if new[0] in ('q', 'S') else None
                if mid is not None and p[2] is not None and st.decide(peq0(lsub(self.segs_len(mid), lsub(p[2], p[1])))) is True:
                    a, b = self.seq_slice(st, v[1], I(0), p[1]), self.seq_slice(st, v[1], p[2], n)
                    if st.decide(peq0(lsub(self.segs_len(a), p[1]))) is True and st.decide(peq0(lsub(self.segs_len(b), lsub(n, p[2])))) is True:
                        one = lambda x: self.mkseq([x[1]])[1] if x[0] == 'e' else (x,)
                        return ('q', self.norm_segs(tuple(y for x in tuple(a) + tuple(mid) + tuple(b) for y in one(x))))
            return v if new == MOVED else ('S', ('upd', v, p, new), None)
        return v

    # map value: ('A','Map',0,(base term or None, ((key,value|ABSENT),...newest first), valty))
    def map_lookup(self, st, v, key):
        if v[0] == 'A' and v[1] == 'Map':
            for k, x in v[3][1]:
                if k == key:
                    return x
            return self.sym(('mapval', v[3][0], key), v[3][2])
        return None

    def map_put(self, st, v, key, x):
        if v[0] == 'A' and v[1] == 'Map':
            es = tuple((k, y) for k, y in v[3][1] if k != key)
            if x == self.sym(('mapval', v[3][0], key), v[3][2]):
                return ('A', 'Map', 0, (v[3][0], es, v[3][2]))
            return ('A', 'Map', 0, (v[3][0], ((key, x),) + es, v[3][2]))
        if v[0] == 'S':
            return self.map_put(st, self.as_map(v, x[2] if x[0] == 'S' else None), key, x)
        return v

    def as_map(self, v, valty=None):
        if v[0] == 'S':
            if v[2] is not None and v[2][0] == 'adt' and len(v[2][2]) >= 2:
                valty = v[2][2][1]
            return ('A', 'Map', 0, (v[1], (), valty))
        return v

    # ------------------------------------------------------------------------------------------- sequences
    def elem_ty(self, ty):
        """element type of a sequence type; None for text/bytes, False if not a sequence"""
        if ty is None:
            return False
        k = ty[0]
        if k == 'str':
            return None
        if k in ('slice', 'array'):
            return None if ty[1] == ('prim', 'u8') else ty[1]
        if k == 'adt':
            n = self.adt_name(ty[1])
            if n == 'String':
                return None
            if n in ('Vec', 'VecDeque', 'Utf8Bytes', 'Bytes') and ty[2]:
                return None if ty[2][0] == ('prim', 'u8') else ty[2][0]
            if n == 'Box' and ty[2]:
                return self.elem_ty(ty[2][0])
        return False

    def as_segs(self, st, v):
        if v[0] == 'q':
            return v[1]
        if v[0] == 'S':
            et = self.elem_ty(v[2])
            if et is None and (v[2] == ('str',) or (v[2][0] == 'adt' and self.adt_name(v[2][1]) == 'String')):
                self.texts.add(v[1])
            if et is False:
                if v[2] is not None and v[2][0] == 'ref':
                    r, p = self.deref(st, v)
                    return self.as_segs(st, self.load(st, r, p))
                if v[2] is not None and v[2][0] == 'adt' and v[2][1] == self.COW and v[2][2]:
                    # a borrowed or owned text shows the same characters
                    return self.as_segs(st, ('S', ('*', ('cow', v[1])), v[2][2][0]))
                et = None
            return (('sub', v[1], I(0), atom(('len', v[1])), et),)
        if v[0] == 'R':
            return self.as_segs(st, self.load(st, v[1], v[2]))
        if v[0] == 'A' and v[1] == self.COW:
            return self.as_segs(st, v[3][0])
        return (('sub', v, I(0), atom(('len', v)), None),)

    def seg_len(self, s):
        k = s[0]
        if k == 'lit':
            return I(len(s[1]))
        if k == 'e':
            return I(1)
        if k == 'sub':
            return lsub(s[3], s[2])
        if k == 'comp':
            return lsub(s[4], s[3])
        if k == 'disp' and s[1] == 'char':
            return atom(('len', s))
        return atom(('len', s))

    def segs_len(self, segs):
        n = I(0)
        for s in segs:
            n = ladd(n, self.seg_len(s))
        return n

    def norm_segs(self, segs):
        out = []
        for s in segs:
            if s[0] == 'lit' and not s[1]:
                continue
            if s[0] == 'sub' and s[2] == s[3]:
                continue
            if s[0] == 'comp' and s[3] == s[4]:
                continue
            if out and s[0] == 'comp' and out[-1][0] == 'comp' and out[-1][1:3] == s[1:3] and out[-1][4] == s[3]:
                out[-1] = ('comp', s[1], s[2], out[-1][3], s[4])
                continue
            if out and s[0] == 'lit' and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + s[1])
                continue
            if out and s[0] == 'sub' and out[-1][0] == 'sub' and out[-1][1] == s[1] and out[-1][3] == s[2]:
                out[-1] = ('sub', s[1], out[-1][2], s[3], s[4])
                continue
            out.append(s)
        return tuple(out)

    def cat(self, *parts):
        r = ()
        for p in parts:
            r = r + tuple(p)
        return self.norm_segs(r)

    def seg_elem(self, s, i):
        """element number i (linear) of a 'sub' or 'comp' segment"""
        if s[0] == 'comp':
            return subst_atom(s[2], s[1], ladd(s[3], i))
        pos = ladd(s[2], i)
        if s[4] is None:
            a = ('byte', s[1], pos)
            return atom(a)
        return self.sym(('el', s[1], pos), s[4])

    def seq_at(self, st, v, i, ety=None):
        segs = self.as_segs(st, v)
        off = i
        for s in segs:
            n = self.seg_len(s)
            if is_const(off) and is_const(n):
                if off[1] < n[1]:
                    if s[0] == 'lit':
                        return I(s[1][off[1]])
                    if s[0] == 'e':
                        return s[1]
                    return self.seg_elem(s, off)
            elif s[0] in ('sub', 'comp'):
                # is the index inside this segment?
                if st.entails_ge(ladd(lsub(n, off), I(-1))) or s is segs[-1]:
                    return self.seg_elem(s, off)
            elif s[0] == 'e' and off == I(0):
                return s[1]
            if s[0] == 'star' and s is segs[-1]:
                break
            off = lsub(off, n)
        return ('S', ('at', segs, i), ety)

    def seq_put(self, st, v, i, x):
        segs = self.as_segs(st, v)
        if is_const(i) and all(s[0] in ('lit', 'e') for s in segs):
            flat = []
            for s in segs:
                if s[0] == 'lit':
                    flat += [I(b) for b in s[1]]
                else:
                    flat.append(s[1])
            if i[1] < len(flat):
                flat[i[1]] = x
                return self.mkseq(flat)
        if self.seq_at(st, v, i) == x:
            return v
        # replace the element at a segment border
        off = i
        for n, s in enumerate(segs):
            ln = self.seg_len(s)
            if off == I(0) and s[0] in ('sub', 'comp', 'e'):
                rest = self.seq_slice(st, (s,), I(1), ln) if s[0] != 'e' else ()
                return ('q', self.norm_segs(segs[:n] + (('e', x),) + rest + segs[n + 1:]))
            if s[0] in ('star', 'disp'):
                break
            if is_const(off) and is_const(ln) and off[1] < ln[1]:
                a = self.seq_slice(st, (s,), I(0), off)
                b = self.seq_slice(st, (s,), ladd(off, I(1)), ln)
                return ('q', self.norm_segs(segs[:n] + a + (('e', x),) + b + segs[n + 1:]))
            off = lsub(off, ln)
        return ('q', (('star', ('upd', segs, i), (x,) + tuple(segs)),))

    def mkseq(self, vals):
        segs = []
        for x in vals:
            if x[0] == 'i' and not x[2] and 0 <= x[1] < 256:
                segs.append(('lit', bytes([x[1]])))
            else:
                segs.append(('e', x))
        return ('q', self.norm_segs(segs))

    def seq_slice(self, st, segs, lo, hi):
        total = self.segs_len(segs)
        if lo == I(0) and hi == total:
            return segs
        # walk
        out = []
        pos = I(0)
        ok = True
        started = (lo == I(0))
        for s in segs:
            n = self.seg_len(s)
            end = ladd(pos, n)
            a, b = None, None      # sub range in s
            if st.entails_ge(lsub(lo, end)) and not (lo == end and False):
                pos = end
                continue           # entirely before
            if st.entails_ge(lsub(pos, hi)):
                pos = end
                continue           # entirely after
            if st.entails_ge(lsub(pos, lo)):
                a = I(0)
            elif st.entails_ge(lsub(lo, pos)):
                a = lsub(lo, pos)
            if st.entails_ge(lsub(hi, end)):
                b = n
            elif st.entails_ge(lsub(end, hi)):
                b = lsub(hi, pos)
            if a is None or b is None:
                ok = False
                break
            if s[0] == 'sub':
                out.append(('sub', s[1], ladd(s[2], a), ladd(s[2], b), s[4]))
            elif s[0] == 'comp':
                out.append(('comp', s[1], s[2], ladd(s[3], a), ladd(s[3], b)))
            elif a == I(0) and b == n:
                out.append(s)
            elif s[0] == 'lit' and is_const(a) and is_const(b):
                out.append(('lit', s[1][a[1]:b[1]]))
            else:
                ok = False
                break
            pos = end
        if ok:
            return self.norm_segs(out)
        return (('sub', ('slice', segs), lo, hi, None),)

    def seq_eq(self, st, a, b):
        """predicate a == b for two segment lists"""
        a, b = self.norm_segs(a), self.norm_segs(b)
        if a == b:
            return True
        # strip common literal prefix / identical segments
        while a and b:
            x, y = a[0], b[0]
            if x == y:
                a, b = a[1:], b[1:]
                continue
            if x[0] == 'lit' and y[0] == 'lit':
                n = min(len(x[1]), len(y[1]))
                if x[1][:n] != y[1][:n]:
                    return False
                a = ((('lit', x[1][n:]),) if len(x[1]) > n else ()) + a[1:]
                b = ((('lit', y[1][n:]),) if len(y[1]) > n else ()) + b[1:]
                continue
            break
        if a == b:
            return True
        if not a or not b:
            rest = a or b
            return peq0(self.segs_len(rest))
        if all(s[0] == 'lit' for s in a):
            a, b = b, a
        if all(s[0] == 'lit' for s in b):
            lit = b''.join(s[1] for s in b)
            d = lsub(self.segs_len(a), I(len(lit)))
            if st.decide(peq0(d)) is False:
                return False
            if len(lit) == 1 and len(a) == 1 and a[0][0] == 'sub' and st.decide(peq0(d)) is True:
                return peq0(lsub(self.seg_elem(a[0], I(0)), I(lit[0])))
            if len(a) == 1 and a[0][0] == 'sub' and a[0][4] is None and lit:
                # the first bytes may already contradict
                e = self.seg_elem(a[0], I(0))
                if st.decide(peq0(lsub(e, I(lit[0])))) is False:
                    return False
            if len(a) == 1 and a[0][0] == 'e' and len(lit) == 1 and a[0][1][0] == 'i':
                return peq0(lsub(a[0][1], I(lit[0])))
            return ('seq', a, lit)
        if len(a) == len(b) and all(s[0] == 'e' for s in a + b):
            p = True
            for x, y in zip(a, b):
                p = pand(p, self.val_eq(st, x[1], y[1]))
            return p
        return ('p', ('seqeq',) + tuple(sorted((a, b), key=repr)))

    # ---------------------------------------------------------------------------------------------- equality
    def val_eq(self, st, a, b):
        """predicate for structural equality of two values (derive(PartialEq) semantics)"""
        if a == b:
            return True
        while a[0] == 'R' and b[0] == 'R':
            a, b = self.load(st, a[1], a[2]), self.load(st, b[1], b[2])
        if a == b:
            return True
        if a[0] == 'i' and b[0] == 'i':
            return peq0(lsub(a, b))
        if a[0] == 'b' and b[0] == 'b':
            p, q = a[1], b[1]
            if p is True:
                return q
            if q is True:
                return p
            if p is False:
                return pnot(q)
            if q is False:
                return pnot(p)
            return ('p', ('beq', p, q))
        if a[0] == 'T' and b[0] == 'T' and len(a[1]) == len(b[1]):
            p = True
            for x, y in zip(a[1], b[1]):
                p = pand(p, self.val_eq(st, x, y))
            return p
        if a[0] == 'q' or b[0] == 'q':
            return self.seq_eq(st, self.as_segs(st, a), self.as_segs(st, b))
        if a[0] == 'A' and b[0] == 'A':
            if a[1] == b[1]:
                if a[2] != b[2]:
                    return False
                p = True
                for x, y in zip(a[3], b[3]):
                    p = pand(p, self.val_eq(st, x, y))
                return p
        if a[0] == 'S' and b[0] == 'A':
            a, b = b, a
        if a[0] == 'A' and b[0] == 'S' and b[2] is not None and b[2][0] == 'adt' and b[2][1] == a[1]:
            p = self.is_variant(b, a[2])
            for i, x in enumerate(a[3]):
                p = pand(p, self.val_eq(st, x, self.sym_field(b, i, a[2])))
            return p
        if a[0] == 'S' and b[0] == 'S' and (self.elem_ty(a[2]) is not False) and (self.elem_ty(b[2]) is not False):
            return self.seq_eq(st, self.as_segs(st, a), self.as_segs(st, b))
        return ('p', ('eq',) + tuple(sorted((a, b), key=repr)))

    def is_variant(self, v, vi):
        """predicate: enum value v is variant vi"""
        if v[0] == 'A':
            return v[2] == vi
        if v[0] == 'S' and v[2] is not None and v[2][0] == 'adt':
            a = self.prog.adts.get(v[2][1])
            if a and a["kind"] == "struct":
                return True
            n = len(a["variants"]) if a else None
            self.reg_discr(v)
            return ('var', v[1], n, vi)
        return ('p', ('isvar', v, vi))

    def reg_discr(self, v):
        t = v[1]
        if t not in DISCR:
            a = self.prog.adts.get(v[2][1])
            DISCR[t] = {x[2]: i for i, x in enumerate(a["variants"])}

    def split(self, st, v):
        """enumerate the variants of an enum value: [(state, variant index, fields)]"""
        if v[0] == 'A':
            return [(st, v[2], v[3])]
        if v[0] == 'U':
            out = []
            for a in v[1]:
                out += self.split(st.copy(), a)
            return out
        if v[0] == 'S' and v[2] is not None and v[2][0] == 'adt':
            a = self.prog.adts.get(v[2][1])
            if a and a["kind"] == "enum":
                self.reg_discr(v)
                out = []
                n = len(a["variants"])
                for i, var in enumerate(a["variants"]):
                    # uninhabited payload: `Infallible`, `!`
                    fts = [subst(t, dict(zip(a["generics"], v[2][2]))) for _, t in var[1]]
                    if any(t == ('never',) or (t[0] == 'adt' and self.adt_name(t[1]) == 'Infallible') for t in fts):
                        continue
                    for s in st.assume(('var', v[1], n, i), True):
                        out.append((s, i, tuple(self.sym_field(v, j, i) for j in range(len(var[1])))))
                return out
        return None

    def freeze(self, st, v, d=5):
        """replace references by their contents (for terms and events)"""
        k = v[0]
        if k == 'R':
            if d <= 0:
                return ('&', '..')
            return ('&', self.freeze(st, self.load(st, v[1], v[2]), d - 1))
        if k == 'A':
            return ('A', v[1], v[2], tuple(self.freeze(st, x, d - 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else x
                                           for x in v[3])) if d > 0 else v
        if k == 'T':
            return ('T', tuple(self.freeze(st, x, d - 1) for x in v[1])) if d > 0 else v
        if k in ('C', 'G'):
            return (k, v[1], tuple(self.freeze(st, x, d - 1) for x in v[2]), v[3]) if d > 0 else v
        if k == 'q':
            return ('q', tuple(('e', self.freeze(st, s[1], d - 1)) if s[0] == 'e' else s for s in v[1])) if d > 0 else v
        if k == 'U':
            return ('U', tuple(self.freeze(st, x, d - 1) for x in v[1]))
        return v

    # ------------------------------------------------------------------------------------------------ places
    def place(self, st, fr, p):
        """resolve a MIR place to (root, proj)"""
        root, proj = ('L', fr.depth, p[0]), ()
        vi = None
        for e in p[1:]:
            if e == '*':
                v = self.load(st, root, proj)
                r = self.deref(st, v)
                root, proj = r
                vi = None
            elif e[0] == 'f':
                proj = proj + (('f', e[1], vi),)
                vi = None
            elif e[0] == 'd':
                vi = e[1]
            elif e[0] == 'i':
                iv = self.load(st, ('L', fr.depth, e[1]), ())
                proj = proj + (('idx', iv if iv[0] == 'i' else atom(('ix', iv))),)
            elif e[0] == 'ci':
                if e[3]:
                    n = self.segs_len(self.as_segs(st, self.load(st, root, proj)))
                    proj = proj + (('idx', ladd(n, I(-e[1]))),)
                else:
                    proj = proj + (('idx', I(e[1])),)
            elif e[0] == 'ss':
                n = self.segs_len(self.as_segs(st, self.load(st, root, proj)))
                hi = ladd(n, I(-e[2])) if e[3] else I(e[2])
                proj = proj + (('sl', I(e[1]), hi),)
        return root, proj

    def deref(self, st, v):
        if v[0] == 'R':
            return v[1], v[2]
        if v[0] == 'S':
            ty = v[2]
            inner = None
            if ty is not None:
                if ty[0] in ('ref', 'ptr'):
                    inner = ty[2]
                elif ty[0] == 'adt' and ty[2]:
                    inner = ty[2][0]
            return ('D', v[1], inner), ()
        if v[0] == 'A' and v[1] in ('Guard',):
            return self.deref(st, v[3][0])
        if v[0] == 'A' and self.adt_name(v[1]) in ('Pin', 'Box', 'NonNull', 'Unique') and v[3]:
            return self.deref(st, v[3][0])
        if v[0] == 'U':
            # ambiguous reference: reads give the union of the contents
            vals = []
            for a in v[1]:
                r, p = self.deref(st, a)
                vals.append(self.load(st, r, p))
            vals = tuple(dict.fromkeys(vals))
            return ('K', vals[0] if len(vals) == 1 else ('U', vals)), ()
        return ('D', v, None), ()

    def operand(self, st, fr, o):
        k = o["k"]
        if k in ('copy', 'move'):
            root, proj = self.place(st, fr, o["p"])
            v = self.load(st, root, proj)
            if k == 'move' and root[0] != 'K':
                if v[0] not in ('i', 'b', 'R', 'F') or not proj:
                    self.store(st, root, proj, MOVED)
            return v
        if k == 'const':
            return self.konst(st, fr, o)
        return ('b', True)

    def konst(self, st, fr, o):
        ty = o["ty"]
        if "fn" in o:
            return ('F', o["fn"], fr.sub)
        if "promoted" in o:
            return self.promoted(st, fr, o["promoted"])
        if "int" in o:
            n = int(o["int"])
            if ty == ('prim', 'bool'):
                return ('b', bool(n))
            if ty[0] == 'adt':
                a = self.prog.adts.get(ty[1])
                if a and a["kind"] == "enum":
                    for i, v in enumerate(a["variants"]):
                        if v[2] == n and not v[1]:
                            return ('A', ty[1], i, ())
                if a and a["kind"] == "struct" and len(a["variants"][0][1]) == 1:
                    return ('A', ty[1], 0, (I(n),))
                return ('S', ('const', n), ty)
            return I(n)
        if "bytes" in o:
            v = ('q', (('lit', bytes(o["bytes"])),) if o["bytes"] else ())
            if ty[0] in ('ref', 'ptr'):
                return self.const_ref(v)
            return v
        if "zst" in o:
            if ty[0] == 'tuple' and not ty[1]:
                return UNIT
            if ty[0] == 'adt':
                return ('A', ty[1], 0, ())
            if ty[0] == 'fndef':
                return ('F', ty[1], fr.sub)
            if ty[0] == 'closure':
                return ('C', ty[1], (), fr.sub)
            return ('S', ('zst', ty), ty)
        if "static" in o:
            return ('R', ('ST', o["shash"], o["static"]), ())
        if "raw" in o:
            b = bytes(o["raw"])
            if ty[0] == 'array' and ty[1] == ('prim', 'u8'):
                return ('q', (('lit', b),))
            return ('S', ('const', tuple(b), o.get("cpath")), ty)
        return self.sym(('const', o.get("cpath") or o.get("opaque")), ty)

    def promoted(self, st, fr, idx):
        b = fr.body
        key = (id(b), idx, fr.sub)
        if key not in self.promo:
            pb = b["promoted"][idx]
            s = State()
            outs = self.run(pb, fr.sub, [], s, depth=1000 + len(self.stack), post=self.deep)
            v = None
            for (s2, k, val) in outs:
                if k == 'ret':
                    v = val
            self.promo[key] = v if v is not None else ('S', ('promoted', b["path"], idx), None)
        return self.promo[key]

    def deep(self, st, v):
        """turn references into constant references to their contents"""
        if v[0] == 'R':
            return ('R', ('K', self.deep(st, self.load(st, v[1], v[2]))), ())
        if v[0] == 'A':
            return ('A', v[1], v[2], tuple(self.deep(st, x) for x in v[3]))
        if v[0] == 'T':
            return ('T', tuple(self.deep(st, x) for x in v[1]))
        if v[0] == 'q':
            return ('q', tuple(('e', self.deep(st, s[1])) if s[0] == 'e' else s for s in v[1]))
        return v

    # ---------------------------------------------------------------------------------------------- rvalues
    def ty(self, fr, t):
        return subst(t, dict(fr.sub)) if fr.sub else t

    def rvalue(self, st, fr, r):
        k = r["r"]
        if k == 'use':
            return self.operand(st, fr, r["o"])
        if k in ('ref', 'reborrow'):
            root, proj = self.place(st, fr, r["p"])
            return ('R', root, proj)
        if k == 'agg':
            ops = tuple(self.operand(st, fr, o) for o in r["ops"])
            a = r["a"]
            if a == 'tuple':
                return ('T', ops)
            if a == 'array':
                return self.mkseq(ops)
            if a == 'adt':
                return ('A', r["ty"][1], r["v"], ops)
            if a == 'closure':
                return ('C', r["hash"], ops, fr.sub)
            if a == 'coroutine':
                return ('G', r["hash"], ops, fr.sub)
            return ops[0] if ops else ('S', ('agg', a), None)
        if k == 'cast':
            v = self.operand(st, fr, r["o"])
            return self.cast(st, v, r["c"], self.ty(fr, r["from"]), self.ty(fr, r["ty"]))
        if k == 'bin':
            a = self.operand(st, fr, r["a"])
            b = self.operand(st, fr, r["b"])
            return self.binop(st, r["op"], a, b, self.ty(fr, r["aty"]))
        if k == 'un':
            a = self.operand(st, fr, r["a"])
            if r["op"] == 'Not':
                if a[0] == 'b':
                    return ('b', pnot(a[1]))
                return atom(('not', a))
            if r["op"] == 'Neg':
                return lscale(a, -1) if a[0] == 'i' else ('S', ('neg', a), None)
            if r["op"] == 'PtrMetadata':
                if a[0] == 'R':
                    return self.segs_len(self.as_segs(st, self.load(st, a[1], a[2])))
                root, proj = self.deref(st, a)
                return self.segs_len(self.as_segs(st, self.load(st, root, proj)))
            return ('S', ('un', r["op"], a), None)
        if k == 'discr':
            root, proj = self.place(st, fr, r["p"])
            return self.discr(st, self.load(st, root, proj), self.ty(fr, r["ty"]))
        if k == 'repeat':
            o = self.operand(st, fr, r["o"])
            n = r.get("n")
            if n is not None and n <= 16:
                return self.mkseq([o] * n)
            return ('q', (('star', ('repeat', n), (o,)),))
        return ('S', ('rv', r.get("s", k)), None)

    def discr(self, st, v, ty):
        """discriminant as an integer value, or a list of alternatives for joined values"""
        if v[0] == 'A':
            vs = self.variants_of(v[1])
            if vs and v[2] < len(vs) and vs[v[2]][2] is not None:
                return I(vs[v[2]][2])
            return I(v[2])
        if v[0] == 'S':
            t = v[2] or ty
            if t is not None and t[0] == 'adt' and self.prog.adts.get(t[1], {}).get("kind") == "enum":
                self.reg_discr(('S', v[1], t))
                if v[1] in st.var:
                    return I(self.prog.adts[t[1]]["variants"][st.var[v[1]]][2])
                return atom(('discr', v[1]))
        if v[0] == 'U':
            return ('U', tuple((self.discr(st, a, ty)) for a in v[1]))
        return atom(('discr', v))

    def cast(self, st, v, c, fty, tty):
        if v[0] == 'i' and tty[0] == 'prim':
            rng = PRIM_RANGE.get(tty[1])
            if rng:
                lo, hi = st.bounds(v)
                if lo >= rng[0] and hi <= rng[1]:
                    return v
                frng = PRIM_RANGE.get(fty[1]) if fty is not None and fty[0] == 'prim' else None
                if frng and frng[0] >= rng[0] and frng[1] <= rng[1]:
                    return v
                if is_const(v):
                    m = rng[1] - rng[0] + 1
                    return I((v[1] - rng[0]) % m + rng[0])
                return self.sym(('trunc', v, tty[1]), tty)
            return ('S', ('cast', v, tty), tty)
        if v[0] == 'b' and tty[0] == 'prim':
            if v[1] is True:
                return I(1)
            if v[1] is False:
                return I(0)
            return self.sym(('b2i', v[1]), tty)
        if v[0] == 'A' and tty[0] == 'prim':
            return self.discr(st, v, fty)
        if v[0] == 'S' and tty[0] == 'prim' and v[2] is not None and v[2][0] == 'adt':
            return self.discr(st, v, fty)
        if v[0] == 'P' and tty[0] == 'prim':
            return ladd(atom(('addr', v[1])), v[2])
        if v[0] == 'R' and tty[0] == 'prim':
            return self.sym(('addr', self.freeze(st, v)), tty)
        return v

    def binop(self, st, op, a, b, ty):
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if a[0] == 'P' and b[0] == 'P' and a[1] == b[1]:
            a, b = a[2], b[2]
        if base in ('Add', 'Sub', 'Mul') and a[0] == 'i' and b[0] == 'i':
            if base == 'Add':
                r = ladd(a, b)
            elif base == 'Sub':
                r = lsub(a, b)
            elif is_const(a):
                r = lscale(b, a[1])
            elif is_const(b):
                r = lscale(a, b[1])
            else:
                r = self.sym(('mul', a, b), ty)
            rng = PRIM_RANGE.get(ty[1] if ty and ty[0] == 'prim' else '', (-INF, INF))
            if 'WithOverflow' in op:
                under = pnot(pge(ladd(r, I(-int(rng[0]))))) if rng[0] != -INF else False
                over = False
                if st.bounds(r)[1] > rng[1]:
                    if not all(small_atom(x) or self.is_counter(x) for x, _ in r[2]):
                        over = pnot(pge(ladd(lscale(r, -1), I(int(rng[1])))))
                return ('T', (r, ('b', por(under, over))))
            lo, hi = st.bounds(r)
            if lo < rng[0] or hi > rng[1]:
                if not st.entails_ge(ladd(r, I(-int(rng[0])))) or \
                        not (all(small_atom(x) or self.is_counter(x) for x, _ in r[2])):
                    if base == 'Sub' or not all(small_atom(x) for x, _ in r[2]):
                        r = self.sym(('wrap', base, a, b), ty)
            return r
        if base in ('Eq', 'Ne'):
            p = self.val_eq(st, a, b)
            return ('b', p if base == 'Eq' else pnot(p))
        if base in ('Lt', 'Le', 'Gt', 'Ge'):
            if a[0] == 'i' and b[0] == 'i':
                d = {'Lt': ladd(lsub(b, a), I(-1)), 'Le': lsub(b, a), 'Gt': ladd(lsub(a, b), I(-1)),
                     'Ge': lsub(a, b)}[base]
                return ('b', pge(d))
            return ('b', ('p', (base, a, b)))
        if base in ('BitAnd', 'BitOr', 'BitXor') and a[0] == 'b' and b[0] == 'b':
            if base == 'BitAnd':
                return ('b', pand(a[1], b[1]))
            if base == 'BitOr':
                return ('b', por(a[1], b[1]))
            return ('b', pnot(self.val_eq(st, a, b)))
        if base in ('Div', 'Rem', 'Shl', 'Shr', 'BitAnd', 'BitOr', 'BitXor') and is_const(a) and is_const(b):
            x, y = a[1], b[1]
            try:
                r = {'Div': lambda: x // y, 'Rem': lambda: x % y, 'Shl': lambda: x << y, 'Shr': lambda: x >> y,
                     'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y}[base]()
                v = I(r)
            except ZeroDivisionError:
                v = self.sym((base, a, b), ty)
        else:
            v = self.sym((base, a, b), ty)
        if 'WithOverflow' in op:
            return ('T', (v, ('b', ('p', ('overflow', op, a, b)))))
        return v

    def is_counter(self, a):
        return a in self.hooks.get('counters', ())

    # ------------------------------------------------------------------------------------------ running a body
    def run_hash(self, h, sub, args, st):
        return self.run(self.prog.bodies[h], sub, args, st)

    def run(self, body, sub, args, st, depth=None, post=None):
        """returns [(state, 'ret'|'panic', value)]"""
        if depth is None:
            depth = self.base_depth + len(self.stack)
        if len(self.stack) > self.MAXDEPTH and depth < 1000:
            raise Limit("call depth")
        self.stats["functions"].add(body["path"])
        fr = Frame(body, sub, depth)
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[('L', depth, i + 1)] = a
        self.stack.append(body.get("hash", body["path"]))
        self.frames.append(fr)
        try:
            outs = self.region(fr, [(0, st)], None, None)
        finally:
            self.stack.pop()
            self.frames.pop()
        res = []
        seen = set()
        for kind, s, v in outs:
            if post is not None and kind == 'ret':
                v = post(s, v)
            # drop the frame
            for r in [r for r in s.mem if r[0] == 'L' and r[1] >= depth]:
                del s.mem[r]
            key = (s.key(), kind, v)
            if key in seen:
                continue
            seen.add(key)
            res.append((s, kind, v))
        self.stats["paths"] += len(res)
        return res

    def region(self, fr, starts, inside, header):
        """process blocks of `inside` (None: whole body) from the given (block,state) list.
        Returns outcomes; transfers out of the region are ('exit', state, block), back edges ('back', state, None)."""
        body = fr.body
        rpo = body["rpo"]
        pending = {}
        outs = []

        def push(b, s, first=False):
            if not first:
                if header is not None and b == header:
                    outs.append(('back', s, None))
                    return
                if inside is not None and b not in inside:
                    outs.append(('exit', s, b))
                    return
            d = pending.setdefault(b, {})
            d.setdefault(s.key(), s)

        for b, s in starts:
            push(b, s, first=True)
        started = False
        while pending:
            b = min(pending, key=lambda x: rpo.get(x, 1 << 30))
            states = list(pending.pop(b).values())
            if len(states) > 4000:
                raise Limit("too many states at %s bb%d" % (body["path"], b))
            is_inner_header = b in body["loops"] and b != header
            for s in states:
                self.budget -= 1
                if self.budget < 0:
                    raise Limit("budget in %s" % body["path"])
                if is_inner_header:
                    for kind, s2, v in self.loop(fr, b, s):
                        if kind == 'exit':
                            push(v, s2)
                        else:
                            outs.append((kind, s2, v))
                    continue
                for kind, s2, v in self.block(fr, b, s):
                    if kind == 'goto':
                        push(v, s2)
                    else:
                        outs.append((kind, s2, v))
        return outs

    UNROLL = 12

    def concrete_progress(self, st, fr):
        return st.cnt.get('conc_iter', 0)

    def loop(self, fr, h, st0):
        # steps of a loop are no progress of the loop around it
        c0 = st0.cnt.get('conc_iter', 0)
        for kind, s, v in (outs := self.loop1(fr, h, st0)):
            if s.cnt.get('conc_iter', 0) != c0:
                s.cnt = dict(s.cnt)
                s.cnt['conc_iter'] = c0
        if 'loopexit' in self.hooks:
            for i, (kind, s, v) in enumerate(outs):
                s = s.copy()
                self.hooks['loopexit'](s)
                outs[i] = (kind, s, v)
        return outs

    def loop1(self, fr, h, st0):
        body = fr.body
        inside = body["loops"][h]
        outs = []
        if self.hooks.get('exact', lambda b: False)(body):
            # the check keeps the number of different states finite
            work, seen = [st0], {st0.key()}
            while work:
                for kind, s, v in self.region(fr, [(h, work.pop().copy())], inside, h):
                    if kind != 'back':
                        outs.append((kind, s, v))
                    elif s.key() not in seen:
                        seen.add(s.key())
                        work.append(s)
                if len(seen) > 2000:
                    raise Limit('too many states of the loop in ' + body["path"])
            return outs
        # concretely driven loops (iteration over a literal list) are unrolled
        entries = [st0]
        n = 0
        widen_from = []
        while entries and n < self.UNROLL:
            n += 1
            nxt = []
            for s in entries:
                c0 = self.concrete_progress(s, fr)
                backs = []
                for kind, s2, v in self.leaving(fr, h, inside, self.region(fr, [(h, s.copy())], inside, h)):
                    if kind == 'back':
                        backs.append(s2)
                    else:
                        outs.append((kind, s2, v))
                conc = [b for b in backs if self.concrete_progress(b, fr) > c0]
                if backs and len(conc) == len(backs):
                    nxt += backs
                elif backs:
                    widen_from.append((s, backs))
            uniq = {}
            for s in nxt:
                uniq.setdefault(s.key(), s)
            entries = list(uniq.values())
        for s in entries:
            widen_from.append((s, [s]))
        for s, backs in widen_from:
            outs += self.fixpoint(fr, h, inside, s, backs)
        return outs

    def fixpoint(self, fr, h, inside, snap, backs):
        name = ('loop', fr.body["path"], h, fr.depth, snap.cnt.get(('loop', fr.body["path"], h), 0))
        snap = snap.copy()
        snap.fresh(('loop', fr.body["path"], h))
        return self.fix(name, snap, backs, lambda w: self.leaving(fr, h, inside, self.region(fr, [(h, w)], inside, h)))

    def leaving(self, fr, h, inside, outs):
        """a round after which the condition of the loop is known to fail ends the loop there (`while open { .. open = false }`)"""
        for kind, s, v in outs:
            if kind == 'back':
                b, t = h, s
                for _ in range(6):
                    if fr.body["blocks"][b]["t"].get("t") not in ('goto', 'switch') or b in fr.body["loops"] and b != h:
                        break
                    rs = self.block(fr, b, t.copy())
                    if len(rs) != 1 or rs[0][0] != 'goto' or rs[0][1].ev != s.ev:
                        break
                    t, b = rs[0][1], rs[0][2]
                    if b not in inside:
                        kind, s, v = 'exit', t, b
                        break
                    if b == h:
                        break
            yield kind, s, v

    def fix(self, name, snap, backs, once):
        """least stable widened state of a loop; `once` runs one iteration from a head state"""
        w = None
        cur = snap
        for it in range(10):
            neww = self.widen(name, cur, backs, snap)
            if w is not None and neww.key() == w.key():
                return last_outs
            w = neww
            backs = []
            last_outs = []
            for kind, s2, v in once(w.copy()):
                if kind == 'back':
                    backs.append(s2)
                else:
                    last_outs.append((kind, s2, v))
            cur = w
            if not backs:
                return last_outs
        raise Limit("loop %s does not stabilise" % (name,))

    def widen(self, name, old, backs, snap):
        w = State()
        w.cnt = dict(snap.cnt)
        w.tag = old.tag
        # facts: those of the head state that still hold after every iteration
        def inter(f):
            r = {}
            for k, v in getattr(old, f).items():
                if all(getattr(b, f).get(k) == v for b in backs):
                    r[k] = v
            return r
        w.var, w.nvar, w.pred, w.seq, w.ne = inter('var'), inter('nvar'), inter('pred'), inter('seq'), inter('ne')
        ca = ('cnt', name)
        w.ge = tuple(g for g in old.ge if all(g in b.ge for b in backs) and not any(a == ca for a, _ in g[2]))
        w.rng = {}
        for k, v in old.rng.items():
            lo = min([v[0]] + [b.rng.get(k, (-INF, INF))[0] for b in backs])
            hi = max([v[1]] + [b.rng.get(k, (-INF, INF))[1] for b in backs])
            if (lo, hi) != (-INF, INF):
                w.rng[k] = (lo, hi)
        # the guard of the body bounds the iteration number: f(cnt-1) >= 0 after every iteration, and initially
        for f in sorted({f for b in backs for f in b.ge}, key=lambda f: f[1]):
            k = dict(f[2]).get(ca, 0)
            if k >= 0 or any(isinstance(a, tuple) and a and a[0] == 'wcnt' for a, _ in f[2]):
                continue
            g = ladd(f, I(-k))
            g0 = ('i', g[1], frozenset((a, c) for a, c in g[2] if a != ca))
            if all(f in b.ge for b in backs) and snap.entails_ge(g0) and not w.entails_ge(g):
                w.ge = w.ge + (g,)
        ctx = (name, atom(ca), snap, w, backs)
        roots = set(old.mem)
        for b in backs:
            roots &= set(b.mem)
        for r in roots:
            vals = [b.mem[r] for b in backs]
            w.mem[r] = self.widen_val(ctx, r, snap.mem.get(r), old.mem[r], vals)
        # heap cells created in the loop but reachable from widened values
        for b in backs:
            for r, v in b.mem.items():
                if r in w.mem or r in old.mem or r[0] == 'L':
                    continue
                base = self.base(snap, r)
                if r[0] in ('D', 'ST') and base != MOVED:
                    w.mem[r] = self.widen_val(ctx, r, base, base, [self.base(x, r) for x in backs])
                elif r[0] == 'H':
                    w.mem[r] = self.age(ctx, v)
        w.locks = old.locks
        for b in backs:
            if b.locks != old.locks:
                w.locks = tuple(dict.fromkeys(old.locks + b.locks))
        # history: prefix, then any number of the per-iteration histories
        pre = old.ev
        star = None
        if pre and pre[-1][0] == 'star' and pre[-1][1] == name:
            star = pre[-1]
            pre = pre[:-1]
        alts = []
        if star:
            alts = list(star[2])
        n = len(old.ev)
        for b in backs:
            extra = b.ev[n:] if b.ev[:n] == old.ev else b.ev
            # the first pass names the first iteration; later passes replace it by the general one
            if extra not in alts:
                alts.append(extra)
        if star is None:
            alts = [('first',) + a if a else a for a in alts]
        else:
            alts = [a for a in alts if not (a and a[0] == 'first')]
            if not alts:
                alts = [()]
        if alts and set(alts) != {()}:
            w.ev = pre + (('star', name, tuple(sorted(set(alts), key=repr))),)
        else:
            w.ev = pre
        return w

    def age(self, ctx, v):
        """values made in an earlier iteration are not those of this one"""
        name, c, snap = ctx[0], ctx[1], ctx[2]

        def new(x):
            return len(x) >= 3 and x[0] in ('ret', 'hv', 'item', 'cbret', 'rec', 'recv') and isinstance(x[2], int) \
                and x[2] >= snap.cnt.get(x[1], 0)

        def go(x):
            if not isinstance(x, tuple):
                return x
            if x and isinstance(x[0], str) and new(x):
                return ('prev', name, x)
            if x and x[0] == 'prev' and len(x) == 3:
                return x
            return tuple(go(y) for y in x)
        if mentions(v, lambda x: x and isinstance(x[0], str) and new(x)):
            return go(v)
        if mentions(v, lambda x: len(x) == 2 and x[0] == 'cnt' and x[1] == name):
            return subst_atom(v, ('cnt', name), atom(('wcnt', (name, 'prev'))))
        return v

    def widen_val(self, ctx, tag, snapv, old, news):
        if all(n == old for n in news):
            return old
        if old == MOVED or any(n == MOVED for n in news):
            return MOVED
        name, cnt, snap, w, backs = ctx
        k = old[0]
        hv = [n for n in news if n != old]
        if k in ('S', 'A') and all(n[0] == 'S' and n[1][0] == 'hv' and TERMS[n[1][4][1]][n[1][3]] == ('&', old) for n in hv):
            # an unknown object changed only by calls on itself: what it became after any number of them
            if k == 'S' and old[1][0] == 'wh' and old[1][1] == name:
                return old
            return ('S', ('wh', name, old[1] if k == 'S' else intern((old,))), hv[0][2])
        if k == 'i' and all(n[0] == 'i' for n in news):
            ds = {lsub(n, old) for n in news}
            if len(ds) == 1 and is_const(next(iter(ds))) and snapv is not None and snapv[0] == 'i':
                d = next(iter(ds))[1]
                r = ladd(snapv, lscale(cnt, d))
                if old == snapv or old == r:
                    return r
            t = ('wcnt', (name, tag))
            if old[2] == frozenset(((t, 1),)) and old[1] == 0:
                lo = min(b.bounds(n)[0] for b, n in zip(backs, news))
                hi = max(b.bounds(n)[1] for b, n in zip(backs, news))
                l0, h0 = w.rng.get(t, (-INF, INF))
                w.rng[t] = (l0 if lo >= l0 else -INF, h0 if hi <= h0 else INF)
                return old
            lo = min([w.bounds(old)[0]] + [b.bounds(n)[0] for b, n in zip(backs, news)])
            hi = max([w.bounds(old)[1]] + [b.bounds(n)[1] for b, n in zip(backs, news)])
            w.rng[t] = (lo, hi)
            return atom(t)
        if k == 'b' and all(n[0] == 'b' for n in news):
            if old[1] in (True, False) and all(n[1] in (True, False) for n in news):
                return ('U', (('b', True), ('b', False)))
            return ('b', ('p', ('w', (name, tag))))
        if k == 'q' and all(n[0] == 'q' for n in news):
            return self.widen_seq(ctx, tag, snapv, old, news)
        if k == 'A' and old[1] == 'Map' and all(n[0] == 'A' and n[1] == 'Map' for n in news):
            return ('S', ('w', (name, tag)), None)
        if k == 'A' and all(n[0] == 'A' and n[1] == old[1] and n[2] == old[2] and len(n[3]) == len(old[3]) for n in news):
            fs = []
            for i in range(len(old[3])):
                o = old[3][i]
                ns = [n[3][i] for n in news]
                if not (isinstance(o, tuple) and o and isinstance(o[0], str)):
                    if all(n == o for n in ns):
                        fs.append(o)
                    else:
                        return self.union(ctx, tag, old, news)
                    continue
                sv = snapv[3][i] if snapv is not None and snapv[0] == 'A' and snapv[1] == old[1] and \
                    snapv[2] == old[2] and len(snapv[3]) == len(old[3]) else None
                fs.append(self.widen_val(ctx, (tag, i), sv, o, ns))
            return ('A', old[1], old[2], tuple(fs))
        if k == 'T' and all(n[0] == 'T' and len(n[1]) == len(old[1]) for n in news):
            return ('T', tuple(self.widen_val(ctx, (tag, i), snapv[1][i] if snapv and snapv[0] == 'T' else None,
                                              old[1][i], [n[1][i] for n in news]) for i in range(len(old[1]))))
        if k in ('C', 'G') and all(n[0] == k and n[1] == old[1] for n in news):
            return (k, old[1], tuple(self.widen_val(ctx, (tag, i), snapv[2][i] if snapv and snapv[0] == k else None,
                                                    old[2][i], [n[2][i] for n in news])
                                     for i in range(len(old[2]))), old[3])
        if k == 'R' and all(n[0] == 'R' and n[1] == old[1] and len(n[2]) == len(old[2]) for n in news):
            ps = []
            for i, p in enumerate(old[2]):
                qs = [n[2][i] for n in news]
                if all(q == p for q in qs):
                    ps.append(p)
                elif p[0] == 'idx' and all(q[0] == 'idx' for q in qs):
                    sv = snapv[2][i][1] if snapv and snapv[0] == 'R' and len(snapv[2]) == len(old[2]) else None
                    ps.append(('idx', self.widen_val(ctx, (tag, 'p', i), sv, p[1], [q[1] for q in qs])))
                elif p[0] == 'sl' and all(q[0] == 'sl' for q in qs):
                    sv = snapv[2][i] if snapv and snapv[0] == 'R' and len(snapv[2]) == len(old[2]) else (0, None, None)
                    ps.append(('sl', self.widen_val(ctx, (tag, 'p', i, 0), sv[1], p[1], [q[1] for q in qs]),
                               self.widen_val(ctx, (tag, 'p', i, 1), sv[2], p[2], [q[2] for q in qs])))
                else:
                    return self.union(ctx, tag, old, news)
            return ('R', old[1], tuple(ps))
        return self.union(ctx, tag, old, news)

    def widen_seq(self, ctx, tag, snapv, old, news):
        name, cnt, snap, w, backs = ctx
        ca = ('cnt', name)
        segs = old[1]
        first = snapv is not None and snapv == old
        # one element appended (or replaced in place) per iteration: a comprehension over the iteration number
        if len(set(news)) == 1 and snapv is not None and snapv[0] == 'q':
            nv = news[0][1]
            base = snapv[1]
            if first:
                if nv[:len(segs)] == segs and len(nv) == len(segs) + 1 and nv[-1][0] == 'e':
                    return ('q', segs + (('comp', ca, nv[-1][1], I(0), cnt),))
                if len(segs) == 1 and segs[0][0] in ('sub', 'comp') and nv and nv[0][0] == 'e' and \
                        nv[1:] == self.seq_slice(w, segs, I(1), self.segs_len(segs)):
                    return ('q', (('comp', ca, nv[0][1], I(0), cnt),) + self.seq_slice(w, segs, cnt, self.segs_len(segs)))
            else:
                n = len(base)
                if segs[:n] == base and len(segs) == n + 1 and segs[n][0] == 'comp' and segs[n][1] == ca:
                    if nv[:n + 1] == segs and len(nv) == n + 2 and nv[-1][0] == 'e':
                        new = nv[-1][1]
                        if new == segs[n][2]:
                            return old
                        if subst_atom(new, ca, I(0)) == segs[n][2]:
                            return ('q', base + (('comp', ca, new, I(0), cnt),))
                if len(base) == 1 and len(segs) == 2 and segs[0][0] == 'comp' and segs[0][1] == ca and \
                        len(nv) == 3 and nv[0] == segs[0] and nv[1][0] == 'e' and \
                        nv[2:] == self.seq_slice(w, base, ladd(cnt, I(1)), self.segs_len(base)):
                    new = nv[1][1]
                    if new == segs[0][2]:
                        return old
                    if subst_atom(new, ca, I(0)) == segs[0][2]:
                        return ('q', (('comp', ca, new, I(0), cnt), segs[1]))
        # general: base followed by any number of the per-iteration additions
        base = snapv[1] if snapv is not None and snapv[0] == 'q' else None
        stag = (name, tag)
        star = None
        pre = segs
        if pre and pre[-1][0] == 'star' and pre[-1][1] == stag:
            star = pre[-1]
            pre = pre[:-1]
        elif base is not None and pre[:len(base)] == base and len(pre) == len(base) + 1 and pre[-1][0] == 'comp' \
                and pre[-1][1] == ca:
            # degrade a comprehension that did not work out
            star = ('star', stag, ())
            pre = base
        alts = list(star[2]) if star else []
        for n in news:
            nv = n[1]
            ex = None
            if nv[:len(segs)] == segs:
                ex = nv[len(segs):]
            elif segs and segs[-1][0] == 'lit' and len(nv) >= len(segs) and nv[:len(segs) - 1] == segs[:-1] \
                    and nv[len(segs) - 1][0] == 'lit' and nv[len(segs) - 1][1].startswith(segs[-1][1]):
                rest = nv[len(segs) - 1][1][len(segs[-1][1]):]
                ex = ((('lit', rest),) if rest else ()) + nv[len(segs):]
            if ex is None:
                return ('q', (('star', (stag, 'any'), (('?',),)),))
            if ex not in alts:
                alts.append(ex)
        return ('q', pre + (('star', stag, tuple(alts)),))

    def union(self, ctx, tag, old, news):
        alts = list(old[1]) if old[0] == 'U' else [old]
        name = ctx[0]
        for n in news:
            for a in (n[1] if n[0] == 'U' else (n,)):
                if a in alts:
                    continue
                a = self.age(ctx, a)
                if a in alts:
                    continue
                merged = False
                for i, x in enumerate(alts):
                    if x[0] == 'A' and a[0] == 'A' and x[1] == a[1] and x[2] == a[2] and len(x[3]) == len(a[3]) \
                            and all(isinstance(f, tuple) and f and isinstance(f[0], str) for f in x[3] + a[3]):
                        c2 = (name, ctx[1], ctx[2], ctx[3], [ctx[3]])
                        alts[i] = ('A', x[1], x[2], tuple(
                            xf if xf == af else self.widen_val(c2, (tag, i, j), None, xf, [af])
                            for j, (xf, af) in enumerate(zip(x[3], a[3]))))
                        merged = True
                        break
                if not merged:
                    alts.append(a)
        alts = tuple(dict.fromkeys(alts))
        if len(alts) == 1:
            return alts[0]
        if len(alts) > 8:
            return ('S', ('w', (name, tag)), None)
        return ('U', alts)

    # ------------------------------------------------------------------------------------------------- blocks
    def block(self, fr, b, st):
        """execute one block; returns [(kind, state, x)]"""
        self.stats["blocks"] += 1
        st = st.copy()
        bl = fr.body["blocks"][b]
        states = [st]
        for s in bl["s"]:
            k = s[0]
            if k == '=':
                fr.line = s[3]
                nxt = []
                for st in states:
                    v = self.rvalue(st, fr, s[2])
                    if v[0] == 'U' and s[2]["r"] == 'discr':
                        # fork on a joined value
                        root, proj = self.place(st, fr, s[2]["p"])
                        u = self.load(st, root, proj)
                        for alt in u[1]:
                            s2 = st.copy()
                            self.store(s2, root, proj, alt)
                            r2, p2 = self.place(s2, fr, s[1])
                            self.store(s2, r2, p2, self.discr(s2, alt, self.ty(fr, s[2]["ty"])))
                            nxt.append(s2)
                        continue
                    root, proj = self.place(st, fr, s[1])
                    self.store(st, root, proj, v)
                    nxt.append(st)
                states = nxt
            elif k == 'dead':
                for st in states:
                    st.mem.pop(('L', fr.depth, s[1]), None)
            elif k == 'sd':
                for st in states:
                    root, proj = self.place(st, fr, s[1])
                    v = self.load(st, root, proj)
                    if v[0] == 'A':
                        self.store(st, root, proj, ('A', v[1], s[2], v[3]))
        out = []
        for st in states:
            out += self.term(fr, bl["t"], st)
        return out

    def where(self):
        for fr in reversed(self.frames):
            if fr.body.get("file") or fr.body.get("path"):
                return "%s:%s" % (fr.body.get("path"), fr.line)
        return "?"

    def panic(self, st, kind):
        fr = self.frames[-1] if self.frames else None
        st = st.copy()
        where = fr.body["path"] if fr else '?'
        file = fr.body.get("file", "") if fr else ''
        st.event('panic', kind, where, file, fr.line if fr else 0)
        return [(st, 'panic', (kind, where, file, fr.line if fr else 0))]

    def term(self, fr, t, st):
        k = t["t"]
        if t.get("ln"):
            fr.line = t["ln"]
        if k == 'goto':
            return [('goto', st, t["to"])]
        if k == 'return':
            v = self.load(st, ('L', fr.depth, 0), ())
            return [('ret', st, v)]
        if k == 'switch':
            return self.switch(fr, t, st)
        if k == 'call':
            return self.call_term(fr, t, st)
        if k == 'drop':
            root, proj = self.place(st, fr, t["p"])
            v = self.load(st, root, proj)
            outs = []
            for s2 in self.drop_value(st, v, self.ty(fr, t["ty"]), ('R', root, proj)):
                self.store(s2, root, proj, MOVED)
                outs.append(('goto', s2, t["to"]))
            return outs
        if k == 'assert':
            v = self.operand(st, fr, t["o"])
            p = v[1] if v[0] == 'b' else ('p', v)
            outs = []
            for s2 in st.assume(p, t["e"]):
                outs.append(('goto', s2, t["to"]))
            for s2 in st.assume(p, not t["e"]):
                for (s3, kind, x) in self.panic(s2, 'assert ' + t["m"]):
                    outs.append((kind, s3, x))
            return outs
        if k in ('unreachable', 'resume', 'abort', 'cdrop'):
            return []
        if k == 'yield':
            # only reached when everything polled is pending: a wait
            pend = []
            for e in reversed(st.ev):
                if e[0] == 'pend':
                    pend.append(e[1])
                elif e[0] in ('ext', 'noise'):
                    continue
                else:
                    break
            self.awaits.append((fr.body["path"], fr.line, tuple(dict.fromkeys(pend)), st))
            return []
        return []

    def switch(self, fr, t, st):
        v = self.operand(st, fr, t["o"])
        outs = []
        if v[0] == 'b':
            cases = {int(c): b for c, b in t["cases"]}
            for val in (True, False):
                tgt = cases.get(int(val), t["else"])
                for s2 in st.assume(v[1], val):
                    outs.append(('goto', s2, tgt))
            return outs
        if v[0] == 'i':
            if is_const(v):
                for c, b in t["cases"]:
                    if int(c) == v[1]:
                        return [('goto', st, b)]
                return [('goto', st, t["else"])]
            rest = [st]
            for c, b in t["cases"]:
                p = peq0(lsub(v, I(int(c))))
                nr = []
                for s in rest:
                    for s2 in s.assume(p, True):
                        outs.append(('goto', s2, b))
                    nr += s.assume(p, False)
                rest = nr
            for s in rest:
                outs.append(('goto', s, t["else"]))
            return outs
        if v[0] == 'U':
            for a in v[1]:
                s = st.copy()
                t2 = dict(t)
                for c, b in t["cases"]:
                    pass
                if a[0] == 'b' and a[1] in (True, False):
                    a = I(int(a[1]))
                if a[0] == 'i' and is_const(a):
                    tgt = next((b for c, b in t["cases"] if int(c) == a[1]), t["else"])
                    outs.append(('goto', s, tgt))
                else:
                    for tgt in {b for _, b in t["cases"]} | {t["else"]}:
                        outs.append(('goto', s.copy(), tgt))
            return outs
        for tgt in dict.fromkeys([b for _, b in t["cases"]] + [t["else"]]):
            outs.append(('goto', st.copy(), tgt))
        return outs

    # -------------------------------------------------------------------------------------------------- drops
    def drop_value(self, st, v, ty, ref=None):
        """destructors with an effect we track: guards, and workspace Drop impls"""
        k = v[0]
        if k == 'A':
            if v[1] == 'Guard':
                st = st.copy()
                lk = v[3][1]
                l = list(st.locks)
                if lk in l:
                    l.reverse()
                    l.remove(lk)
                    l.reverse()
                st.locks = tuple(l)
                st.event('unlock', lk)
                return [st]
            states = [(st, v)]
            if v[1] in self.prog.adts and self.prog.adts[v[1]]["local"]:
                for b in self.prog.impls.get(("Drop", "drop"), []):
                    if b["impl_self"] and b["impl_self"][1] == v[1]:
                        nxt = []
                        for s, x in states:
                            r = ref
                            if r is None:
                                s = s.copy()
                                r = self.alloc(s, ('dropped', s.fresh('drop')), x)
                            for (s2, kind, _) in self.run(b, (), [r], s):
                                if kind == 'ret':
                                    # its fields as the destructor left them
                                    nxt.append((s2, self.load(s2, r[1], r[2])))
                        states = nxt
            out = []
            for s0, v in states:
                fields = [s0]
                for x in v[3] if v[0] == 'A' else ():
                    if isinstance(x, tuple) and x and isinstance(x[0], str):
                        nxt = []
                        for s in fields:
                            nxt += self.drop_value(s, x, None)
                        fields = nxt
                out += fields
            return out
        if k == 'q':
            states = [st]
            for g in v[1]:
                if g[0] == 'e':
                    states = [y for s in states for y in self.drop_value(s, g[1], None)]
            return states
        if k == 'T':
            states = [st]
            for x in v[1]:
                nxt = []
                for s in states:
                    nxt += self.drop_value(s, x, None)
                states = nxt
            return states
        if k in ('C', 'G'):
            states = [st]
            for x in v[2]:
                if x[0] in ('A', 'T', 'C', 'G'):
                    nxt = []
                    for s in states:
                        nxt += self.drop_value(s, x, None)
                    states = nxt
            return states
        if k == 'S':
            h = self.hooks.get('drop')
            if h:
                st = st.copy()
                h(self, st, v, ty)
            return [st]
        return [st]

    # -------------------------------------------------------------------------------------------------- calls
    def call_term(self, fr, t, st):
        f = self.operand(st, fr, t["f"])
        args = [self.operand(st, fr, a) for a in t["args"]]
        c = Call()
        c.dty = self.ty(fr, t["dty"])
        c.atys = [self.ty(fr, x) for x in t["atys"]]
        c.frame = fr
        c.sub = fr.sub
        c.line = fr.line
        outs = []
        for (s2, kind, v) in self.apply(st, f, args, c):
            if kind == 'ret':
                if t["to"] is None:
                    continue
                s2 = s2.copy()
                root, proj = self.place(s2, fr, t["dest"])
                self.store(s2, root, proj, v)
                outs.append(('goto', s2, t["to"]))
            else:
                outs.append((kind, s2, v))
        return outs

    def apply(self, st, f, args, c):
        """call a function value with already-split arguments"""
        self.stats["calls"] += 1
        if f[0] == 'F':
            return self.call_fn(st, f, args, c)
        return self.call_value(st, f, args, c)

    def call_fn(self, st, f, args, c):
        prog = self.prog
        info = prog.fninfos[f[1]]
        sub = dict(f[2])
        gargs = tuple(subst(a, sub) for a in info["args"])
        c.info = info
        c.gargs = gargs
        c.name = short(info["path"])
        # enum/struct constructor functions used as values
        h = info["rhash"] or info["hash"]
        if h in self.opaque:
            return self.opaque[h](self, st, args, c)
        if self.trace_calls is not None:
            self.trace_calls.append((self.stack[-1] if self.stack else None, info["path"], h, gargs))
        body = prog.bodies.get(h)
        rargs = info["rargs"] if info["rhash"] else info["args"]
        if body is not None and info["name"] == 'poll' and info["rhash"] and body["hash"] != info["hash"] and args and \
                (info["trait"] or '').endswith('Future') and not body.get("impl_trait"):
            return self.external(st, info, args, c)      # an async block itself: its body runs when polled
        if body is not None and not info["virtual"]:
            csub = tuple(sorted(zip(body["generics"], (subst(a, sub) for a in (rargs or ()))), key=lambda x: x[0]))
            csub = tuple((k, v) for k, v in csub if v != ('param', k))
            return self.enter(body, csub, args, st, c)
        # trait method on a workspace type, chosen by the value
        if info["trait"]:
            b = self.dispatch(st, info, args, gargs)
            if b is not None:
                if b["hash"] in self.opaque:
                    return self.opaque[b["hash"]](self, st, args, c)
                m = {}
                if gargs:
                    t = gargs[0]
                    for _ in range(refs(t) - refs(b["impl_self"] or ())):
                        t = t[2]
                    unify(b["impl_self"], t, m)
                csub = tuple(sorted(m.items(), key=lambda x: x[0]))
                tn = info["trait"].split("::")[-1]
                if gargs and gargs[0][0] == 'ref' and tn in ('PartialEq', 'Display', 'Debug'):
                    # the impl for references, which leads to that of what they refer to
                    args = list(args)
                    for _ in range(refs(gargs[0]) - refs(b["impl_self"] or ())):
                        for i in range(2 if tn == 'PartialEq' else 1):
                            v = self.load(st, *self.deref(st, args[i]))
                            if v[0] == 'R' or v[0] == 'S' and v[2] is not None and v[2][0] == 'ref':
                                args[i] = v
                # method generics
                extra = [g for g in b["generics"]]
                return self.enter(b, csub, args, st, c)
        return self.external(st, info, args, c)

    def self_value(self, st, v):
        n = 0
        while v[0] == 'R' and n < 8:
            v = self.load(st, v[1], v[2])
            n += 1
        return v

    def adt_of(self, st, v):
        """hash of the workspace ADT of a value, looking through references"""
        v = self.self_value(st, v)
        if v[0] == 'A':
            return v[1]
        if v[0] == 'S' and v[2] is not None:
            t = v[2]
            while t[0] in ('ref', 'ptr'):
                t = t[2]
            if t[0] == 'adt':
                return t[1]
        return None

    def dispatch(self, st, info, args, gargs):
        tn = info["trait"].split("::")[-1]
        cands = self.prog.impls.get((tn, info["name"]))
        if not cands:
            return None
        h = None
        if args and tn not in ('From', 'Into', 'Default', 'Deserialize', 'FromStr', 'FromIterator', 'TryFrom'):
            h = self.adt_of(st, args[0])
        if h is None and gargs:
            t = gargs[0]
            while t[0] == 'ref':
                t = t[2]
            if t[0] == 'adt':
                h = t[1]
        if h is None:
            return None
        cs = [b for b in cands if b["impl_self"] and b["impl_self"][0] == 'adt' and b["impl_self"][1] == h]
        if len(cs) > 1 and tn == 'PartialEq' and len(gargs) > 1:
            cs2 = []
            for b in cs:
                f = b.get("impl_trait_full", "")
                rhs_ref = 'PartialEq<&' in f
                if rhs_ref == (refs(gargs[1]) > refs(gargs[0])):
                    cs2.append(b)
            cs = cs2 or cs
        if tn == 'From' and len(gargs) > 1:
            if gargs[0] == gargs[1]:
                return None          # From<T> for T
            cs2 = [b for b in cs if b["sig"][0] and (b["sig"][0][0][0] == 'param' or unify(b["sig"][0][0], gargs[1], {}))]
            cs = cs2 or cs
        return cs[0] if len(cs) == 1 else (self.pick_impl(cs, gargs) if cs else None)

    def pick_impl(self, cs, gargs):
        for b in cs:
            m = {}
            if gargs and unify(b["impl_self"], gargs[0], m):
                return b
        return cs[0]

    def enter(self, body, csub, args, st, c):
        h = body["hash"]
        if self.stack.count(h) >= self.hooks.get('max_rec', 1) and len(self.stack) > 0:
            return self.recursive(body, args, st, c)
        if body["kind"] == 'Closure' and len(args) == 2 and args[1][0] == 'T' and len(args[1][1]) == body["argc"] - 1:
            # called directly: the arguments come as one tuple
            args = [args[0]] + list(args[1][1])
        return self.run(body, csub, args, st)

    def recursive(self, body, args, st, c):
        st = st.copy()
        n = st.fresh(body["path"])
        fz = intern(tuple(self.freeze(st, a) for a in args))
        st.event('rec', body["path"], fz, n)
        for i, (a, t) in enumerate(zip(args, c.atys)):
            if t and t[0] == 'ref' and t[1] and a[0] == 'R':
                self.store(st, a[1], a[2], self.sym(('recv', body["path"], n, i, fz), t[2]))
        return [(st, 'ret', self.sym(('rec', body["path"], n, fz), c.dty))]

    def external(self, st, info, args, c):
        names = [info["crate"] + ":" + c.name, c.name]
        if c.name.startswith(('panicking::', 'rt::begin_panic', 'rt::panic')):
            return self.panic(st, c.name)
        for n in names:
            m = self.models.get(n)
            if m is not None:
                self.stats["models"].add(n)
                r = m(self, st, args, c)
                if r is not None:
                    return r
        return self.unknown(st, args, c, c.name)

    def unknown(self, st, args, c, name, pure=False):
        self.stats["unknown"].add(name)
        st = st.copy()
        fz = intern(tuple(self.freeze(st, a) for a in args))
        n = 0 if pure else st.fresh(name)
        h = self.hooks.get('ext')
        if h is not None:
            h(st, name, args, n, fz)
        for i, a in enumerate(args):
            t = c.atys[i] if i < len(c.atys) else None
            if t and t[0] == 'ref' and t[1] and a[0] == 'R':
                cur = self.load(st, a[1], a[2])
                ty = cur[2] if cur[0] == 'S' and cur[2] is not None else t[2]
                if cur[0] not in ('C', 'G', 'F'):
                    self.store(st, a[1], a[2], self.sym(('hv', name, n, i, fz), ty))
        st.event('ext', name, fz, n)
        return [(st, 'ret', self.sym(('ret', name, n, fz), c.dty))]

    # ------------------------------------------------------------------------------ calling closures / values
    def call_value(self, st, f, args, c=None):
        """call a callable value; args are the already untupled arguments"""
        n = 0
        fref = None
        while f[0] == 'R' and n < 8:
            fref = f
            f = self.load(st, f[1], f[2])
            n += 1
        if f[0] == 'C':
            body = self.prog.bodies.get(f[1])
            if body is None:
                return [(st, 'ret', ('S', ('closure', f[1]), None))]
            t1 = body["locals"][1] if body["argc"] >= 1 else None
            st = st.copy()
            if t1 and t1[0] == 'ref':
                if fref is None or fref[1][0] == 'K':
                    i = st.fresh('clos')
                    root = ('H', 'clos', f[1], i)
                    st.mem[root] = f
                    fref = ('R', root, ())
                selfarg = fref
            else:
                selfarg = f
                if fref is not None and f[0] == 'C' and any(x[0] in ('A', 'S', 'q') for x in f[2]):
                    pass
            cc = c
            return self.run(body, f[3], [selfarg] + list(args), st) if self.stack.count(f[1]) < 3 else \
                [(st, 'ret', ('S', ('closure-rec', f[1]), None))]
        if f[0] == 'F':
            info = self.prog.fninfos[f[1]]
            # tuple-struct / variant constructors
            r = self.ctor(info, args)
            if r is not None:
                return [(st, 'ret', r)]
            c2 = Call()
            c2.frame = c.frame if c else (self.frames[-1] if self.frames else None)
            c2.sub = f[2]
            c2.line = c.line if c else 0
            b = self.prog.bodies.get(info["rhash"] or info["hash"])
            if b is not None:
                m = dict(zip(b["generics"], info["rargs"] or info["args"]))
                c2.atys = [subst(t, m) for t in b["locals"][1:1 + b["argc"]]]
                c2.dty = subst(b["locals"][0], m)
            else:
                c2.atys = [self.type_of(st, a) for a in args]
                c2.dty = getattr(c, 'ret_hint', None) if c else None
            if c is not None and c2.dty is None:
                c2.dty = self.ret_hint(c)
            return self.call_fn(st, f, list(args), c2)
        if f[0] == 'U':
            out = []
            for a in f[1]:
                out += self.call_value(st.copy(), a, args, c)
            return out
        return self.call_unknown(st, f, args, c, fref)

    def ret_hint(self, c):
        return None

    def call_unknown(self, st, f, args, c, fref=None):
        """a caller-supplied callable: user code"""
        st = st.copy()
        n = st.fresh(('callback',))
        fz = intern(tuple(self.freeze(st, a, 8) for a in args))
        st.event('callback', f, fz, st.locks)
        dty = None
        if c is not None:
            dty = c.dty
        return [(st, 'ret', self.sym(('cbret', ('callback',), n), dty))]

    def ctor(self, info, args):
        """functions that are tuple struct / enum variant constructors"""
        h = info["hash"]
        p = info["path"]
        name = info["name"]
        if not hasattr(self, 'ctors'):
            self.ctors = {}
            for ah, a in self.prog.adts.items():
                for i, v in enumerate(a["variants"]):
                    nm = v[0]
                    if a["kind"] == "enum":
                        self.ctors.setdefault(short(a["path"] + "::" + nm), []).append((ah, i, a))
                    elif v[1] and all(x[0].isdigit() for x in v[1]):
                        self.ctors.setdefault(short(a["path"]), []).append((ah, i, a))
        from facts import strip_generics
        s = strip_generics(p)
        last2 = '::'.join(s.split('::')[-2:])
        cands = self.ctors.get(last2)
        if not cands and last2.startswith('v1::'):
            w = last2[4:]
            m = {'Some': (self.OPTION, 1), 'Ok': (self.RESULT, 0), 'Err': (self.RESULT, 1)}.get(w)
            if m:
                return ('A', m[0], m[1], tuple(args))
        if not cands:
            return None
        if self.prog.bodies.get(h):
            return None
        ex = [x for x in cands if strip_generics(x[2]["path"] + "::" + name) == s or strip_generics(x[2]["path"]) == s]
        x = (ex or cands)[0]
        if len(x[2]["variants"][x[1]][1]) != len(args):
            return None
        return ('A', x[0], x[1], tuple(args))

    def type_of(self, st, v):
        if v[0] == 'S':
            return v[2]
        if v[0] == 'A' and v[1] in self.prog.adts:
            return ('adt', v[1], ())
        return None

    # --------------------------------------------------------------------------------------- model utilities
    def bind(self, outs, fn):
        res = []
        for (s, k, v) in outs:
            if k == 'ret':
                res += fn(s, v)
            else:
                res.append((s, k, v))
        return res

    def alloc(self, st, name, v):
        n = st.fresh(('alloc', name))
        root = ('H', name, n)
        st.mem[root] = v
        return ('R', root, ())
