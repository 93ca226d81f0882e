"""Abstract values, linear integers and the per-path state (finite facts, memory, event history).

Values (plain tuples):
  ('i', c, fs)            integer / char: c + sum(coef*atom), fs a frozenset of (atom, coef)
  ('b', pred)             boolean
  ('S', term, ty)         unknown value of type ty, named by its provenance term
  ('A', key, variant, fields)   struct / enum value; key is an ADT hash, or a str for modelled library types
  ('T', fields)           tuple
  ('q', segs)             contents of a string / vector / slice / array
  ('R', root, proj)       reference, pointer or box
  ('C', hash, caps, sub)  closure;  ('G', hash, caps, sub) async body;  ('F', fnkey, sub) function item
  ('P', term, int)        address of a byte of text (as_ptr)
  ('U', alts)             one of several values (after a join)
  ('M',)                  moved out / uninitialised
Sequence segments:
  ('lit', bytes)  ('e', value)  ('sub', term, lo, hi, ety)  ('star', tag, alts)  ('disp', how, value)
"""
INF = float('inf')
MOVED = ('M',)
UNIT = ('T', ())
NOFS = frozenset()


# ------------------------------------------------------------------------------------------- linear integers
def I(n):
    return ('i', n, NOFS)


def atom(a):
    return ('i', 0, frozenset(((a, 1),)))


def ladd(x, y, k=1):
    if not y[2]:
        return ('i', x[1] + k * y[1], x[2])
    d = dict(x[2])
    for a, c in y[2]:
        n = d.get(a, 0) + k * c
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return ('i', x[1] + k * y[1], frozenset(d.items()))


def lsub(x, y):
    return ladd(x, y, -1)


def lscale(x, k):
    if k == 0:
        return I(0)
    return ('i', x[1] * k, frozenset((a, c * k) for a, c in x[2]))


def is_const(x):
    return x[0] == 'i' and not x[2]


PRIM_RANGE = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1),
              'usize': (0, 2**64 - 1), 'u128': (0, 2**128 - 1), 'char': (0, 0x10ffff), 'bool': (0, 1),
              'i8': (-128, 127), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1),
              'i64': (-2**63, 2**63 - 1), 'isize': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1)}
ATOM_TY = {}     # atom -> prim name, for default ranges
AXIOMS = []      # functions atom -> list of lins known >= 0

# lengths and positions are bounded by the size of memory: arithmetic on them cannot overflow
SMALL = ('len', 'pos', 'capstart', 'capend', 'rawoff', 'cnt', 'disp', 'addr')


def small_atom(a):
    return isinstance(a, tuple) and a and a[0] in SMALL


def default_rng(a):
    if isinstance(a, tuple) and a:
        t = a[0]
        if t in ('len', 'pos', 'capstart', 'capend', 'rawoff', 'cnt', 'disp', 'addr'):
            return (0, 2**63)
        if t == 'byte':
            return (0, 255)
    p = ATOM_TY.get(a)
    if p in PRIM_RANGE:
        return PRIM_RANGE[p]
    return (-INF, INF)


# ----------------------------------------------------------------------------------------------- predicates
def pnot(p):
    if p is True:
        return False
    if p is False:
        return True
    if p[0] == 'not':
        return p[1]
    if p[0] == 'ge':      # not (l>=0)  ==  -l-1>=0
        return ('ge', ladd(lscale(p[1], -1), I(-1)))
    return ('not', p)


def pand(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return ('and', a, b)


def por(a, b):
    return pnot(pand(pnot(a), pnot(b)))


def pge(l):
    if is_const(l):
        return l[1] >= 0
    return ('ge', l)


def peq0(l):
    if is_const(l):
        return l[1] == 0
    if len(l[2]) and min(c for _, c in l[2]) < 0 and sum(1 for _, c in l[2] if c < 0) * 2 > len(l[2]):
        l = lscale(l, -1)
    elif len(l[2]) > 1 and sum(1 for _, c in l[2] if c < 0) * 2 == len(l[2]):
        # as many terms on either side: the sign is that of the first of them, in any fixed order
        f = _FIRST.get(l[2])
        if f is None:
            f = _FIRST[l[2]] = min(l[2], key=lambda x: repr(x[0]))[1]
        if f < 0:
            l = lscale(l, -1)
    return ('eq0', l)


_FIRST = {}


class State:
    __slots__ = ('mem', 'var', 'nvar', 'rng', 'ne', 'ge', 'pred', 'seq', 'ev', 'cnt', 'locks', 'tag')

    def __init__(self):
        self.mem = {}
        self.var = {}      # term -> variant index
        self.nvar = {}     # term -> frozenset of excluded variants
        self.rng = {}      # atom -> (lo,hi)
        self.ne = {}       # atom -> frozenset of excluded values
        self.ge = ()       # lins >= 0
        self.pred = {}     # opaque predicate -> bool
        self.seq = {}      # segs -> bytes it equals
        self.ev = ()
        self.cnt = {}
        self.locks = ()
        self.tag = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.var = self.var
        s.nvar = self.nvar
        s.rng = self.rng
        s.ne = self.ne
        s.ge = self.ge
        s.pred = self.pred
        s.seq = self.seq
        s.ev = self.ev
        s.cnt = self.cnt
        s.locks = self.locks
        s.tag = self.tag
        return s

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.var.items()), frozenset(self.nvar.items()),
                frozenset(self.rng.items()), frozenset(self.ne.items()), frozenset(self.ge),
                frozenset(self.pred.items()), frozenset(self.seq.items()), self.ev,
                self.locks, self.tag)

    def event(self, *e):
        self.ev = self.ev + (e,)

    def fresh(self, name):
        c = dict(self.cnt)
        n = c.get(name, 0)
        c[name] = n + 1
        self.cnt = c
        return n

    # ------------------------------------------------------------------------------------------- intervals
    def range_of(self, a):
        lo, hi = default_rng(a)
        r = self.rng.get(a)
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        return lo, hi

    def bounds(self, l):
        lo = hi = l[1]
        for a, c in l[2]:
            x, y = self.range_of(a)
            if c > 0:
                lo += c * x
                hi += c * y
            else:
                lo += c * y
                hi += c * x
        return lo, hi

    def entails_ge(self, l, depth=4):
        """l >= 0 on every concretisation?  interval evaluation plus bounded combination of known facts"""
        if self.bounds(l)[0] >= 0:
            return True
        if depth == 0:
            return False
        facts = list(self.ge)
        seen = set()
        for a, c in l[2]:
            for ax in AXIOMS:
                for f in ax(a):
                    if f not in seen:
                        seen.add(f)
                        facts.append(f)
        for f in self.ge:
            for a, c in f[2]:
                for ax in AXIOMS:
                    for g in ax(a):
                        if g not in seen:
                            seen.add(g)
                            facts.append(g)
        return self._ent(l, facts, depth)

    def _ent(self, l, facts, depth):
        if self.bounds(l)[0] >= 0:
            return True
        if depth == 0:
            return False
        mine = dict(l[2])
        for f in facts:
            # subtracting f must cancel (part of) at least one atom
            if not any(a in mine and (c < 0) == (mine[a] < 0) for a, c in f[2]):
                continue
            if self._ent(lsub(l, f), facts, depth - 1):
                return True
        return False

    # -------------------------------------------------------------------------------------------- deciding
    def decide(self, p):
        if p is True or p is False:
            return p
        k = p[0]
        if k == 'not':
            r = self.decide(p[1])
            return None if r is None else (not r)
        if k == 'and':
            a, b = self.decide(p[1]), self.decide(p[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if k == 'ge':
            if self.entails_ge(p[1]):
                return True
            if self.entails_ge(ladd(lscale(p[1], -1), I(-1))):
                return False
            return None
        if k == 'eq0':
            l = p[1]
            lo, hi = self.bounds(l)
            if lo > 0 or hi < 0:
                return False
            if lo == hi == 0:
                return True
            if len(l[2]) == 1:
                (a, c), = l[2]
                if isinstance(a, tuple) and a and a[0] == 'discr':
                    r = self.discr_eq(a, -l[1] * c)
                    if r is not None:
                        return r
                if l[1] % c:
                    return False
                v = -l[1] // c
                if v in self.ne.get(a, ()):
                    return False
            if self.entails_ge(l) and self.entails_ge(lscale(l, -1)):
                return True
            if self.entails_ge(ladd(l, I(-1))) or self.entails_ge(ladd(lscale(l, -1), I(-1))):
                return False
            return self.pred.get(p)
        if k == 'var':
            t, vi = p[1], p[3]
            if t in self.var:
                return self.var[t] == vi
            if vi in self.nvar.get(t, ()):
                return False
            return None
        if k == 'seq':
            a, b = p[1], p[2]
            if a in self.seq:
                return self.seq[a] == b
            r = self.pred.get(p)
            return r if r is not None else self.texts_eq(a, b)
        r = self.pred.get(p)
        if r is None and k == 'p' and isinstance(p[1], tuple) and p[1][0] == 'seqeq':
            return self.texts_eq(p[1][1], p[1][2])
        return r

    def texts_eq(self, a, b):
        """equality of two texts from the equalities and inequalities already known"""
        eq = {}
        for q, v in self.pred.items():
            if v is True and q[0] == 'p' and isinstance(q[1], tuple) and q[1][0] == 'seqeq':
                eq.setdefault(q[1][1], set()).add(q[1][2])
                eq.setdefault(q[1][2], set()).add(q[1][1])
        for x, l in self.seq.items():
            eq.setdefault(x, set()).add(l)
            eq.setdefault(l, set()).add(x)
        if not eq:
            return None

        def cls(x):
            out, work = {x}, [x]
            while work:
                for y in eq.get(work.pop(), ()):
                    if y not in out:
                        out.add(y)
                        work.append(y)
            return out
        ca, cb = cls(a), cls(b)
        if b in ca:
            return True
        la, lb = [x for x in ca if isinstance(x, bytes)], [x for x in cb if isinstance(x, bytes)]
        if la and lb:
            return False
        for q, v in self.pred.items():
            if v is not False:
                continue
            if q[0] == 'p' and isinstance(q[1], tuple) and q[1][0] == 'seqeq':
                x, y = q[1][1], q[1][2]
            elif q[0] == 'seq':
                x, y = q[1], q[2]
            else:
                continue
            if x in ca and y in cb or x in cb and y in ca:
                return False
        return None

    def discr_eq(self, a, v):
        t = a[1]
        tab = DISCR.get(t)
        if tab is None:
            return None
        vi = tab.get(v)
        if vi is None:
            return False
        if t in self.var:
            return self.var[t] == vi
        ex = self.nvar.get(t, frozenset())
        if vi in ex:
            return False
        if len(tab) - len(ex) == 1:
            return True
        return None

    def assume(self, p, val=True):
        """list of states refined by p == val"""
        d = self.decide(p)
        if d is not None:
            return [self] if d == val else []
        k = p[0]
        if k == 'not':
            return self.assume(p[1], not val)
        if k == 'and':
            if val:
                out = []
                for s in self.assume(p[1], True):
                    out += s.assume(p[2], True)
                return out
            out = self.assume(p[1], False)
            for s in self.assume(p[1], True):
                out += s.assume(p[2], False)
            return out
        s = self.copy()
        if k == 'ge':
            l = p[1] if val else ladd(lscale(p[1], -1), I(-1))
            return s.add_ge(l)
        if k == 'eq0':
            l = p[1]
            if len(l[2]) == 1:
                (a, c), = l[2]
                if isinstance(a, tuple) and a and a[0] == 'discr' and a[1] in DISCR:
                    tab = DISCR[a[1]]
                    vi = tab.get(-l[1] * c)
                    return s.set_var(a[1], vi, val, len(tab))
                if l[1] % c:
                    return [] if val else [s]
                v = -l[1] // c
                if val:
                    return s.set_rng(a, v, v)
                lo, hi = s.range_of(a)
                if v == lo:
                    return s.set_rng(a, lo + 1, hi)
                if v == hi:
                    return s.set_rng(a, lo, hi - 1)
                s.ne = dict(s.ne)
                s.ne[a] = s.ne.get(a, frozenset()) | {v}
                return [s]
            if val:
                s.ge = s.ge + (l, lscale(l, -1))
            s.pred = dict(s.pred)
            s.pred[p] = val
            if val:
                mine = {a for a, _ in l[2]}
                for q, v in s.pred.items():
                    # a disequality the new equation contradicts
                    if v is False and q[0] == 'eq0' and any(a in mine for a, _ in q[1][2]):
                        if s.entails_ge(q[1]) and s.entails_ge(lscale(q[1], -1)):
                            return []
            return [s]
        if k == 'var':
            return s.set_var(p[1], p[3], val, p[2])
        if k == 'seq':
            if val:
                s.seq = dict(s.seq)
                s.seq[p[1]] = p[2]
                s.pred = dict(s.pred)
                s.pred[p] = True
                return [s]
            s.pred = dict(s.pred)
            s.pred[p] = False
            return [s]
        if k == 'noise':
            return [s]
        s.pred = dict(s.pred)
        s.pred[p] = val
        return [s]

    def set_var(self, t, vi, val, n):
        if val:
            if vi is None:
                return []
            if t in self.var:
                return [self] if self.var[t] == vi else []
            if vi in self.nvar.get(t, ()):
                return []
            self.var = dict(self.var)
            self.var[t] = vi
            return [self]
        if t in self.var:
            return [] if self.var[t] == vi else [self]
        ex = self.nvar.get(t, frozenset()) | {vi}
        if isinstance(n, int) and len(ex) >= n:
            return []
        self.nvar = dict(self.nvar)
        self.nvar[t] = ex
        if isinstance(n, int) and len(ex) == n - 1:
            rest = [i for i in range(n) if i not in ex]
            if t in DISCR:
                rest = [i for i in DISCR[t].values() if i not in ex]
            self.var = dict(self.var)
            self.var[t] = rest[0]
        return [self]

    def set_rng(self, a, lo, hi):
        l0, h0 = self.range_of(a)
        lo, hi = max(lo, l0), min(hi, h0)
        while lo in self.ne.get(a, ()) and lo <= hi:
            lo += 1
        while hi in self.ne.get(a, ()) and lo <= hi:
            hi -= 1
        if lo > hi:
            return []
        self.rng = dict(self.rng)
        self.rng[a] = (lo, hi)
        return [self]

    def add_ge(self, l):
        if self.bounds(l)[1] < 0:
            return []
        if len(l[2]) == 1:
            (a, c), = l[2]
            if c > 0:
                return self.set_rng(a, -(l[1] // c), INF)
            return self.set_rng(a, -INF, l[1] // -c)
        if l not in self.ge:
            self.ge = self.ge + (l,)
        return [self]


DISCR = {}   # term -> {discriminant value: variant index}
