"""Regular expressions as data: parser for the `regex` crate's syntax, facts about capture groups, and equality of
matched language and capture boundaries of two expressions (leftmost-first semantics, exact, on automata)."""
import functools
import unicodedata

MAXCP = 0x10ffff
INF = float('inf')


class Bad(Exception):
    pass


# -------------------------------------------------------------------------------------------- sets of characters
def norm(rs):
    rs = sorted(r for r in rs if r[0] <= r[1])
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def compl(rs):
    out = []
    p = 0
    for a, b in norm(rs):
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAXCP:
        out.append((p, MAXCP))
    return tuple(out)


def inter(x, y):
    return compl(compl(x) + compl(y))


@functools.lru_cache(None)
def uniclass(k):
    out = []
    for cp in range(MAXCP + 1):
        c = unicodedata.category(chr(cp))
        if k == 'd':
            ok = c == 'Nd'
        elif k == 's':
            ok = chr(cp).isspace() and cp not in (0x1c, 0x1d, 0x1e, 0x1f)
        else:
            ok = c[0] in 'LMN' and c != 'No' or c == 'Pc' or cp in (0x200c, 0x200d)
        if ok:
            if out and out[-1][1] == cp - 1:
                out[-1][1] = cp
            else:
                out.append([cp, cp])
    return tuple(tuple(x) for x in out)


# --------------------------------------------------------------------------------------------------------- parser
# nodes: ('set', ranges) ('cat', [..]) ('alt', [..], id) ('rep', node, min, max, greedy, id) ('grp', n, node)
#        ('bol',) ('eol',)
class P:
    def __init__(self, s):
        self.s = s
        self.i = 0
        self.n = 0
        self.names = {}
        self.ids = 0
        self.dotall = self.nocase = self.multi = self.ext = False
        self.unicode = True

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ''

    def eat(self, t):
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def id(self):
        self.ids += 1
        return self.ids

    def alt(self):
        save = (self.dotall, self.nocase, self.multi, self.ext)
        bs = [self.cat()]
        while self.eat('|'):
            bs.append(self.cat())
        self.dotall, self.nocase, self.multi, self.ext = save
        return bs[0] if len(bs) == 1 else ('alt', bs, self.id())

    def cat(self):
        xs = []
        while self.i < len(self.s) and self.peek() not in '|)':
            if self.ext and self.peek() in ' \t\n\r':
                self.i += 1
                continue
            if self.ext and self.peek() == '#':
                while self.i < len(self.s) and self.peek() != '\n':
                    self.i += 1
                continue
            a = self.atom()
            if a is None:
                continue
            while True:
                q = self.quant()
                if q is None:
                    break
                g = not self.eat('?')
                a = ('rep', a, q[0], q[1], g, self.id())
            xs.append(a)
        return xs[0] if len(xs) == 1 else ('cat', xs)

    def quant(self):
        if self.eat('?'):
            return (0, 1)
        if self.eat('*'):
            return (0, INF)
        if self.eat('+'):
            return (1, INF)
        if self.peek() == '{':
            j = self.s.index('}', self.i)
            b = self.s[self.i + 1:j]
            self.i = j + 1
            if ',' not in b:
                return (int(b), int(b))
            x, y = b.split(',')
            return (int(x or 0), int(y) if y.strip() else INF)
        return None

    def atom(self):
        c = self.peek()
        if self.eat('('):
            if self.eat('?'):
                if self.eat('P<') or (self.peek() == '<' and self.s[self.i + 1] not in '=!' and self.eat('<')):
                    j = self.s.index('>', self.i)
                    nm = self.s[self.i:j]
                    self.i = j + 1
                    self.n += 1
                    n = self.n
                    self.names[nm] = n
                    x = self.alt()
                    if not self.eat(')'):
                        raise Bad("group")
                    return ('grp', n, x)
                on = True
                fl = ''
                while self.peek() not in ':)':
                    f = self.peek()
                    self.i += 1
                    if f == '-':
                        on = False
                    elif f == 's':
                        fl += 's' if on else 'S'
                    elif f == 'i':
                        fl += 'i' if on else 'I'
                    elif f == 'm':
                        fl += 'm' if on else 'M'
                    elif f == 'x':
                        fl += 'x' if on else 'X'
                    elif f == 'u':
                        fl += 'u' if on else 'U'
                    else:
                        raise Bad("flag " + f)
                save = (self.dotall, self.nocase, self.multi, self.ext)
                for f in fl:
                    if f in 'sS':
                        self.dotall = f == 's'
                    if f in 'iI':
                        self.nocase = f == 'i'
                    if f in 'mM':
                        self.multi = f == 'm'
                    if f in 'xX':
                        self.ext = f == 'x'
                    if f in 'uU':
                        self.unicode = f == 'u'
                if self.eat(')'):
                    return None
                self.i += 1
                x = self.alt()
                self.dotall, self.nocase, self.multi, self.ext = save
                if not self.eat(')'):
                    raise Bad("group")
                return x
            self.n += 1
            n = self.n
            x = self.alt()
            if not self.eat(')'):
                raise Bad("group")
            return ('grp', n, x)
        if c == '[':
            return ('set', self.cls())
        self.i += 1
        if c == '.':
            return ('set', ((0, MAXCP),) if self.dotall else compl(((10, 10),)))
        if c == '^':
            if self.multi:
                raise Bad("multi-line anchors")
            return ('bol',)
        if c == '$':
            if self.multi:
                raise Bad("multi-line anchors")
            return ('eol',)
        if c in '*+?{)':
            raise Bad("repetition")
        if c == '\\':
            e = self.peek()
            if e == 'A':
                self.i += 1
                return ('bol',)
            if e == 'z':
                self.i += 1
                return ('eol',)
            return ('set', self.case(self.esc()))
        return ('set', self.case(((ord(c), ord(c)),)))

    def case(self, rs):
        if not self.nocase:
            return rs
        out = list(rs)
        for a, b in rs:
            for x in range(a, min(b, 0x24f) + 1):
                for y in (chr(x).lower(), chr(x).upper()):
                    if len(y) == 1:
                        out.append((ord(y), ord(y)))
        return norm(out)

    def esc(self):
        e = self.peek()
        self.i += 1
        m = {'n': 10, 'r': 13, 't': 9, 'f': 12, 'v': 11, 'a': 7}
        if e in m:
            return ((m[e], m[e]),)
        if e in 'dswDSW':
            r = uniclass(e.lower())
            if not self.unicode:
                r = {'d': ((48, 57),), 's': ((9, 13), (32, 32)),
                     'w': ((48, 57), (65, 90), (95, 95), (97, 122))}[e.lower()]
            return compl(r) if e.isupper() else r
        if e in 'xuU':
            if self.eat('{'):
                j = self.s.index('}', self.i)
                v = int(self.s[self.i:j], 16)
                self.i = j + 1
            else:
                n = {'x': 2, 'u': 4, 'U': 8}[e]
                v = int(self.s[self.i:self.i + n], 16)
                self.i += n
            return ((v, v),)
        if e.isalnum() or not e:
            raise Bad("escape " + e)
        return ((ord(e), ord(e)),)

    def cls(self):
        assert self.eat('[')
        neg = self.eat('^')
        rs = []
        first = True
        cur = None
        while True:
            c = self.peek()
            if not c:
                raise Bad("class")
            if c == ']' and not first:
                self.i += 1
                break
            first = False
            if self.s.startswith('[:', self.i):
                j = self.s.index(':]', self.i)
                nm = self.s[self.i + 2:j]
                self.i = j + 2
                t = {'digit': ((48, 57),), 'alpha': ((65, 90), (97, 122)), 'alnum': ((48, 57), (65, 90), (97, 122)),
                     'upper': ((65, 90),), 'lower': ((97, 122),), 'space': ((9, 13), (32, 32)),
                     'word': ((48, 57), (65, 90), (95, 95), (97, 122)), 'xdigit': ((48, 57), (65, 70), (97, 102)),
                     'ascii': ((0, 127),)}
                if nm.lstrip('^') not in t:
                    raise Bad("class name")
                r = t[nm.lstrip('^')]
                rs += list(compl(r) if nm[0] == '^' else r)
                continue
            if c == '[':
                rs += list(self.cls())
                continue
            if self.eat('&&'):
                left = norm(rs) if cur is None else inter(cur, norm(rs))
                cur = left
                rs = []
                continue
            if self.s.startswith('--', self.i) or self.s.startswith('~~', self.i):
                raise Bad("class operator")
            self.i += 1
            if c == '\\':
                lo = self.esc()
            else:
                lo = ((ord(c), ord(c)),)
            if self.peek() == '-' and self.i + 1 < len(self.s) and self.s[self.i + 1] != ']' and len(lo) == 1 \
                    and lo[0][0] == lo[0][1]:
                self.i += 1
                d = self.peek()
                self.i += 1
                hi = self.esc() if d == '\\' else ((ord(d), ord(d)),)
                rs.append((lo[0][0], hi[0][1]))
            else:
                rs += list(lo)
        r = norm(rs)
        if cur is not None:
            r = inter(cur, r)
        r = norm(self.case(r))
        return compl(r) if neg else r


def u8len(cp):
    return 1 if cp < 0x80 else 2 if cp < 0x800 else 3 if cp < 0x10000 else 4


def width(n):
    k = n[0]
    if k == 'set':
        if not n[1]:
            return (0, 0)
        return (u8len(n[1][0][0]), u8len(n[1][-1][1]))
    if k == 'cat':
        ws = [width(x) for x in n[1]]
        return (sum(w[0] for w in ws), sum(w[1] for w in ws))
    if k == 'alt':
        ws = [width(x) for x in n[1]]
        return (min(w[0] for w in ws), max(w[1] for w in ws))
    if k == 'rep':
        w = width(n[1])
        return (w[0] * n[2], 0 if w[1] == 0 else w[1] * n[3])
    if k == 'grp':
        return width(n[2])
    return (0, 0)


def firsts(n):
    """(set of possible first bytes, may be empty)"""
    k = n[0]
    if k == 'set':
        out = set()
        for a, b in n[1]:
            for x in range(a, min(b, 127) + 1):
                out.add(x)
            if b >= 128:
                lo = chr(max(a, 128)) if not 0xd800 <= max(a, 128) <= 0xdfff else '\ue000'
                hi = chr(b) if not 0xd800 <= b <= 0xdfff else '\ud7ff'
                out |= set(range(lo.encode()[0], hi.encode()[0] + 1))
        return out, False
    if k == 'cat':
        out = set()
        for x in n[1]:
            f, e = firsts(x)
            out |= f
            if not e:
                return out, False
        return out, True
    if k == 'alt':
        out, emp = set(), False
        for x in n[1]:
            f, e = firsts(x)
            out |= f
            emp = emp or e
        return out, emp
    if k == 'rep':
        f, e = firsts(n[1])
        return f, e or n[2] == 0
    if k == 'grp':
        return firsts(n[2])
    return set(), True


class Info:
    def __init__(self, pat, p, ast):
        self.pat = pat
        self.ast = ast
        self.ngroups = p.n
        self.names = p.names
        self.path = {0: []}
        self.node = {0: ast}
        self.walk(ast, [])
        items = ast[1] if ast[0] == 'cat' else [ast]
        self.anchored_start = bool(items) and items[0] == ('bol',)
        self.anchored_end = bool(items) and items[-1] == ('eol',)

    def walk(self, n, path):
        k = n[0]
        if k == 'grp':
            self.node[n[1]] = n[2]
            self.path[n[1]] = path + [n]
            self.walk(n[2], path + [n])
        elif k == 'cat':
            for i, x in enumerate(n[1]):
                self.walk(x, path + [('at', n, i)])
        elif k == 'alt':
            for i, x in enumerate(n[1]):
                self.walk(x, path + [('br', n, i)])
        elif k == 'rep':
            self.walk(n[1], path + [n])

    def conds(self, g):
        out = []
        for x in self.path[g]:
            if x[0] == 'rep' and x[2] == 0:
                out.append(x[5])
            if x[0] == 'br':
                out.append((x[1][2], x[2]))
        return out

    def _side(self, g, before):
        tot = 0
        for x in self.path[g]:
            if x[0] == 'at':
                for y in (x[1][1][:x[2]] if before else x[1][1][x[2] + 1:]):
                    w = width(y)
                    if w[0] != w[1]:
                        return None
                    tot += w[0]
            elif x[0] == 'rep' and x[3] != 1:
                return None
        return tot

    def fixed_start(self, g):
        if not self.anchored_start:
            return None
        return self._side(g, True)

    def fixed_end(self, g):
        if not self.anchored_end:
            return None
        return self._side(g, False)

    def lengths(self, g):
        return width(self.node[g])

    def first_bytes(self, g):
        f, e = firsts(self.node[g])
        return None if e else f


@functools.lru_cache(None)
def compile(pat):
    if isinstance(pat, bytes):
        pat = pat.decode()
    p = P(pat)
    try:
        ast = p.alt()
        if p.i != len(pat):
            raise Bad("trailing")
    except (Bad, ValueError, IndexError, AssertionError):
        return None
    return Info(pat, p, ast)


# ------------------------------------------------------------------------------------------------------- programs
def program(info):
    """Pike-style program for an unanchored leftmost-first search: ('char',set,next) ('split',[next..]) ('save',k,next)
    ('bol',n) ('eol',n) ('match',)"""
    code = []

    def emit(x):
        code.append(x)
        return len(code) - 1

    def comp(n, nxt):
        k = n[0]
        if k == 'set':
            return emit(('char', n[1], nxt))
        if k == 'cat':
            for x in reversed(n[1]):
                nxt = comp(x, nxt)
            return nxt
        if k == 'alt':
            return emit(('split', tuple(comp(x, nxt) for x in n[1])))
        if k == 'grp':
            e = emit(('save', (n[1], 1), nxt))
            b = comp(n[2], e)
            return emit(('save', (n[1], 0), b))
        if k in ('bol', 'eol'):
            return emit((k, nxt))
        if k == 'rep':
            _, x, lo, hi, greedy, _ = n
            if hi is INF or hi == INF:
                loop = emit(None)
                body = comp(x, loop)
                code[loop] = ('split', (body, nxt) if greedy else (nxt, body))
                nxt = loop
                rest = lo
            else:
                cur = nxt
                for _ in range(int(hi) - lo):
                    b = comp(x, cur)
                    cur = emit(('split', (b, nxt) if greedy else (nxt, b)))
                nxt = cur
                rest = lo
            for _ in range(rest):
                nxt = comp(x, nxt)
            return nxt
        raise Bad(k)
    m = emit(('match',))
    e = emit(('save', (0, 1), m))
    s = comp(info.ast, e)
    s = emit(('save', (0, 0), s))
    loop = emit(None)
    any_ = emit(('char', ((0, MAXCP),), loop))
    code[loop] = ('split', (s, any_))
    return code, loop


def closure(code, pc, start, end, keep):
    """priority ordered [(pc, saves)] of consuming / matching instructions reachable without input"""
    out = []
    seen = set()

    def go(pc, saves):
        # saves are part of the identity only for the groups compared
        if pc in seen:
            return
        i = code[pc]
        seen.add(pc)
        k = i[0]
        if k in ('char', 'match'):
            out.append((pc, saves))
        elif k == 'split':
            for x in i[1]:
                go(x, saves)
        elif k == 'save':
            m = keep.get(i[1][0])
            go(i[2], saves | {(m, i[1][1])} if m is not None else saves)
        elif k == 'bol':
            if start:
                go(i[1], saves)
        elif k == 'eol':
            if end:
                go(i[1], saves)
    go(pc, frozenset())
    return out


class Marked:
    """the set of words over (marks, char) that the search produces: exactly one per matched text"""

    def __init__(self, info, keep):
        self.code, self.start = program(info)
        self.keep = keep
        self.cache = {}

    def init(self):
        # configurations (pc before closure, at start?, set of higher priority pcs)
        return frozenset({(self.start, True, frozenset())})

    def clo(self, pc, start, end):
        k = (pc, start, end)
        if k not in self.cache:
            self.cache[k] = closure(self.code, pc, start, end, self.keep)
        return self.cache[k]

    def step(self, conf, ch):
        """{marks: set of configurations} after one character"""
        out = {}
        for pc, start, high in conf:
            hs = set()
            for h in high:
                hs |= self.after(h, start, ch)
            before = set()
            for q, marks in self.clo(pc, start, False):
                nx = self.move(q, ch)
                if nx is not None:
                    out.setdefault(marks, set()).add((nx, False, frozenset(hs | before)))
                    before.add(nx)
        return {k: frozenset(v) for k, v in out.items()}

    def move(self, q, ch):
        i = self.code[q]
        if i[0] == 'match':
            return q
        return i[2] if any(a <= ch <= b for a, b in i[1]) else None

    def after(self, pc, start, ch):
        r = set()
        for q, _ in self.clo(pc, start, False):
            nx = self.move(q, ch)
            if nx is not None:
                r.add(nx)
        return r

    def final(self, conf):
        """marks with which the text may end here"""
        out = set()
        for pc, start, high in conf:
            if any(self.code[q][0] == 'match' for h in high for q, _ in self.clo(h, start, True)):
                continue
            for q, marks in self.clo(pc, start, True):
                if self.code[q][0] == 'match':
                    out.add(marks)
                    break
        return out


def charsets(code, acc):
    for i in code:
        if i[0] == 'char':
            for a, b in i[1]:
                acc.add(a)
                acc.add(b + 1)


def compare(info_a, keep_a, info_b, keep_b, limit=200000):
    """None if both accept the same texts with the same spans of the kept groups, else a counterexample
    (text, spans by a or None, spans by b or None)"""
    A, B = Marked(info_a, keep_a), Marked(info_b, keep_b)
    cuts = {0}
    charsets(A.code, cuts)
    charsets(B.code, cuts)
    pref = [ord(c) for c in '0123456789/,-[]"ax \n']
    reps = []
    cs = sorted(c for c in cuts if c <= MAXCP) + [MAXCP + 1]
    for a, b in zip(cs, cs[1:]):
        p = [c for c in pref if a <= c < b]
        reps.append(p[0] if p else a)
    reps.sort(key=lambda c: (pref.index(c) if c in pref else 99, c))
    start = (A.init(), B.init())
    seen = {start: None}
    todo = [start]
    i = 0
    while i < len(todo):
        cur = todo[i]
        i += 1
        a, b = cur
        fa, fb = A.final(a), B.final(b)
        if fa != fb:
            return trace(seen, cur) + (fa, fb)
        for ch in reps:
            sa, sb = A.step(a, ch), B.step(b, ch)
            for m in set(sa) | set(sb):
                nxt = (sa.get(m, frozenset()), sb.get(m, frozenset()))
                if nxt not in seen:
                    seen[nxt] = (cur, m, ch)
                    todo.append(nxt)
                    if len(todo) > limit:
                        raise Bad("too many states")
    return None


def trace(seen, cur):
    w = []
    while seen[cur] is not None:
        p, m, ch = seen[cur]
        w.append((m, ch))
        cur = p
    w.reverse()
    text = ''.join(chr(c) for _, c in w)
    marked = ''
    for m, c in w:
        marked += ''.join('<%s%s>' % ('' if k[1] == 0 else '/', k[0]) for k in sorted(m, key=repr)) + chr(c)
    return (text, marked)


def stats(info):
    return len(program(info)[0])
