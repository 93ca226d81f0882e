"""compact printing of abstract values"""
from domain import *
import interp


class PP:
    def __init__(self, prog):
        self.prog = prog

    def name(self, k):
        a = self.prog.adts.get(k)
        return a["name"] if a else str(k)

    def lin(self, l):
        out = []
        for a, c in sorted(l[2], key=repr):
            out.append(('' if c == 1 else '-' if c == -1 else '%d*' % c) + self.term(a))
        if l[1] or not out:
            out.append(str(l[1]))
        return '+'.join(out).replace('+-', '-')

    def term(self, t):
        if isinstance(t, str):
            return t
        if not isinstance(t, tuple):
            return repr(t)
        if len(t) == 2 and t[0] == '#':
            return self.term(interp.TERMS[t[1]])
        if t and t[0] in ('i', 'b', 'S', 'A', 'T', 'q', 'R', 'C', 'G', 'F', 'P', 'U', 'M') and (len(t) > 1 or t[0] == 'M'):
            try:
                return self.v(t)
            except Exception:
                pass
        if t and t[0] == 'fld' and len(t) == 3:
            return '%s.%s' % (self.term(t[1]), t[2])
        if t and t[0] == 'vf' and len(t) == 4:
            return '%s.%s.%s' % (self.term(t[1]), t[2], t[3])
        if t and t[0] == '*' and len(t) == 2:
            return '*' + self.term(t[1])
        if t and t[0] in ('sub', 'lit', 'e', 'comp', 'star', 'disp'):
            return self.seg(t)
        if t and isinstance(t[0], str):
            return t[0] + '(' + ','.join(self.term(x) for x in t[1:]) + ')'
        return '[' + ' '.join(self.term(x) for x in t) + ']'

    def seg(self, s):
        k = s[0]
        if k == 'lit':
            return repr(s[1])[1:]
        if k == 'e':
            return '<' + self.v(s[1]) + '>'
        if k == 'sub':
            return '%s[%s..%s]' % (self.term(s[1]), self.lin(s[2]), self.lin(s[3]))
        if k == 'comp':
            return 'comp{%s | %s in %s..%s}' % (self.v(s[2]), self.term(s[1]), self.lin(s[3]), self.lin(s[4]))
        if k == 'disp':
            return 'disp(%s:%s)' % (s[1], self.term(s[2]))
        if k == 'star':
            return 'star(%s){%s}' % (self.term(s[1]), '|'.join(self.term(x) for x in s[2]))
        return repr(s)

    def pred(self, p):
        if p in (True, False):
            return str(p)
        k = p[0]
        if k == 'not':
            return '!' + self.pred(p[1])
        if k == 'and':
            return '(%s & %s)' % (self.pred(p[1]), self.pred(p[2]))
        if k == 'ge':
            return self.lin(p[1]) + '>=0'
        if k == 'eq0':
            return self.lin(p[1]) + '=0'
        if k == 'var':
            return '%s is #%s' % (self.term(p[1]), p[3])
        return self.term(p)

    def v(self, x):
        k = x[0]
        if k == 'i':
            return self.lin(x)
        if k == 'b':
            return self.pred(x[1])
        if k == 'S':
            return '$' + self.term(x[1])
        if k == 'A':
            a = self.prog.adts.get(x[1])
            n = self.name(x[1])
            if a and a["kind"] == 'enum':
                n = a["variants"][x[2]][0]
            return n + ('(' + ', '.join(self.term(f) for f in x[3]) + ')' if x[3] else '')
        if k == 'T':
            return '(' + ', '.join(self.v(f) for f in x[1]) + ')'
        if k == 'q':
            return '"' + ' '.join(self.seg(s) for s in x[1]) + '"'
        if k == 'R':
            if x[1][0] == 'K':
                return '&' + self.v(x[1][1]) + (self.term(x[2]) if x[2] else '')
            return '&' + self.term(x[1]) + (self.term(x[2]) if x[2] else '')
        if k in ('C', 'G'):
            b = self.prog.bodies.get(x[1])
            return k + ':' + (b["path"].split('::', 1)[1] if b else '?') + '[' + ','.join(self.v(y) for y in x[2]) + ']'
        if k == 'F':
            return 'fn:' + self.prog.fninfos[x[1]]["path"]
        if k == 'U':
            return '{' + ' | '.join(self.v(y) for y in x[1]) + '}'
        if k == 'M':
            return '_'
        return repr(x)

    def state(self, s, ev=True):
        out = []
        for r, x in s.mem.items():
            if r[0] != 'L':
                out.append('  mem %s = %s' % (self.term(r[1:]), self.v(x)))
        fs = []
        for t, vi in s.var.items():
            fs.append('%s is #%d' % (self.term(t), vi))
        for a, r in s.rng.items():
            fs.append('%s in %s' % (self.term(a), r))
        for l in s.ge:
            fs.append(self.lin(l) + '>=0')
        for p, b in s.pred.items():
            fs.append(('' if b else 'NOT ') + self.pred(p))
        for a, b in s.seq.items():
            fs.append('%s == %r' % (self.term(a), b))
        out.append('  facts ' + '; '.join(fs))
        if ev and s.ev:
            out.append('  ev ' + '\n     '.join(self.term(e) for e in s.ev))
        return '\n'.join(out)
