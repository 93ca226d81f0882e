"""C45: what a peer merely announces costs nothing.  Every reservation of memory and every counted loop on the receive path is
followed through the same exploration as C04; its size has to be bounded by a constant or by the length of data at hand.
Recursion is looked for on the call graph."""
from framework import check, Missing
from checks import c_panic
from checks.c_effects import Effects, sccs

LIMIT = 'sized'


class Only:
    """a context which records only some rules; floors and missing anchors still count"""

    def __init__(self, ctx, rules):
        self.__dict__['_ctx'], self.__dict__['_rules'] = ctx, rules

    def __getattr__(self, n):
        return getattr(self._ctx, n)

    def __setattr__(self, n, v):
        setattr(self._ctx, n, v)

    def ob(self, rule, ok, key, what, site=None, sample=None):
        return self._ctx.ob(rule, ok, key, what, site, sample) if rule in self._rules else ok

    def violation(self, rule, key, what, site=None):
        if rule in self._rules:
            self._ctx.violation(rule, key, what, site)


@check('C45')
def c45(ctx):
    seen = {'alloc': 0, 'rounds': 0}

    def sized(I, st, n, c, what, ok):
        seen[what] += 1
        f = getattr(c, 'frame', None)
        b = f.body if f is not None else None
        where = b["path"] if b is not None else '?'
        ctx.ob('room' if what == 'alloc' else 'rounds', ok, '%s:%s' % (where, c.name), '%s %s, which is bounded by no constant and by no data '
               'received: %s' % (where, 'reserves room by a number' if what == 'alloc' else 'counts to a number', ctx.pp.v(n)[:120]),
               ctx.site(b) if b is not None else '', sample='%s: %s' % (where, ctx.pp.v(n)[:60]))
    ctx.hooks['sized'] = sized
    c_panic.receive(Only(ctx, ('room', 'rounds')))
    ctx.hooks.pop('sized')
    depth(ctx)
    ctx.notes['reservations and counted loops'] = dict(seen)


def depth(ctx):
    """functions that call themselves do so for the parts of a parsed json value"""
    E = Effects(ctx)
    prog = ctx.prog
    edges = {}
    for h in E.path:
        fns, hs, _ = E.use[h]
        out = list(hs)
        for k in fns:
            i = prog.fninfos[k]
            out.append(i["rhash"] if i.get("rhash") else i["hash"])
        edges[h] = [g for g in out if g in E.path]
    n = 0
    for h in sorted(E.path, key=lambda h: prog.bodies[h]["path"]):
        n += 1
        b = prog.bodies[h]
        ctx.ob('depth', True, b["path"], '')
    for c in sccs(set(edges), edges):
        on = [h for h in c if not takes_value(ctx, prog.bodies[h])]
        left = sccs(set(on), {h: [g for g in edges[h] if g in on] for h in on})
        names = sorted(prog.bodies[h]["path"] for h in c)
        ctx.ob('depth', not left, names[0], '%s calls itself (%s), and not for the parts of a parsed json value, whose nesting is limited' % (
            names[0], ', '.join(names)[:200]), ctx.site(prog.bodies[min(c, key=lambda h: prog.bodies[h]["path"])]),
            sample='%s: over json values' % names[0])
    ctx.floor(n, 150, 'functions reached')
    ctx.assume += ['serde_json refuses json nested deeper than 128, also into values']


def takes_value(ctx, b):
    def is_value(t):
        while t is not None and t[0] == 'ref':
            t = t[2]
        if t is None or t[0] != 'adt' or t[1] not in ctx.prog.adts:
            return False
        a = ctx.prog.adts[t[1]]
        return 'serde_json' in a["path"] and a["name"] in ('Value', 'Map') or any(is_value(x) for x in t[2] if isinstance(x, tuple))
    return any(is_value(t) for t in b["locals"][1:b["argc"] + 1])
