"""what the checks share: running functions abstractly, obligations, violations, evidence"""
import json
import os

from domain import *
import interp
import pp as ppmod

CHECKS = {}
PARSE = {}


def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


class Missing(Exception):
    pass


class Ctx:
    def __init__(self, pid, prog, tier, here, target):
        self.pid, self.prog, self.tier, self.here, self.target = pid, prog, tier, here, target
        self.pp = ppmod.PP(prog)
        self.viol = {}
        self.obl = 0
        self.done = 0
        self.rules = {}
        self.functions = set()
        self.samples = []
        self.paths = 0
        self.models = set()
        self.unknown = set()
        self.assume = []
        self.notes = {}
        self.interps = []
        self.hooks = {}

    # ------------------------------------------------------------------------------------------- obligations
    def ob(self, rule, ok, key, what, site=None, sample=None):
        """one obligation of `rule`; key must not depend on line numbers"""
        self.obl += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            self.done += 1
            r[1] += 1
            if sample is not None and len(self.samples) < 12:
                self.samples.append(sample)
        else:
            self.violation(rule, key, what, site)
        return ok

    def floor(self, n, least, what):
        """an analysis that finds nothing to look at decides nothing"""
        if n < least:
            raise Missing('only %d %s were found' % (n, what))

    def violation(self, rule, key, what, site=None):
        k = '%s/%s' % (rule, key)
        if k not in self.viol:
            self.viol[k] = {"rule": rule, "key": k, "what": what, "site": site or ''}

    def site(self, b, line=None):
        f = b.get("file") or ''
        return '%s (%s%s)' % (b["path"], f, ':%s' % line if line else '')

    # ---------------------------------------------------------------------------------------------- analysis
    def interp(self, **hooks):
        I = interp.Interp(self.prog)
        I.hooks.update(self.hooks)
        I.hooks.update(hooks)
        self.interps.append(I)
        return I

    def fn(self, crate, name, adt=None, trait=None, optional=False, where=None):
        kw = dict(crate=crate, name=name)
        if adt is not None:
            kw['self_adt'] = adt
        if trait is not None:
            kw['trait'] = trait
        r = self.prog.find(**kw)
        if adt is None and trait is None:
            r = [b for b in r if b.get("impl_self") is None and b["kind"] == 'Fn']
        if where is not None:
            r = [b for b in r if where(b)]
        if len(r) != 1:
            if optional and not r:
                return None
            raise Missing('%d functions match %s::%s%s' % (len(r), crate, (adt + '::') if adt else '', name))
        return r[0]

    def args(self, I, b, names=None):
        return [I.sym(('arg', (names or {}).get(i, i)), b["locals"][i + 1]) for i in range(b["argc"])]

    def run(self, I, b, args, st=None, sub=()):
        return I.run(b, sub, args, st or State())

    def variant(self, adt_key, name):
        a = self.prog.adts[adt_key]
        for i, v in enumerate(a["variants"]):
            if v[0] == name:
                return i
        raise Missing('variant %s of %s' % (name, a["path"]))

    def vname(self, v):
        """name of the variant of an aggregate value"""
        a = self.prog.adts.get(v[1])
        if a and a["kind"] == 'enum':
            return a["variants"][v[2]][0]
        return a["name"] if a else str(v[1])

    def adt(self, crate, name):
        r = [h for h, a in self.prog.adts.items() if a["name"] == name and a.get("local") and
             a["path"].split('::')[0].replace('-', '_') in (crate, 'crate') or
             (a["name"] == name and a.get("crate") == crate)]
        if len(r) != 1:
            raise Missing('%d types named %s in %s' % (len(r), name, crate))
        return r[0]

    # ------------------------------------------------------------------------------------------------ finish
    def finish(self, h, wall, known):
        for I in self.interps:
            self.functions |= I.stats["functions"]
            self.paths += I.stats["paths"]
            self.models |= I.stats["models"]
            self.unknown |= I.stats["unknown"]
        new = {k: v for k, v in self.viol.items() if k not in known}
        ev = os.environ.get('VERIF_DEV_EVIDENCE') or os.path.join(self.here, 'evidence')
        os.makedirs(ev, exist_ok=True)
        path = os.path.join(ev, self.pid + '.json')
        vpath = os.path.join(ev, self.pid + '.violations.json')
        if self.obl == 0:
            new['floor/none'] = {"rule": "floor", "key": "floor/none", "what": "nothing was analysed", "site": ""}
        doc = {"property": self.pid, "tier": self.tier if self.tier in ('quick', 'thorough') else 'quick',
               "seed": int(os.environ.get('VERIF_SEED', '1') or 1), "level": "other",
               "coverage": {
                   "explanation": "abstract interpretation / dataflow over the compiler's MIR of the current source; "
                                  "every obligation below was derived from the source on this run",
                   "source_hash": h, "obligations": self.obl, "discharged": self.done,
                   "rules": {k: {"obligations": v[0], "discharged": v[1]} for k, v in sorted(self.rules.items())},
                   "functions_analysed": sorted(self.functions), "abstract_paths": self.paths,
                   "external_models_used": sorted(self.models),
                   "external_calls_left_unknown": sorted(self.unknown),
                   "samples": self.samples, **self.notes},
               "assumptions": self.assume, "wall_s": round(wall, 2), "violations": len(new)}
        json.dump(doc, open(path, 'w'), indent=1, default=str)
        for k, v in self.viol.items():
            if k in known:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k]))
        if new:
            json.dump(list(new.values()), open(vpath, 'w'), indent=1)
            for v in list(new.values())[:20]:
                print('  %s at %s: %s' % (v["rule"], v["site"], v["what"]))
            if len(new) > 20:
                print('  ... %d more' % (len(new) - 20))
            print('VIOLATION property=%s replay=%s' % (self.pid, vpath))
            return 1
        if os.path.exists(vpath):
            os.remove(vpath)
        print('%s: ok, %d obligations discharged over %d functions, %d abstract paths, %.1f s' % (
            self.pid, self.done, len(self.functions), self.paths, wall))
        return 0


# ---------------------------------------------------------------------------------------------------- shared views
def view(ctx, I, st, v):
    """[(state, contents)] : what a text/bytes value shows to its user.  Follows workspace Deref implementations."""
    n = 0
    while v[0] == 'R' and n < 6:
        v = I.load(st, v[1], v[2])
        n += 1
    while v[0] == 'S' and v[2] is not None and v[2][0] == 'ref':
        v = ('S', ('*', v[1]), v[2][2])
    if v[0] == 'q':
        return [(st, I.norm_segs(v[1]))]
    if v[0] == 'A' and v[1] == I.COW:
        return view(ctx, I, st, v[3][0])
    h = v[1] if v[0] == 'A' else (v[2][1] if v[0] == 'S' and v[2] is not None and v[2][0] == 'adt' else None)
    if h is not None:
        for b in ctx.prog.impls.get(("Deref", "deref"), []):
            if b["impl_self"] and b["impl_self"][0] == 'adt' and b["impl_self"][1] == h:
                st = st.copy()
                r = I.alloc(st, 'view', v)
                sub = ()
                if v[0] == 'S':
                    m = {}
                    from facts import unify
                    unify(b["impl_self"], v[2], m)
                    sub = tuple(sorted(m.items()))
                else:
                    sub = slice_sub(ctx, b, v)
                out = []
                for s, k, x in I.run(b, sub, [r], st):
                    if k == 'ret':
                        out += view(ctx, I, s, x)
                    else:
                        out.append((s, None))
                return out
    if v[0] == 'S' and I.elem_ty(v[2]) is not False:
        return [(st, I.as_segs(st, v))]
    return [(st, None)]


def slice_sub(ctx, b, v):
    """generic arguments of a wrapper value whose payload type is known"""
    for f in v[3]:
        if isinstance(f, tuple) and f and f[0] == 'S' and f[2] is not None and b["generics"]:
            return ((b["generics"][0], f[2]),)
        if isinstance(f, tuple) and f and f[0] == 'q' and b["generics"]:
            # known contents: text and bytes dereference alike
            for h, a in ctx.prog.adts.items():
                if a["name"] == 'String':
                    return ((b["generics"][0], ('adt', h, ())),)
    return ()
