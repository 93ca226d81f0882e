"""Loads the MIR facts written by the driver into one program: canonical types, ADTs and bodies of all crates."""
import json, os, re

CRATES = ["owned_subslice", "socket_io_protocol", "socket_io_client"]


def strip_generics(p):
    """remove <...> groups that follow '::' or an identifier, keep `<impl X>` and leading `<A as B>`"""
    out = []
    i = 0
    n = len(p)
    while i < n:
        c = p[i]
        if c == '<':
            depth = 0
            j = i
            while j < n:
                if p[j] == '<':
                    depth += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            inner = p[i + 1:j]
            if inner.startswith('impl '):
                body = inner[5:]
                if ' for ' in body:
                    out.append('<' + strip_generics(body) + '>')
                else:
                    out.append(strip_generics(body))
            elif i == 0:
                out.append('<' + strip_generics(inner) + '>')
            else:
                if out and out[-1].endswith('::'):
                    out[-1] = out[-1][:-2]
            i = j + 1
            continue
        out.append(c)
        if len(out) >= 2 and out[-1] == ':' and out[-2] == ':':
            out[-2:] = ['::']
        i += 1
    return ''.join(out)


def short(p):
    """`std::option::Option::<T>::map` -> `Option::map`, `core::str::<impl str>::len` -> `str::len`"""
    s = strip_generics(p)
    parts = s.split('::')
    return '::'.join(parts[-2:])


class Prog:
    def __init__(self, d):
        self.adts = {}      # hash -> dict(path,name,kind,local,generics,variants=[(name,[(fname,type)],discr)])
        self.bodies = {}    # hash -> body dict (types canonical)
        self.by_path = {}
        self.fninfos = {}   # (hash,args)-> info
        self.crates = {}
        self.unsafe = []    # unsafe blocks and items of the workspace
        self.lang = {}
        for c in CRATES:
            f = os.path.join(d, c + ".json")
            if not os.path.exists(f):
                raise RuntimeError("facts missing for crate " + c)
            j = json.load(open(f))
            self.load(c, j)
            self.unsafe += [dict(u, crate=c) for u in j["unsafe"]]
        self.index()

    # ---------------------------------------------------------------- types
    def load(self, crate, j):
        T = j["types"]
        cache = [None] * len(T)
        pending = set()

        def ty(i):
            if cache[i] is not None:
                return cache[i]
            if i in pending:
                return ('other', 'recursive')
            pending.add(i)
            t = T[i]
            k = t["k"]
            if k == "prim":
                r = ('prim', t["s"])
            elif k == "str":
                r = ('str',)
            elif k == "never":
                r = ('never',)
            elif k == "adt":
                r = ('adt', t["hash"], tuple(ty(a) for a in t["args"]))
            elif k in ("ref", "ptr"):
                r = (k, t["mut"], ty(t["ty"]))
            elif k == "tuple":
                r = ('tuple', tuple(ty(a) for a in t["args"]))
            elif k == "array":
                r = ('array', ty(t["ty"]), t.get("len"))
            elif k == "slice":
                r = ('slice', ty(t["ty"]))
            elif k in ("closure", "coroutine"):
                r = (k, t["hash"])
            elif k == "fndef":
                r = ('fndef', fn(t["fn"]))
            elif k == "param":
                r = ('param', t["name"])
            elif k == "dyn":
                r = ('dyn', t["s"])
            elif k == "alias":
                r = ('alias', t["s"])
            else:
                r = ('other', t["s"])
            pending.discard(i)
            cache[i] = r
            return r

        def fn(f):
            info = {"path": f["path"], "hash": f["hash"], "name": f["name"], "crate": f["crate"],
                    "args": tuple(ty(a) for a in f["args"]), "trait": f.get("trait"),
                    "rhash": f.get("rhash"), "rpath": f.get("rpath"), "rcrate": f.get("rcrate"),
                    "rargs": tuple(ty(a) for a in f["rargs"]) if f.get("rargs") is not None else None,
                    "virtual": f.get("virtual", False),
                    "impl_self": ty(f["impl_self"]) if f.get("impl_self") is not None else None,
                    "impl_trait": f.get("impl_trait")}
            key = (f["hash"], info["args"], info["rhash"], info["rargs"])
            self.fninfos.setdefault(key, info)
            return key

        def op(o):
            if "ty" in o:
                o["ty"] = ty(o["ty"])
            if "fn" in o:
                o["fn"] = fn(o["fn"])
            return o

        def rv(r):
            for k in ("o", "a", "b"):
                if isinstance(r.get(k), dict):
                    op(r[k])
            for k in ("ty", "from", "aty"):
                if k in r and r[k] is not None:
                    r[k] = ty(r[k])
            if "ops" in r:
                for o in r["ops"]:
                    op(o)
            return r

        def mbody(b):
            b["locals"] = [ty(t) for t in b["locals"]]
            b["names"] = dict((l, n) for l, n in b["names"])
            for bl in b["blocks"]:
                for s in bl["s"]:
                    if s[0] == "=":
                        rv(s[2])
                t = bl["t"]
                for k in ("o", "f"):
                    if isinstance(t.get(k), dict):
                        op(t[k])
                for k in ("ty", "dty"):
                    if k in t:
                        t[k] = ty(t[k])
                if "args" in t:
                    for o in t["args"]:
                        op(o)
                    t["atys"] = [ty(x) for x in t["atys"]]
            return b

        for a in j["adts"]:
            h = a["hash"]
            e = {"path": a["path"], "name": a["path"].split("::")[-1], "kind": a["kind"],
                 "local": a["local"], "generics": a["generics"], "hash": h,
                 "variants": [(v["name"], [(n, ty(t)) for n, t in v["fields"]],
                               int(v["discr"]) if "discr" in v else None) for v in a["variants"]]}
            if h not in self.adts or a["local"]:
                self.adts[h] = e
        for b in j["bodies"]:
            b["crate"] = crate
            mbody(b)
            for p in b["promoted"]:
                mbody(p)
                p["path"] = b["path"] + "::promoted"
                p["crate"] = crate
                p["generics"] = b["generics"]
            for k in ("impl_self",):
                if b.get(k) is not None:
                    b[k] = ty(b[k])
            self.bodies[b["hash"]] = b
        self.crates[crate] = j

    def index(self):
        self.impls = {}      # (trait name, method) -> [body]
        self.adt_by_name = {}
        for h, a in self.adts.items():
            self.adt_by_name.setdefault(a["name"], []).append(a)
        for h, b in self.bodies.items():
            self.by_path.setdefault(b["path"], []).append(b)
            b["sig"] = (b["locals"][1:1 + b["argc"]], b["locals"][0])
            if b.get("impl_trait"):
                tn = b["impl_trait"].split("::")[-1]
                self.impls.setdefault((tn, b["name"]), []).append(b)
        for b in self.bodies.values():
            self.cfg(b)
            for p in b["promoted"]:
                self.cfg(p)

    # ------------------------------------------------------------------ cfg
    def cfg(self, b):
        blocks = b["blocks"]
        n = len(blocks)
        succ = []
        for bl in blocks:
            t = bl["t"]
            s = []
            if t["t"] == "switch":
                s = [c[1] for c in t["cases"]] + [t["else"]]
            elif t.get("to") is not None:
                s = [t["to"]]
            succ.append(s)
        b["succ"] = succ
        # dfs postorder, back edges
        order = []
        state = [0] * n
        back = set()
        stack = [(0, iter(succ[0]))]
        state[0] = 1
        while stack:
            u, it = stack[-1]
            adv = False
            for v in it:
                if state[v] == 0:
                    state[v] = 1
                    stack.append((v, iter(succ[v])))
                    adv = True
                    break
                elif state[v] == 1:
                    back.add((u, v))
            if not adv:
                state[u] = 2
                order.append(u)
                stack.pop()
        order.reverse()
        b["rpo"] = {u: i for i, u in enumerate(order)}
        pred = {}
        for u in order:
            for v in succ[u]:
                pred.setdefault(v, set()).add(u)
        loops = {}
        for u, h in back:
            body = loops.setdefault(h, {h})
            work = [u]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(pred.get(x, ()))
        b["loops"] = loops

    # ---------------------------------------------------------------- lookup
    def adt(self, ty):
        if ty and ty[0] == 'adt':
            return self.adts.get(ty[1])
        return None

    def tyname(self, ty):
        if ty is None:
            return '?'
        k = ty[0]
        if k == 'adt':
            a = self.adts.get(ty[1])
            s = a["name"] if a else ty[1]
            if ty[2]:
                s += '<' + ','.join(self.tyname(x) for x in ty[2]) + '>'
            return s
        if k == 'ref':
            return '&' + ('mut ' if ty[1] else '') + self.tyname(ty[2])
        if k == 'ptr':
            return '*' + self.tyname(ty[2])
        if k == 'tuple':
            return '(' + ','.join(self.tyname(x) for x in ty[1]) + ')'
        if k in ('slice', 'array'):
            return '[' + self.tyname(ty[1]) + ']'
        if k in ('prim', 'param', 'dyn', 'alias', 'other'):
            return str(ty[1])
        return k

    def adtname(self, ty):
        a = self.adt(ty)
        return a["name"] if a else None

    def find(self, crate=None, name=None, self_adt=None, trait=None, kind=None):
        """bodies by structural description; self_adt is the bare ADT name"""
        r = []
        for b in self.bodies.values():
            if crate and b["crate"] != crate:
                continue
            if name and b["name"] != name:
                continue
            if kind and b["kind"] != kind:
                continue
            if self_adt is not None:
                if b.get("impl_self") is None or self.adtname(b["impl_self"]) != self_adt:
                    continue
            if trait is not None:
                if not b.get("impl_trait") or b["impl_trait"].split("::")[-1] != trait:
                    continue
            elif trait is None and self_adt is not None and b.get("impl_trait"):
                continue
            r.append(b)
        return r


def subst(ty, m):
    """substitute type parameters"""
    if not m or ty is None:
        return ty
    k = ty[0]
    if k == 'param':
        return m.get(ty[1], ty)
    if k == 'adt':
        if not ty[2]:
            return ty
        return ('adt', ty[1], tuple(subst(a, m) for a in ty[2]))
    if k in ('ref', 'ptr'):
        return (k, ty[1], subst(ty[2], m))
    if k == 'tuple':
        return ('tuple', tuple(subst(a, m) for a in ty[1]))
    if k == 'slice':
        return ('slice', subst(ty[1], m))
    if k == 'array':
        return ('array', subst(ty[1], m), ty[2])
    return ty


def unify(pat, ty, m):
    """bind params of pat so that pat == ty; best effort"""
    if pat is None or ty is None:
        return False
    if pat[0] == 'param':
        m.setdefault(pat[1], ty)
        return True
    if pat[0] != ty[0]:
        return False
    k = pat[0]
    if k == 'adt':
        if pat[1] != ty[1] or len(pat[2]) != len(ty[2]):
            return False
        return all([unify(a, b, m) for a, b in zip(pat[2], ty[2])]) or True
    if k in ('ref', 'ptr'):
        return unify(pat[2], ty[2], m)
    if k == 'tuple':
        return len(pat[1]) == len(ty[1]) and all([unify(a, b, m) for a, b in zip(pat[1], ty[1])])
    if k in ('slice', 'array'):
        return unify(pat[1], ty[1], m)
    return pat == ty


if __name__ == "__main__":
    import sys
    p = Prog(sys.argv[1])
    print(len(p.bodies), len(p.adts))
    seen = set()
    for f in p.fninfos.values():
        seen.add((f["crate"], short(f["path"]), f["path"]))
    for x in sorted(seen):
        if x[0] not in CRATES:
            print(x[1], '   ', x[2])
