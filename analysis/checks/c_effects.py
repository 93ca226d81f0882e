"""C38 C39: what the library never does, whoever calls it: an effect analysis over the call graph.
Roots are the functions code outside can call (public functions, trait implementations); callees, closures and async bodies
mentioned in a reached body are reached.  Every call site of a reached body is classified by the effect of its resolved
callee; loops which neither await nor consume anything are found on the control flow graph."""
import re
from framework import check, Missing

WS = ('owned_subslice', 'socket_io_protocol', 'socket_io_client')

# (effect, what, pattern over the path of the callee or of the implementation it resolves to)
BLOCKING = [
    ('sleeps', r'^std::thread::(\w+::)*(sleep|sleep_ms|sleep_until|park|park_timeout|park_timeout_ms|yield_now)$'),
    ('waits for a thread', r'^std::thread::(\w+::)*(JoinHandle|ScopedJoinHandle)(::<.*>)?::join$|^std::thread::(\w+::)*scope$'),
    ('waits for another thread', r'^std::sync::(\w+::)*(Condvar::wait|Barrier::wait|Once::wait|OnceLock(::<.*>)?::wait)\w*$'),
    ('waits on a blocking channel', r'^std::sync::(mpsc|mpmc)::(\w+::)*(Receiver|Sender|SyncSender|IntoIter|Iter)(::<.*>)?::(recv|recv_timeout|recv_deadline|iter|send|send_timeout)$'),
    ('waits on a blocking channel', r'^<std::sync::(mpsc|mpmc)::.*Iterator>::next$|::blocking_(recv|send|lock|read|write)$'),
    ('runs a nested executor', r'(^|::)futures_executor::|(^|::)futures::executor::|^(async_std|async_io|smol|tokio|futures_lite|pollster)::.*block_on|::block_on(_stream)?$'),
    ('does blocking input or output', r'^std::(net|fs|process|os)::|^<?std::io::(\w+::)*(Std(in|out|err)|stdin|stdout|stderr|read_to_string)|^std::io::(stdio::)?(stdin|read_to_string)'),
    ('waits for a process', r'^std::process::'),
    ('spins', r'^(std|core)::hint::spin_loop$'),
]
NOTES = {'_print', '_eprint'}
GLOBAL = [
    ('reads the environment', r'^std::env::'),
    ('depends on the clock', r'^std::time::(\w+::)*SystemTime::now$'),
    ('depends on the thread or process', r'^std::thread::(\w+::)*(current|available_parallelism)$|^std::process::id$'),
    ('is random', r'^(rand|fastrand|getrandom|rand_core|oorandom)::|^std::(collections::hash_map|hash)::(\w+::)*RandomState'),
    ('changes process-wide settings', r'^std::panic::(set_hook|take_hook|update_hook)$|^log::set_(max_level|logger|boxed_logger)'),
]
CELLS = re.compile(r'^(Atomic\w*|Cell|RefCell|UnsafeCell|SyncUnsafeCell|Mutex|RwLock|ReentrantLock|Condvar|Barrier|Once|LocalKey|'
                   r'ReentrantMutex|AtomicCell|UnboundedSender|UnboundedReceiver|Sender|Receiver|AtomicWaker)$')
ONCE = re.compile(r'^(Lazy|LazyLock|OnceLock|OnceCell|Regex|RegexSet|OnceBox|OnceRef)$')
CONSUMING = re.compile(r'^(next|next_back|next_element\w*|next_key\w*|next_value\w*|next_entry\w*|nth|pop\w*|try_next|try_recv|take_next|'
                       r'poll\w*|drain|read\w*|split_first|split_last|split_off|advance|remove\w*|swap_remove|now_or_never|find\w*|captures\w*|take)$')


def walk(x, fns, hashes, statics):
    if isinstance(x, dict):
        if 'fn' in x and isinstance(x['fn'], tuple):
            fns.append(x['fn'])
        if 'static' in x:
            statics.append((x['static'], x.get('ty')))
        if isinstance(x.get('hash'), str):
            hashes.append(x['hash'])
        for y in x.values():
            walk(y, fns, hashes, statics)
    elif isinstance(x, (list, tuple)):
        for y in x:
            walk(y, fns, hashes, statics)


class Effects:
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.prog
        self.use = {}
        for h, b in self.prog.bodies.items():
            fns, hs, st = [], [], []
            walk(b["blocks"], fns, hs, st)
            self.use[h] = (fns, hs, st)
        roots = [h for h, b in self.prog.bodies.items() if b["crate"] in WS and b["kind"] != 'Closure' and
                 (b.get("impl_trait") or (b.get("vis") == 'Public' and b.get("reachable", True)))]
        self.path = {h: (h,) for h in roots}
        todo = sorted(roots, key=lambda h: self.prog.bodies[h]["path"])
        while todo:
            h = todo.pop(0)
            fns, hs, _ = self.use[h]
            out = list(hs)
            for k in fns:
                i = self.prog.fninfos[k]
                out += [i["hash"], i["rhash"]]
            for g in out:
                if g in self.prog.bodies and g not in self.path:
                    self.path[g] = self.path[h] + (g,)
                    todo.append(g)
        self.sites = 0
        ctx.functions |= {self.prog.bodies[h]["path"] for h in self.path}

    def via(self, h):
        return ' -> '.join(self.prog.bodies[x]["path"] for x in self.path[h])

    def calls(self):
        """(body, paths of the callee) of every call or mention of a function"""
        for h in sorted(self.path, key=lambda h: self.prog.bodies[h]["path"]):
            for k in self.use[h][0]:
                i = self.prog.fninfos[k]
                self.sites += 1
                yield h, i, [p for p in (i["path"], i.get("rpath")) if p]

    def forbid(self, table, rule, also=None):
        ctx = self.ctx
        n = {}
        for h, i, ps in self.calls():
            b = self.prog.bodies[h]
            hit = None
            for what, pat in table:
                if any(re.search(pat, p) for p in ps) and i["name"] not in NOTES:
                    hit = what
                    break
            if also and hit is None:
                hit = also(i, ps)
            ctx.ob(rule, hit is None, '%s:%s:%s' % (b["path"], i["name"], hit), '%s %s with %s (%s)' % (b["path"], hit, ps[-1], self.via(h)),
                   ctx.site(b))
            n[b["crate"]] = n.get(b["crate"], 0) + 1
        ctx.notes['call sites classified'] = n
        ctx.notes['functions reached'] = len(self.path)
        ctx.floor(self.sites, 300, 'call sites')
        ctx.floor(len(self.path), 150, 'functions reached')


# ------------------------------------------------------------------------------------------------------------- loops
def succs(t):
    out = [x[-1] for x in t.get("cases", ())] + [t.get(k) for k in ("else", "to")]
    return [x for x in out if isinstance(x, int)]


def sccs(nodes, edges):
    idx, low, on, st, out = {}, {}, set(), [], []

    def visit(v):
        work = [(v, iter(edges[v]))]
        idx[v] = low[v] = len(idx)
        st.append(v)
        on.add(v)
        while work:
            x, it = work[-1]
            for w in it:
                if w not in nodes:
                    continue
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(edges[w])))
                    break
                if w in on:
                    low[x] = min(low[x], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[x])
                if low[x] == idx[x]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == x:
                            break
                    if len(c) > 1 or x in edges[x]:
                        out.append(set(c))
    for v in nodes:
        if v not in idx:
            visit(v)
    return out


def loops(E):
    """every cycle of every function awaits, consumes something or counts"""
    ctx, prog = E.ctx, E.prog
    n = 0
    for h in sorted(E.path, key=lambda h: prog.bodies[h]["path"]):
        b = prog.bodies[h]
        if '::_::' in b["path"]:
            continue
        bl = b["blocks"]
        nodes = {i for i, x in enumerate(bl) if not x.get("cleanup")}
        edges = {i: [s for s in succs(bl[i]["t"]) if s in nodes] for i in nodes}
        found = sccs(nodes, edges)
        if not found:
            continue
        for c in found:
            n += 1
            stop = set()
            for i in c:
                t = bl[i]["t"]
                if t["t"] == 'yield':
                    stop.add(i)
                if t["t"] == 'call' and isinstance(t["f"], dict) and isinstance(t["f"].get("fn"), tuple):
                    info = prog.fninfos[t["f"]["fn"]]
                    if CONSUMING.match(info["name"]):
                        stop.add(i)
                for s in bl[i]["s"]:
                    if s[0] == '=' and isinstance(s[2], dict) and str(s[2].get("op", '')).startswith(('Add', 'Sub', 'Mul', 'Div', 'Shr', 'Shl')):
                        stop.add(i)
            left = c - stop
            bad = sccs(left, {i: [s for s in edges[i] if s in left] for i in left})
            ctx.ob('loop', not bad, b["path"], '%s loops without awaiting, consuming or counting anything (%s)' % (b["path"], E.via(h)),
                   ctx.site(b), sample='%s: a loop which makes progress' % b["path"])
    ctx.notes['loops'] = n
    ctx.floor(n, 4, 'loops')


@check('C38')
def c38(ctx):
    E = Effects(ctx)
    E.forbid(BLOCKING, 'blocking')
    loops(E)
    ctx.assume += ['the only locks are those of the registry and of a callback, which are held for short (C16)',
                   'third-party functions other than those named do not block', 'the user\'s callbacks and streams do not block']


# ------------------------------------------------------------------------------------------------------------ globals
def mutable(prog, t, seen=()):
    """why a value of type t can change while shared, or None"""
    if t is None:
        return None
    k = t[0]
    if k == 'ptr':
        return 'a raw pointer'
    if k in ('ref', 'slice', 'array'):
        return mutable(prog, t[2] if k == 'ref' else t[1], seen)
    if k == 'tuple':
        for x in t[1]:
            w = mutable(prog, x, seen)
            if w:
                return w
        return None
    if k == 'dyn':
        return None
    if k == 'adt':
        a = prog.adts.get(t[1])
        name = a["name"] if a else ''
        if CELLS.match(name):
            return name
        if ONCE.match(name):
            for x in t[2]:
                w = mutable(prog, x, seen)
                if w:
                    return w
            return None
        if t in seen:
            return None
        for x in t[2]:
            w = mutable(prog, x, seen + (t,))
            if w:
                return w
        if a and a.get("local"):
            for v in a["variants"]:
                for f in v[1]:
                    w = mutable(prog, f[1], seen + (t,))
                    if w:
                        return w
    return None


@check('C39')
def c39(ctx):
    E = Effects(ctx)

    def local(i, ps):
        # a thread-local whose content cannot change is a constant
        if any(re.search(r'^std::thread::(\w+::)*LocalKey(::<.*>)?::', p) for p in ps):
            w = [x for x in (mutable(ctx.prog, t) for t in i["args"]) if x]
            if w or not i["args"]:
                return 'keeps state in the thread (%s)' % ', '.join(w)
    E.forbid(GLOBAL, 'global', local)
    n = 0
    for h in sorted(E.path, key=lambda h: ctx.prog.bodies[h]["path"]):
        b = ctx.prog.bodies[h]
        for name, t in E.use[h][2]:
            n += 1
            if t is not None and t[0] == 'ptr':
                ctx.ob('static', False, name, '%s uses the mutable static %s (%s)' % (b["path"], name, E.via(h)), ctx.site(b))
                continue
            w = mutable(ctx.prog, t[2] if t is not None and t[0] == 'ref' else t)
            ctx.ob('static', w is None, name, '%s uses the static %s, which can change (%s) (%s)' % (b["path"], name, w, E.via(h)), ctx.site(b),
                   sample='static %s: written once' % name)
    ctx.notes['uses of statics'] = n
    ctx.assume += ['third-party crates keep no global state that changes what they return',
                   'what a write-once static holds depends on nothing but the source (its initialiser is analysed like any function)']
