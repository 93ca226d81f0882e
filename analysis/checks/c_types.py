"""C30 C31 C32: what the type checker must accept and refuse, decided with witness programs against the current source"""
import glob
import json
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from framework import *
from facts import *

PRE = '''#![allow(unused, dead_code)]
extern crate socket_io_client as cl;
extern crate socket_io_protocol as pr;
use cl::{Client, EventCallback, AckCallback, EventBuilder, EventArgsBuilder, AckBuilder, AckArgsBuilder};
use pr::socket::{Packet, Data, Args, Arg, PacketBuilder, Partial, DeserializeResult, deserialize, deserialize_partial};
use std::sync::{Arc, Mutex};
use std::rc::Rc;
use std::cell::{Cell, RefCell};
fn is_send<T: Send>() {}
fn send<T: Send>(t: T) -> T { t }
fn is_clone<T: Clone>() {}
fn is_copy<T: Copy>() {}
fn use_<T>(_: T) {}
fn get<T>() -> T { loop {} }
fn args<'a>(p: &'a Packet) -> Args<'a> { match p.data() { Data::Event { args, .. } => args, _ => get() } }
'''

NOTSEND = {'E0277'}
MOVED = {'E0382', 'E0507', 'E0505'}
NOCLONE = {'E0277'}
SHORT = {'E0505', 'E0597', 'E0515', 'E0521', 'E0716', 'E0506', 'E0310', 'E0700', 'E0492', 'lifetime', 'E0495', 'E0759', 'E0308', 'E0621', 'E0373'}
EXCL = {'E0499', 'E0502', 'E0505', 'E0506'}

# name: (what, control body which must compile, or None, body which must not compile or None, accepted reasons)
W = {}


def w(prop, name, what, good, bad=None, codes=()):
    W.setdefault(prop, []).append((name, what, good, bad, set(codes)))


# ------------------------------------------------------------------------------------------------------------ C30
EVCB = 'move |_: &Args, _: Option<AckBuilder>| { let _ = &x; }'
ACKCB = 'move |_: &Args| { let _ = &x; }'
SENDX = 'let x = Arc::new(Mutex::new(0));'
RCX = 'let x = Rc::new(0);'
CELLX = 'let y = Cell::new(0); let y: &\'static Cell<i32> = Box::leak(Box::new(y)); let x = y;'
for api, call in (('set_event_callback', 'c.set_event_callback("e", %s);'), ('set_namespace_event_callback', 'c.set_namespace_event_callback("/n", "e", %s);'),
                  ('set_fallback_callback', 'c.set_fallback_callback(%s);'), ('set_namespace_fallback_callback', 'c.set_namespace_fallback_callback("/n", %s);')):
    for nm, bad in (('Rc', RCX), ('Cell', CELLX)):
        w('C30', '%s:%s' % (api, nm), 'a callback holding an %s can be registered with %s' % (nm, api),
          'fn f(mut c: Client) { %s %s }' % (SENDX, call % EVCB), 'fn f(mut c: Client) { %s %s }' % (bad, call % EVCB), NOTSEND)
    w('C30', api + ':borrow', 'a callback borrowing from its registration can be registered with ' + api,
      'fn f(mut c: Client) { let x = 1; %s }' % (call % EVCB),
      'fn f(mut c: Client) { let l = 1; let x = &l; %s }' % (call % EVCB), SHORT)
for nm, bad in (('Rc', RCX), ('Cell', CELLX)):
    w('C30', 'EventBuilder::callback:' + nm, 'an ack callback holding an %s can be registered' % nm,
      'fn f(c: EventBuilder<\'_>) { %s c.callback(%s).args().send(); }' % (SENDX, ACKCB), 'fn f(c: EventBuilder<\'_>) { %s c.callback(%s).args().send(); }' % (bad, ACKCB), NOTSEND)
    w('C30', 'EventCallback::from:' + nm, 'an event callback holding an %s can be made' % nm,
      'fn f() { %s let c: EventCallback = (%s).into(); }' % (SENDX, EVCB), 'fn f() { %s let c: EventCallback = (%s).into(); }' % (bad, EVCB), NOTSEND)
    w('C30', 'AckCallback::from:' + nm, 'an ack callback holding an %s can be made' % nm,
      'fn f() { %s let c: AckCallback = (%s).into(); }' % (SENDX, ACKCB), 'fn f() { %s let c: AckCallback = (%s).into(); }' % (bad, ACKCB), NOTSEND)
w('C30', 'EventBuilder::callback:borrow', 'an ack callback borrowing from its registration can be registered',
  'fn f(mut k: Client) { let x = 1; k.emit("e").callback(%s).args().send(); }' % ACKCB,
  'fn f(mut k: Client) { let l = 1; let x = &l; k.emit("e").callback(%s).args().send(); }' % ACKCB, SHORT)
w('C30', 'EventCallback::from:Box', 'a boxed callback which may not be sent can be made an event callback',
  'fn f(a: Box<dyn Send + FnMut(&Args, Option<AckBuilder>)>) { let c: EventCallback = a.into(); }',
  'fn f(a: Box<dyn FnMut(&Args, Option<AckBuilder>)>) { let c: EventCallback = a.into(); }', NOTSEND)
w('C30', 'AckCallback::from:Box', 'a boxed callback which may not be sent can be made an ack callback',
  'fn f(a: Box<dyn Send + FnOnce(&Args)>) { let c: AckCallback = a.into(); }',
  'fn f(a: Box<dyn FnOnce(&Args)>) { let c: AckCallback = a.into(); }', NOTSEND)
for t in ('Client', "EventBuilder<'static>", "EventArgsBuilder<'static>", 'AckBuilder', 'AckArgsBuilder', 'EventCallback', 'AckCallback'):
    w('C30', 'Send:' + t, '%s can not be moved to another thread' % t, 'fn f() { is_send::<%s>(); }' % t)
w('C30', 'Send:close', 'the future of closing a client can not be moved to another thread', 'fn f(mut c: Client) { use_(send(async move { let r = c.close().await; r })); }')
w('C30', 'Send:builders', 'builders can not be moved to another thread while the client is borrowed',
  'fn f(mut c: Client) { std::thread::scope(|s| { let b = c.emit("e"); s.spawn(move || { b.args().send(); }); }); }')

# ------------------------------------------------------------------------------------------------------------ C31
for t in ('AckCallback', 'AckBuilder', 'AckArgsBuilder', "EventBuilder<'static>", "EventArgsBuilder<'static>", 'PacketBuilder', 'Partial'):
    w('C31', 'Clone:' + t, '%s can be duplicated' % t, 'fn f() { is_clone::<u8>(); }', 'fn f() { is_clone::<%s>(); }' % t, NOCLONE)
TWICE = [('AckCallback::call', 'x: AckCallback, a: Args', 'x.call(&a);'),
         ('AckBuilder::args', 'x: AckBuilder', 'use_(x.args());'),
         ('AckBuilder::binary+args', 'x: AckBuilder', 'use_(x.binary(true).args());'),
         ('AckArgsBuilder::send', 'x: AckArgsBuilder', 'x.send();'),
         ('AckArgsBuilder::arg', 'x: AckArgsBuilder', 'use_(x.arg(&1));'),
         ('EventBuilder::args', "x: EventBuilder<'_>", 'use_(x.args());'),
         ('EventBuilder::binary+args', "x: EventBuilder<'_>", 'use_(x.binary(true).args());'),
         ('EventBuilder::callback+args', "x: EventBuilder<'_>", 'use_(x.callback(|_: &Args| {}).args());'),
         ('EventArgsBuilder::send', "x: EventArgsBuilder<'_>", 'x.send();'),
         ('EventArgsBuilder::arg', "x: EventArgsBuilder<'_>", 'use_(x.arg(&1));'),
         ('PacketBuilder::finish', 'x: PacketBuilder', 'use_(x.finish());'),
         ('deserialize_partial', 'x: Partial', 'use_(deserialize_partial(x, None));'),
         ('DeserializeResult::packet', 'x: DeserializeResult', 'use_(x.packet());')]
for name, params, call in TWICE:
    w('C31', 'twice:' + name, '%s can be used twice on one value' % name, 'fn f(%s) { %s }' % (params, call),
      'fn f(%s) { %s %s }' % (params, call, call), MOVED)
    if name.startswith(('deserialize_partial', 'DeserializeResult')):
        continue
    w('C31', 'borrowed:' + name, '%s needs no ownership' % name, 'fn f(%s) { %s }' % (params, call),
      'fn f(%s) { let x = &mut x; %s }' % ('mut ' + params, call), MOVED)
w('C31', 'reply:borrowed', 'a reply under construction stays tied to its handle, so that the handle can be used again',
  'fn f(x: AckBuilder) -> AckArgsBuilder { x.args() }', 'fn f(x: &AckBuilder) -> AckArgsBuilder { x.args() }', MOVED)

# ------------------------------------------------------------------------------------------------------------ C32
LATE = [('data', 'let d = p.data();', 'd', "Data<'_>"), ('args', 'let d = args(&p);', 'd', ''),
        ('get', 'let a = args(&p); let d = a.get(0);', 'd', ''), ('iter', 'let a = args(&p); let d = a.iter().next();', 'd', ''),
        ('namespace', 'let d = p.namespace();', 'd', ''),
        ('str', "let d: &str = args(&p).get(0).unwrap().deserialize().unwrap();", 'd', ''),
        ('bytes', "let d: &[u8] = args(&p).get(0).unwrap().deserialize().unwrap();", 'd', ''),
        ('ack', 'let d = match p.data() { Data::Ack { args, .. } => args, _ => get() };', 'd', ''),
        ('cow', "let d: (&str, &str) = args(&p).get(0).unwrap().deserialize().unwrap();", 'd', '')]
for name, mk, v, _ in LATE:
    w('C32', 'late:' + name, '%s of a packet can be used after the packet is gone' % name, 'fn f(p: Packet) { %s use_(&%s); drop(p); }' % (mk, v),
      'fn f(p: Packet) { %s drop(p); use_(&%s); }' % (mk, v), SHORT)
    if name != 'namespace':
        w('C32', 'static:' + name, '%s of a packet are given an unlimited lifetime' % name, 'fn f(p: &\'static Packet) { let q: &\'static Packet = p; let p = q; %s use_(&%s); }' % (
            mk.replace('&p', 'p'), v), 'fn f(p: Packet) { %s let _t = std::thread::spawn(move || { use_(&%s); }); }' % (mk, v), SHORT)
w('C32', 'arg', 'the lifetime of an argument can be extended', "fn f<'a>(a: &Args<'a>) -> Option<Arg<'a>> { a.get(0) }",
  "fn f<'a>(a: &Args<'a>) -> Option<Arg<'static>> { a.get(0) }", SHORT)
w('C32', 'argval', 'text borrowed from an argument can outlive it', "fn f<'a>(a: &Arg<'a>) -> Option<&'a str> { a.deserialize().ok() }",
  "fn f<'a>(a: &Arg<'a>) -> Option<&'static str> { a.deserialize().ok() }", SHORT)
w('C32', 'argbytes', 'bytes borrowed from an argument can outlive it', "fn f<'a>(a: &Arg<'a>) -> Option<&'a [u8]> { a.deserialize().ok() }",
  "fn f<'a>(a: &Arg<'a>) -> Option<&'static [u8]> { a.deserialize().ok() }", SHORT)
w('C32', 'argiter', 'arguments from an iterator can outlive the packet', "fn f<'a>(a: &'a Args<'a>) -> Option<Arg<'a>> { a.iter().next() }",
  "fn f<'a>(a: &'a Args<'a>) -> Option<Arg<'static>> { a.iter().next() }", SHORT)
w('C32', 'argvariance', 'arguments can be given a longer lifetime', "fn f<'a>(a: Args<'static>) -> Args<'a> { a }", "fn f<'a>(a: Args<'a>) -> Args<'static> { a }", SHORT)
w('C32', 'callback:args', 'an event callback can keep the arguments it is given',
  'fn f(mut c: Client) { let v = Arc::new(Mutex::new(Vec::new())); c.set_event_callback("e", move |a: &Args, _: Option<AckBuilder>| v.lock().unwrap().push(a.len())); }',
  'fn f(mut c: Client) { let v = Arc::new(Mutex::new(Vec::new())); c.set_event_callback("e", move |a: &Args, _: Option<AckBuilder>| v.lock().unwrap().push(a.clone())); }', SHORT)
w('C32', 'callback:text', 'an event callback can keep text borrowed from its arguments',
  'fn f(mut c: Client) { let v: Arc<Mutex<Vec<String>>> = get(); c.set_event_callback("e", move |a: &Args, _: Option<AckBuilder>| v.lock().unwrap().push(a.get(0).unwrap().deserialize().unwrap())); }',
  'fn f(mut c: Client) { let v: Arc<Mutex<Vec<&\'static str>>> = get(); c.set_event_callback("e", move |a: &Args, _: Option<AckBuilder>| v.lock().unwrap().push(a.get(0).unwrap().deserialize().unwrap())); }', SHORT)
w('C32', 'ack:args', 'an ack callback can keep the arguments it is given',
  'fn f(mut c: Client) { let v = Arc::new(Mutex::new(Vec::new())); c.emit("e").callback(move |a: &Args| v.lock().unwrap().push(a.len())).args().send(); }',
  'fn f(mut c: Client) { let v = Arc::new(Mutex::new(Vec::new())); c.emit("e").callback(move |a: &Args| v.lock().unwrap().push(a.clone())).args().send(); }', SHORT)
GENERAL = SHORT | {'E0308', 'E0277', 'E0631'}
for name, mk in [('AckCallback::from', 'use_(AckCallback::from(%s));'), ('ack', 'c.emit("e").callback(%s).args().send();')]:
    for ln, lt in [('data', "&Args<'static>"), ('ref', "&'static Args<'_>"), ('both', "&'static Args<'static>")]:
        w('C32', 'wants:%s:%s' % (name, ln), 'an ack callback can demand arguments which never end (%s)' % lt,
          'fn k(_: &Args<\'_>) {} fn f(mut c: Client) { %s use_(&mut c); }' % (mk % 'k'), 'fn k(_: %s) {} fn f(mut c: Client) { %s use_(&mut c); }' % (lt, mk % 'k'), GENERAL)
for name, mk in [('set_event_callback', 'c.set_event_callback("e", %s);'), ('set_namespace_event_callback', 'c.set_namespace_event_callback("/n", "e", %s);'),
                 ('set_namespace_fallback_callback', 'c.set_namespace_fallback_callback("/n", %s);'), ('set_fallback_callback', 'c.set_fallback_callback(%s);')]:
    for ln, lt in [('data', "&Args<'static>"), ('ref', "&'static Args<'_>")]:
        w('C32', 'wants:%s:%s' % (name, ln), 'a callback can demand arguments which never end (%s)' % lt,
          'fn f(mut c: Client) { %s }' % (mk % '|_: &Args, _: Option<AckBuilder>| {}'), 'fn f(mut c: Client) { %s }' % (mk % ('|_: %s, _: Option<AckBuilder>| {}' % lt)), GENERAL)
BUILD = [('emit', 'let b = c.emit("e");', 'b.args().send();'), ('namespace_emit', 'let b = c.namespace_emit("/n", "e");', 'b.args().send();'),
         ('args', 'let b = c.emit("e").binary(false).args();', 'b.send();'), ('arg', 'let b = c.emit("e").args().arg(&1).unwrap();', 'b.send();'),
         ('callback', 'let b = c.emit("e").callback(|_: &Args| {});', 'b.args().send();')]
USES = [('emit', 'c.emit("f").args().send();'), ('register', 'c.clear_fallback_callback();'), ('close', 'use_(c.close());'), ('drop', 'drop(c);'),
        ('ref', 'use_(&c);')]
for name, mk, end in BUILD:
    for un, use in USES:
        w('C32', 'builder:%s:%s' % (name, un), 'a client can be used (%s) while an event is under construction (%s)' % (un, name),
          'fn f(mut c: Client) { %s %s %s }' % (mk, end, use), 'fn f(mut c: Client) { %s %s %s }' % (mk, use, end), EXCL)
    w('C32', 'builder:%s:dropped' % name, 'a client stays borrowed after its builder is gone (%s)' % name, 'fn f(mut c: Client) { { %s } %s c.emit("f").args().send(); }' % (mk, mk + ' drop(b);'))


class Compiler:
    def __init__(self, ctx):
        self.dir = tempfile.mkdtemp(prefix='witness')
        self.libs = []
        self.ext = {}
        # the newest build of every crate: one per crate and features
        self.rm = {}
        for p in glob.glob(os.path.join(ctx.target, 'debug/build/*/*/out/*.rmeta')) + glob.glob(os.path.join(ctx.target, 'debug/deps/*.rmeta')):
            n = os.path.basename(p)[3:].rsplit('-', 1)[0]
            if n in ('socket_io_client', 'socket_io_protocol', 'owned_subslice'):
                if n not in self.ext or os.path.getmtime(p) > os.path.getmtime(self.ext[n]):
                    self.ext[n] = p
        self.libs = sorted({os.path.dirname(p) for p in glob.glob(os.path.join(ctx.target, 'debug/build/*/*/out/*')) if p.endswith(('.rmeta', '.so', '.rlib'))} | {os.path.join(ctx.target, 'debug/deps')})
        for n in ('socket_io_client', 'socket_io_protocol'):
            if n not in self.ext:
                raise Missing('compiled metadata of ' + n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def compile(self, name, src):
        """None if it compiles, else the set of (code, message)"""
        f = os.path.join(self.dir, name + '.rs')
        open(f, 'w').write(PRE + src + '\n')
        cmd = ['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'w', '--emit', 'metadata', '--error-format', 'json', '--cap-lints', 'allow',
               '-o', os.path.join(self.dir, name + '.rmeta'), f]
        for n in ('socket_io_client', 'socket_io_protocol'):
            cmd += ['--extern', '%s=%s' % (n, self.ext[n])]
        for d in self.libs:
            cmd += ['-L', 'dependency=' + d]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode == 0:
            return None
        out = set()
        for line in r.stderr.split('\n'):
            if line.startswith('{'):
                m = json.loads(line)
                if m.get('level') == 'error' and 'aborting due to' not in m.get('message', ''):
                    out.add(((m.get('code') or {}).get('code') or ('lifetime' if 'lifetime' in m['message'] else 'other'), m['message'][:160]))
        return out or {('other', r.stderr[:200])}


def witnesses(ctx, prop):
    ws = W[prop]
    with Compiler(ctx) as c, ThreadPoolExecutor(8) as ex:
        # the controls, all in one program, one by one only if that fails
        allgood = '\n'.join('mod m%d { use super::*; %s }' % (i, x[2]) for i, x in enumerate(ws))
        fg = ex.submit(c.compile, 'good', allgood)
        fb = [ex.submit(c.compile, 'bad%d' % i, x[3]) if x[3] else None for i, x in enumerate(ws)]
        good = fg.result()
        gs = [None] * len(ws)
        if good is not None:
            gs = [f.result() for f in [ex.submit(c.compile, 'good%d' % i, x[2]) for i, x in enumerate(ws)]]
        n = 0
        for i, (name, what, g, b, codes) in enumerate(ws):
            if b is None:
                ctx.ob('accepts', gs[i] is None, name, '%s: %s does not compile: %s' % (what, g, sorted(gs[i] or [])[:2]), 'witness ' + name, sample=name)
                n += 1
                continue
            if not ctx.ob('control', gs[i] is None, name + ':control', 'the control of this witness does not compile: %s: %s' % (g, sorted(gs[i] or [])[:2]), 'witness ' + name, sample=name):
                continue
            r = fb[i].result()
            ctx.ob('refuses', r is not None, name, '%s: %s compiles' % (what, b), 'witness ' + name, sample=name)
            if r is not None:
                ctx.ob('reason', bool({x[0] for x in r} & codes), name + ':reason', 'the witness %s is refused for another reason: %s' % (b, sorted(r)[:2]), 'witness ' + name)
            n += 1
        ctx.floor(n, len(ws), 'witness programs')
    ctx.assume += ['rustc\'s type and borrow checker is sound for the safe code of a user']
    ctx.notes['witness programs'] = len(ws) + sum(1 for x in ws if x[3])


@check('C30')
def c30(ctx):
    witnesses(ctx, 'C30')


@check('C31')
def c31(ctx):
    witnesses(ctx, 'C31')
    signatures(ctx)


@check('C32')
def c32(ctx):
    witnesses(ctx, 'C32')


GROUPS = [('AckBuilder', 'AckArgsBuilder'), ('EventBuilder', 'EventArgsBuilder'), ('PacketBuilder',), ('Partial', 'DeserializeResult'), ('AckCallback',)]


def signatures(ctx):
    """no reachable function makes a one-shot value out of a borrowed one"""
    prog = ctx.prog

    def find(t, names, ref=False):
        """{'own', 'ref'}: how t mentions one of the names"""
        if t[0] == 'ref':
            return find(t[2], names, True)
        out = set()
        if t[0] == 'adt' and (prog.adts.get(t[1]) or {}).get("name", '').split('::')[-1] in names and \
                (prog.adts[t[1]].get("crate") or prog.adts[t[1]]["path"].split('::')[0]).startswith(('socket_io', 'socket')):
            out.add('ref' if ref else 'own')
        for x in t[1:]:
            for y in (x if isinstance(x, tuple) and x and isinstance(x[0], tuple) else (x,)):
                if isinstance(y, tuple) and y and isinstance(y[0], str):
                    out |= find(y, names, ref)
        return out
    n = 0
    for b in prog.bodies.values():
        if b["kind"] == 'Closure' or not (b.get("reachable") or b.get("impl_trait")):
            continue
        for g in GROUPS:
            if 'own' not in find(b["locals"][0], g):
                continue
            n += 1
            ins = set()
            for t in b["locals"][1:b["argc"] + 1]:
                ins |= find(t, g)
            ctx.ob('signature', 'ref' not in ins, b["path"], 'a %s is made out of a borrowed one, which can then be used again' % ' or '.join(g), ctx.site(b), sample=b["path"])
    ctx.floor(n, 6, 'functions giving one-shot values')
